// C20: readers used by different threads do not affect each other.
#include "work/faulty.h"
#include "mlio/logging.h"
#include <atomic>
#include <mutex>
using namespace mlio;
using namespace wk;

namespace {
struct One {
    Session s;
    bool victim = false;           // its own source fails
    std::vector<std::uint8_t> ops; // what the thread does
    std::vector<Str> seen_ids;
};
struct Shared_example {
    Intrusive_ptr<Example> e;
    Ex x;
    const Dataset *d;
};
}  // namespace

static void run()
{
    sim::report_races = true;
    random_knobs();
    random_legal_io();
    random_allocator();
    if (sim::wone_in(3)) {
        set_log_level(Log_level::debug);
        set_log_message_handler([](Log_level, std::string_view m) { sim::event(m.size()); });
    }
    std::uint32_t n = 2 + sim::w(3);
    std::uint32_t sets = 1 + sim::w(2);
    struct Data {
        Dataset d;
        Stores st;
    };
    std::vector<std::unique_ptr<Data>> data;
    auto kinds = all_kinds();
    kinds.erase(std::remove_if(kinds.begin(), kinds.end(), [](Kind k) { return k == Kind::frag || k == Kind::frag_seek; }), kinds.end());
    for (std::uint32_t i = 0; i < sets; ++i) {
        Gen g;
        g.max_rows = 16;
        if (sim::wone_in(4)) g.bad_one_in = 3 + static_cast<int>(sim::w(8));
        auto x = std::make_unique<Data>();
        x->d = make_dataset(g);
        x->st = make_stores(x->d, kinds, "d" + std::to_string(i) + "_");
        data.push_back(std::move(x));
    }
    std::vector<std::unique_ptr<One>> v;
    for (std::uint32_t i = 0; i < n; ++i) {
        auto o = std::make_unique<One>();
        Data &x = *data[sim::w(sets)];
        o->s.d = x.d;
        o->victim = sim::wone_in(4);
        if (o->victim) failing_stores(o->s);
        else o->s.st.list = x.st.list;
        o->s.p.dataset = o->s.st.list;
        random_tuning(o->s.p);
        if (sim::wone_in(3)) random_policies(o->s.p);
        if (sim::wone_in(4)) random_selection(o->s.p, o->s.d);
        o->s.want = expect(o->s.d, o->s.p);
        sim::describe("[%s%s] ", o->victim ? "victim " : "", params_text(o->s.p).c_str());
        for (std::uint32_t k = 2 + sim::w(20); k > 0; --k) o->ops.push_back(static_cast<std::uint8_t>(sim::w(17)));
        v.push_back(std::move(o));
    }
    // What one thread hands over, others look at and drop.
    std::vector<Shared_example> common;
    std::mutex mu;
    std::atomic<std::uint32_t> pick{0};
    auto body = [&](One &o) {
        Session &s = o.s;
        auto fail = [&] {
            SIM_CHECK(o.victim || s.want.error, "disturbed", "a reader of sound data failed: %s: %s", s.err.type.c_str(), s.err.what.c_str());
        };
        s.open();
        for (std::uint8_t op : o.ops) {
            if (!s.r) s.open();
            switch (op) {
            default: {
                int rc = s.read(op == 0);
                if (rc < 0) {
                    fail();
                    s.reset();
                }
                else if (rc == 0) s.reset();
                break;
            }
            case 8: {
                Intrusive_ptr<const Schema> sc;
                if (!s.schema(sc)) {
                    fail();
                    s.reset();
                }
                break;
            }
            case 9: s.reset(); break;
            case 10:
                s.destroy();
                s.pos = 0;
                s.failed = false;
                break;
            case 11: {  // hands an example over
                Intrusive_ptr<Example> e;
                Outcome out;
                auto pos = s.pos;
                if (s.peeked || s.failed) break;
                if (!guarded(out, [&] { e = s.r->read_example(); })) {
                    s.err = out;
                    fail();
                    s.reset();
                    break;
                }
                if (!e) {
                    SIM_CHECK(pos == s.want.ex.size() && !s.want.error, "early-end", "clean end after %zu examples, %zu expected", pos, s.want.ex.size());
                    s.reset();
                    break;
                }
                SIM_CHECK(pos < s.want.ex.size(), "extra-example", "example %zu delivered, %zu expected", pos, s.want.ex.size());
                ++s.pos;
                std::lock_guard<std::mutex> l{mu};
                common.push_back({e, s.want.ex[pos], &s.d});
                break;
            }
            case 12:
            case 13: {  // looks at what others handed over
                std::vector<Shared_example> mine;
                {
                    std::lock_guard<std::mutex> l{mu};
                    mine = common;
                    if (op == 13) common.clear();
                }
                for (auto &c : mine) {
                    Ex x = decode(*c.e, *c.d);
                    SIM_CHECK(x == c.x, "wrong-example", "an example handed over is %s, expected %s", x.text().c_str(), c.x.text().c_str());
                    SIM_CHECK(c.e->schema().attributes().size() >= c.e->features().size(), "wrong-example", "schema of a handed over example");
                }
                break;
            }
            case 14:
                for (auto &st : s.p.dataset) o.seen_ids.push_back(st->id() + "|" + st->repr());
                break;
            case 15: sim::sleep_us(100); break;
            case 16: {  // logs elsewhere from now on
                auto mine = std::make_shared<Str>("own");
                Log_message_handler old;
                if (pick++ % 3 == 2) old = set_log_message_handler({});
                else old = set_log_message_handler([mine](Log_level l, std::string_view m) {
                    SIM_CHECK(*mine == "own" && !m.empty() && l != Log_level::off, "log", "a log handler is called with nothing");
                    sim::event(m.size());
                });
                if (old) old(Log_level::info, "old");
                set_log_level(pick % 2 == 0 ? Log_level::warning : Log_level::debug);
                break;
            }
            }
        }
        if (!o.victim) {
            if (!s.r) s.open();
            s.reset();
            s.finish();
            sim::probe("complete");
        }
        s.destroy();
    };
    std::vector<std::unique_ptr<sim::Thread>> ts;
    for (std::uint32_t i = 1; i < n; ++i) ts.push_back(std::make_unique<sim::Thread>([&, i] { body(*v[i]); }));
    body(*v[0]);
    for (auto &t : ts) t->join();
    for (std::size_t i = 0; i < v.size(); ++i)
        for (std::size_t k = 0; k < v.size(); ++k)
            if (!v[i]->victim && !v[k]->victim && !v[i]->seen_ids.empty() && !v[k]->seen_ids.empty() && v[i]->s.p.dataset == v[k]->s.p.dataset)
                SIM_CHECK(v[i]->seen_ids[0] == v[k]->seen_ids[0], "wrong-id", "a store is '%s' for one thread and '%s' for another", v[i]->seen_ids[0].c_str(), v[k]->seen_ids[0].c_str());
    common.clear();
    v.clear();
    data.clear();
    SIM_CHECK(sim::fs::open_fds() == 0 && sim::fs::live_mappings() == 0, "leak", "%s", sim::fs::describe_open().c_str());
}
SIM_WORKLOAD("C20", run);
