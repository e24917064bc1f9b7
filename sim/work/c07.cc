// C07: what has been handed out stays as it is.
#include "work/faulty.h"
#include "work/records.h"
#include "mlio/instance.h"
#include "mlio/instance_readers/instance_reader.h"
using namespace mlio;
using namespace wk;

namespace {
struct Held {
    Memory_slice s;
    Str copy;
    const char *what;
    void check(std::size_t i) const
    {
        Str now = from_slice(s);
        SIM_CHECK(now == copy, "slice-changed", "%s %zu was '%s' and is now '%s'", what, i, esc(copy).c_str(), esc(now).c_str());
    }
};
struct Slices {
    std::vector<Held> v;
    void add(const Memory_slice &s, const char *what) { v.push_back({s, from_slice(s), what}); }
    void check() const
    {
        for (std::size_t i = 0; i < v.size(); ++i) v[i].check(i);
    }
    // Drops some of them, perhaps on another thread.
    void drop(std::uint32_t one_in)
    {
        std::vector<Held> keep, gone;
        for (auto &h : v) (sim::w(one_in) == 0 ? gone : keep).push_back(std::move(h));
        v = std::move(keep);
        if (sim::wone_in(3) && !gone.empty()) {
            sim::probe("dropped on another thread");
            sim::Thread t{[&] { gone.clear(); }};
            t.join();
        }
    }
};
}  // namespace

static void slices()
{
    // Records and slices of streams.
    Csv_params p;
    p.quote_char = '"';
    p.allow_quoted_new_lines = sim::wflip();
    p.skip_blank_lines = sim::wflip();
    Rk k = static_cast<Rk>(sim::w(3));
    Str bytes;
    if (k == Rk::recordio)
        for (std::uint32_t i = sim::w(12); i > 0; --i) bytes += put_recordio(Str(sim::w(60), static_cast<char>('a' + i)), sim::wone_in(4));
    else bytes = nasty_text(p, 60);
    random_legal_io();
    random_allocator();
    sim::describe("%s records, %zu bytes", k == Rk::text ? "text" : k == Rk::csv ? "csv" : "recordio", bytes.size());
    Slices held;
    for (std::uint32_t round = 1 + sim::w(2); round > 0; --round) {
        random_knobs();
        auto st = make_store(bytes, sim::wpick(all_kinds(true)), "s" + std::to_string(round));
        auto s = st->open_read();
        if (sim::wflip()) {
            // The stream itself.
            Outcome o;
            guarded(o, [&] {
                for (int i = 0; i < 60; ++i) {
                    std::uint32_t n = 1 + sim::w(30);
                    Memory_slice m;
                    if (s->supports_zero_copy() && sim::wone_in(4)) sim::probe("zero-copy slice held");
                    m = s->read(n);
                    if (m.empty()) break;
                    held.add(m, "stream slice");
                    if (s->seekable() && sim::wone_in(6)) s->seek(sim::w(static_cast<std::uint32_t>(s->size() + 1)));
                    if (sim::wone_in(6)) held.drop(2);
                    if (sim::wone_in(12)) s->close();
                }
            });
            held.check();
            s = nullptr;
            held.check();
            continue;
        }
        auto r = make_records(k, std::move(s), p, sim::wflip());
        if (sim::wone_in(6)) static_cast<Stream_record_reader &>(*r).set_record_size_hint(1 + sim::w(200));
        Outcome o;
        std::uint32_t n = sim::w(40);
        guarded(o, [&] {
            for (std::uint32_t i = 0; i < n; ++i) {
                std::optional<Record> rec = sim::wone_in(4) ? r->peek_record() : r->read_record();
                if (!rec) break;
                held.add(rec->payload(), "record");
                if (sim::wone_in(6)) held.check();
                if (sim::wone_in(6)) held.drop(1 + sim::w(3));
            }
        });
        held.check();
        r = nullptr;
        held.check();
        if (sim::wflip()) st = nullptr;
        held.check();
    }
    held.drop(1);
}

static void examples(bool faults)
{
    Session s;
    Gen g;
    g.max_rows = sim::wone_in(4) ? 60 : 24;
    if (sim::wone_in(4)) g.bad_one_in = 3 + static_cast<int>(sim::w(10));
    s.d = make_dataset(g);
    random_knobs();
    random_legal_io();
    random_allocator();
    s.st = make_stores(s.d, all_kinds());
    s.p.dataset = s.st.list;
    random_tuning(s.p);
    if (sim::wone_in(3)) random_policies(s.p);
    if (sim::wone_in(4)) random_selection(s.p, s.d);
    sim::describe("%s", params_text(s.p).c_str());
    s.want = expect(s.d, s.p);
    if (faults) random_hard_faults();
    struct H {
        Intrusive_ptr<Example> e;
        Ex x;
        std::vector<Intrusive_ptr<Tensor>> parts;  // instead of e
    };
    std::vector<H> held;
    Intrusive_ptr<const Schema> schema;
    Str schema_text;
    auto check = [&] {
        for (std::size_t i = 0; i < held.size(); ++i) {
            if (!held[i].e) continue;
            Ex now = decode(*held[i].e, s.d);
            SIM_CHECK(now == held[i].x, "example-changed", "a held example was %s and is now %s", held[i].x.text().c_str(), now.text().c_str());
        }
        if (schema) SIM_CHECK(schema->repr() == schema_text, "schema-changed", "the schema was %s and is now %s", schema_text.c_str(), schema->repr().c_str());
    };
    s.open();
    std::uint32_t n = 2 + sim::w(30);
    for (std::uint32_t i = 0; i < n; ++i) {
        switch (sim::w(8)) {
        case 0: case 1: case 2: case 3: {
            bool peek = sim::wone_in(5);
            Intrusive_ptr<Example> e;
            Outcome o;
            if (!s.r) s.open();
            if (!guarded(o, [&] { e = peek ? s.r->peek_example() : s.r->read_example(); })) {
                SIM_CHECK(faults || s.want.error, "unexpected-error", "%s: %s", o.type.c_str(), o.what.c_str());
                s.r->reset();
                break;
            }
            if (e) held.push_back({e, decode(*e, s.d), {}});
            break;
        }
        case 4:
            if (s.r && !schema) {
                Outcome o;
                if (guarded(o, [&] { schema = s.r->read_schema(); }) && schema) schema_text = schema->repr();
            }
            break;
        case 5:
            if (s.r && sim::wflip()) s.r->reset();
            else sim::wait_quiescent();
            break;
        case 6: {
            // Drop some, perhaps on other threads while the reader goes on.
            std::vector<H> keep, gone;
            for (auto &h : held) (sim::wone_in(3) ? gone : keep).push_back(std::move(h));
            held = std::move(keep);
            if (sim::wflip() && !gone.empty()) {
                sim::probe("dropped on another thread");
                sim::Thread t{[&] { gone.clear(); }};
                if (s.r && sim::wflip()) {
                    Outcome o;
                    if (!guarded(o, [&] { s.r->read_example(); })) s.r->reset();
                }
                t.join();
            }
            break;
        }
        default:
            if (sim::wone_in(4)) {
                s.r = nullptr;
                s.st.list.clear();
                s.st.list = s.p.dataset;
                sim::probe("held after the reader is gone");
            }
            check();
            break;
        }
    }
    check();
    s.r = nullptr;
    s.st.list.clear();
    s.p.dataset.clear();
    check();
    // The tensors alone.
    std::vector<std::pair<Intrusive_ptr<Example>, Ex>> rebuilt;
    for (auto &h : held) {
        auto sc = h.e->schema();
        h.parts = h.e->features();
        auto e = make_intrusive<Example>(make_intrusive<Schema>(sc), std::vector<Intrusive_ptr<Tensor>>(h.parts));
        e->padding = h.e->padding;
        h.e = nullptr;
        rebuilt.emplace_back(e, h.x);
    }
    for (auto &[e, x] : rebuilt) {
        Ex now = decode(*e, s.d);
        SIM_CHECK(now == x, "tensor-changed", "tensors held without their example were %s and are now %s", x.text().c_str(), now.text().c_str());
    }
}

static void run()
{
    sim::report_races = true;
    switch (sim::w(5)) {
    case 0: case 1: slices(); break;
    case 2: examples(true); break;
    default: examples(false); break;
    }
}
SIM_WORKLOAD("C07", run);
