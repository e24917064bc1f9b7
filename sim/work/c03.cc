// C03: reset replays the dataset from the start, whenever it is called.
#include "work/session.h"
using namespace mlio;
using namespace wk;

static void run()
{
    Session s;
    Gen g;
    g.max_rows = sim::wone_in(3) ? 48 : 20;
    bool bad = sim::wone_in(3);
    if (bad) g.bad_one_in = 2 + static_cast<int>(sim::w(10));
    s.d = make_dataset(g);
    random_knobs();
    random_legal_io();
    bool failing = sim::wone_in(3);
    std::vector<Frag_store *> frags;
    if (failing) {
        // Some stores fail a limited number of times, then recover.
        int i = 0;
        for (auto &sd : s.d.stores) {
            Frag_cfg c;
            c.max_piece = static_cast<int>(sim::w(3)) * 3;
            c.seekable = sim::wflip();
            if (sim::wflip()) {
                c.fail_at = sim::w(static_cast<std::uint32_t>(sd.bytes.size() + 1));
                c.fail_times = 1 + static_cast<int>(sim::w(2));
                c.fail_kind = static_cast<int>(sim::w(4));
            }
            if (sim::wone_in(4)) c.open_fail_times = 1 + static_cast<int>(sim::w(2));
            auto f = make_intrusive<Frag_store>("f" + std::to_string(i++), sd.bytes, c);
            frags.push_back(f.get());
            s.st.list.push_back(f);
        }
    }
    else s.st = make_stores(s.d, all_kinds());
    s.p.dataset = s.st.list;
    random_tuning(s.p);
    if (sim::wone_in(2)) random_policies(s.p);
    if (sim::wone_in(3)) random_selection(s.p, s.d);
    bool shuffle = sim::wone_in(4);
    sim::describe("%s", params_text(s.p).c_str());
    if (shuffle) {
        // With reshuffling off every epoch is identical to the first full one.
        s.p.shuffle_instances = true;
        s.p.shuffle_window = sim::w(6);
        s.p.reshuffle_each_epoch = false;
        if (sim::wflip()) s.p.shuffle_seed = sim::w(5);
        s.open();
        auto first = read_all(*s.r, s.d);
        s.reset();
        for (int k = 0; k < 3; ++k) {
            std::size_t n = sim::w(static_cast<std::uint32_t>(first.ex.size() + 2));
            auto part = read_all(*s.r, s.d, n);
            for (std::size_t i = 0; i < part.ex.size() && i < first.ex.size(); ++i)
                SIM_CHECK(part.ex[i] == first.ex[i], "epochs-differ", "example %zu of epoch %d is %s, first epoch %s", i, k + 2, part.ex[i].text().c_str(), first.ex[i].text().c_str());
            s.reset();
        }
        auto again = read_all(*s.r, s.d);
        bool exact = !first.error && !again.error;
        for (std::size_t i = 0; i < again.ex.size() && i < first.ex.size(); ++i)
            SIM_CHECK(again.ex[i] == first.ex[i], "epochs-differ", "example %zu is %s, first epoch %s", i, again.ex[i].text().c_str(), first.ex[i].text().c_str());
        if (exact)
            SIM_CHECK(again.ex.size() == first.ex.size(), "epochs-differ", "%zu examples, first epoch %zu", again.ex.size(), first.ex.size());
        if (!failing) SIM_CHECK(again.error == first.error, "epochs-differ", "first epoch %s, last %s", first.error ? first.what.c_str() : "clean", again.error ? again.what.c_str() : "clean");
        return;
    }
    s.want = expect(s.d, s.p);
    s.open();
    std::uint32_t resets = 1 + sim::w(4);
    for (std::uint32_t k = 0; k < resets; ++k) {
        std::uint32_t n = sim::w(static_cast<std::uint32_t>(s.want.ex.size() + 3));
        if (sim::wone_in(5)) n = 0;
        for (std::uint32_t i = 0; i < n; ++i) {
            int rc = s.read(sim::wone_in(5));
            if (rc < 0) {
                SIM_CHECK(failing || s.want.error, "unexpected-error", "%s: %s", s.err.type.c_str(), s.err.what.c_str());
                sim::probe("reset after an error");
                if (sim::wflip()) break;
            }
            if (rc == 0 && sim::wflip()) break;
        }
        if (sim::wone_in(4)) {
            sim::wait_quiescent();  // the queue fills up behind the reader
            sim::probe("reset with the pipeline at rest");
        }
        else if (sim::wone_in(4)) sim::sleep_us(sim::w(50));
        if (sim::wone_in(6)) {
            Intrusive_ptr<const Schema> sc;
            s.schema(sc);
        }
        s.reset();
        SIM_CHECK(s.r->num_bytes_read() == 0, "bytes-after-reset", "num_bytes_read is %zu right after reset", s.r->num_bytes_read());
        if (sim::wone_in(5)) s.reset();
    }
    // Let every injected failure happen, then read a complete epoch.
    for (auto *f : frags) {
        f->fail_left = 0;
        f->open_fail_left = 0;
    }
    if (failing) s.reset();
    s.finish();
}
SIM_WORKLOAD("C03", run);
