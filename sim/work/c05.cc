// C05: failures surface as errors and never silently lose or corrupt data.
#include "work/faulty.h"
using namespace mlio;
using namespace wk;

static void run()
{
    Session s;
    Gen g;
    g.max_rows = sim::wone_in(4) ? 50 : 16;
    if (sim::wone_in(5)) g.bad_one_in = 3 + static_cast<int>(sim::w(10));
    s.d = make_dataset(g);
    random_knobs();
    random_legal_io();
    random_allocator();
    std::vector<Frag_store *> frags;
    bool custom = sim::wone_in(3);
    if (custom) frags = failing_stores(s);
    else s.st = make_stores(s.d, all_kinds());
    s.p.dataset = s.st.list;
    random_tuning(s.p);
    if (sim::wone_in(3)) random_policies(s.p);
    if (sim::wone_in(4)) random_selection(s.p, s.d);
    sim::describe("%s", params_text(s.p).c_str());
    s.want = expect(s.d, s.p);
    if (!custom || sim::wone_in(3)) random_hard_faults();
    if (!custom && sim::wone_in(4)) {
        // a bad sector
        for (auto &p : s.st.paths)
            if (!p.empty() && sim::wflip()) {
                auto size = sim::fs::file_data(p)->size();
                sim::fs::set_read_error(p, sim::w(static_cast<std::uint32_t>(size + 1)), EIO);
                sim::fault_injected(sim::f_read_eio);
            }
    }
    s.open();
    std::uint64_t base = 0;
    auto may_fail = [&] {
        SIM_CHECK(s.want.error || sim::hard_faults_fired() > base, "unexpected-error", "%s: %s", s.err.type.c_str(), s.err.what.c_str());
    };
    std::uint32_t rounds = 1 + sim::w(3);
    for (std::uint32_t k = 0; k < rounds; ++k) {
        for (std::size_t i = 0; i < s.want.ex.size() + 6; ++i) {
            int op = static_cast<int>(sim::w(10)), rc = 1;
            if (op < 7) rc = s.read(false);
            else if (op == 7) rc = s.read(true);
            else if (op == 8) {
                Intrusive_ptr<const Schema> sc;
                if (!s.schema(sc)) rc = -1;
            }
            else if (sim::wone_in(3)) sim::wait_quiescent();
            if (rc < 0) {
                may_fail();
                // The error repeats.
                if (s.failed)
                    for (std::uint32_t j = sim::w(3); j > 0; --j)
                        SIM_CHECK(s.read(sim::wflip()) < 0, "error-forgotten", "a read succeeded after '%s'", s.err.what.c_str());
                if (s.failed) break;
            }
            if (rc == 0) break;
        }
        s.reset();
    }
    // The faults are gone.
    sim::faults.armed = false;
    for (auto *f : frags) f->fail_left = f->open_fail_left = 0;
    for (auto &p : s.st.paths)
        if (!p.empty()) sim::fs::set_read_error(p, UINT64_MAX, 0);
    s.reset();
    s.finish();
    sim::probe("complete after the faults");
}
SIM_WORKLOAD("C05", run);
