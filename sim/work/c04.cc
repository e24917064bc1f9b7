// C04: every operation of a reader finishes.
#include "work/faulty.h"
using namespace mlio;
using namespace wk;

static void run()
{
    Session s;
    Gen g;
    g.max_rows = sim::wone_in(4) ? 60 : 16;
    if (sim::wone_in(4)) g.bad_one_in = 2 + static_cast<int>(sim::w(10));
    s.d = make_dataset(g);
    random_knobs();
    random_legal_io();
    if (sim::wflip()) {
        sim::faults.p[sim::f_spurious_wake] = 0.3;
        sim::faults.budget[sim::f_spurious_wake] = 400;
    }
    random_allocator();
    bool failing = false;
    switch (sim::w(4)) {
    case 0: case 1: s.st = make_stores(s.d, all_kinds(true)); break;
    case 2:
        failing_stores(s);
        failing = true;
        break;
    default: {
        // slow sources
        int i = 0;
        for (auto &sd : s.d.stores) {
            Frag_cfg c;
            c.max_piece = 1 + static_cast<int>(sim::w(40));
            c.seekable = sim::wflip();
            c.delay_us = sim::w(3) * 700;
            s.st.list.push_back(make_intrusive<Frag_store>("s" + std::to_string(i++), sd.bytes, c));
        }
        break;
    }
    }
    s.p.dataset = s.st.list;
    random_tuning(s.p);
    if (sim::wone_in(3)) random_policies(s.p);
    if (sim::wone_in(4)) random_selection(s.p, s.d);
    sim::describe("%s", params_text(s.p).c_str());
    s.want = expect(s.d, s.p);
    bool hard = sim::wone_in(3);
    if (hard) {
        random_hard_faults();
        failing = true;
    }
    else if (sim::wone_in(4)) {
        sim::faults.p[sim::f_thread_fail] = 0.5;
        sim::faults.budget[sim::f_thread_fail] = 1 + static_cast<int>(sim::w(2));
        failing = true;
    }
    s.open();
    bool pipes = s.st.has_pipe;
    std::uint32_t n = 1 + sim::w(24);
    auto may_fail = [&] {
        SIM_CHECK(failing || pipes || s.want.error, "unexpected-error", "%s: %s", s.err.type.c_str(), s.err.what.c_str());
    };
    for (std::uint32_t i = 0; i < n; ++i) {
        sim::set_step_limit(300000);
        switch (sim::w(10)) {
        case 0: case 1: case 2: case 3:
            if (s.read(false) < 0) may_fail();
            break;
        case 4:
            if (s.read(true) < 0) may_fail();
            break;
        case 5: {
            Intrusive_ptr<const Schema> sc;
            if (!s.schema(sc)) may_fail();
            break;
        }
        case 6:
            sim::wait_quiescent();
            sim::probe("pipeline at rest");
            break;
        case 7: sim::sleep_us(sim::w(2000)); break;
        case 8:
            if (!pipes || sim::wone_in(3)) {
                s.reset();
                // A pipe channel has one FIFO here; the second epoch fails.
                if (pipes) goto end;
            }
            break;
        default:
            if (!pipes && sim::wone_in(3)) {
                s.destroy();
                SIM_CHECK(sim::live_threads() == 0, "thread-left", "%d threads run after the reader is gone", sim::live_threads());
                sim::probe("destroyed early");
                s.pos = 0;
                s.failed = false;
                s.open();
            }
            break;
        }
    }
end:
    sim::set_step_limit(300000);
    s.destroy();
    SIM_CHECK(sim::live_threads() == 0, "thread-left", "%d threads run after the reader is gone", sim::live_threads());
}
SIM_WORKLOAD("C04", run);
