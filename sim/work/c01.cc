// C01: ordered, complete, exactly-once delivery under every schedule.
#include "work/common.h"
using namespace mlio;
using namespace wk;

static void run()
{
    Gen g;
    g.max_rows = sim::wone_in(3) ? 60 : 24;
    Dataset d = make_dataset(g);
    Stores st = make_stores(d, all_kinds(true));
    random_knobs();
    random_legal_io();
    Data_reader_params p{};
    p.dataset = st.list;
    random_tuning(p);
    sim::describe("%s", params_text(p).c_str());
    auto want = expect(d, p);
    auto r = make_reader(d, p);
    auto o = read_all(*r, d);
    SIM_CHECK(!o.error, "unexpected-error", "%s: %s", o.type.c_str(), o.what.c_str());
    check_prefix(o.ex, want, "wrong-sequence", true);
    // every further read reports the end
    for (int i = 0; i < 3; ++i) {
        Ex x;
        Outcome e;
        int rc = read_one(*r, d, x, e, sim::wone_in(3));
        SIM_CHECK(rc == 0, "not-at-end", "a read after the end returned %s", rc > 0 ? x.text().c_str() : e.what.c_str());
    }
}
SIM_WORKLOAD("C01", run);
