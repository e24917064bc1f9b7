// C14: the count of bytes read matches what was decoded.
#include "work/session.h"
using namespace mlio;
using namespace wk;

static void run()
{
    Session s;
    Gen g;
    g.max_rows = 30;
    if (sim::wone_in(3)) g.bad_one_in = 3 + static_cast<int>(sim::w(8));
    s.d = make_dataset(g);
    random_knobs();
    random_legal_io();
    s.st = make_stores(s.d, all_kinds());
    s.p.dataset = s.st.list;
    random_tuning(s.p);
    random_policies(s.p);
    if (sim::wone_in(3)) random_selection(s.p, s.d);
    sim::describe("%s", params_text(s.p).c_str());
    s.want = expect(s.d, s.p);
    std::uint64_t total = 0;
    for (auto &r : s.d.rows()) total += r.size;
    auto rows = s.d.rows();
    auto sel = select_rows(s.d, s.p);
    s.open();
    std::uint64_t last = 0;
    auto check = [&](const char *when) {
        std::uint64_t n = s.r->num_bytes_read();
        SIM_CHECK(n >= last, "decreased", "%s: %zu bytes read after %zu", when, static_cast<std::size_t>(n), static_cast<std::size_t>(last));
        SIM_CHECK(n <= s.want.bytes || s.want.error, "too-many-bytes", "%s: %zu bytes read, all batches that decode have %zu", when, static_cast<std::size_t>(n), static_cast<std::size_t>(s.want.bytes));
        SIM_CHECK(n <= total, "too-many-bytes", "%s: %zu bytes read of %zu", when, static_cast<std::size_t>(n), static_cast<std::size_t>(total));
        last = n;
    };
    std::uint32_t epochs = 1 + sim::w(3);
    for (std::uint32_t ep = 0; ep < epochs; ++ep) {
        last = 0;
        check("before reading");
        std::size_t stop = sim::wflip() ? SIZE_MAX : sim::w(static_cast<std::uint32_t>(s.want.ex.size() + 2));
        while (s.pos < stop) {
            int rc = s.read(sim::wone_in(6));
            check("while reading");
            // what has been delivered is counted
            std::uint64_t got = 0;
            for (std::size_t i = 0; i < s.pos + (s.peeked ? 1 : 0); ++i)
                for (auto row : s.want.batch_rows[i]) got += rows[row].size;
            SIM_CHECK(last >= got, "undercount", "%zu bytes read but the delivered rows have %zu", static_cast<std::size_t>(last), static_cast<std::size_t>(got));
            if (rc < 0) {
                SIM_CHECK(s.want.error, "unexpected-error", "%s: %s", s.err.type.c_str(), s.err.what.c_str());
                break;
            }
            if (rc == 0) {
                SIM_CHECK(last == s.want.bytes, "wrong-total", "%zu bytes read at the end, %zu decoded", static_cast<std::size_t>(last), static_cast<std::size_t>(s.want.bytes));
                break;
            }
            if (sim::wone_in(5)) sim::wait_quiescent();
        }
        s.reset();
        SIM_CHECK(s.r->num_bytes_read() == 0, "not-zero-after-reset", "%zu bytes read right after reset", s.r->num_bytes_read());
        if (sim::wone_in(4)) {
            sim::wait_quiescent();
            SIM_CHECK(s.r->num_bytes_read() == 0, "not-zero-after-reset", "%zu bytes read some time after reset", s.r->num_bytes_read());
        }
    }
}
SIM_WORKLOAD("C14", run);
