// C13: bad rows and the last batch follow the configured policy.
#include "work/session.h"
#include "mlio/logging.h"
#include <atomic>
using namespace mlio;
using namespace wk;

namespace {
// What the library reports while it reads.
struct Reports {
    std::atomic<int> skipped{0}, padded{0}, last{0}, rows{0}, wrong_level{0};
    void clear() { skipped = padded = last = rows = wrong_level = 0; }
};
Reports seen;
Log_level level = Log_level::warning;

void on_message(Log_level l, std::string_view m)
{
    sim::yield_point("log");
    if (static_cast<int>(l) > static_cast<int>(level)) seen.wrong_level++;
    if (l != Log_level::warning) return;
    auto has = [&](const char *t) { return m.find(t) != std::string_view::npos; };
    if (has("last example")) seen.last++;
    else if (has("The example #")) (has("skipped") ? seen.skipped : seen.padded)++;
    else if (has("in the data store")) seen.rows++;
    if (sim::tracing()) sim::note("log: %s", Str(m).c_str());
}

// What a complete epoch has to report.
void check_reports(const Session &s)
{
    using L = Last_example_handling;
    using B = Bad_example_handling;
    auto rows = s.d.rows();
    auto sel = select_rows(s.d, s.p);
    bool on = level != Log_level::off;
    int batches = 0, bad = 0, last = 0;
    for (std::size_t i = 0; i < sel.size(); i += s.p.batch_size) {
        std::size_t n = std::min(s.p.batch_size, sel.size() - i);
        auto h = s.p.last_example_handling;
        if (n < s.p.batch_size) {
            last = on && (h == L::drop_warn || h == L::pad_warn);
            if (h == L::drop || h == L::drop_warn) break;
        }
        int b = 0;
        for (std::size_t k = 0; k < n; ++k) b += rows[sel[i + k]].bad;
        bad += b;
        batches += b > 0;
    }
    int got = seen.rows;
    SIM_CHECK(seen.wrong_level == 0, "unwanted-report", "%d messages above the log level", seen.wrong_level.load());
    if (on && s.p.warn_bad_instances) {
        if (s.want.error) SIM_CHECK(got >= 1, "report-missing", "no warning for the bad row behind the error");
        else {
            int least = s.p.bad_example_handling == B::skip || s.p.bad_example_handling == B::skip_warn ? batches : bad;
            SIM_CHECK(got >= least, "report-missing", "%d warnings for %d bad rows in %d batches", got, bad, batches);
        }
        SIM_CHECK(got <= bad, "unwanted-report", "%d warnings for %d bad rows", got, bad);
    }
    else SIM_CHECK(got == 0, "unwanted-report", "%d warnings for bad rows that nobody asked for", got);
    if (s.want.error) return;
    int skipped = on && s.p.bad_example_handling == B::skip_warn ? batches : 0, padded = on && s.p.bad_example_handling == B::pad_warn ? batches : 0;
    SIM_CHECK(seen.skipped == skipped, skipped ? "report-missing" : "unwanted-report", "%d examples reported as skipped, expected %d", seen.skipped.load(), skipped);
    SIM_CHECK(seen.padded == padded, padded ? "report-missing" : "unwanted-report", "%d examples reported as padded, expected %d", seen.padded.load(), padded);
    SIM_CHECK(seen.last == last, last ? "report-missing" : "unwanted-report", "%d last examples reported, expected %d", seen.last.load(), last);
    if (bad && on) sim::probe("reports compared");
}
}  // namespace

static void run()
{
    Session s;
    Gen g;
    g.max_rows = sim::wone_in(4) ? 40 : 14;
    g.bad_one_in = sim::wone_in(6) ? 0 : 1 + static_cast<int>(sim::w(8));
    s.d = make_dataset(g);
    random_knobs();
    // Every other run decodes the rows of a batch in parallel.
    if (sim::wflip()) sim::set_knob("parallel_decode_cut_off", 1);
    random_legal_io();
    s.st = make_stores(s.d, all_kinds());
    s.p.dataset = s.st.list;
    random_tuning(s.p);
    if (sim::wone_in(3)) s.p.batch_size = 4 + sim::w(9);
    random_policies(s.p);
    if (sim::wone_in(4)) random_selection(s.p, s.d);
    sim::describe("%s", params_text(s.p).c_str());
    s.want = expect(s.d, s.p);
    level = sim::wone_in(8) ? Log_level::off : sim::wone_in(8) ? Log_level::info : Log_level::warning;
    set_log_level(level);
    set_log_message_handler(on_message);
    s.open();
    std::uint32_t epochs = 1 + sim::w(2);
    for (std::uint32_t i = 0; i < epochs; ++i) {
        seen.clear();
        s.finish();
        check_reports(s);
        if (s.want.error) sim::probe("policy error");
        s.reset();
    }
}
SIM_WORKLOAD("C13", run);
