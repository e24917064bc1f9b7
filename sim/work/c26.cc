// C26: the statistics of a column do not depend on how it is read.
#include <pybind11/pybind11.h>
#include <pybind11/stl.h>
#include <cmath>
#include <unordered_set>
#include "work/faulty.h"
#include "column_statistics.h"
using namespace mlio;
using namespace wk;

extern "C" void sim_pybind_insights(pybind11::module_ &m);

namespace {
using Analysis = pymlio::data_analysis;
using Fn = Analysis (*)(Data_reader &, const std::unordered_set<Str> &, const std::unordered_set<std::size_t> &, std::size_t);
const pybind11::module_ &module()
{
    static pybind11::module_ *m = [] {
        auto *p = new pybind11::module_;
        sim_pybind_insights(*p);
        return p;
    }();
    return *m;
}
struct Args {
    std::unordered_set<Str> nulls;
    std::unordered_set<std::size_t> capture;
    std::size_t max = 0;
};
struct Cell {
    Str text;
    double num = NAN;   // what it denotes as a number (the library parses no infinity)
};
const std::vector<Cell> &cells()
{
    static const std::vector<Cell> c{{"1", 1}, {"2", 2}, {"1.0", 1}, {"-3.5e2", -350}, {"0.25", 0.25}, {"1000000", 1e6}, {"7", 7}, {"-8.125", -8.125}, {"inf"}, {"-inf"},
                                     {"nan"}, {"NULL"}, {"none"}, {"Na"}, {"x"}, {"word"}, {"two words"}, {"a b c a"}, {"\xc3\xa9t\xc3\xa9"}, {"12abc"}, {"--"}, {"a longer text of seven words in all"}};
    return c;
}
bool null_like(const Str &s, const Args &a)
{
    for (auto &n : a.nulls)
        if (n.size() == s.size() && std::equal(n.begin(), n.end(), s.begin(), [](char x, char y) { return std::tolower(static_cast<unsigned char>(x)) == std::tolower(static_cast<unsigned char>(y)); })) return true;
    return false;
}
struct Col {
    std::size_t rows = 0, numeric = 0, nan = 0, finite = 0, ints = 0, empty = 0, blank = 0, nulls = 0, words = 0;
    std::size_t min = SIZE_MAX, min_ne = SIZE_MAX, max = 0;
    double sum = 0, lo = NAN, hi = NAN, len = 0, mag = 0;
    std::vector<double> sample;
    std::set<Str> distinct, vocab;
    std::map<Str, int> captured;
    bool over = false;
    Str first;
};
Col model(const std::vector<Cell> &v, bool capture, const Args &a)
{
    Col c;
    for (auto &x : v) {
        if (c.rows++ == 0) c.first = x.text;
        c.min = std::min(c.min, x.text.size());
        c.max = std::max(c.max, x.text.size());
        c.len += static_cast<double>(x.text.size());
        if (x.text.empty()) { c.empty++; continue; }
        c.min_ne = std::min(c.min_ne, x.text.size());
        c.distinct.insert(x.text);
        Str w;
        for (std::size_t i = 0; i <= x.text.size(); ++i) {
            if (i < x.text.size() && x.text[i] != ' ') { w += x.text[i]; continue; }
            if (i < x.text.size() || !w.empty()) { c.words++; c.vocab.insert(w); }
            w.clear();
        }
        if (x.text.find_first_not_of(" \t") == Str::npos) { c.blank++; continue; }
        if (null_like(x.text, a)) c.nulls++;
        if (std::isnan(x.num)) c.nan++;
        else {
            c.numeric++;
            if (std::isfinite(x.num)) {
                c.finite++;
                c.sum += x.num;
                c.mag = std::max(c.mag, std::fabs(x.num));
                c.sample.push_back(x.num);
                if (std::round(x.num) == x.num) c.ints++;
                c.lo = std::isnan(c.lo) ? x.num : std::min(c.lo, x.num);
                c.hi = std::isnan(c.hi) ? x.num : std::max(c.hi, x.num);
            }
        }
        if (!capture) continue;
        auto it = c.captured.find(x.text);
        if (it != c.captured.end()) it->second++;
        else if (c.captured.size() < a.max) c.captured[x.text] = 1;
        else c.over = true;
    }
    if (c.min == SIZE_MAX) c.min = 0;
    if (c.min_ne == SIZE_MAX) c.min_ne = 0;
    return c;
}
bool same(double a, double b, double mag) { return (std::isnan(a) && std::isnan(b)) || std::fabs(a - b) <= 1e-9 * (mag + 1); }

void compare(const Analysis &an, const std::vector<std::vector<Cell>> &cols, const Args &a)
{
    auto &get = module().classes.at("ColumnAnalysis");
    SIM_CHECK(an.columns.size() == cols.size(), "columns", "%zu columns, want %zu", an.columns.size(), cols.size());
    for (std::size_t k = 0; k < cols.size(); ++k) {
        auto &col = an.columns[k];
        Col w = model(cols[k], a.capture.count(k) != 0, a);
        auto num = [&](const char *n, std::size_t want) {
            auto v = std::any_cast<std::size_t>(get.at(n)(&col));
            SIM_CHECK(v == want, "wrong-statistic", "%s of column %zu is %zu, want %zu", n, k, v, want);
        };
        auto real = [&](const char *n, double want, double mag) {
            auto v = std::any_cast<double>(get.at(n)(&col));
            SIM_CHECK(same(v, want, mag), "wrong-statistic", "%s of column %zu is %.17g, want %.17g", n, k, v, want);
        };
        num("rows_seen", w.rows);
        num("numeric_count", w.numeric);
        num("numeric_finite_count", w.finite);
        num("numeric_nan_count", w.nan);
        num("numeric_int_count", w.ints);
        num("string_empty_count", w.empty);
        num("string_min_length", w.min);
        num("string_min_length_not_empty", w.min_ne);
        num("string_max_length", w.max);
        num("string_only_whitespace_count", w.blank);
        num("string_null_like_count", w.nulls);
        num("string_num_words", w.words);
        real("numeric_finite_mean", w.finite ? w.sum / static_cast<double>(w.finite) : NAN, w.mag);
        real("numeric_finite_min", w.lo, 0);
        real("numeric_finite_max", w.hi, 0);
        real("string_avg_length", w.len / static_cast<double>(w.rows), static_cast<double>(w.max));
        SIM_CHECK(std::any_cast<Str>(get.at("example_value")(&col)) == w.first, "wrong-statistic", "example value of column %zu", k);
        auto est = [&](const char *n, std::size_t want) {
            auto v = std::any_cast<std::size_t>(get.at(n)(&col));
            double tol = 3 + 0.03 * static_cast<double>(want);
            SIM_CHECK(std::fabs(static_cast<double>(v) - static_cast<double>(want)) <= tol, "wrong-estimate", "%s of column %zu is %zu, the number is %zu", n, k, v, want);
        };
        if (sim::wone_in(4)) {   // they walk all registers
            est("estimate_string_cardinality", w.distinct.size());
            est("estimate_string_vocab_cardinality", w.vocab.size());
        }
        auto cap = std::any_cast<std::unordered_map<Str, int>>(get.at("string_captured_unique_values")(&col));
        SIM_CHECK(cap.size() == w.captured.size(), "wrong-capture", "%zu values of column %zu captured, want %zu", cap.size(), k, w.captured.size());
        for (auto &x : w.captured) {
            auto it = cap.find(x.first);
            SIM_CHECK(it != cap.end() && it->second == x.second, "wrong-capture", "value '%s' of column %zu captured %d times, want %d", x.first.c_str(), k, it == cap.end() ? 0 : it->second, x.second);
        }
        SIM_CHECK(std::any_cast<bool>(get.at("string_captured_unique_values_overflowed")(&col)) == w.over, "wrong-capture", "overflow flag of column %zu, want %d", k, w.over);
        auto d = std::any_cast<pybind11::dict>(get.at("to_dict")(&col));
        double med = std::any_cast<double>(d["numeric_finite_median_approx"]), want = NAN;
        if (!w.sample.empty() && w.sample.size() <= 10000) {
            std::sort(w.sample.begin(), w.sample.end());
            want = w.sample[w.sample.size() / 2];
        }
        if (w.sample.size() <= 10000) SIM_CHECK(same(med, want, 0), "wrong-statistic", "median of column %zu is %g, want %g", k, med, want);
        SIM_CHECK(std::any_cast<Str>(d["rows_seen"]) == std::to_string(w.rows), "wrong-statistic", "rows of the dictionary");
    }
}
struct Table {
    std::vector<std::vector<Cell>> cols;
    std::vector<Str> stores;
    Csv_params csv;
};
Table make_table(int max_rows)
{
    Table t;
    std::size_t nc = 1 + sim::w(4);
    t.cols.resize(nc);
    std::vector<int> taste;
    for (std::size_t k = 0; k < nc; ++k) taste.push_back(static_cast<int>(sim::w(6)));
    t.csv.default_data_type = Data_type::string;
    t.csv.header_row_index = std::nullopt;
    std::size_t ns = 1 + sim::w(3), rows = 0;
    for (std::size_t s = 0; s < ns; ++s) {
        Str b;
        std::size_t n = sim::w(static_cast<std::uint32_t>(max_rows + 1));
        if (s == 0 && n == 0) n = 1;
        for (std::size_t i = 0; i < n; ++i, ++rows) {
            for (std::size_t k = 0; k < nc; ++k) {
                Cell c;
                switch (taste[k]) {
                case 0: c = sim::wpick(cells()); break;
                case 1: { int v = static_cast<int>(sim::wrange(-50, 50)); c = {std::to_string(v), static_cast<double>(v)}; break; }
                case 2: c = cells()[11 + sim::w(11)]; break;       // no numbers
                case 3: c = {"id" + std::to_string(rows)}; break;
                case 4:  // numbers from the middle on
                    if (rows < 8) c = {"n/a"};
                    else { int v = static_cast<int>(sim::w(1000)); c = {std::to_string(v) + ".5", v + 0.5}; }
                    break;
                default: c = cells()[sim::w(3)];
                }
                if (nc > 1 && taste[k] != 3 && sim::wone_in(8)) c = sim::wflip() ? Cell{""} : Cell{sim::wflip() ? " " : " \t"};
                t.cols[k].push_back(c);
                if (k) b += ',';
                if (sim::wone_in(9) && !c.text.empty()) b += '"' + c.text + '"';
                else b += c.text;
            }
            b += '\n';
        }
        t.stores.push_back(b);
    }
    return t;
}
}  // namespace

static void run()
{
    Table t = make_table(sim::wone_in(12) ? 200 : 16);
    std::size_t rows = t.cols[0].size();
    Args a;
    for (auto &n : {"null", "none", "NA", "nan", "x"})
        if (sim::wflip()) a.nulls.insert(n);
    for (std::size_t k = 0; k < t.cols.size(); ++k)
        if (sim::wflip()) a.capture.insert(k);
    a.max = sim::wpick(std::vector<std::size_t>{0, 1, 3, 10, 1000});
    sim::report_races = true;
    random_knobs();
    random_legal_io();
    bool faulty = sim::wone_in(3);
    if (faulty) random_allocator();
    auto fn = std::any_cast<Fn>(module().functions.at("analyze_dataset"));
    sim::describe("%zu rows, %zu columns, capture %zu/%zu ", rows, t.cols.size(), a.capture.size(), a.max);
    std::uint32_t lives = 1 + sim::w(3);
    std::vector<Data_reader_params> params(lives);
    for (std::uint32_t id = 0; id < lives; ++id) {
        Data_reader_params &p = params[id];
        int i = 0;
        for (auto &b : t.stores) p.dataset.push_back(make_store(b, sim::wpick(all_kinds()), "t" + std::to_string(id) + "_" + std::to_string(i++)));
        random_tuning(p);
        p.last_example_handling = sim::wpick(std::vector<Last_example_handling>{Last_example_handling::none, Last_example_handling::pad, Last_example_handling::drop});
    }
    if (faulty) random_hard_faults();
    auto life = [&](std::uint32_t id) {
        Data_reader_params &p = params[id];
        auto cols = t.cols;
        if (p.last_example_handling == Last_example_handling::drop)
            for (auto &c : cols) c.resize(rows / p.batch_size * p.batch_size);
        bool nothing = cols[0].empty();
        sim::describe("batch=%zu last=%d ", p.batch_size, static_cast<int>(p.last_example_handling));
        auto r = make_intrusive<Csv_reader>(p, t.csv);
        for (int k = 0; k < 8; ++k) {
            std::uint64_t f = sim::hard_faults_fired();
            Analysis an;
            Outcome o;
            bool none = false;
            if (guarded(o, [&] {
                    sim::Op_scope sc("analyze");
                    try { an = fn(*r, a.nulls, a.capture, a.max); }
                    catch (const pybind11::stop_iteration &) { none = true; }
                })) {
                SIM_CHECK(none == nothing, "empty", "%s", none ? "the dataset is said to be empty" : "an empty dataset is analysed");
                if (!none) compare(an, cols, a);
                sim::probe("analysed");
                if (sim::wflip()) return;
            }
            else {
                SIM_CHECK(sim::hard_faults_fired() > f || lives > 1, "unexpected-error", "%s: %s", o.type.c_str(), o.what.c_str());
                SIM_CHECK(sim::hard_faults_fired() > 0, "unexpected-error", "%s: %s", o.type.c_str(), o.what.c_str());
                sim::probe("analysis failed");
            }
            r->reset();
        }
    };
    if (lives > 1 && sim::wflip()) {
        std::vector<std::unique_ptr<sim::Thread>> th;
        for (std::uint32_t k = 0; k < lives; ++k) th.push_back(std::make_unique<sim::Thread>([&, k] { life(k); }));
        for (auto &x : th) x->join();
        sim::probe("analysed concurrently");
    }
    else
        for (std::uint32_t k = 0; k < lives; ++k) life(k);
}
SIM_WORKLOAD("C26", run);
