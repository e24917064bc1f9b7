// C23: a number in a text field comes out as exactly the value it denotes, or
// the field is rejected.
#include "work/faulty.h"
#include "mlio/cpu_array.h"
#include "mlio/parser.h"
#include <cmath>
#include <limits>
using namespace mlio;
using namespace wk;

namespace {
enum class Want { accept, reject, any };  // any: rejected, or accepted with this value
struct Cell {
    Str raw, canon;
    Want want = Want::accept;
};

Str hex_float(double v)
{
    if (std::isnan(v)) return "nan";
    char b[40];
    snprintf(b, sizeof b, "%a", v);
    return b;
}

Str dec(__int128 v)
{
    if (v == 0) return "0";
    bool neg = v < 0;
    Str s;
    unsigned __int128 u = neg ? -static_cast<unsigned __int128>(v) : static_cast<unsigned __int128>(v);
    for (; u; u /= 10) s += static_cast<char>('0' + static_cast<int>(u % 10));
    if (neg) s += '-';
    return {s.rbegin(), s.rend()};
}

Str digits(unsigned __int128 u, int base, bool upper)
{
    static const char *lo = "0123456789abcdefghijklmnopqrstuvwxyz", *up = "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ";
    Str s;
    do {
        s += (upper ? up : lo)[static_cast<int>(u % static_cast<unsigned>(base))];
        u /= static_cast<unsigned>(base);
    } while (u);
    return {s.rbegin(), s.rend()};
}

struct Bounds { __int128 lo, hi; };
Bounds bounds(Data_type t)
{
    auto s = [](int b) { return Bounds{-(static_cast<__int128>(1) << (b - 1)), (static_cast<__int128>(1) << (b - 1)) - 1}; };
    auto u = [](int b) { return Bounds{0, (static_cast<__int128>(1) << b) - 1}; };
    switch (t) {
    case Data_type::int8: return s(8);
    case Data_type::int16: return s(16);
    case Data_type::int32: return s(32);
    case Data_type::int64: return s(64);
    case Data_type::uint8: return u(8);
    case Data_type::uint16: return u(16);
    case Data_type::uint32: return u(32);
    default: return u(64);  // uint64, size
    }
}

bool is_float(Data_type t) { return t == Data_type::float32 || t == Data_type::float64; }

std::uint64_t r64() { return (static_cast<std::uint64_t>(sim::w(1u << 31)) << 33) ^ (static_cast<std::uint64_t>(sim::w(1u << 31)) << 11) ^ sim::w(1u << 11); }

const std::vector<Str> &malformed()
{
    static const std::vector<Str> m{"", "x", "-", "+", "--1", "+-1", "-+1", "1 2", "1-", "1+", "1_000", "$1", "1%", "?", "\xef\xbc\x91",
                                    "1\xc3\xa9", ".", "..", "-.", "1..2", "1.2.3", "1/2", "(1)", "'1'", "1;"};
    return m;
}

Cell int_cell(Data_type t, int base, bool definite)
{
    auto [lo, hi] = bounds(t);
    Cell c;
    __int128 v = 0;
    switch (sim::w(8)) {
    default: v = sim::wrange(-200, 200); break;
    case 1: v = hi + sim::wrange(-3, 3); break;
    case 2: v = lo + sim::wrange(-3, 3); break;
    case 3: {  // around a power of two: what a narrower or wider type ends at
        int b = 7 + static_cast<int>(sim::w(60));
        v = (static_cast<__int128>(1) << b) + sim::wrange(-2, 2);
        if (sim::wflip()) v = -v;
        break;
    }
    case 4: {  // any value of the type
        auto width = static_cast<unsigned __int128>(hi - lo) + 1;
        v = lo + static_cast<__int128>(r64() % width);
        break;
    }
    case 5: {  // a value of the type plus a multiple of its width
        __int128 width = hi - lo + 1;
        v = static_cast<__int128>(sim::w(100)) + width * sim::wrange(-2, 3);
        break;
    }
    case 6: {  // text that is no integer
        std::vector<Str> m = malformed();
        m.insert(m.end(), {"1.5", "1.0", "1,5", "0b2", "1.e1", "1#"});
        if (base <= 10) m.insert(m.end(), {"1e3", "1f", "0xg", "1x"});
        if (base == 10) m.insert(m.end(), {"0x10", "1a", "a"});
        if (base == 2) m.insert(m.end(), {"2", "12", "102"});
        if (base == 8) m.insert(m.end(), {"8", "19"});
        if (base == 16) m.insert(m.end(), {"g", "1g", "0x", "fh"});
        c.raw = sim::wpick(m);
        c.want = Want::reject;
        if (base > 10 && (c.raw == "x" || c.raw == "0b2")) c.want = Want::any, c.raw = "-", c.want = Want::reject;
        if (c.raw == "1;" && definite) c.raw = "1.";
        if (c.raw == "1." && definite) c.raw = "1!";
        if (c.raw == "1,5" && definite) c.raw = "1!5";
        return c;
    }
    case 7: {  // far out of range
        c.raw = Str(21 + sim::w(30), static_cast<char>('1' + sim::w(base < 3 ? 1 : 7)));
        if (base < 36 && base != 16 && base != 10) c.raw = Str(80, '1');
        if (sim::wflip()) c.raw = "-" + c.raw;
        c.want = Want::reject;
        return c;
    }
    }
    bool neg = v < 0;
    auto mag = neg ? -static_cast<unsigned __int128>(v) : static_cast<unsigned __int128>(v);
    c.raw = digits(mag, base, sim::wflip());
    if (sim::wone_in(6)) c.raw = Str(1 + sim::w(sim::wone_in(3) ? 40 : 3), '0') + c.raw;
    if (neg) c.raw = "-" + c.raw;
    c.canon = dec(v);
    c.want = v >= lo && v <= hi ? Want::accept : Want::reject;
    // "08" in base 16 or "0b1": a leading zero followed by a letter that is
    // also a prefix.
    if (!definite && c.want == Want::accept && sim::wone_in(5)) {
        static const std::vector<Str> sp{" ", "\t", "  ", "\n"};
        int k = static_cast<int>(sim::w(4));
        c.want = Want::any;
        if (k == 0) c.raw = sim::wpick(sp) + c.raw;
        else if (k == 1) c.raw += sim::wpick(sp);
        else if (k == 2 && !neg) c.raw = "+" + c.raw;
        else if (k == 3 && v == 0) c.raw = "-" + c.raw;
    }
    return c;
}

Cell float_cell(Data_type t, const std::vector<Str> &nans, bool definite)
{
    Cell c;
    bool f32 = t == Data_type::float32;
    char b[1500];
    bool tiny_ok = true;
    switch (sim::w(9)) {
    default: snprintf(b, sizeof b, "%.3f", static_cast<double>(sim::wrange(-4000, 4000)) / 8); break;
    case 1: {  // any finite value of the type, enough digits to tell it apart
        double v;
        if (f32) {
            auto u = static_cast<std::uint32_t>(r64());
            float f;
            std::memcpy(&f, &u, 4);
            v = static_cast<double>(f);
        }
        else {
            auto u = r64();
            std::memcpy(&v, &u, 8);
        }
        if (!std::isfinite(v)) v = 0.1;
        snprintf(b, sizeof b, sim::wflip() ? "%.17g" : sim::wflip() ? "%.9e" : "%.25G", v);
        break;
    }
    case 2: {  // half-way between two neighbours, or just beside
        long double m;
        int e = static_cast<int>(sim::wrange(-60, 60));
        if (f32) m = static_cast<long double>((1ull << 24) | ((r64() & 0x7fffff) << 1) | 1);
        else m = static_cast<long double>((1ull << 53) | ((r64() & 0xfffffffffffffull) << 1) | 1);
        m = std::ldexp(m, e - 53);
        if (sim::wflip()) m = -m;
        snprintf(b, sizeof b, "%.200Lf", m);
        Str s = b;
        while (s.back() == '0') s.pop_back();
        if (s.back() == '.') s += '0';
        switch (sim::w(3)) {
        case 0: break;
        case 1: s += "000000000000000000000000000001"; break;
        default:  // one below
            if (s.back() > '0' && s.back() <= '9') {
                --s.back();
                s += "9999999999999999999999999999999";
            }
        }
        snprintf(b, sizeof b, "%s", s.c_str());
        break;
    }
    case 3: {  // around the largest value
        static const std::vector<Str> f{"3.4028234663852886e38", "3.4028235677973366e38", "3.4028235677973365e38", "3.4028235e38", "3.4028236e38", "1e39", "-1e39",
                                        "340282346638528859811704183484516925440", "340282356779733661637539395458142568447",
                                        "340282356779733661637539395458142568448", "1e400", "9e99999"};
        static const std::vector<Str> d{"1.7976931348623157e308", "1.7976931348623158e308", "1.7976931348623159e308", "-1.7976931348623157e308", "1e309",
                                        "-1e400", "1e99999", "179769313486231580793e289", "17976931348623157e292", "1e39"};
        snprintf(b, sizeof b, "%s", sim::wpick(f32 ? f : d).c_str());
        break;
    }
    case 4: {  // around the smallest value
        static const std::vector<Str> f{"1.17549435e-38", "1.1754942e-38", "1e-40", "1.4e-45", "7.1e-46", "7.0e-46", "1e-50", "-1e-60"};
        static const std::vector<Str> d{"2.2250738585072014e-308", "2.2250738585072011e-308", "1e-310", "5e-324", "4.9406564584124654e-324", "2.5e-324",
                                        "2.4e-324", "1e-400", "-1e-400"};
        snprintf(b, sizeof b, "%s", sim::wpick(f32 ? f : d).c_str());
        tiny_ok = false;
        break;
    }
    case 5: {  // integers and exponents
        std::uint32_t k = sim::w(5);
        if (k == 0) snprintf(b, sizeof b, "%llu", static_cast<unsigned long long>(r64()));
        else if (k == 1) snprintf(b, sizeof b, "%dE%d", static_cast<int>(sim::wrange(-999, 999)), static_cast<int>(sim::wrange(-30, 30)));
        else if (k == 2) snprintf(b, sizeof b, "%u.%ue+%u", sim::w(1000), sim::w(1000), sim::w(20));
        else if (k == 3) snprintf(b, sizeof b, "000%u.%u000000000", sim::w(1000), sim::w(100000));
        else snprintf(b, sizeof b, "-0.0");
        break;
    }
    case 6: {  // text that is no number
        std::vector<Str> m = malformed();
        m.insert(m.end(), {"1e", "1e+", "e5", "1ee5", "1e5.5", "1e5x", "1.5f", "1,5", "na", "NaNx", "1.5e--3", "infx", "1.0.0", "0x"});
        c.raw = sim::wpick(m);
        c.want = Want::reject;
        if (definite && c.raw == "1;") c.raw = "1!";
        if (definite && c.raw == "1,5") c.raw = "1!5";
        if (std::find(nans.begin(), nans.end(), c.raw) != nans.end()) {
            c.want = Want::accept;
            c.canon = "nan";
        }
        return c;
    }
    case 7:
        if (nans.empty()) {
            snprintf(b, sizeof b, "1.5");
            break;
        }
        c.raw = sim::wpick(nans);
        c.canon = "nan";
        if (!definite && sim::wone_in(3)) {
            c.raw = " " + c.raw + " ";
            c.want = Want::any;
        }
        return c;
    case 8:
        if (definite) {
            snprintf(b, sizeof b, "%u", sim::w(100));
            break;
        }
        {
            static const std::vector<Str> o{"1.", ".5", "+1.5", " 1.5", "1.5 ", "inf", "-inf", "INFINITY", "nan", "NaN", "-nan", "0x10", "0x1p3", "\t2"};
            snprintf(b, sizeof b, "%s", sim::wpick(o).c_str());
            tiny_ok = false;
        }
        break;
    }
    c.raw = b;
    if (std::find(nans.begin(), nans.end(), c.raw) != nans.end()) {
        c.raw = "1.25";
    }
    double v = f32 ? static_cast<double>(std::strtof(c.raw.c_str(), nullptr)) : std::strtod(c.raw.c_str(), nullptr);
    c.canon = hex_float(v);
    if (std::isinf(v)) c.want = c.raw.find_first_of("iI") == Str::npos ? Want::reject : Want::any;
    else if (!tiny_ok) c.want = Want::any;
    else if (v != 0 && std::fabs(v) < static_cast<double>(f32 ? std::numeric_limits<float>::min() : std::numeric_limits<double>::min())) c.want = Want::any;
    if (definite && c.want == Want::any) {
        c.raw = "2.5";
        c.canon = hex_float(2.5);
        c.want = Want::accept;
    }
    return c;
}

const std::vector<Data_type> &numeric()
{
    static const std::vector<Data_type> t{Data_type::int8, Data_type::int16, Data_type::int32, Data_type::int64, Data_type::uint8, Data_type::uint16,
                                          Data_type::uint32, Data_type::uint64, Data_type::size, Data_type::float32, Data_type::float64};
    return t;
}

struct Opts {
    int base = 10;
    std::vector<Str> nans;
};
Opts random_opts()
{
    Opts o;
    if (sim::wone_in(3)) o.base = std::vector<int>{16, 8, 2, 36}[sim::w(4)];
    if (sim::wflip()) {
        static const std::vector<Str> all{"NA", "-", "null", "", "?", "N/A", "missing", "x"};
        for (auto &s : all)
            if (sim::wone_in(3)) o.nans.push_back(s);
    }
    return o;
}
Parser_options options(const Opts &o)
{
    Parser_options p;
    p.base = o.base;
    for (auto &s : o.nans) p.nan_values.insert(s);
    return p;
}

Cell any_cell(Data_type t, const Opts &o, bool definite) { return is_float(t) ? float_cell(t, o.nans, definite) : int_cell(t, o.base, definite); }

Str value(const Device_array &a, std::size_t i)
{
    auto v = const_cast<Device_array &>(a).data();
    switch (a.data_type()) {
    case Data_type::float32: return hex_float(static_cast<double>(static_cast<float *>(v)[i]));
    case Data_type::float64: return hex_float(static_cast<double *>(v)[i]);
    case Data_type::int8: return dec(static_cast<std::int8_t *>(v)[i]);
    case Data_type::int16: return dec(static_cast<std::int16_t *>(v)[i]);
    case Data_type::int32: return dec(static_cast<std::int32_t *>(v)[i]);
    case Data_type::int64: return dec(static_cast<std::int64_t *>(v)[i]);
    case Data_type::uint8: return dec(static_cast<std::uint8_t *>(v)[i]);
    case Data_type::uint16: return dec(static_cast<std::uint16_t *>(v)[i]);
    case Data_type::uint32: return dec(static_cast<std::uint32_t *>(v)[i]);
    case Data_type::uint64: return dec(static_cast<std::uint64_t *>(v)[i]);
    case Data_type::size: return dec(static_cast<std::size_t *>(v)[i]);
    default: return "?";
    }
}

std::size_t width(Data_type t)
{
    switch (t) {
    case Data_type::int8: case Data_type::uint8: return 1;
    case Data_type::int16: case Data_type::uint16: return 2;
    case Data_type::int32: case Data_type::uint32: case Data_type::float32: return 4;
    default: return 8;
    }
}

// One parser shared by several threads, each with elements of its own.
void direct()
{
    Opts o = random_opts();
    Data_type t = sim::wpick(numeric());
    int threads = 1 + static_cast<int>(sim::w(3));
    std::size_t per = 1 + sim::w(6);
    std::vector<Cell> cells;
    for (std::size_t i = 0; i < static_cast<std::size_t>(threads) * per; ++i) cells.push_back(any_cell(t, o, false));
    sim::describe("direct type=%d base=%d nans=%zu threads=%d per=%zu ", static_cast<int>(t), o.base, o.nans.size(), threads, per);
    // The options need not outlive the call.
    auto opts = std::make_unique<Parser_options>(options(o));
    Parser parser = make_parser(t, *opts);
    opts = nullptr;
    auto arr = make_cpu_array(t, cells.size());
    std::size_t wd = width(t);
    auto *bytes = static_cast<unsigned char *>(arr->data());
    std::memset(bytes, 0x5a, wd * cells.size());
    std::vector<int> result(cells.size(), -1);
    auto work = [&](std::size_t k) {
        for (std::size_t j = 0; j < per; ++j) {
            std::size_t i = k * per + j;
            // The field is a part of a line: nothing says where it ends but its size.
            Str line = "7" + cells[i].raw + "3";
            result[i] = static_cast<int>(parser(std::string_view{line}.substr(1, cells[i].raw.size()), Device_array_span{*arr}, i));
            sim::yield_point("parsed");
        }
    };
    {
        std::vector<std::unique_ptr<sim::Thread>> ts;
        for (int k = 1; k < threads; ++k) ts.push_back(std::make_unique<sim::Thread>([&, k] { work(static_cast<std::size_t>(k)); }));
        work(0);
        for (auto &x : ts) x->join();
    }
    for (std::size_t i = 0; i < cells.size(); ++i) {
        auto &c = cells[i];
        bool ok = result[i] == static_cast<int>(Parse_result::ok);
        if (!ok) {
            SIM_CHECK(c.want != Want::accept, "rejected", "'%s' (type %d, base %d) is rejected, value %s", esc(c.raw).c_str(), static_cast<int>(t), o.base, c.canon.c_str());
            if (c.want == Want::reject) sim::probe("field rejected");
            continue;
        }
        SIM_CHECK(c.want != Want::reject, "accepted", "'%s' (type %d, base %d) is accepted as %s", esc(c.raw).c_str(), static_cast<int>(t), o.base, value(*arr, i).c_str());
        Str got = value(*arr, i);
        SIM_CHECK(got == c.canon, "wrong-value", "'%s' (type %d, base %d) is parsed as %s, its value is %s", esc(c.raw).c_str(), static_cast<int>(t), o.base, got.c_str(), c.canon.c_str());
        if (c.want == Want::any) sim::probe("unusual form accepted");
    }
    sim::probe("direct");
}

// Columns of numbers read through a CSV reader.
void through_reader()
{
    Session s;
    Opts o = random_opts();
    s.d.fmt = Fmt::csv;
    auto &p = s.d.csv;
    p.header_row_index = std::nullopt;
    p.parser_options = options(o);
    if (sim::wone_in(3)) p.delimiter = sim::wflip() ? '\t' : ';';
    std::vector<Data_type> types{Data_type::string};
    std::size_t ncols = 1 + sim::w(5);
    for (std::size_t i = 0; i < ncols; ++i) types.push_back(sim::wpick(numeric()));
    for (std::size_t i = 0; i < types.size(); ++i) p.column_types_by_index[i] = types[i];
    std::uint32_t bad_in = sim::wflip() ? 0 : 2 + sim::w(8);
    std::size_t rows = sim::w(sim::wone_in(4) ? 60 : 20);
    std::size_t nst = 1 + sim::w(3);
    s.d.stores.resize(nst);
    for (std::size_t i = 0; i < rows; ++i) {
        auto &st = s.d.stores[i * nst / rows];
        Row r;
        Str line = "r" + std::to_string(i);
        r.canon = line;
        std::size_t bad_col = bad_in && i && sim::wone_in(bad_in) ? sim::w(static_cast<std::uint32_t>(ncols)) : SIZE_MAX;
        for (std::size_t k = 0; k < ncols; ++k) {
            Want want = k == bad_col ? Want::reject : Want::accept;
            Cell c;
            int tries = 0;
            do c = any_cell(types[k + 1], o, true);
            while (c.want != want && ++tries < 40);
            if (c.want != want) {
                c.want = want;
                if (want == Want::reject) c.raw = "!", r.bad = true;
                else c.raw = "1", c.canon = is_float(types[k + 1]) ? hex_float(1) : "1";
            }
            if (want == Want::reject) r.bad = true;
            Str raw = c.raw;
            bool quote = raw.find(p.delimiter) != Str::npos || sim::wone_in(8);
            line += p.delimiter;
            line += quote ? "\"" + raw + "\"" : raw;
            r.canon += "|" + c.canon;
        }
        r.size = line.size();
        std::size_t b = st.bytes.size();
        st.bytes += line + (sim::wone_in(4) ? "\r\n" : "\n");
        st.extent.push_back({b, st.bytes.size()});
        st.rows.push_back(r);
    }
    random_knobs();
    if (sim::wflip()) sim::set_knob("parallel_decode_cut_off", 1);
    random_legal_io();
    s.st = make_stores(s.d, all_kinds());
    s.p.dataset = s.st.list;
    random_tuning(s.p);
    random_policies(s.p);
    sim::describe("reader base=%d nans=%zu cols=%zu rows=%zu %s", o.base, o.nans.size(), ncols, rows, params_text(s.p).c_str());
    s.want = expect(s.d, s.p);
    bool faults = sim::wone_in(4);
    if (faults) {
        random_hard_faults();
        s.open();
        for (std::size_t i = 0; i < s.want.ex.size() + 2; ++i) {
            int rc = s.read();
            if (rc < 0) SIM_CHECK(s.want.error || sim::hard_faults_fired(), "unexpected-error", "%s: %s", s.err.type.c_str(), s.err.what.c_str());
            if (rc <= 0) break;
        }
        sim::faults.armed = false;
        s.reset();
    }
    else s.open();
    for (std::uint32_t i = 1 + sim::w(2); i > 0; --i) {
        s.finish();
        s.reset();
    }
    sim::probe("through a reader");
}

void run()
{
    sim::report_races = true;
    if (sim::wone_in(3)) direct();
    else through_reader();
}
}  // namespace
SIM_WORKLOAD("C23", run);
