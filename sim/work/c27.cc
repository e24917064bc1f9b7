// C27: the columns of a CSV dataset.
#include "work/faulty.h"
#include "mlio/schema.h"
#include <cmath>
#include <numeric>
using namespace mlio;
using namespace wk;

namespace {
// What the cells of a column look like.
enum Look { l_int, l_small, l_big, l_float, l_text };

Str quote(const Str &v, const Csv_params &p, bool force)
{
    bool need = force;
    for (char c : v)
        if (c == p.delimiter || c == p.quote_char || c == '\n' || c == '\r' || (p.comment_char && c == *p.comment_char)) need = true;
    if (!need) return v;
    Str o(1, p.quote_char);
    for (char c : v) {
        o += c;
        if (c == p.quote_char) o += c;
    }
    return o + p.quote_char;
}

Str cell(Look l)
{
    switch (l) {
    case l_int: return std::to_string(sim::wrange(-100000, 100000));
    case l_small: return std::to_string(sim::w(100));
    case l_big: return std::to_string((std::uint64_t{1} << 63) + sim::w(1u << 30) * std::uint64_t{3});
    case l_float: return std::to_string(sim::wrange(-999, 999)) + "." + std::vector<Str>{"5", "25", "75", "125", "0"}[sim::w(5)] + (sim::wone_in(6) ? "e2" : "");
    default: return std::vector<Str>{"x", "hello", "", "a,b", "say \"hi\"", "1x", "--3", "#no", "\xc3\xa9t\xc3\xa9", "0x1G", "1 2", "e5", "."}[sim::w(13)];
    }
}

// The type a text suggests, from the rules in the documentation: a 64-bit
// integer, signed rather than unsigned, else a number, else a string.
Data_type suggests(Look l)
{
    switch (l) {
    case l_int:
    case l_small: return Data_type::int64;
    case l_big: return Data_type::uint64;
    case l_float: return Data_type::float64;
    default: return Data_type::string;
    }
}

Str value(const Tensor &t, std::size_t i)
{
    auto *d = dynamic_cast<const Dense_tensor *>(&t);
    if (!d) return "<not dense>";
    auto a = d->data();
    if (i >= a.size()) return "<missing>";
    auto f = [](double v) { char b[40]; snprintf(b, sizeof b, "%a", v); return Str{b}; };
    switch (t.data_type()) {
    case Data_type::string: return a.as<Str>()[i];
    case Data_type::float32: return f(static_cast<double>(a.as<float>()[i]));
    case Data_type::float64: return f(a.as<double>()[i]);
    case Data_type::int8: return std::to_string(a.as<std::int8_t>()[i]);
    case Data_type::int16: return std::to_string(a.as<std::int16_t>()[i]);
    case Data_type::int32: return std::to_string(a.as<std::int32_t>()[i]);
    case Data_type::int64: return std::to_string(a.as<std::int64_t>()[i]);
    case Data_type::uint8: return std::to_string(a.as<std::uint8_t>()[i]);
    case Data_type::uint16: return std::to_string(a.as<std::uint16_t>()[i]);
    case Data_type::uint32: return std::to_string(a.as<std::uint32_t>()[i]);
    case Data_type::uint64: return std::to_string(a.as<std::uint64_t>()[i]);
    default: return "<type>";
    }
}
Str canon(const Str &raw, Data_type t)
{
    char b[40];
    if (t == Data_type::string) return raw;
    if (t == Data_type::float32) return snprintf(b, sizeof b, "%a", static_cast<double>(strtof(raw.c_str(), nullptr))), Str{b};
    if (t == Data_type::float64) return snprintf(b, sizeof b, "%a", strtod(raw.c_str(), nullptr)), Str{b};
    return raw;
}
bool fits(Look l, Data_type t)
{
    switch (t) {
    case Data_type::string: return true;
    case Data_type::float32:
    case Data_type::float64: return l != l_text;
    case Data_type::int64:
    case Data_type::int32: return l == l_int || l == l_small;
    case Data_type::uint64: return l == l_big || l == l_small;
    default: return l == l_small;
    }
}
const std::vector<Data_type> types{Data_type::string, Data_type::float32, Data_type::float64, Data_type::int64, Data_type::int32, Data_type::uint64,
                                   Data_type::int8, Data_type::int16, Data_type::uint8, Data_type::uint16, Data_type::uint32};
Str text(const std::vector<Str> &v)
{
    Str s;
    for (auto &x : v) s += (s.empty() ? "" : " ") + ("'" + esc(x) + "'");
    return s;
}

struct Case {
    Csv_params csv{};
    std::vector<Str> bytes;                 // per store
    std::vector<std::vector<Str>> rows;     // raw cells of all rows
    enum class Want { good, nothing, schema_error, argument } want = Want::good;
    std::vector<Str> names;                 // of the columns that are read
    bool exact_names = true;
    std::vector<Str> originals;
    std::vector<Data_type> dts;
    std::vector<std::size_t> cols;
    std::vector<Look> looks;
};

Case make_case()
{
    Case c;
    auto &p = c.csv;
    std::size_t n = 1 + sim::w(5);
    // names
    int from = static_cast<int>(sim::w(4));  // 0, 1 header, 2 parameter, 3 ordinals
    static const std::vector<Str> pool{"a", "b", "X", "X_1", "X_2", "", "a b", "q,\"x\"", "\xc3\xa9", "1", "2", "X", "#h", "X_1_1", "line\nbreak"};
    bool distinct = sim::wflip();
    std::vector<Str> names;
    while (names.size() < n) {
        Str x = sim::wpick(pool);
        if (distinct && std::find(names.begin(), names.end(), x) != names.end()) continue;
        names.push_back(x);
    }
    if (sim::wone_in(4)) p.delimiter = sim::wflip() ? ';' : '\t';
    if (sim::wone_in(4)) p.comment_char = '#';
    p.allow_quoted_new_lines = true;
    p.skip_blank_lines = !sim::wone_in(3);
    bool prefix = sim::wone_in(3);
    if (prefix) p.name_prefix = "p_";
    bool header = from <= 1 || (from == 2 && sim::wflip());
    if (!header) p.header_row_index = std::nullopt;
    else p.header_row_index = sim::wone_in(3) ? 1 + sim::w(3) : 0;
    p.has_single_header = header && sim::wone_in(3);
    // types
    bool by_default = sim::wone_in(4);
    if (by_default) p.default_data_type = sim::wpick(types);
    for (std::size_t i = 0; i < n; ++i) {
        Look l = static_cast<Look>(sim::w(5));
        if (by_default)
            while (!fits(l, *p.default_data_type)) l = static_cast<Look>(sim::w(5));
        c.looks.push_back(l);
        c.dts.push_back(by_default ? *p.default_data_type : suggests(l));
    }
    // stores
    std::size_t nst = 1 + sim::w(4);
    std::size_t rows = sim::wone_in(5) ? 0 : sim::w(16);
    bool any_header = false;
    std::size_t given = 0;
    for (std::size_t s = 0; s < nst; ++s) {
        Str b;
        auto end = [&] { b += sim::wone_in(4) ? "\r\n" : "\n"; };
        auto noise = [&] {
            if (p.comment_char && sim::wone_in(6)) b += "#comment, \"", end();
            if (p.skip_blank_lines && sim::wone_in(8)) end();
        };
        std::size_t mine = s + 1 == nst ? rows - given : rows == given ? 0 : sim::w(static_cast<std::uint32_t>(rows - given + 1));
        bool here = header && (!p.has_single_header || !any_header);
        int shape = mine ? 0 : static_cast<int>(sim::w(3));  // without rows: 0 with its header, 1 empty, 2 cut short
        if (sim::wone_in(5)) b += "\xef\xbb\xbf";
        if (shape == 1 && mine == 0) {
            if (sim::wflip()) b.clear();
            c.bytes.push_back(b);
            continue;
        }
        if (here) {
            std::size_t skip = *p.header_row_index;
            if (shape == 2) skip = skip ? sim::w(static_cast<std::uint32_t>(skip + 1)) : 0;
            for (std::size_t i = 0; i < skip; ++i) {
                noise();
                b += "skipped row, " + std::to_string(i);
                end();
            }
            if (shape == 2) {
                c.bytes.push_back(b);
                continue;
            }
            noise();
            for (std::size_t i = 0; i < n; ++i) {
                if (i) b += p.delimiter;
                b += quote(names[i], p, sim::wone_in(5) || n == 1);
            }
            if (sim::wone_in(8) && mine == 0) ;
            else end();
            any_header = true;
        }
        for (std::size_t i = 0; i < mine; ++i) {
            noise();
            std::vector<Str> r;
            for (std::size_t k = 0; k < n; ++k) {
                Str v = cell(c.looks[k]);
                if (k) b += p.delimiter;
                b += quote(v, p, (c.looks[k] == l_text && sim::wone_in(5)) || n == 1 || v.empty());
                r.push_back(v);
            }
            if (i + 1 < mine || !sim::wone_in(5)) end();
            c.rows.push_back(r);
        }
        given += mine;
        c.bytes.push_back(b);
    }
    if (from == 2) p.column_names = names;
    else if (from == 3) {
        names.clear();
        for (std::size_t i = 1; i <= n; ++i) names.push_back(p.name_prefix + std::to_string(i));
    }
    else
        for (auto &x : names) x = p.name_prefix + x;
    bool known = from == 2 || (from <= 1 && any_header);
    if (!known && c.rows.empty()) c.want = Case::Want::nothing;
    if (c.rows.empty())
        for (auto &t : c.dts) t = by_default ? *p.default_data_type : Data_type::string;
    c.originals = names;
    auto unique = [&](std::size_t i) { return std::count(names.begin(), names.end(), names[i]) == 1; };
    // overrides
    for (std::size_t i = 0; i < n; ++i) {
        if (!sim::wone_in(4)) continue;
        Data_type t = sim::wpick(types);
        while (!fits(c.looks[i], t)) t = sim::wpick(types);
        bool by_name = sim::wflip() && unique(i);
        if (by_name) p.column_types[names[i]] = t;
        else p.column_types_by_index[i] = t;
        if (by_name && sim::wone_in(3)) p.column_types_by_index[i] = sim::wpick(types);  // the name comes last
        c.dts[i] = t;
    }
    // columns that are read
    std::vector<bool> use(n, true);
    if (sim::wone_in(3)) {
        for (std::size_t i = 0; i < n; ++i)
            if (sim::wflip()) p.use_columns_by_index.insert(i);
        if (sim::wone_in(6)) p.use_columns_by_index.insert(n + sim::w(3));
        if (!p.use_columns_by_index.empty())
            for (std::size_t i = 0; i < n; ++i)
                if (p.use_columns_by_index.count(i) == 0) use[i] = false;
    }
    if (sim::wone_in(3)) {
        for (std::size_t i = 0; i < n; ++i)
            if (sim::wflip()) p.use_columns.insert(names[i]);
        if (!p.use_columns.empty())
            for (std::size_t i = 0; i < n; ++i)
                if (p.use_columns.count(names[i]) == 0) use[i] = false;
    }
    if (sim::wone_in(4)) p.dedupe_column_names = false;
    for (std::size_t i = 0; i < n; ++i)
        if (use[i]) c.cols.push_back(i);
    std::map<Str, int> seen;
    bool dup = false;
    for (auto i : c.cols) {
        int k = seen[names[i]]++;
        if (k) dup = true;
        c.names.push_back(k ? names[i] + "_" + std::to_string(k) : names[i]);
    }
    if (dup) {
        if (std::set<Str>(c.names.begin(), c.names.end()).size() != c.names.size()) c.exact_names = false;
        for (auto i : c.cols)  // a made up name must not be one that is there
            for (auto &x : c.names)
                if (x != names[i] && std::count(c.names.begin(), c.names.end(), names[i]) > 1) c.exact_names = false;
    }
    if (c.want == Case::Want::good) {
        if (dup && !p.dedupe_column_names) c.want = Case::Want::schema_error;
        if (sim::wone_in(12) && c.want == Case::Want::good) {
            // something that cannot be met
            switch (sim::w(3)) {
            case 0: p.column_types_by_index[n + sim::w(3)] = Data_type::string; c.want = Case::Want::argument; break;
            case 1: p.column_types["no such column"] = Data_type::string; c.want = Case::Want::argument; break;
            default:
                if (from == 2 && !c.rows.empty()) {
                    if (sim::wflip()) p.column_names.push_back("one more");
                    else if (n > 1) p.column_names.pop_back();
                    if (p.column_names.size() != n) c.want = Case::Want::schema_error;
                }
            }
        }
    }
    return c;
}

struct Reader_run {
    const Case &c;
    Data_reader_params p;
    Intrusive_ptr<Csv_reader> r;
    std::vector<std::size_t> order;  // rows in the order they are read; empty with shuffling
    bool shuffled = false;
    std::multiset<Str> left;
    std::size_t pos = 0;

    Str row_text(const std::vector<Str> &raw) const
    {
        Str s;
        for (auto i : c.cols) s += esc(canon(raw[i], c.dts[i]), 500) + "|";
        return s;
    }
    void begin()
    {
        pos = 0;
        left.clear();
        if (shuffled)
            for (auto i : order) left.insert(row_text(c.rows[i]));
    }
    void check_schema(const Schema *s, const char *where)
    {
        if (c.want == Case::Want::nothing) {
            SIM_CHECK(s == nullptr, "schema-invented", "%s: a schema for a dataset without rows and names", where);
            return;
        }
        SIM_CHECK(s != nullptr, "no-schema", "%s: no schema, expected (%s)", where, text(c.names).c_str());
        auto &at = s->attributes();
        std::vector<Str> got;
        for (auto &a : at) got.push_back(a.name());
        SIM_CHECK(at.size() == c.cols.size(), "wrong-columns", "%s: columns (%s), expected (%s)", where, text(got).c_str(), text(c.names).c_str());
        std::set<Str> once;
        for (std::size_t i = 0; i < at.size(); ++i) {
            if (c.exact_names) SIM_CHECK(got[i] == c.names[i], "wrong-name", "%s: columns (%s), expected (%s)", where, text(got).c_str(), text(c.names).c_str());
            const Str &o = c.originals[c.cols[i]];
            SIM_CHECK(got[i] == o || got[i].compare(0, o.size() + 1, o + "_") == 0, "wrong-name", "%s: the column '%s' is called '%s'", where, esc(o).c_str(), esc(got[i]).c_str());
            SIM_CHECK(once.insert(got[i]).second, "duplicate-name", "%s: columns (%s)", where, text(got).c_str());
            SIM_CHECK(at[i].data_type() == c.dts[c.cols[i]], "wrong-type", "%s: the column '%s' has type %d, expected %d", where, esc(got[i]).c_str(), static_cast<int>(at[i].data_type()),
                      static_cast<int>(c.dts[c.cols[i]]));
            SIM_CHECK((at[i].shape() == Size_vector{p.batch_size, 1}) && !at[i].sparse(), "wrong-shape", "%s: shape of column '%s'", where, esc(got[i]).c_str());
            SIM_CHECK(s->get_index(got[i]) == i, "wrong-index", "%s: index of column '%s'", where, esc(got[i]).c_str());
        }
    }
    // 1 example, 0 end, -1 error
    int read(bool peek, Outcome &o)
    {
        Intrusive_ptr<Example> e;
        if (!guarded(o, [&] { sim::Op_scope s(peek ? "peek_example" : "read_example"); e = peek ? r->peek_example() : r->read_example(); })) return -1;
        if (!e) {
            SIM_CHECK(c.want == Case::Want::good || c.want == Case::Want::nothing, "error-missing", "the end instead of an error");
            return 0;
        }
        SIM_CHECK(c.want == Case::Want::good, "example-invented", "an example that cannot be");
        check_schema(&e->schema(), "example");
        std::size_t bn = std::min(p.batch_size, order.size() - std::min(order.size(), pos));
        SIM_CHECK(bn > 0, "extra-example", "an example after all %zu rows", order.size());
        for (std::size_t k = 0; k < e->features().size(); ++k) {
            auto &t = *e->features()[k];
            SIM_CHECK((t.shape() == Size_vector{bn, 1}), "wrong-shape", "feature %zu has %zu rows, expected %zu", k, t.shape()[0], bn);
            SIM_CHECK(t.data_type() == c.dts[c.cols[k]], "wrong-type", "feature %zu", k);
            auto f = e->find_feature(e->schema().attributes()[k].name());
            SIM_CHECK(f.get() == &t, "wrong-feature", "find_feature of column %zu", k);
        }
        if (!e->features().empty())
            for (std::size_t b = 0; b < bn; ++b) {
                Str got;
                for (auto &f : e->features()) got += esc(value(*f, b), 500) + "|";
                if (shuffled) {
                    auto it = left.find(got);
                    SIM_CHECK(it != left.end(), "wrong-row", "row %s is not left", got.c_str());
                    if (!peek) left.erase(it);
                }
                else {
                    Str want = row_text(c.rows[order[pos + b]]);
                    SIM_CHECK(got == want, "wrong-row", "row %zu is %s, expected %s", pos + b, got.c_str(), want.c_str());
                }
            }
        if (!peek) pos += bn;
        return 1;
    }
    void check_error(const Outcome &o, const char *where)
    {
        const char *t = c.want == Case::Want::schema_error ? "Schema_error" : "invalid_argument";
        SIM_CHECK(c.want == Case::Want::schema_error || c.want == Case::Want::argument, "unexpected-error", "%s: %s: %s", where, o.type.c_str(), o.what.c_str());
        SIM_CHECK(o.type.find(t) != Str::npos, "wrong-error", "%s: %s: %s, expected %s", where, o.type.c_str(), o.what.c_str(), t);
        sim::probe("schema refused");
    }
    void epoch()
    {
        begin();
        bool ended = false;
        for (std::uint32_t i = 0; i < 400 && !ended; ++i) {
            std::uint32_t k = sim::w(8);
            Outcome o;
            if (k == 0) {
                Intrusive_ptr<const Schema> s;
                bool good = guarded(o, [&] { sim::Op_scope sc("read_schema"); s = r->read_schema(); });
                if (good) {
                    SIM_CHECK(c.want == Case::Want::good || c.want == Case::Want::nothing, "error-missing", "a schema instead of an error");
                    check_schema(s.get(), "read_schema");
                }
                else {
                    check_error(o, "read_schema");
                    if (sim::wone_in(3)) return;
                }
                continue;
            }
            int rc = read(k == 1, o);
            if (rc < 0) {
                check_error(o, "read");
                if (sim::wone_in(3)) return;
                continue;
            }
            if (rc == 0 && k != 1) ended = true;
            if (sim::wone_in(60)) return;
        }
        if (ended) SIM_CHECK(c.want == Case::Want::nothing || pos >= order.size(), "early-end", "the end after %zu of %zu rows", pos, order.size());
    }
};

void run()
{
    sim::report_races = true;
    Case c = make_case();
    random_knobs();
    if (sim::wone_in(3)) sim::set_knob("parallel_decode_cut_off", 1);
    random_legal_io();
    Dataset d;
    d.fmt = Fmt::csv;
    for (auto &b : c.bytes) {
        Store_data s;
        s.bytes = b;
        d.stores.push_back(s);
    }
    if (sim::tracing())
        for (auto &b : c.bytes) sim::note("store: %s", esc(b, 500).c_str());
    int readers = 1 + static_cast<int>(sim::w(2));
    auto kinds = all_kinds();
    if (readers > 1)  // the counters of our own stores are not for several threads
        kinds.erase(std::remove_if(kinds.begin(), kinds.end(), [](Kind k) { return k == Kind::frag || k == Kind::frag_seek; }), kinds.end());
    Stores st = make_stores(d, kinds);
    sim::describe("columns (%s) of (%s) header=%d names=%zu prefix=%zu single=%d rows=%zu default=%d want=%d ", text(c.names).c_str(), text(c.originals).c_str(),
                  c.csv.header_row_index ? static_cast<int>(*c.csv.header_row_index) : -1, c.csv.column_names.size(), c.csv.name_prefix.size(), static_cast<int>(c.csv.has_single_header), c.rows.size(),
                  c.csv.default_data_type ? static_cast<int>(*c.csv.default_data_type) : -1, static_cast<int>(c.want));
    auto life = [&] {
        Reader_run x{c, {}, {}, {}, false, {}, 0};
        x.p.dataset = st.list;
        random_tuning(x.p);
        std::size_t rows = c.rows.size();
        std::size_t skip = sim::wone_in(4) && rows ? sim::w(static_cast<std::uint32_t>(rows)) : 0;  // one row is left to infer from
        x.p.num_instances_to_skip = skip;
        for (std::size_t i = skip; i < rows; ++i) x.order.push_back(i);
        if (sim::wone_in(4)) {
            x.shuffled = true;
            x.p.shuffle_instances = true;
            x.p.shuffle_window = sim::w(8);
        }
        x.r = make_intrusive<Csv_reader>(x.p, c.csv);
        if (readers == 1 && sim::wone_in(3)) {
            random_hard_faults();
            std::uint32_t n = 1 + sim::w(6);
            x.begin();
            bool failed = false;
            for (std::uint32_t i = 0; i < n; ++i) {
                Outcome o;
                if (sim::wone_in(3)) {
                    Intrusive_ptr<const Schema> s;
                    if (guarded(o, [&] { sim::Op_scope sc("read_schema"); s = x.r->read_schema(); })) {
                        if (s) x.check_schema(s.get(), "read_schema with failures");
                    }
                }
                else {
                    int rc = x.read(sim::wone_in(4), o);
                    if (rc < 0) {
                        failed = true;
                        bool right = c.want == Case::Want::schema_error || c.want == Case::Want::argument;
                        SIM_CHECK(right || sim::hard_faults_fired(), "unexpected-error", "%s: %s", o.type.c_str(), o.what.c_str());
                    }
                    if (rc == 0) break;
                }
                if (failed && sim::wone_in(3)) {
                    x.r->reset();
                    x.begin();
                    failed = false;
                    sim::probe("reset after a failure");
                }
            }
            sim::faults.armed = false;
            sim::Op_scope s("reset");
            x.r->reset();
        }
        for (std::uint32_t i = 1 + sim::w(3); i > 0; --i) {
            x.epoch();
            sim::Op_scope s("reset");
            x.r->reset();
        }
    };
    if (readers == 1) life();
    else {
        // Another thread reads the same stores with another configuration.
        sim::Thread t([&] { life(); });
        life();
        t.join();
        sim::probe("two readers");
    }
}
}  // namespace
SIM_WORKLOAD("C27", run);
