// C29: RecordIO-protobuf messages come out feature by feature.
#include "work/faulty.h"
#include "work/records.h"
#include "mlio/detail/protobuf/recordio_protobuf.pb.h"
#include "mlio/schema.h"
#include <google/protobuf/io/coded_stream.h>
#include <google/protobuf/io/zero_copy_stream_impl_lite.h>
extern "C" unsigned long sim_map_seed;
using namespace mlio;
using namespace wk;

namespace {
// One value of a message, as written.
enum Ty { f32, f64, i32, raw_bytes, unset };
struct Val {
    Ty type = f32;
    std::vector<std::uint64_t> shape, keys, vals;  // vals: bit patterns
    bool sparse() const { return !keys.empty() || (vals.empty() && !shape.empty()); }
    std::vector<std::uint64_t> dims() const { return shape.empty() ? std::vector<std::uint64_t>{vals.size()} : shape; }
};
struct Msg {
    // (is a label, name) -> value
    std::map<std::pair<bool, Str>, Val> vals;
    bool corrupt = false;
};
Str attr_name(const std::pair<bool, Str> &k) { return (k.first ? "label_" : "") + k.second; }

struct Feat {
    Ty type = f32;
    bool sparse = false;
    std::vector<std::uint64_t> dims;
};
using Feats = std::map<Str, Feat>;

// The schema the message asks for; none if it cannot be one.
std::optional<Feats> infer(const Msg &m)
{
    if (m.corrupt) return {};
    Feats out;
    for (auto &[k, v] : m.vals) {
        if (v.type == raw_bytes || v.type == unset) return {};
        if (!v.keys.empty() && v.shape.empty()) return {};
        if (!out.emplace(attr_name(k), Feat{v.type, v.sparse(), v.dims()}).second) return {};
    }
    return out;
}
std::uint64_t product(const std::vector<std::uint64_t> &d)
{
    std::uint64_t n = 1;
    for (auto x : d) n *= x;
    return n;
}
bool fits(const Msg &m, const Feats &s)
{
    if (m.corrupt || m.vals.size() != s.size()) return false;
    std::set<Str> seen;
    for (auto &[k, v] : m.vals) {
        auto f = s.find(attr_name(k));
        if (f == s.end() || !seen.insert(attr_name(k)).second) return false;
        auto &x = f->second;
        if (v.type != x.type || v.sparse() != x.sparse || v.dims() != x.dims) return false;
        if (x.sparse) {
            if (v.keys.size() != v.vals.size()) return false;
            for (auto key : v.keys)
                if (key >= product(x.dims)) return false;
        }
        else if (v.vals.size() != product(x.dims)) return false;
    }
    return true;
}
Str wire(const Msg &m)
{
    aialgs::data::Record rec;
    for (auto &[k, v] : m.vals) {
        auto &val = (k.first ? *rec.mutable_label() : *rec.mutable_features())[k.second];
        auto put = [&](auto *t) {
            using T = std::decay_t<decltype(t->values(0))>;
            for (auto b : v.vals) {
                T x;
                std::memcpy(&x, &b, sizeof x);
                t->add_values(x);
            }
            for (auto key : v.keys) t->add_keys(key);
            for (auto dim : v.shape) t->add_shape(dim);
        };
        switch (v.type) {
        case f32: put(val.mutable_float32_tensor()); break;
        case f64: put(val.mutable_float64_tensor()); break;
        case i32: put(val.mutable_int32_tensor()); break;
        case raw_bytes: val.mutable_bytes()->add_value("raw"); break;
        case unset: break;
        }
    }
    // none of the reader's business
    if (sim::wone_in(6)) rec.set_uid("u" + std::to_string(sim::w(100)));
    if (sim::wone_in(9)) rec.set_metadata("{\"values\": [1, 2]}");
    if (sim::wone_in(9)) rec.set_configuration("c");
    Str out;
    {
        google::protobuf::io::StringOutputStream so{&out};
        google::protobuf::io::CodedOutputStream co{&so};
        co.SetSerializationDeterministic(true);
        rec.SerializeToCodedStream(&co);
    }
    if (m.corrupt) {
        if (out.empty() || sim::wflip()) out = Str("\xff\xff\xff", 3) + out;
        else out.pop_back();
    }
    return out;
}

std::uint64_t value(Ty t)
{
    auto bits = [](auto x) {
        std::uint64_t b = 0;
        std::memcpy(&b, &x, sizeof x);
        return b;
    };
    std::uint32_t k = sim::w(14);
    switch (t) {
    case f32: {
        static const std::uint32_t odd[] = {0x80000000u, 0x7f800000u, 0xff800000u, 0x7fc01234u, 1u, 0x7f7fffffu, 0x00800000u};
        return k < 7 ? odd[k] : bits(static_cast<float>(sim::wrange(-999, 999)) / 8);
    }
    case f64: {
        static const std::uint64_t odd[] = {1ull << 63, 0x7ff0000000000000ull, 0xfff0000000000000ull, 0x7ff8000000005678ull, 1ull, 0x7fefffffffffffffull, 0x3ff0000000000001ull};
        return k < 7 ? odd[k] : bits(static_cast<double>(sim::wrange(-99999, 99999)) / 64);
    }
    default: {
        static const std::int32_t odd[] = {INT32_MIN, INT32_MAX, -1, 0, 1 << 24 | 1, 1, -2};
        return bits(k < 7 ? odd[k] : static_cast<std::int32_t>(sim::wrange(-100000, 100000)));
    }
    }
}

// A value for the feature, with the given way to be wrong (-1: none).
Val make_val(const Feat &f, int wrong)
{
    Val v;
    v.type = f.type;
    bool sparse = f.sparse;
    auto dims = f.dims;
    if (wrong == 0) v.type = static_cast<Ty>((f.type + 1 + sim::w(2)) % 3);
    if (wrong == 1) sparse = !sparse;
    if (wrong == 2) {
        // another shape, often one with as many values
        switch (sim::w(4)) {
        case 0: dims.push_back(sim::wflip() ? 1 : 2); break;
        case 1: if (dims.size() > 1) std::swap(dims[0], dims[1]); else dims.insert(dims.begin(), 1); break;
        case 2: dims[sim::w(static_cast<std::uint32_t>(dims.size()))]++; break;
        default: if (dims.size() > 1) dims = {dims[0] * dims[1]}; else dims[0]++; break;
        }
    }
    std::uint64_t n = product(dims);
    if (sparse) {
        v.shape = dims;
        std::uint32_t k = n == 0 ? 0 : sim::w(5);
        std::uint64_t key = 0;
        bool sorted = !sim::wone_in(4);
        for (std::uint32_t i = 0; i < k; ++i) {
            std::uint64_t step = sim::w(static_cast<std::uint32_t>(std::min<std::uint64_t>(n, 1000)));
            if (n > 1000) step *= n / 1000;
            if (sorted) {
                if (key + step >= n) break;
                v.keys.push_back(key + step);
                key += step + 1;
                if (key >= n) break;
            }
            else v.keys.push_back(sim::wone_in(3) ? n - 1 : step);
        }
        for (std::size_t i = 0; i < v.keys.size(); ++i) v.vals.push_back(value(v.type));
        if (wrong == 3) {
            // one key or one value too many
            if (sim::wflip() || v.vals.empty()) v.vals.push_back(value(v.type)), v.vals.push_back(value(v.type)), v.keys.push_back(0);
            else v.vals.pop_back();
        }
        if (wrong == 4) {
            std::uint64_t bad = sim::wone_in(3) ? UINT64_MAX : n + sim::w(3);
            std::size_t at = sim::w(static_cast<std::uint32_t>(v.keys.size() + 1));
            v.keys.insert(v.keys.begin() + static_cast<std::ptrdiff_t>(at), bad);
            v.vals.insert(v.vals.begin() + static_cast<std::ptrdiff_t>(at), value(v.type));
        }
        if (wrong == 5) v.shape.clear();
    }
    else {
        // a dense value as large as that would have to be allocated
        if (n > 4096) dims.assign(dims.size(), n = 1);
        if (dims.size() > 1 || sim::wflip()) v.shape = dims;
        for (std::uint64_t i = 0; i < n; ++i) v.vals.push_back(value(v.type));
        if (wrong == 3) v.vals.push_back(value(v.type));
        if (wrong == 4 && !v.vals.empty()) v.vals.pop_back();
        if (wrong == 5) v.vals.clear();
    }
    if (wrong == 6) v = Val{}, v.type = raw_bytes;
    if (wrong == 7) v = Val{}, v.type = unset;
    return v;
}

struct Run {
    Dataset d;
    Data_reader_params p{};
    std::vector<Msg> msgs;
    std::optional<Feats> schema;
    bool none = false;  // no row selected
    Expected want;
    Intrusive_ptr<Data_reader> r;
    std::size_t pos = 0;
    Intrusive_ptr<Example> peeked;

    void check_schema(const Schema &s, const char *where)
    {
        SIM_CHECK(schema.has_value(), "error-missing", "%s: a schema from a message that cannot have one", where);
        auto &at = s.attributes();
        SIM_CHECK(at.size() == schema->size(), "schema-mismatch", "%s: %zu attributes, expected %zu", where, at.size(), schema->size());
        std::set<Str> seen;
        for (std::size_t i = 0; i < at.size(); ++i) {
            auto f = schema->find(at[i].name());
            SIM_CHECK(f != schema->end() && seen.insert(at[i].name()).second, "schema-mismatch", "%s: unexpected attribute '%s'", where, at[i].name().c_str());
            static const Data_type dt[] = {Data_type::float32, Data_type::float64, Data_type::int32};
            SIM_CHECK(at[i].data_type() == dt[f->second.type], "schema-mismatch", "%s: attribute '%s' has the wrong type", where, at[i].name().c_str());
            SIM_CHECK(at[i].sparse() == f->second.sparse, "schema-mismatch", "%s: attribute '%s' is %s", where, at[i].name().c_str(), at[i].sparse() ? "sparse" : "dense");
            Size_vector w{p.batch_size};
            for (auto x : f->second.dims) w.push_back(x);
            SIM_CHECK(at[i].shape() == w, "schema-mismatch", "%s: attribute '%s' has the wrong shape", where, at[i].name().c_str());
            auto idx = s.get_index(at[i].name());
            SIM_CHECK(idx && *idx == i, "schema-mismatch", "%s: '%s' is not found at its index", where, at[i].name().c_str());
        }
        SIM_CHECK(!s.get_index("no such feature"), "schema-mismatch", "%s: an index for an unknown name", where);
    }
    static std::uint64_t bits_of(const Device_array_view &a, std::size_t i)
    {
        std::uint64_t b = 0;
        std::size_t n = a.data_type() == Data_type::float64 ? 8 : 4;
        std::memcpy(&b, reinterpret_cast<const char *>(a.data()) + i * n, n);
        return b;
    }
    void compare_dense(const Str &name, const Feat &f, const Tensor &t0, const Ex &x, const std::vector<std::size_t> &rows)
    {
        auto *t = dynamic_cast<const Dense_tensor *>(&t0);
        SIM_CHECK(t != nullptr, "bad-shape", "feature '%s' is not dense", name.c_str());
        std::size_t n = product(f.dims);
        auto a = t->data();
        SIM_CHECK(a.size() == n * x.size, "bad-shape", "feature '%s' has %zu values, expected %zu", name.c_str(), a.size(), n * x.size);
        std::ptrdiff_t st = 1;
        for (std::size_t k = t->shape().size(); k > 0; --k) {
            SIM_CHECK(t->strides()[k - 1] == st, "bad-shape", "feature '%s' has unexpected strides", name.c_str());
            st *= static_cast<std::ptrdiff_t>(t->shape()[k - 1]);
        }
        for (std::size_t i = 0; i < x.size; ++i)
            for (std::size_t k = 0; k < n; ++k) {
                std::uint64_t v = bits_of(a, i * n + k);
                if (i >= rows.size()) SIM_CHECK(v == 0, "bad-padding", "feature '%s', padding row %zu: value %zu is %llx", name.c_str(), i, k, static_cast<unsigned long long>(v));
                else {
                    std::uint64_t w = val(rows[i], name).vals[k];
                    SIM_CHECK(v == w, "wrong-value", "feature '%s', row %zu (message %zu): value %zu has the bits %llx, expected %llx", name.c_str(), i, rows[i], k,
                              static_cast<unsigned long long>(v), static_cast<unsigned long long>(w));
                }
            }
    }
    void compare_sparse(const Str &name, const Feat &f, const Tensor &t0, const std::vector<std::size_t> &rows)
    {
        auto *t = dynamic_cast<const Coo_tensor *>(&t0);
        SIM_CHECK(t != nullptr, "bad-shape", "feature '%s' is not sparse", name.c_str());
        auto a = t->data();
        std::size_t e = 0;
        std::vector<stdx::span<const std::size_t>> co;
        for (std::size_t k = 0; k <= f.dims.size(); ++k) co.push_back(t->indices(k).as<std::size_t>());
        for (std::size_t k = 0; k < co.size(); ++k)
            SIM_CHECK(co[k].size() == a.size(), "bad-shape", "feature '%s' has %zu coordinates in dimension %zu and %zu values", name.c_str(), co[k].size(), k, a.size());
        for (std::size_t i = 0; i < rows.size(); ++i) {
            auto &v = val(rows[i], name);
            for (std::size_t k = 0; k < v.keys.size(); ++k, ++e) {
                SIM_CHECK(e < a.size(), "wrong-value", "feature '%s' has %zu values only; row %zu (message %zu) misses its value %zu", name.c_str(), a.size(), i, rows[i], k);
                SIM_CHECK(bits_of(a, e) == v.vals[k], "wrong-value", "feature '%s', row %zu (message %zu): value %zu has the bits %llx, expected %llx", name.c_str(), i, rows[i], k,
                          static_cast<unsigned long long>(bits_of(a, e)), static_cast<unsigned long long>(v.vals[k]));
                SIM_CHECK(co[0][e] == i, "wrong-coordinate", "feature '%s': value %zu is in row %zu, expected %zu", name.c_str(), e, co[0][e], i);
                std::uint64_t key = v.keys[k];
                for (std::size_t dim = f.dims.size(); dim > 0; --dim) {
                    std::uint64_t c = key % f.dims[dim - 1];
                    key /= f.dims[dim - 1];
                    SIM_CHECK(co[dim][e] == c, "wrong-coordinate", "feature '%s', key %llu: coordinate %zu in dimension %zu, expected %llu", name.c_str(),
                              static_cast<unsigned long long>(v.keys[k]), co[dim][e], dim, static_cast<unsigned long long>(c));
                }
            }
        }
        SIM_CHECK(e == a.size(), "wrong-value", "feature '%s' has %zu values, expected %zu", name.c_str(), a.size(), e);
    }
    const Val &val(std::size_t row, const Str &name) const
    {
        for (auto &[k, v] : msgs[row].vals)
            if (attr_name(k) == name) return v;
        std::abort();
    }
    void compare(const Example &e)
    {
        SIM_CHECK(schema.has_value(), "error-missing", "an example although there is no schema");
        SIM_CHECK(pos < want.ex.size(), "extra-example", "example %zu delivered, %zu expected", pos, want.ex.size());
        const Ex &x = want.ex[pos];
        check_schema(e.schema(), "example");
        SIM_CHECK(e.features().size() == schema->size(), "bad-shape", "%zu features, expected %zu", e.features().size(), schema->size());
        auto &rows = want.batch_rows[pos];
        SIM_CHECK(e.padding == x.size - rows.size(), "bad-padding", "example %zu has padding %zu, expected %zu", pos, e.padding, x.size - rows.size());
        for (std::size_t i = 0; i < e.features().size(); ++i) {
            const Str &name = e.schema().attributes()[i].name();
            auto &f = schema->at(name);
            auto t = e.find_feature(name);
            SIM_CHECK(t == e.features()[i], "schema-mismatch", "find_feature('%s') is not feature %zu", name.c_str(), i);
            Size_vector w{x.size};
            for (auto dim : f.dims) w.push_back(dim);
            SIM_CHECK(t->shape() == w, "bad-shape", "feature '%s' of example %zu has the wrong shape", name.c_str(), pos);
            SIM_CHECK(t->data_type() == e.schema().attributes()[i].data_type(), "bad-shape", "feature '%s' of example %zu has the wrong type", name.c_str(), pos);
            if (f.sparse) compare_sparse(name, f, *t, rows);
            else compare_dense(name, f, *t, x, rows);
        }
        SIM_CHECK(e.find_feature("no such feature") == nullptr, "schema-mismatch", "an unknown feature is found");
    }
    int read(bool peek, Outcome &o)
    {
        Intrusive_ptr<Example> e;
        if (!guarded(o, [&] {
                sim::Op_scope s(peek ? "peek_example" : "read_example");
                e = peek ? r->peek_example() : r->read_example();
            })) {
            SIM_CHECK(!peeked, "peek-lost", "after a peek: %s", o.what.c_str());
            return -1;
        }
        if (peeked) SIM_CHECK(e == peeked, "peek-mismatch", "not the example that was peeked");
        if (!e) return 0;
        compare(*e);
        if (peek) peeked = e;
        else peeked = nullptr, ++pos;
        return 1;
    }
    void reset()
    {
        sim::Op_scope s("reset");
        r->reset();
        pos = 0;
        peeked = nullptr;
    }
    void at_end()
    {
        if (none) return;
        SIM_CHECK(schema.has_value(), "error-missing", "the end although there can be no schema");
        SIM_CHECK(!want.error, "error-missing", "the end after %zu examples although there is a bad message", pos);
        SIM_CHECK(pos == want.ex.size(), "early-end", "the end after %zu of %zu examples", pos, want.ex.size());
    }
    bool refused() const { return !none && !schema; }
    void epoch()
    {
        while (true) {
            if (sim::wone_in(10)) {
                Outcome o;
                Intrusive_ptr<const Schema> s;
                bool good = guarded(o, [&] { sim::Op_scope sc("read_schema"); s = r->read_schema(); });
                // the error of a read stays
                SIM_CHECK(good || refused(), "unexpected-error", "read_schema: %s", o.what.c_str());
                if (good) {
                    SIM_CHECK((s == nullptr) == none, "schema-mismatch", "read_schema: %s", s ? "a schema from nothing" : "no schema");
                    if (s) check_schema(*s, "read_schema");
                }
            }
            if (sim::wone_in(40)) return;
            Outcome o;
            int rc = read(sim::wone_in(6), o);
            if (rc > 0) continue;
            if (rc < 0) SIM_CHECK(refused() || want.error, "unexpected-error", "after %zu examples: %s: %s", pos, o.type.c_str(), o.what.c_str());
            else at_end();
            return;
        }
    }
};

void run()
{
    sim::report_races = true;
    sim_map_seed = 0x51ed270b + 0x9e3779b9ul * sim::w(16);
    Run x;
    x.d.fmt = Fmt::recordio;
    // what the messages of the dataset look like
    std::map<std::pair<bool, Str>, Feat> plan;
    std::uint32_t nf = sim::wone_in(12) ? 0 : 1 + sim::w(4);
    bool any_sparse = sim::wflip();
    static const std::vector<Str> labels{"values", "x", "", "label_x"}, names{"values", "x", "y", "label_x", "", "label_values", "feature", "\xc3\xa9"};
    for (std::uint32_t i = 0; i < nf; ++i) {
        bool label = sim::wone_in(3);
        Feat f;
        f.type = static_cast<Ty>(sim::w(3));
        f.sparse = any_sparse && sim::wflip();
        std::uint32_t nd = 1 + sim::w(3);
        for (std::uint32_t k = 0; k < nd; ++k) f.dims.push_back(1 + sim::w(4));
        if (sim::wone_in(12)) f.dims[sim::w(nd)] = 0;
        if (f.sparse && sim::wone_in(4))
            for (auto &dim : f.dims) dim = sim::wflip() ? 1u << (8 + sim::w(12)) : 3 + sim::w(1000000);
        std::pair<bool, Str> key{label, sim::wpick(label ? labels : names)};
        // rarely two attributes of one name: that must be refused
        bool clash = false;
        for (auto &q : plan) clash = clash || (q.first != key && attr_name(q.first) == attr_name(key));
        if (clash && !sim::wone_in(8)) continue;
        plan[key] = f;
    }
    int total = static_cast<int>(sim::w(sim::wone_in(4) ? 40 : 14)), bad_one_in = sim::wflip() ? 0 : 1 + static_cast<int>(sim::w(8));
    bool first_bad = sim::wone_in(6);
    for (int i = 0; i < total; ++i) {
        bool bad = bad_one_in && sim::wone_in(static_cast<std::uint32_t>(bad_one_in)) && (i > 0 || first_bad);
        Msg m;
        auto feats = plan;
        int how = bad ? static_cast<int>(sim::w(6)) : -1;
        if (how == 1 && !feats.empty()) feats.erase(std::next(feats.begin(), sim::w(static_cast<std::uint32_t>(feats.size()))));
        if (how == 2) feats[{sim::wflip(), sim::wpick(names)}] = Feat{f32, false, {1}};
        if (how == 3 && !feats.empty()) {
            // as many values as there are attributes, but two of them of one name
            auto victim = std::next(feats.begin(), sim::w(static_cast<std::uint32_t>(feats.size())));
            auto twin = victim->first;
            auto f = victim->second;
            if (twin.first) twin = {false, attr_name(twin)};
            else if (twin.second.rfind("label_", 0) == 0) twin = {true, twin.second.substr(6)};
            else twin.second += "2";
            if (!feats.count(twin)) {
                feats[twin] = f;
                if (feats.size() > 2) {
                    auto gone = feats.begin();
                    while (attr_name(gone->first) == attr_name(twin)) ++gone;
                    feats.erase(gone);
                }
                sim::probe("two values of one attribute");
            }
        }
        std::uint32_t victim = feats.empty() ? 0 : sim::w(static_cast<std::uint32_t>(feats.size())), k = 0;
        for (auto &[key, f] : feats) m.vals[key] = make_val(f, bad && how >= 4 && k++ == victim ? static_cast<int>(sim::w(8)) : -1);
        m.corrupt = how == 0;
        x.msgs.push_back(m);
    }
    std::size_t ns = 1 + sim::w(3);
    x.d.stores.resize(ns);
    for (int i = 0; i < total; ++i) x.d.stores[static_cast<std::size_t>(i) * ns / static_cast<std::size_t>(total)].rows.push_back({std::to_string(i), false, 0});
    random_tuning(x.p);
    random_policies(x.p);
    if (sim::wone_in(4)) random_selection(x.p, static_cast<std::size_t>(total));
    auto sel = select_rows(x.d, x.p);
    x.none = sel.empty();
    if (!x.none) x.schema = infer(x.msgs[sel[0]]);
    if (x.refused()) sim::probe("no schema possible");
    // a sparse value without a shape whose count is that of the dimension
    // is not judged
    for (std::size_t i = 0; i < x.msgs.size(); ++i)
        if (x.none || i != sel[0])
            for (auto &q : x.msgs[i].vals)
                if (!q.second.keys.empty() && q.second.shape.empty()) q.second.shape = {q.second.vals.size() + 1, 2};
    std::size_t at = 0;
    for (auto &s : x.d.stores)
        for (auto &row : s.rows) {
            auto &m = x.msgs[at];
            row.bad = !x.schema || !fits(m, *x.schema);
            Str payload = wire(m);
            row.size = payload.size();
            s.bytes += put_recordio(payload, sim::wone_in(4));
            if (sim::tracing()) {
                Str t;
                for (auto &[k, v] : m.vals) {
                    t += (t.empty() ? "" : ", ") + Str(k.first ? "label " : "") + "'" + k.second + "' type " + std::to_string(v.type) + " (";
                    for (auto dim : v.shape) t += std::to_string(dim) + " ";
                    t += ") " + std::to_string(v.keys.size()) + " keys " + std::to_string(v.vals.size()) + " values";
                }
                sim::note("message %zu: %s%s%s", at, m.corrupt ? "corrupt " : "", row.bad ? "bad: " : "", t.c_str());
            }
            ++at;
        }
    random_knobs();
    random_legal_io();
    if (sim::wone_in(3)) sim::set_knob("parallel_decode_cut_off", 1);
    Stores st = make_stores(x.d, all_kinds());
    x.p.dataset = st.list;
    sim::describe("%zu attributes, %d messages %s", plan.size(), total, params_text(x.p).c_str());
    x.want = expect(x.d, x.p);
    if (x.refused()) x.want = Expected{};
    x.r = make_reader(x.d, x.p);
    if (sim::wone_in(3)) {
        random_allocator();
        random_hard_faults();
        sim::faults.armed = true;
        for (std::uint32_t i = sim::w(10); i > 0; --i) {
            Outcome e;
            int rc = x.read(sim::wone_in(5), e);
            if (rc < 0) {
                SIM_CHECK(x.refused() || x.want.error || sim::hard_faults_fired(), "unexpected-error", "%s: %s", e.type.c_str(), e.what.c_str());
                if (sim::wone_in(3)) x.reset();
                continue;
            }
            if (rc == 0) {
                x.at_end();
                break;
            }
        }
        sim::faults.armed = false;
        x.reset();
    }
    for (std::uint32_t i = 1 + sim::w(3); i > 0; --i) {
        x.epoch();
        x.reset();
    }
    for (auto &[name, f] : x.schema ? *x.schema : Feats{}) {
        if (f.sparse) sim::probe("sparse feature");
        if (f.dims.size() > 1) sim::probe("feature of several dimensions");
    }
}
}  // namespace
SIM_WORKLOAD("C29", run);
