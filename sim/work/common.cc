#include "work/common.h"
extern "C" { unsigned long sim_map_seed = 0x51ed270b; }
#include <google/protobuf/io/coded_stream.h>
#include <google/protobuf/io/zero_copy_stream_impl_lite.h>

#include <algorithm>
#include <cstring>
#include <system_error>
#include <typeinfo>

#include <cxxabi.h>
#include <iconv.h>
#include <opencv2/core.hpp>
#include <opencv2/imgcodecs.hpp>
#include <zlib.h>

#include "mlio/detail/protobuf/recordio_protobuf.pb.h"

using namespace mlio;

namespace wk {
const char *const pad_row = "<pad>";

Str esc(const Str &s, std::size_t max)
{
    Str o;
    for (unsigned char c : s) {
        if (o.size() > max) { o += "..."; break; }
        if (c == '\\') o += "\\\\";
        else if (c >= 32 && c < 127) o += static_cast<char>(c);
        else { char b[8]; snprintf(b, sizeof b, "\\x%02x", c); o += b; }
    }
    return o;
}

Str gz(const Str &data, int wbits)
{
    z_stream s{};
    deflateInit2(&s, 6, Z_DEFLATED, wbits, 8, Z_DEFAULT_STRATEGY);
    Str out(deflateBound(&s, data.size()) + 64, '\0');
    s.next_in = reinterpret_cast<Bytef *>(const_cast<char *>(data.data()));
    s.avail_in = static_cast<uInt>(data.size());
    s.next_out = reinterpret_cast<Bytef *>(&out[0]);
    s.avail_out = static_cast<uInt>(out.size());
    deflate(&s, Z_FINISH);
    out.resize(s.total_out);
    deflateEnd(&s);
    return out;
}

Str gz_random(const Str &data)
{
    if (sim::wone_in(4)) return gz(data, 15);
    std::size_t members = 1 + sim::w(3);
    if (members == 1) return gz(data, 31);
    Str out;
    std::size_t pos = 0;
    for (std::size_t i = 0; i < members; ++i) {
        std::size_t n = i + 1 == members ? data.size() - pos
                                         : sim::w(static_cast<std::uint32_t>(data.size() - pos + 1));
        out += gz(data.substr(pos, n), 31);
        pos += n;
    }
    return out;
}

Memory_slice to_slice(const Str &s)
{
    // The workload's own allocation: not a place for injected failures.
    struct Calm {
        bool armed = std::exchange(sim::faults.armed, false);
        ~Calm() { sim::faults.armed = armed; }
    } calm;
    auto b = memory_allocator().allocate(s.size());
    if (!s.empty()) std::memcpy(b->data(), s.data(), s.size());
    return Memory_slice{b}.first(s.size());
}

Str from_slice(const Memory_slice &s)
{
    return s.empty() ? Str{} : Str(reinterpret_cast<const char *>(s.data()), s.size());
}

static std::uint64_t fnv(const void *p, std::size_t n, std::uint64_t h = 1469598103934665603ULL)
{
    auto *c = static_cast<const unsigned char *>(p);
    for (std::size_t i = 0; i < n; ++i) { h ^= c[i]; h *= 1099511628211ULL; }
    return h;
}

static std::uint64_t mix(std::uint64_t x)
{
    x += 0x9e3779b97f4a7c15ULL;
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL;
    return x ^ (x >> 31);
}

std::vector<Row> Dataset::rows() const
{
    std::vector<Row> r;
    for (auto &s : stores) r.insert(r.end(), s.rows.begin(), s.rows.end());
    return r;
}

std::size_t Dataset::num_rows() const
{
    std::size_t n = 0;
    for (auto &s : stores) n += s.rows.size();
    return n;
}

// ---------------------------------------------------------------- text
static Str random_word(std::uint32_t max)
{
    static const char *pieces[] = {"a", "b", "Z", "7", " ", "_", "\t", ";", "'", "\xc3\xa9", "\xe2\x82\xac", "\xf0\x9f\x98\x80",
                                   "\xef\xbb\xbf", "#", "x", "q", "\\"};
    Str s;
    std::uint32_t n = sim::w(max + 1);
    for (std::uint32_t i = 0; i < n; ++i) s += pieces[sim::w(17)];
    return s;
}

static const char *pick_eol(int mode)
{
    static const char *eols[] = {"\n", "\r\n", "\r"};
    return mode < 3 ? eols[mode] : eols[sim::w(3)];
}

static void gen_text(const Gen &g, Dataset &d, const std::vector<int> &split)
{
    int id = 0;
    for (int n : split) {
        Store_data s;
        int mode = g.simple ? 0 : static_cast<int>(sim::w(4));
        if (!g.simple && sim::wone_in(4)) s.bytes = "\xef\xbb\xbf";
        Str prev_eol;
        for (int i = 0; i < n; ++i) {
            Row r;
            bool blank = !g.simple && sim::wone_in(8);
            if (!blank) r.canon = "r" + std::to_string(id) + ":" + (g.simple ? Str{} : random_word(sim::wone_in(6) ? 40 : 6));
            // A mark in front of a line is data, except at the start of the source.
            if (!g.simple && !blank && !(i == 0 && s.bytes.empty()) && sim::wone_in(12)) r.canon = "\xef\xbb\xbf" + r.canon;
            r.size = r.canon.size();
            Str eol = pick_eol(mode);
            if (blank && prev_eol == "\r" && eol[0] == '\n') eol = "\r";
            bool last = i + 1 == n;
            if (last && !blank && sim::wone_in(2)) eol = "";
            std::size_t b = s.bytes.size();
            s.bytes += r.canon + eol;
            prev_eol = eol;
            s.extent.push_back({b, s.bytes.size()});
            s.rows.push_back(r);
            ++id;
        }
        d.stores.push_back(s);
    }
}

// ---------------------------------------------------------------- csv
static Str num_text(double v)
{
    char b[40];
    snprintf(b, sizeof b, "%.3f", v);
    return b;
}
static Str f64_canon(double v)
{
    if (v != v) return "nan";
    char b[40];
    snprintf(b, sizeof b, "%a", v);
    return b;
}

static Str csv_quote(const Str &v, char delim, char quote, bool force)
{
    bool need = force;
    for (char c : v)
        if (c == delim || c == quote || c == '\n' || c == '\r') need = true;
    if (!need) return v;
    Str o(1, quote);
    for (char c : v) {
        o += c;
        if (c == quote) o += c;
    }
    return o + quote;
}

static void gen_csv(const Gen &g, Dataset &d, const std::vector<int> &split)
{
    auto &p = d.csv;
    int ncols = g.simple ? 2 : 2 + static_cast<int>(sim::w(3));
    enum T { i64, f64, str, i32, f32, u8 };
    std::vector<T> types{i64};
    for (int i = 1; i < ncols; ++i)
        types.push_back(g.simple ? str : static_cast<T>(sim::w(6)));
    if (!g.simple) {
        if (sim::wone_in(4)) p.delimiter = '\t';
        else if (sim::wone_in(4)) p.delimiter = ';';
        if (sim::wone_in(4)) p.quote_char = '\'';
        if (sim::wone_in(3)) p.comment_char = '#';
        p.allow_quoted_new_lines = sim::wflip();
    }
    int hdr = g.simple ? 0 : static_cast<int>(sim::w(4));  // 0: header row 0, 1: none, 2: header after junk rows, 3: single header
    if (hdr == 1) p.header_row_index = std::nullopt;
    if (hdr == 2) p.header_row_index = 1 + sim::w(2);
    if (hdr == 3) p.has_single_header = true;
    std::vector<Str> names;
    for (int i = 0; i < ncols; ++i) names.push_back("c" + std::to_string(i));
    if (!g.simple && sim::wone_in(4)) p.column_names = names;
    // Explicit types keep the model independent of type inference.
    static const Data_type dts[] = {Data_type::int64, Data_type::float64, Data_type::string,
                                    Data_type::int32, Data_type::float32, Data_type::uint8};
    for (int i = 0; i < ncols; ++i) p.column_types_by_index[static_cast<std::size_t>(i)] = dts[types[static_cast<std::size_t>(i)]];
    std::vector<bool> used(static_cast<std::size_t>(ncols), true);
    if (!g.simple && ncols > 2 && sim::wone_in(5)) {
        p.use_columns_by_index.insert(0);
        for (int i = 1; i < ncols; ++i) {
            if (sim::wflip()) p.use_columns_by_index.insert(static_cast<std::size_t>(i));
            else used[static_cast<std::size_t>(i)] = false;
        }
    }
    int trunc_mode = 0;
    std::size_t max_field = 0;
    if (!g.simple && sim::wone_in(5)) {
        max_field = 12;
        p.max_field_length = max_field;
        trunc_mode = static_cast<int>(sim::w(2));
        p.max_field_length_handling = trunc_mode == 0 ? Max_field_length_handling::treat_as_bad : Max_field_length_handling::truncate;
    }
    int id = 0;
    bool first_store = true;
    bool first_row = true;
    for (int n : split) {
        Store_data s;
        int mode = g.simple ? 0 : static_cast<int>(sim::w(4));
        if (!g.simple && sim::wone_in(4)) s.bytes = "\xef\xbb\xbf";
        auto eol = [&](bool blank_before) {
            Str e = pick_eol(mode);
            (void)blank_before;
            return e;
        };
        auto put_noise = [&] {
            if (g.simple) return;
            if (sim::wone_in(10)) {  // blank line (skipped)
                bool cr = !s.bytes.empty() && s.bytes.back() == '\r';
                Str e = eol(true);
                if (cr && e[0] == '\n') e = "\r";
                s.bytes += e;
            }
            if (p.comment_char && sim::wone_in(6)) s.bytes += "#" + random_word(8) + "\"," + eol(false);
        };
        bool header_here = hdr == 0 || hdr == 2 || (hdr == 3 && first_store);
        if (header_here && p.header_row_index) {
            for (std::size_t i = 0; i < *p.header_row_index; ++i) s.bytes += "junk" + std::to_string(i) + eol(false);
            put_noise();
            for (int i = 0; i < ncols; ++i) {
                if (i) s.bytes += p.delimiter;
                s.bytes += csv_quote(names[static_cast<std::size_t>(i)], p.delimiter, p.quote_char, !g.simple && sim::wone_in(4));
            }
            s.bytes += eol(false);
        }
        for (int i = 0; i < n; ++i) {
            put_noise();
            Row r;
            bool bad = g.bad_one_in && sim::wone_in(static_cast<std::uint32_t>(g.bad_one_in));
            bool can_count = !first_row && g.first_bad_ok == false;
            if (first_row && !g.first_bad_ok) bad = false;
            int bad_kind = bad ? static_cast<int>(sim::w(can_count ? 4 : 2)) : -1;
            Str line, canon;
            bool field_bad = false;
            for (int c = 0; c < ncols; ++c) {
                auto t = types[static_cast<std::size_t>(c)];
                Str raw, cv;
                if (c == 0) {
                    raw = std::to_string(id);
                    cv = raw;
                    if (bad_kind == 0 || (bad_kind == 1 && !(max_field && trunc_mode == 0))) raw = sim::wflip() ? raw + "x" : Str{};
                    if (bad_kind == 1 && max_field && trunc_mode == 0) raw = "0000000000000000" + raw;
                }
                else
                    switch (t) {
                    case i64:
                    case i32: {
                        std::int64_t v = sim::wrange(-1000, 1000);
                        raw = cv = std::to_string(v);
                        break;
                    }
                    case u8: {
                        raw = cv = std::to_string(sim::w(256));
                        break;
                    }
                    case f64:
                    case f32: {
                        double v = static_cast<double>(sim::wrange(-4000, 4000)) / 8;
                        raw = num_text(v);
                        cv = f64_canon(v);
                        break;
                    }
                    case str: {
                        raw = g.simple ? "s" + std::to_string(id) : random_word(sim::wone_in(8) ? 40 : 5);
                        if (!g.simple && sim::wone_in(3)) {
                            raw += p.delimiter;
                            raw += random_word(2);
                        }
                        if (!g.simple && sim::wone_in(4)) {
                            raw += p.quote_char;
                            raw += random_word(2);
                        }
                        if (!g.simple && p.allow_quoted_new_lines && sim::wone_in(3)) raw += Str(pick_eol(3)) + random_word(3);
                        cv = raw;
                        if (max_field && cv.size() > max_field) {
                            if (trunc_mode == 0) { if (used[static_cast<std::size_t>(c)]) field_bad = true; }
                            else cv = cv.substr(0, max_field);
                        }
                        break;
                    }
                    }
                if (c) line += p.delimiter;
                line += csv_quote(raw, p.delimiter, p.quote_char, t == str && !g.simple && sim::wone_in(4));
                if (used[static_cast<std::size_t>(c)]) canon += (c ? "|" : "") + cv;
            }
            if (bad_kind == 2) line = line.substr(0, line.rfind(p.delimiter)), line = std::to_string(id);
            if (bad_kind == 3) line += Str(1, p.delimiter) + "extra";
            if (field_bad && !g.bad_one_in) {  // too long a field where no bad rows are wanted
                line.clear();
                canon.clear();
                for (int c = 0; c < ncols; ++c) {
                    auto t = types[static_cast<std::size_t>(c)];
                    Str raw = c == 0 ? std::to_string(id) : t == str ? "s" : "1";
                    Str cv = c == 0 || t == str ? raw : (t == f64 || t == f32) ? f64_canon(1) : "1";
                    if (c) line += p.delimiter;
                    line += raw;
                    if (used[static_cast<std::size_t>(c)]) canon += (c ? "|" : "") + cv;
                }
                field_bad = false;
            }
            r.canon = canon;
            r.bad = bad || field_bad;
            r.size = line.size();
            if (line[0] == '#' && p.comment_char) line[0] = '#';
            bool last = i + 1 == n;
            std::size_t b = s.bytes.size();
            s.bytes += line;
            if (!(last && sim::wone_in(2))) s.bytes += eol(false);
            s.extent.push_back({b, s.bytes.size()});
            s.rows.push_back(r);
            first_row = false;
            ++id;
        }
        first_store = false;
        d.stores.push_back(s);
    }
}

// ---------------------------------------------------------------- recordio
static void put_u32(Str &s, std::uint32_t v)
{
    s.append(reinterpret_cast<const char *>(&v), 4);
}

static void put_part(Str &out, const Str &payload, std::uint32_t kind)
{
    put_u32(out, 0xced7230a);
    put_u32(out, (kind << 29) | static_cast<std::uint32_t>(payload.size()));
    out += payload;
    while (out.size() % 4 != 0) out += '\0';
}

static void put_record(Str &out, const Str &payload, bool may_split)
{
    if (may_split && !payload.empty() && sim::wone_in(4)) {
        std::size_t parts = 2 + sim::w(3);
        std::size_t pos = 0;
        for (std::size_t i = 0; i < parts; ++i) {
            std::size_t n = i + 1 == parts ? payload.size() - pos
                                           : sim::w(static_cast<std::uint32_t>(payload.size() - pos + 1));
            put_part(out, payload.substr(pos, n), i == 0 ? 1 : i + 1 == parts ? 3 : 2);
            pos += n;
        }
        return;
    }
    put_part(out, payload, 0);
}

static Str f_canon(double v) { return f64_canon(v); }

static void gen_recordio(const Gen &g, Dataset &d, const std::vector<int> &split)
{
    sim_map_seed = 0x51ed270b + 0x9e3779b9ul * sim::w(16);  // order in protobuf maps
    using aialgs::data::Record;
    struct Feat { Str name; int type; bool sparse; std::vector<std::uint64_t> shape; bool with_shape; };
    std::vector<Feat> feats;
    std::uint32_t nf = g.simple ? 1 : 1 + sim::w(3);
    for (std::uint32_t i = 0; i < nf; ++i) {
        Feat f;
        f.name = "f" + std::to_string(i);
        f.type = g.simple ? 0 : static_cast<int>(sim::w(3));
        f.sparse = g.allow_sparse && !g.simple && sim::wone_in(3);
        f.shape.push_back(1 + sim::w(4));
        if (!g.simple && sim::wone_in(3)) f.shape.push_back(1 + sim::w(3));
        f.with_shape = f.sparse || f.shape.size() > 1 || sim::wone_in(2);
        if (f.sparse) d.sparse = true;
        feats.push_back(f);
    }
    int id = 0;
    bool first_row = true;
    for (int n : split) {
        Store_data s;
        for (int i = 0; i < n; ++i) {
            bool bad = g.bad_one_in && sim::wone_in(static_cast<std::uint32_t>(g.bad_one_in));
            if (first_row) bad = bad && g.first_bad_ok && false;
            int bk = bad ? static_cast<int>(sim::w(9)) : -1;
            Record rec;
            (*rec.mutable_label())["id"].mutable_int32_tensor()->add_values(id);
            Str canon = "id=" + std::to_string(id);
            std::uint32_t bad_feat = bad ? sim::w(nf) : 0;
            for (std::uint32_t k = 0; k < nf; ++k) {
                auto &f = feats[k];
                int fk = bad && bad_feat == k ? bk : -1;
                if (fk == 1) continue;  // missing feature
                std::size_t total = 1;
                for (auto x : f.shape) total *= x;
                auto &val = (*rec.mutable_features())[f.name];
                int type = fk == 2 ? (f.type + 1) % 3 : f.type;
                bool sparse = f.sparse;
                if (fk == 3) sparse = !sparse;
                std::vector<std::uint64_t> keys;
                std::vector<int> vals;
                canon += "|" + f.name + "=";
                for (std::size_t e = 0; e < total; ++e) {
                    if (sparse && sim::wflip()) continue;
                    int v = static_cast<int>(sim::wrange(-99, 99));
                    if (sparse && v == 0) v = 1;
                    if (sparse) keys.push_back(e);
                    vals.push_back(v);
                    canon += (sparse ? std::to_string(e) + ":" : Str{}) + f_canon(type == 2 ? v : v / 4.0) + ",";
                }
                if (fk == 3 && sparse && keys.empty()) { keys.push_back(0); vals.push_back(1); }
                if (fk == 4) { vals.push_back(3); if (sparse) { keys.push_back(total + 5); } }
                if (fk == 5) { if (sparse) { keys.push_back(total); vals.push_back(1); } else if (!vals.empty()) vals.pop_back(); else vals.push_back(1); }
                if (fk == 6) { if (sparse) vals.push_back(9), vals.push_back(8), keys.push_back(0); else vals.push_back(1); }
                auto put = [&](auto *t) {
                    for (int v : vals) t->add_values(static_cast<std::decay_t<decltype(t->values(0))>>(type == 2 ? v : v / 4.0));
                    for (auto kk : keys) t->add_keys(kk);
                    bool ws = f.with_shape || sparse;
                    if (ws) for (auto x : f.shape) t->add_shape(x);
                    if (fk == 7) { if (!ws) for (auto x : f.shape) t->add_shape(x); t->add_shape(2); }
                };
                if (type == 0) put(val.mutable_float32_tensor());
                else if (type == 1) put(val.mutable_float64_tensor());
                else put(val.mutable_int32_tensor());
            }
            if (bk == 8) (*rec.mutable_features())["extra"].mutable_float32_tensor()->add_values(1);
            Str payload;
            {
                // The order of the features must not depend on hashing.
                google::protobuf::io::StringOutputStream so{&payload};
                google::protobuf::io::CodedOutputStream co{&so};
                co.SetSerializationDeterministic(true);
                rec.SerializeToCodedStream(&co);
            }
            if (bk == 0) payload = Str("\xff\xff\xff", 3) + payload;
            Row r;
            r.canon = canon;
            r.bad = bad;
            r.size = payload.size();
            std::size_t b = s.bytes.size();
            put_record(s.bytes, payload, g.split_records && !g.simple);
            s.extent.push_back({b, s.bytes.size()});
            s.rows.push_back(r);
            first_row = false;
            ++id;
        }
        d.stores.push_back(s);
    }
}

// ---------------------------------------------------------------- images
static Str image_canon(const std::uint8_t *px, std::size_t n)
{
    char b[32];
    snprintf(b, sizeof b, "img%016llx", static_cast<unsigned long long>(fnv(px, n)));
    return b;
}

static void gen_image(const Gen &g, Dataset &d, const std::vector<int> &split)
{
    int h = 1 + static_cast<int>(sim::w(3)), wd = 1 + static_cast<int>(sim::w(3));
    int ch = g.simple ? 3 : std::vector<int>{3, 1, 4}[sim::w(3)];
    d.img.image_dimensions = {static_cast<std::size_t>(ch), static_cast<std::size_t>(h), static_cast<std::size_t>(wd)};
    d.img.to_rgb = ch == 3 && !g.simple && sim::wflip();
    d.img.image_frame = d.fmt == Fmt::image ? Image_frame::none : Image_frame::recordio;
    int id = 0;
    std::vector<Store_data> stores;
    for (int n : split) {
        Store_data s;
        for (int i = 0; i < n; ++i) {
            bool bad = g.bad_one_in && sim::wone_in(static_cast<std::uint32_t>(g.bad_one_in));
            int extra_h = g.simple ? 0 : static_cast<int>(sim::w(3)), extra_w = g.simple ? 0 : static_cast<int>(sim::w(3));
            cv::Mat m(h + extra_h, wd + extra_w, ch == 1 ? CV_8UC1 : ch == 3 ? CV_8UC3 : CV_8UC4);
            for (int y = 0; y < m.rows; ++y)
                for (int x = 0; x < m.cols * ch; ++x)
                    m.ptr(y)[x] = static_cast<std::uint8_t>(mix(static_cast<std::uint64_t>(id) * 1000003 + static_cast<std::uint64_t>(y * 100 + x)));
            std::vector<uchar> png;
            cv::imencode(".png", m, png, {cv::IMWRITE_PNG_COMPRESSION, 1});
            std::vector<std::uint8_t> px;
            int y0 = (m.rows - h) / 2, x0 = (m.cols - wd) / 2;
            for (int y = 0; y < h; ++y)
                for (int x = 0; x < wd; ++x)
                    for (int c = 0; c < ch; ++c)
                        px.push_back(m.ptr(y0 + y)[(x0 + x) * ch + (d.img.to_rgb && ch == 3 ? 2 - c : c)]);
            Str payload(png.begin(), png.end());
            if (bad) {
                switch (sim::w(3)) {
                case 0: payload = Str("\x89PNG\r\n\x1a\n", 8); break;
                case 1: payload = "not an image at all"; break;
                default: payload[1] = 'X'; break;
                }
            }
            if (d.fmt == Fmt::image_rec) payload = Str(24, static_cast<char>(id)) + payload;
            Row r;
            r.canon = image_canon(px.data(), px.size());
            r.bad = bad;
            r.size = payload.size();
            if (d.fmt == Fmt::image) {
                Store_data one;
                one.bytes = payload;
                one.extent.push_back({0, payload.size()});
                one.rows.push_back(r);
                stores.push_back(one);
            }
            else {
                std::size_t b = s.bytes.size();
                put_record(s.bytes, payload, g.split_records && !g.simple);
                s.extent.push_back({b, s.bytes.size()});
                s.rows.push_back(r);
            }
            ++id;
        }
        if (d.fmt == Fmt::image_rec) stores.push_back(s);
    }
    d.stores = std::move(stores);
}

Dataset make_dataset(const Gen &g)
{
    Dataset d;
    d.fmt = sim::wpick(g.fmts);
    int max_rows = g.max_rows;
    if (d.fmt == Fmt::image || d.fmt == Fmt::image_rec) max_rows = std::min(max_rows, std::max(g.min_rows, 12));
    int total = g.min_rows + static_cast<int>(sim::w(static_cast<std::uint32_t>(std::max(1, max_rows - g.min_rows + 1))));
    int ns = 1 + static_cast<int>(sim::w(static_cast<std::uint32_t>(g.max_stores)));
    std::vector<int> split;
    int left = total;
    for (int i = 0; i < ns; ++i) {
        int n = i + 1 == ns ? left : static_cast<int>(sim::w(static_cast<std::uint32_t>(left + 1)));
        split.push_back(n);
        left -= n;
    }
    switch (d.fmt) {
    case Fmt::csv: gen_csv(g, d, split); break;
    case Fmt::text: gen_text(g, d, split); break;
    case Fmt::recordio: gen_recordio(g, d, split); break;
    default: gen_image(g, d, split); break;
    }
    if (sim::tracing()) {
        sim::note("dataset %s stores=%zu rows=%zu", fmt_name(d.fmt), d.stores.size(), d.num_rows());
        for (auto &s : d.stores) sim::note("  store %zu bytes: %s", s.bytes.size(), esc(s.bytes, 300).c_str());
    }
    sim::describe("%s rows=%zu stores=%zu", fmt_name(d.fmt), d.num_rows(), d.stores.size());
    return d;
}

// ---------------------------------------------------------------- stores
namespace {
class Frag_stream final : public Input_stream_base {
public:
    Frag_stream(Intrusive_ptr<const Frag_store> s) : s_{std::move(s)} { s_->live_streams++; }
    ~Frag_stream() override { s_->live_streams--; }
    using Input_stream_base::read;
    std::size_t read(Mutable_memory_span dst) override
    {
        sim::yield_point("frag_read");
        if (closed_) throw Stream_error{"closed"};
        auto &c = s_->cfg_;
        if (c.delay_us) sim::sleep_us(c.delay_us);
        if (dst.empty()) return 0;
        if (s_->fail_left < 0) s_->fail_left = c.fail_times;
        if (pos_ >= c.fail_at && s_->fail_left > 0) {
            s_->fail_left--;
            s_->failures++;
            sim::fault_injected(sim::f_stream_fail);
            switch (c.fail_kind) {
            case 0: throw std::system_error{EIO, std::generic_category(), "frag"};
            case 1: throw Stream_error{"frag"};
            case 2: throw Not_supported_error{"frag"};
            default: throw std::runtime_error{"frag"};
            }
        }
        std::size_t n = std::min(dst.size(), s_->data_.size() - pos_);
        if (pos_ < c.fail_at && s_->fail_left > 0) n = std::min<std::size_t>(n, c.fail_at - pos_);
        if (c.max_piece > 0 && n > 1) sim::fault_injected(sim::f_stream_short);
        if (c.max_piece > 0 && n > 1) n = 1 + sim::choose(sim::F, static_cast<std::uint32_t>(std::min<std::size_t>(n, static_cast<std::size_t>(c.max_piece))));
        std::memcpy(dst.data(), s_->data_.data() + pos_, n);
        pos_ += n;
        s_->consumed += n;
        return n;
    }
    void seek(std::size_t p) override
    {
        if (!s_->cfg_.seekable) { Input_stream_base::seek(p); return; }
        if (closed_) throw Stream_error{"closed"};
        if (p > s_->data_.size()) throw std::invalid_argument{"frag seek"};
        pos_ = p;
    }
    std::size_t size() const override
    {
        if (!s_->cfg_.seekable) return Input_stream_base::size();
        if (closed_) throw Stream_error{"closed"};
        return s_->data_.size();
    }
    std::size_t position() const override
    {
        if (!s_->cfg_.seekable) return Input_stream_base::position();
        if (closed_) throw Stream_error{"closed"};
        return pos_;
    }
    bool seekable() const noexcept override { return s_->cfg_.seekable; }
    void close() noexcept override { closed_ = true; }
    bool closed() const noexcept override { return closed_; }
private:
    Intrusive_ptr<const Frag_store> s_;
    std::size_t pos_ = 0;
    bool closed_ = false;
};
}  // namespace

Intrusive_ptr<Input_stream> Frag_store::open_read() const
{
    sim::yield_point("frag_open");
    if (open_fail_left < 0) open_fail_left = cfg_.open_fail_times;
    if (open_fail_left > 0) {
        open_fail_left--;
        failures++;
        sim::fault_injected(sim::f_stream_fail);
        throw std::system_error{ENOENT, std::generic_category(), "frag"};
    }
    opens++;
    return make_intrusive<Frag_stream>(Intrusive_ptr<const Frag_store>{this, true});
}

const char *kind_name(Kind k)
{
    static const char *n[] = {"mem", "file-mmap", "file", "gz-file", "gz-file-mmap", "gz-mem", "custom", "custom-seek", "s3", "gz-s3", "pipe"};
    return n[static_cast<int>(k)];
}

std::vector<Kind> all_kinds(bool pipes)
{
    std::vector<Kind> k{Kind::file_stream, Kind::file_mmap, Kind::mem, Kind::frag, Kind::gz_file, Kind::gz_file_mmap, Kind::gz_mem, Kind::frag_seek, Kind::s3, Kind::gz_s3};
    if (pipes) k.push_back(Kind::pipe);
    return k;
}

Intrusive_ptr<const S3_client> s3_client()
{
    static Intrusive_ptr<const S3_client> c;
    if (c == nullptr) {
        bool armed = std::exchange(sim::faults.armed, false);
        S3_client_options o;
        o.access_key_id = "id";
        o.secret_key = "secret";
        c = make_s3_client(o);
        sim::faults.armed = armed;
    }
    return c;
}

Intrusive_ptr<Data_store> make_store(const Str &bytes, Kind k, const Str &name, Str *path_out)
{
    Str path = "/sim/" + name;
    Intrusive_ptr<Data_store> st;
    switch (k) {
    case Kind::mem:
        return make_intrusive<In_memory_store>(to_slice(bytes));
    case Kind::gz_mem:
        return make_intrusive<In_memory_store>(to_slice(gz_random(bytes)), Compression::gzip);
    case Kind::file_mmap:
    case Kind::file_stream:
        sim::fs::add_file(path, bytes);
        if (path_out) *path_out = path;
        return make_intrusive<File>(path, k == Kind::file_mmap);
    case Kind::gz_file:
    case Kind::gz_file_mmap:
        path += ".gz";
        sim::fs::add_file(path, gz_random(bytes));
        if (path_out) *path_out = path;
        return make_intrusive<File>(path, k == Kind::gz_file_mmap);
    case Kind::frag:
    case Kind::frag_seek: {
        Frag_cfg c;
        c.max_piece = std::vector<int>{0, 1, 2, 3, 7, 64}[sim::w(6)];
        c.seekable = k == Kind::frag_seek;
        return make_intrusive<Frag_store>(name, bytes, c);
    }
    case Kind::s3:
    case Kind::gz_s3: {
        bool gz = k == Kind::gz_s3;
        Str key = "dir/" + name + (gz ? ".gz" : "");
        Str ver = sim::wone_in(3) ? "v1" : "";
        sim::s3::put("bucket", key, gz ? gz_random(bytes) : bytes, ver);
        // Another version does not matter to a reader that asks for one.
        if (!ver.empty() && sim::wflip()) sim::s3::put("bucket", key, "another version", "v2");
        if (sim::wone_in(4)) sim::s3::set_delays({0, 100, 0, 2000, 30});
        return make_intrusive<S3_object>(s3_client(), "s3://bucket/" + key, ver);
    }
    case Kind::pipe: {
        std::vector<sim::fs::Fifo_op> ops;
        ops.push_back({sim::fs::Fifo_op::open, sim::w(4) * 1000, {}});
        std::size_t pos = 0;
        while (pos < bytes.size()) {
            std::size_t n = 1 + sim::w(static_cast<std::uint32_t>(std::min<std::size_t>(bytes.size() - pos, 200)));
            ops.push_back({sim::fs::Fifo_op::write, sim::w(4) * 1000, bytes.substr(pos, n)});
            pos += n;
        }
        ops.push_back({sim::fs::Fifo_op::close, sim::w(4) * 1000, {}});
        sim::fs::add_fifo(path + "_0", ops);
        if (path_out) *path_out = path;
        return make_intrusive<Sagemaker_pipe>(path, std::chrono::seconds{60});
    }
    }
    return st;
}

Stores make_stores(const Dataset &d, const std::vector<Kind> &kinds, const Str &prefix)
{
    Stores s;
    int i = 0;
    Str txt;
    for (auto &sd : d.stores) {
        Kind k = sim::wpick(kinds);
        Str path;
        s.list.push_back(make_store(sd.bytes, k, prefix + std::to_string(i++), &path));
        s.kinds.push_back(k);
        s.paths.push_back(path);
        if (k == Kind::pipe) s.has_pipe = true;
        txt += Str(kind_name(k)) + " ";
    }
    sim::describe("kinds: %s", txt.c_str());
    return s;
}

// ---------------------------------------------------------------- readers
Intrusive_ptr<Data_reader> make_reader(const Dataset &d, Data_reader_params p)
{
    switch (d.fmt) {
    case Fmt::csv: return make_intrusive<Csv_reader>(std::move(p), d.csv);
    case Fmt::text: return make_intrusive<Text_line_reader>(std::move(p));
    case Fmt::recordio: return make_intrusive<Recordio_protobuf_reader>(std::move(p));
    default: return make_intrusive<Image_reader>(std::move(p), d.img);
    }
}

std::vector<int> interesting_sizes() { return {1, 2, 3, 5, 8, 16, 64}; }

void random_knobs()
{
    static const std::vector<std::size_t> sz{0, 8, 13, 16, 24, 64, 256, 4096};
    // 0 keeps the shipped value for the small ones; the 32 MiB buffers are
    // always reduced so that a run stays cheap.
    std::size_t c = sim::wpick(sz);
    sim::set_knob("chunk_size", c ? c : 65536);
    std::size_t f = sim::wpick(sz);
    sim::set_knob("inflate_buffer", f ? (sim::wone_in(3) ? 1 : f) : 65536);
    std::size_t u = sim::wpick(sz);
    sim::set_knob("utf8_buffer", u ? u : 65536);
    std::size_t i = sim::wpick(sz);
    sim::set_knob("instance_buffer", i ? i : 65536);
    std::size_t cut = std::vector<std::size_t>{10'000'000, 1, 4, 12}[sim::w(4)];
    sim::set_knob("parallel_decode_cut_off", cut);
    sim::set_hw_threads(1 + static_cast<int>(sim::w(4)));
}

void random_legal_io()
{
    if (sim::wflip()) {
        sim::faults.p[sim::f_short_read] = 0.3;
        sim::faults.budget[sim::f_short_read] = 1 << 20;
    }
    if (sim::wflip()) {
        sim::faults.p[sim::f_spurious_wake] = 0.05;
        sim::faults.budget[sim::f_spurious_wake] = 50;
    }
}

void random_tuning(Data_reader_params &p)
{
    p.batch_size = 1 + sim::w(6);
    p.num_prefetched_examples = sim::w(5);
    p.num_parallel_reads = sim::w(5);
}

Str params_text(const Data_reader_params &p)
{
    char b[400];
    snprintf(b, sizeof b, "batch=%zu prefetch=%zu parallel=%zu last=%d bad=%d skip=%zu read=%zd shard=%zu/%zu sample=%g shuffle=%d window=%zu seed=%zd reshuffle=%d",
             p.batch_size, p.num_prefetched_examples, p.num_parallel_reads, static_cast<int>(p.last_example_handling),
             static_cast<int>(p.bad_example_handling), p.num_instances_to_skip,
             p.num_instances_to_read ? static_cast<ssize_t>(*p.num_instances_to_read) : -1, p.shard_index, p.num_shards,
             p.sample_ratio ? static_cast<double>(*p.sample_ratio) : 0.0, p.shuffle_instances, p.shuffle_window,
             p.shuffle_seed ? static_cast<ssize_t>(*p.shuffle_seed) : -1, p.reshuffle_each_epoch);
    return b;
}

Str Ex::text() const
{
    Str s = "size=" + std::to_string(size) + " padding=" + std::to_string(padding) + " [";
    for (auto &r : rows) s += esc(r, 40) + " ; ";
    return s + "]";
}

namespace {
template <class T>
Str num_canon(T v, bool as_float)
{
    if (as_float) return f64_canon(static_cast<double>(v));
    return std::to_string(+v);
}

// Value of element i of a dense tensor as text.
Str elem(const Dense_tensor &t, std::size_t i, bool recordio)
{
    auto v = t.data();
    SIM_CHECK(i < v.size(), "tensor-too-small", "element %zu of a tensor with %zu elements", i, v.size());
    switch (t.data_type()) {
    case Data_type::string: return v.as<std::string>()[i];
    case Data_type::float32: return f64_canon(static_cast<double>(v.as<float>()[i]));
    case Data_type::float64: return f64_canon(v.as<double>()[i]);
    case Data_type::int8: return num_canon(v.as<std::int8_t>()[i], false);
    case Data_type::int16: return num_canon(v.as<std::int16_t>()[i], false);
    case Data_type::int32: return num_canon(v.as<std::int32_t>()[i], recordio);
    case Data_type::int64: return num_canon(v.as<std::int64_t>()[i], false);
    case Data_type::uint8: return num_canon(v.as<std::uint8_t>()[i], false);
    case Data_type::uint16: return num_canon(v.as<std::uint16_t>()[i], false);
    case Data_type::uint32: return num_canon(v.as<std::uint32_t>()[i], false);
    case Data_type::uint64: return num_canon(v.as<std::uint64_t>()[i], false);
    case Data_type::size: return num_canon(v.as<std::size_t>()[i], false);
    default: return "?";
    }
}
}  // namespace

Ex decode(const Example &e, const Dataset &d)
{
    Ex x;
    x.padding = e.padding;
    auto &attrs = e.schema().attributes();
    SIM_CHECK(attrs.size() == e.features().size(), "schema-mismatch", "%zu attributes, %zu features", attrs.size(), e.features().size());
    std::size_t size = SIZE_MAX;
    for (std::size_t k = 0; k < attrs.size(); ++k) {
        auto &t = *e.features()[k];
        SIM_CHECK(!t.shape().empty(), "bad-shape", "tensor without dimensions");
        if (size == SIZE_MAX) size = t.shape()[0];
        SIM_CHECK(t.shape()[0] == size, "bad-shape", "features with batch dimensions %zu and %zu", size, t.shape()[0]);
        SIM_CHECK(t.data_type() == attrs[k].data_type(), "schema-mismatch", "data type of %s", attrs[k].name().c_str());
        SIM_CHECK(t.shape().size() == attrs[k].shape().size(), "schema-mismatch", "rank of %s", attrs[k].name().c_str());
        for (std::size_t j = 1; j < t.shape().size(); ++j)
            SIM_CHECK(t.shape()[j] == attrs[k].shape()[j], "schema-mismatch", "shape of %s", attrs[k].name().c_str());
    }
    if (size == SIZE_MAX) size = 0;
    x.size = size;
    x.rows.resize(size);
    std::vector<bool> zero(size, true);
    switch (d.fmt) {
    case Fmt::text: {
        auto &t = static_cast<const Dense_tensor &>(*e.features().at(0));
        for (std::size_t i = 0; i < size; ++i) {
            x.rows[i] = elem(t, i, false);
            if (!x.rows[i].empty()) zero[i] = false;
        }
        break;
    }
    case Fmt::csv:
        for (std::size_t k = 0; k < attrs.size(); ++k) {
            auto &t = static_cast<const Dense_tensor &>(*e.features()[k]);
            for (std::size_t i = 0; i < size; ++i) {
                Str v = elem(t, i, false);
                if (!(v.empty() || v == "0" || v == "0x0p+0")) zero[i] = false;
                x.rows[i] += (k ? "|" : "") + v;
            }
        }
        break;
    case Fmt::image:
    case Fmt::image_rec: {
        auto &t = static_cast<const Dense_tensor &>(*e.features().at(0));
        auto px = t.data().as<std::uint8_t>();
        std::size_t n = size ? px.size() / size : 0;
        std::size_t want = d.img.image_dimensions[0] * d.img.image_dimensions[1] * d.img.image_dimensions[2];
        SIM_CHECK(size == 0 || n == want, "bad-shape", "image of %zu bytes, want %zu", n, want);
        for (std::size_t i = 0; i < size; ++i) {
            x.rows[i] = image_canon(px.data() + i * n, n);
            for (std::size_t j = 0; j < n; ++j)
                if (px[i * n + j]) zero[i] = false;
        }
        break;
    }
    case Fmt::recordio: {
        // attribute order follows a hash map: sort by name, label first
        std::vector<std::size_t> order;
        for (std::size_t k = 0; k < attrs.size(); ++k) order.push_back(k);
        std::sort(order.begin(), order.end(), [&](auto a, auto b) {
            auto key = [&](std::size_t i) { return (attrs[i].name() == "label_id" ? "0" : "1") + attrs[i].name(); };
            return key(a) < key(b);
        });
        for (auto k : order) {
            bool label = attrs[k].name() == "label_id";
            Str name = label ? "id" : attrs[k].name();
            std::vector<Str> cell(size);
            if (attrs[k].sparse()) {
                auto *ct = dynamic_cast<const Coo_tensor *>(e.features()[k].get());
                SIM_CHECK(ct, "schema-mismatch", "sparse attribute without COO tensor");
                auto dims = ct->shape().size();
                std::size_t nnz = ct->data().size();
                for (std::size_t dd = 0; dd < dims; ++dd)
                    SIM_CHECK(ct->indices(dd).size() == nnz, "coo-mismatch", "coordinate array of dimension %zu has %zu entries for %zu values", dd, ct->indices(dd).size(), nnz);
                for (std::size_t j = 0; j < nnz; ++j) {
                    std::size_t row = ct->indices(0).as<std::size_t>()[j];
                    std::size_t flat = 0;
                    for (std::size_t dd = 1; dd < dims; ++dd) {
                        auto c = ct->indices(dd).as<std::size_t>()[j];
                        SIM_CHECK(c < ct->shape()[dd], "coo-mismatch", "coordinate out of range");
                        flat = flat * ct->shape()[dd] + c;
                    }
                    SIM_CHECK(row < size, "coo-mismatch", "row coordinate %zu in a batch of %zu", row, size);
                    Str v;
                    switch (ct->data_type()) {
                    case Data_type::float32: v = f64_canon(static_cast<double>(ct->data().as<float>()[j])); break;
                    case Data_type::float64: v = f64_canon(ct->data().as<double>()[j]); break;
                    default: v = f64_canon(ct->data().as<std::int32_t>()[j]); break;
                    }
                    cell[row] += std::to_string(flat) + ":" + v + ",";
                    zero[row] = false;
                }
            }
            else {
                auto *dt = dynamic_cast<const Dense_tensor *>(e.features()[k].get());
                SIM_CHECK(dt, "schema-mismatch", "dense attribute without dense tensor");
                std::size_t per = 1;
                for (std::size_t dd = 1; dd < dt->shape().size(); ++dd) per *= dt->shape()[dd];
                SIM_CHECK(dt->data().size() == per * size, "bad-shape", "dense tensor with %zu values, want %zu", dt->data().size(), per * size);
                for (std::size_t i = 0; i < size; ++i)
                    for (std::size_t j = 0; j < per; ++j) {
                        Str v = elem(*dt, i * per + j, true);
                        if (v != "0x0p+0") zero[i] = false;
                        if (label) cell[i] = std::to_string(dt->data().as<std::int32_t>()[i * per + j]);
                        else cell[i] += v + ",";
                    }
            }
            for (std::size_t i = 0; i < size; ++i) x.rows[i] += (label ? "" : "|") + name + "=" + cell[i];
        }
        break;
    }
    }
    for (std::size_t i = 0; i < size; ++i)
        if (i >= size - std::min(size, x.padding) && zero[i]) x.rows[i] = pad_row;
    SIM_CHECK(x.padding <= size, "bad-padding", "padding %zu of a batch of %zu", x.padding, size);
    return x;
}

// ---------------------------------------------------------------- model
std::vector<std::size_t> select_rows(const Dataset &d, const Data_reader_params &p)
{
    std::vector<std::size_t> r;
    std::size_t n = d.num_rows();
    std::size_t end = n;
    if (p.num_instances_to_read) end = std::min(n, p.num_instances_to_skip + *p.num_instances_to_read);
    for (std::size_t i = p.num_instances_to_skip, k = 0; i < end; ++i, ++k)
        if (p.num_shards == 0 || k % p.num_shards == p.shard_index) r.push_back(i);
    return r;
}

Expected expect(const Dataset &d, const Data_reader_params &p) { return expect_rows(d, p, select_rows(d, p)); }

Expected expect_rows(const Dataset &d, const Data_reader_params &p, const std::vector<std::size_t> &sel)
{
    Expected x;
    auto rows = d.rows();
    using L = Last_example_handling;
    using B = Bad_example_handling;
    for (std::size_t i = 0; i < sel.size(); i += p.batch_size) {
        std::size_t n = std::min(p.batch_size, sel.size() - i);
        if (n < p.batch_size && (p.last_example_handling == L::drop || p.last_example_handling == L::drop_warn)) break;
        Ex e;
        e.size = n;
        if (n < p.batch_size && (p.last_example_handling == L::pad || p.last_example_handling == L::pad_warn)) e.size = p.batch_size;
        bool bad = false;
        std::vector<std::size_t> br;
        std::uint64_t bytes = 0;
        for (std::size_t k = 0; k < n; ++k) {
            auto &r = rows[sel[i + k]];
            bytes += r.size;
            if (r.bad) bad = true;
            else {
                e.rows.push_back(r.canon);
                br.push_back(sel[i + k]);
            }
        }
        if (bad) {
            if (p.bad_example_handling == B::error) {
                x.error = true;
                break;
            }
            if (p.bad_example_handling == B::skip || p.bad_example_handling == B::skip_warn) continue;
        }
        e.padding = e.size - e.rows.size();
        while (e.rows.size() < e.size) e.rows.push_back(pad_row);
        x.ex.push_back(e);
        x.batch_rows.push_back(br);
        x.bytes += bytes;
    }
    return x;
}

// ---------------------------------------------------------------- running
bool guarded(Outcome &o, const std::function<void()> &fn)
{
    try {
        fn();
        return true;
    }
    catch (const std::exception &e) {
        o.error = true;
        o.what = e.what();
        int st = 0;
        char *n = abi::__cxa_demangle(typeid(e).name(), nullptr, nullptr, &st);
        o.type = n ? n : typeid(e).name();
        free(n);
        if (sim::tracing()) sim::note("exception %s: %s", o.type.c_str(), o.what.c_str());
        return false;
    }
}

int read_one(Data_reader &r, const Dataset &d, Ex &out, Outcome &err, bool peek)
{
    int rc = 0;
    Outcome o;
    Intrusive_ptr<Example> e;
    bool ok = guarded(o, [&] {
        sim::Op_scope s(peek ? "peek_example" : "read_example");
        e = peek ? r.peek_example() : r.read_example();
    });
    if (!ok) {
        err = o;
        return -1;
    }
    if (e) {
        out = decode(*e, d);
        rc = 1;
        if (sim::tracing()) sim::note("example %s", out.text().c_str());
    }
    else if (sim::tracing()) sim::note("end of data");
    return rc;
}

Outcome read_all(Data_reader &r, const Dataset &d, std::size_t max)
{
    Outcome o;
    std::size_t limit = std::min<std::size_t>(max, d.num_rows() + 3);
    while (o.ex.size() < limit) {
        Ex x;
        int rc = read_one(r, d, x, o);
        if (rc <= 0) break;
        o.ex.push_back(std::move(x));
    }
    return o;
}

void check_prefix(const std::vector<Ex> &got, const Expected &want, const char *cls, bool complete)
{
    for (std::size_t i = 0; i < got.size(); ++i) {
        if (i >= want.ex.size())
            sim::violation(cls, "example %zu was delivered but only %zu are expected: %s", i, want.ex.size(), got[i].text().c_str());
        if (!(got[i] == want.ex[i]))
            sim::violation(cls, "example %zu is %s, expected %s", i, got[i].text().c_str(), want.ex[i].text().c_str());
    }
    if (complete && got.size() < want.ex.size())
        sim::violation(cls, "data ended after %zu examples, %zu expected; the next is %s", got.size(), want.ex.size(), want.ex[got.size()].text().c_str());
}
}  // namespace wk

namespace sim {
// Runs once in the parent before any run is forked: lazily initialised
// third-party state must not depend on which run comes first.
void warm_up_more() __attribute__((weak));
void warm_up()
{
    struct More { ~More() { if (warm_up_more) warm_up_more(); } } more;
    mlio::initialize();
    cv::setNumThreads(1);
    cv::Mat m(4, 4, CV_8UC3, cv::Scalar(1, 2, 3));
    std::vector<uchar> png;
    cv::imencode(".png", m, png);
    cv::imdecode(png, cv::IMREAD_COLOR);
    for (auto n : {"UTF-16", "UTF-16LE", "UTF-16BE", "UTF-32", "UTF-32LE", "UTF-32BE", "ISO-8859-1", "8859_1", "ISO-8859-5", "SHIFT_JIS", "GB18030", "EUC-JP", "WINDOWS-1252", "UTF-7"}) {
        iconv_t c = iconv_open("UTF-8", n);
        if (c != reinterpret_cast<iconv_t>(-1)) {
            char in[] = "abcdefgh", out[64];
            char *i = in, *o = out;
            std::size_t il = 8, ol = 64;
            iconv(c, &i, &il, &o, &ol);
            // kept open on purpose: unloading and reloading the module would
            // be file access during a run
        }
        iconv_t d = iconv_open(n, "UTF-8");
        (void)d;
    }
    aialgs::data::Record r;
    std::string s;
    (*r.mutable_label())["x"].mutable_int32_tensor()->add_values(1);
    r.SerializeToString(&s);
    r.ParseFromString(s);
}
}  // namespace sim
