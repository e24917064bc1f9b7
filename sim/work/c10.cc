// C10: text decoding is exact whatever the encoding and fragmentation.
#include <iconv.h>
#include "work/faulty.h"
#include "work/records.h"
#include <mlio/streams/utf8_input_stream.h>
using namespace mlio;
using namespace wk;

namespace {
using U = std::vector<std::uint32_t>;
Str utf8(const U &u)
{
    Str s;
    for (auto c : u) {
        if (c < 0x80) s += static_cast<char>(c);
        else if (c < 0x800) { s += static_cast<char>(0xc0 | c >> 6); s += static_cast<char>(0x80 | (c & 63)); }
        else if (c < 0x10000) { s += static_cast<char>(0xe0 | c >> 12); s += static_cast<char>(0x80 | (c >> 6 & 63)); s += static_cast<char>(0x80 | (c & 63)); }
        else { s += static_cast<char>(0xf0 | c >> 18); s += static_cast<char>(0x80 | (c >> 12 & 63)); s += static_cast<char>(0x80 | (c >> 6 & 63)); s += static_cast<char>(0x80 | (c & 63)); }
    }
    return s;
}
void put(Str &s, std::uint32_t v, int bytes, bool be)
{
    for (int i = 0; i < bytes; ++i) s += static_cast<char>(v >> 8 * (be ? bytes - 1 - i : i));
}
Str utf16(const U &u, bool be)
{
    Str s;
    for (auto c : u) {
        if (c < 0x10000) put(s, c, 2, be);
        else {
            put(s, 0xd800 + ((c - 0x10000) >> 10), 2, be);
            put(s, 0xdc00 + ((c - 0x10000) & 0x3ff), 2, be);
        }
    }
    return s;
}
Str utf32(const U &u, bool be)
{
    Str s;
    for (auto c : u) put(s, c, 4, be);
    return s;
}
// Whole-buffer conversion by the platform.
Str platform(const Str &in, const char *from, const char *to)
{
    iconv_t cd = iconv_open(to, from);
    if (cd == reinterpret_cast<iconv_t>(-1)) return Str{"\0unsupported", 12};
    Str out(in.size() * 8 + 64, 0);
    char *i = const_cast<char *>(in.data()), *o = out.data();
    std::size_t il = in.size(), ol = out.size();
    std::size_t r = iconv(cd, &i, &il, &o, &ol);
    if (r != static_cast<std::size_t>(-1)) r = iconv(cd, nullptr, nullptr, &o, &ol);
    iconv_close(cd);
    if (r == static_cast<std::size_t>(-1)) return Str{"\0unsupported", 12};
    out.resize(out.size() - ol);
    return out;
}
bool unsupported(const Str &s) { return s.size() == 12 && s[0] == 0 && s[1] == 'u'; }

struct Other {
    const char *name;
    const char *sample;  // UTF-8 characters the encoding has
};
const std::vector<Other> others{
    {"8859_1", "aéÿ\xc2\xa0ß"}, {"WINDOWS-1252", "a€é™ß"}, {"ISO-8859-5", "aдЖя"}, {"KOI8-R", "aдЖя"}, {"SHIFT_JIS", "a日本ｱ表"}, {"EUC-JP", "a日本ｱ"},
    {"GB18030", "a中文é😀€"}, {"BIG5", "a中文"}, {"EUC-KR", "a한국"}, {"ISO-2022-JP", "a日本b"}, {"ISO-2022-KR", "a한국b"}, {"UTF-7", "aé日+-"},
    {"CP1258", "aơeUăh"}, {"CP1255", "aשב"}, {"TCVN", "aơeUă"}, {"EUC-JISX0213", "aか日セ"}, {"SHIFT_JISX0213", "aか日セ"}, {"BIG5-HKSCS", "a中Êê文"}, {"IBM1047", "abc1"},
};
std::vector<Str> chars_of(const char *sample)
{
    std::vector<Str> v;
    for (const char *p = sample; *p;) {
        const char *q = p + 1;
        while ((*q & 0xc0) == 0x80) ++q;
        v.emplace_back(p, q);
        p = q;
    }
    return v;
}
Str no_bom(const Str &s) { return s.compare(0, 3, "\xef\xbb\xbf") == 0 ? s.substr(3) : s; }

struct Source {
    Str bytes;
    Str text;                 // its UTF-8 form, an initial byte-order mark removed
    std::optional<Text_encoding> enc;
    bool damaged = false;     // must end with an error after a prefix of text
    Str label;
};
Source make_source()
{
    Source s;
    bool lines = true;
    if (sim::wone_in(3)) {
        const Other &o = sim::wpick(others);
        auto cs = chars_of(o.sample);
        Str t;
        for (std::uint32_t n = sim::w(60); n > 0; --n) t += sim::wone_in(8) ? Str{"\n"} : sim::wpick(cs);
        Str b = platform(t, "UTF-8", o.name), back = unsupported(b) ? b : platform(b, o.name, "UTF-8");
        if (!unsupported(b) && !unsupported(back)) {
            s.bytes = b;
            s.text = back;
            s.enc = Text_encoding{o.name};
            s.label = o.name;
            return s;
        }
        sim::probe("encoding not supported by the platform");
    }
    U u;
    std::uint32_t n = sim::w(4) ? sim::w(30) : sim::w(300);
    static const std::vector<std::uint32_t> some{'a', '\n', 0xe9, 0x20ac, 0x1f600, 0xfeff, '\r', 0x7f, 0x80, 0x7ff, 0x800, 0xffff, 0x10000, 0x10ffff, 'z', ','};
    for (std::uint32_t i = 0; i < n; ++i) u.push_back(sim::wpick(some));
    (void)lines;
    int k = static_cast<int>(sim::w(5));
    bool detect = sim::wflip(), bom = sim::wflip() || detect;
    // A mark that follows the mark is left out (the generic names let the converter drop the first one).
    if (!u.empty() && u[0] == 0xfeff) u[0] = 'f';
    U with = u;
    if (bom) with.insert(with.begin(), 0xfeff);
    bool be = k == 2 || k == 4;
    static const char *names[] = {"UTF-8", "UTF-16LE", "UTF-16BE", "UTF-32LE", "UTF-32BE"};
    s.label = names[k];
    if (k == 0) {
        s.bytes = utf8(with);
        if (sim::wflip()) s.enc = Text_encoding::utf8;
    }
    else {
        s.bytes = k < 3 ? utf16(with, be) : utf32(with, be);
        if (!detect) s.enc = Text_encoding{names[k]};
        // The generic names take the byte order from the mark.
        if (bom && sim::wone_in(4)) s.enc = k < 3 ? Text_encoding::utf16 : Text_encoding::utf32;
    }
    s.text = utf8(u);
    if (!bom) s.text = no_bom(s.text);  // starts with a mark by chance
    s.label += s.enc ? s.enc->name() : Str{" detected"};
    if (k == 0 && u.empty()) return s;
    if (k != 0 && sim::wone_in(3) && !u.empty()) {
        s.damaged = true;
        std::size_t at = bom ? 1 : 0;
        std::size_t i = sim::w(static_cast<std::uint32_t>(u.size()));
        U head(u.begin(), u.begin() + static_cast<long>(i));
        Str unit;
        bool tail = sim::wflip();
        if (k < 3) {
            switch (sim::w(3)) {
            case 0: put(unit, 0xdc00 + sim::w(0x400), 2, be); break;          // low surrogate alone
            case 1: put(unit, 0xd800 + sim::w(0x400), 2, be); put(unit, 'x', 2, be); break;
            default:  // ends inside a character
                unit = utf16({0x1f600}, be).substr(0, 1 + sim::w(3));
                tail = false;
            }
        }
        else {
            switch (sim::w(3)) {
            case 0: put(unit, 0x110000 + sim::w(1000), 4, be); break;
            case 1: put(unit, 0xd800 + sim::w(0x800), 4, be); break;
            default:
                unit = utf32({0x1f600}, be).substr(0, 1 + sim::w(3));
                tail = false;
            }
        }
        U h2 = head;
        if (at) h2.insert(h2.begin(), 0xfeff);
        U rest(u.begin() + static_cast<long>(i), u.end());
        s.bytes = (k < 3 ? utf16(h2, be) : utf32(h2, be)) + unit + (tail ? (k < 3 ? utf16(rest, be) : utf32(rest, be)) : Str{});
        s.text = utf8(head);
        if (!bom) s.text = no_bom(s.text);
        sim::fault_injected(tail ? sim::f_corrupt : sim::f_truncate);
    }
    return s;
}
Intrusive_ptr<Data_store> source_store(const Source &s, const Str &name)
{
    return make_store(s.bytes, sim::wpick(all_kinds(true)), name);
}
}  // namespace

static void streams()
{
    Source src = make_source();
    random_legal_io();
    bool hard = sim::wone_in(6);
    sim::describe("%s, %zu bytes%s ", src.label.c_str(), src.bytes.size(), src.damaged ? ", damaged" : "");
    if (sim::tracing()) sim::note("bytes: %s", esc(src.bytes, 300).c_str());
    for (int round = 0; round < 2; ++round) {
        random_knobs();
        auto st = source_store(src, "u" + std::to_string(round));
        if (hard && round == 0) random_hard_faults();
        Intrusive_ptr<Input_stream> s;
        Outcome o;
        if (!guarded(o, [&] {
                sim::Op_scope sc("open");
                s = make_utf8_stream(st->open_read(), src.enc);
            })) {
            SIM_CHECK(hard && sim::hard_faults_fired() != 0, "unexpected-error", "open: %s", o.what.c_str());
            continue;
        }
        Str got;
        std::uint32_t cap = sim::wpick(std::vector<std::uint32_t>{1, 2, 3, 4, 7, 100, 3000});
        bool error = false;
        while (true) {
            Str buf(1 + sim::w(cap), 0);
            std::size_t n = 0;
            if (!guarded(o, [&] {
                    sim::Op_scope sc("read");
                    if (sim::wone_in(5)) {
                        auto m = s->read(buf.size());
                        n = m.size();
                        SIM_CHECK(n <= buf.size(), "too-long", "%zu bytes, %zu asked", n, buf.size());
                        std::memcpy(buf.data(), m.data(), n);
                    }
                    else n = s->read(Mutable_memory_span{reinterpret_cast<std::byte *>(buf.data()), buf.size()});
                })) {
                error = true;
                break;
            }
            if (n == 0) break;
            got.append(buf, 0, n);
        }
        bool injected = hard && sim::hard_faults_fired() != 0;
        // A byte-order mark may still be there at the level of the stream.
        Str g = no_bom(got), w = src.text;
        if (g.size() < got.size() && w.compare(0, 3, "\xef\xbb\xbf") == 0 && got.compare(0, got.size(), w, 0, got.size()) == 0) g = got;
        SIM_CHECK(w.compare(0, g.size(), g) == 0 || (got.size() < 3 && Str{"\xef\xbb\xbf"}.compare(0, got.size(), got) == 0), "wrong-text", "'%s', expected '%s'", esc(g, 300).c_str(), esc(w, 300).c_str());
        if (error) SIM_CHECK(src.damaged || injected, "unexpected-error", "after %zu of %zu bytes: %s", g.size(), w.size(), o.what.c_str());
        else {
            SIM_CHECK(!src.damaged, "damage-hidden", "a clean end after '%s' although the text is invalid", esc(g).c_str());
            SIM_CHECK(g == w, "text-dropped", "'%s', expected '%s'", esc(g, 300).c_str(), esc(w, 300).c_str());
        }
        s = nullptr;
    }
}

// Lines and whole readers.
static void lines()
{
    Source src = make_source();
    random_legal_io();
    random_knobs();
    sim::describe("%s, %zu bytes%s, lines ", src.label.c_str(), src.bytes.size(), src.damaged ? ", damaged" : "");
    if (sim::tracing()) sim::note("bytes: %s", esc(src.bytes, 300).c_str());
    auto st = source_store(src, "l");
    Csv_params p;
    Recs want = model_lines("\xef\xbb\xbf" + src.text, false);
    Recs got;
    bool reader = !src.enc && sim::wflip();
    if (reader) {
        Dataset d;
        d.fmt = Fmt::text;
        d.stores.resize(1);
        Data_reader_params dp{};
        dp.dataset = {st};
        dp.batch_size = 1 + sim::w(4);
        random_tuning(dp);
        d.stores[0].rows.resize(want.recs.size() + 3);
        auto r = make_reader(d, dp);
        auto o = read_all(*r, d);
        for (auto &e : o.ex)
            for (auto &row : e.rows) got.recs.push_back({row, 0});
        got.error = o.error;
        got.what = o.what;
        for (auto &w : want.recs) w.kind = 0;
    }
    else {
        Outcome o;
        guarded(o, [&] {
            auto r = make_records(Rk::text, make_utf8_stream(st->open_read(), src.enc), p, false);
            got = read_records(*r, sim::wflip());
        });
    }
    std::size_t n = want.recs.size();
    if (src.damaged) {
        SIM_CHECK(got.error, "damage-hidden", "a clean end after %zu lines although the text is invalid", got.recs.size());
        // the last line of the intact part may be unfinished
        SIM_CHECK(got.recs.size() <= n, "extra-lines", "%zu lines, %zu expected at most", got.recs.size(), n);
        n = got.recs.size();
    }
    else {
        SIM_CHECK(!got.error, "unexpected-error", "%s", got.what.c_str());
        SIM_CHECK(got.recs.size() == n, "wrong-lines", "%zu lines, expected %zu", got.recs.size(), n);
    }
    for (std::size_t i = 0; i < n; ++i)
        SIM_CHECK(got.recs[i].data == want.recs[i].data, "wrong-lines", "line %zu is '%s', expected '%s'", i, esc(got.recs[i].data).c_str(), esc(want.recs[i].data).c_str());
}

static void csv()
{
    // The same table in UTF-8 and in another encoding.
    Source src;
    int k = static_cast<int>(sim::w(4));
    static const std::vector<Str> words{"a", "x y", "\xc3\xa9t\xc3\xa9", "\xe2\x82\xac", "\xf0\x9f\x98\x80", "\"q, \xc3\xa9\"", "\"l\nm\"", ""};
    U u;
    Str text;
    std::uint32_t rows = 1 + sim::w(10), cols = 1 + sim::w(3);
    for (std::uint32_t r = 0; r < rows; ++r)
        for (std::uint32_t c = 0; c < cols; ++c) {
            Str f = c + 1 == cols && cols == 1 ? Str{"v"} + words[sim::w(5)] : sim::wpick(words);
            text += f + (c + 1 == cols ? "\n" : ",");
        }
    // decode our own UTF-8
    for (std::size_t i = 0; i < text.size();) {
        auto c = static_cast<unsigned char>(text[i]);
        int n = c < 0x80 ? 1 : c < 0xe0 ? 2 : c < 0xf0 ? 3 : 4;
        std::uint32_t v = n == 1 ? c : c & (0x7fu >> n);
        for (int j = 1; j < n; ++j) v = v << 6 | (static_cast<unsigned char>(text[i + static_cast<std::size_t>(j)]) & 63);
        u.push_back(v);
        i += static_cast<std::size_t>(n);
    }
    bool bom = sim::wflip();
    U with = u;
    if (bom) with.insert(with.begin(), 0xfeff);
    bool be = k & 1;
    src.bytes = k < 2 ? utf16(with, be) : utf32(with, be);
    std::optional<Text_encoding> enc;
    if (!bom || sim::wflip()) enc = k < 2 ? (be ? Text_encoding::utf16_be : Text_encoding::utf16_le) : (be ? Text_encoding::utf32_be : Text_encoding::utf32_le);
    sim::describe("csv of %u rows in UTF-%d%s %s", rows, k < 2 ? 16 : 32, be ? "BE" : "LE", enc ? "configured" : "detected");
    random_legal_io();
    Csv_params cp;
    cp.header_row_index = std::nullopt;
    cp.default_data_type = Data_type::string;
    cp.allow_quoted_new_lines = true;
    Outcome res[2];
    for (int i = 0; i < 2; ++i) {
        random_knobs();
        Dataset d;
        d.fmt = Fmt::csv;
        d.csv = cp;
        if (i == 1) d.csv.encoding = enc;
        d.stores.resize(1);
        d.stores[0].rows.resize(rows + 2);
        Data_reader_params dp{};
        dp.dataset = {i == 0 ? make_store(text, Kind::mem, "t") : source_store(src, "c")};
        dp.batch_size = 2;
        dp.num_prefetched_examples = 1;
        auto r = make_reader(d, dp);
        res[i] = read_all(*r, d);
    }
    SIM_CHECK(!res[0].error, "model", "the UTF-8 table cannot be read: %s", res[0].what.c_str());
    SIM_CHECK(!res[1].error, "unexpected-error", "%s", res[1].what.c_str());
    SIM_CHECK(res[0].ex.size() == res[1].ex.size(), "wrong-rows", "%zu examples, in UTF-8 %zu", res[1].ex.size(), res[0].ex.size());
    for (std::size_t i = 0; i < res[0].ex.size(); ++i)
        SIM_CHECK(res[0].ex[i] == res[1].ex[i], "wrong-rows", "example %zu is %s, in UTF-8 %s", i, res[1].ex[i].text().c_str(), res[0].ex[i].text().c_str());
}

static void run()
{
    switch (sim::w(4)) {
    case 0: case 1: streams(); break;
    case 2: lines(); break;
    default: csv(); break;
    }
}
SIM_WORKLOAD("C10", run);
