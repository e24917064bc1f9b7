#include "work/records.h"
#include <cstring>
using namespace mlio;

namespace wk {
static std::size_t skip_bom(const Str &b) { return b.compare(0, 3, "\xef\xbb\xbf") == 0 ? 3 : 0; }

// Takes the line starting at pos; next is where the following one starts.
static Str plain_line(const Str &b, std::size_t pos, std::size_t &next)
{
    std::size_t e = b.find_first_of("\r\n", pos);
    if (e == Str::npos) { next = b.size(); return b.substr(pos); }
    next = e + 1;
    if (b[e] == '\r' && next < b.size() && b[next] == '\n') next++;
    return b.substr(pos, e - pos);
}

Recs model_lines(const Str &b, bool skip_blank)
{
    Recs r;
    for (std::size_t pos = skip_bom(b), next; pos < b.size(); pos = next) {
        Str l = plain_line(b, pos, next);
        if (!(skip_blank && l.empty())) r.recs.push_back({l, 0});
    }
    return r;
}

Recs model_csv(const Str &b, const Csv_params &p)
{
    Recs r;
    for (std::size_t pos = skip_bom(b), next; pos < b.size(); pos = next) {
        if (p.comment_char && b[pos] == *p.comment_char) {
            plain_line(b, pos, next);
            continue;
        }
        Str l;
        if (!p.allow_quoted_new_lines) l = plain_line(b, pos, next);
        else {
            // A quote opens a quoted section only as the first character of
            // a field; inside it "" is a literal quote; after the closing
            // quote the rest of the field is plain.
            std::size_t i = pos;
            bool start = true, open = false, done = false;
            while (i < b.size() && !done) {
                char c = b[i];
                if (open) {
                    if (c == p.quote_char) {
                        if (i + 1 < b.size() && b[i + 1] == p.quote_char) i++;
                        else open = false;
                    }
                    i++;
                    continue;
                }
                if (start && c == p.delimiter) { i++; continue; }
                if (start && c == p.quote_char) { open = true; start = false; i++; continue; }
                if (c == '\n' || c == '\r') { done = true; break; }
                start = c == p.delimiter;
                i++;
            }
            if (open) { r.error = true; return r; }
            l = b.substr(pos, i - pos);
            next = i;
            if (done) next += b[i] == '\r' && i + 1 < b.size() && b[i + 1] == '\n' ? 2 : 1;
        }
        if (p.max_line_length) {
            // The line end may count towards the length.
            if (l.size() + 3 > *p.max_line_length) r.fuzzy = true;
            if (l.size() > *p.max_line_length) { r.error = true; return r; }
        }
        if (!(p.skip_blank_lines && l.empty())) r.recs.push_back({l, 0});
    }
    return r;
}

static std::uint32_t u32(const Str &b, std::size_t p)
{
    std::uint32_t v;
    std::memcpy(&v, b.data() + p, 4);
    return v;
}

Recs model_recordio(const Str &b)
{
    Recs r;
    for (std::size_t pos = 0; pos < b.size();) {
        if (b.size() - pos < 8 || u32(b, pos) != 0xced7230a) { r.error = true; return r; }
        std::uint32_t h = u32(b, pos + 4);
        std::size_t n = h & 0x1fffffff, al = (n + 3) / 4 * 4;
        if (al > b.size() - pos - 8) { r.error = true; return r; }
        r.recs.push_back({b.substr(pos + 8, n), static_cast<int>(h >> 29)});
        pos += 8 + al;
    }
    return r;
}

Intrusive_ptr<Record_reader> make_records(Rk k, Intrusive_ptr<Input_stream> s, const Csv_params &p, bool skip_blank)
{
    switch (k) {
    case Rk::text: return make_intrusive<mlio::detail::Text_line_record_reader>(std::move(s), skip_blank);
    case Rk::csv: return make_intrusive<mlio::detail::Csv_record_reader>(std::move(s), p);
    default: return make_intrusive<mlio::detail::Recordio_record_reader>(std::move(s));
    }
}

Recs read_records(Record_reader &r, bool peek, std::size_t max)
{
    Recs out;
    while (true) {
        std::optional<Record> rec;
        Outcome o;
        Str peeked;
        bool did_peek = peek && sim::wone_in(3), had = false;
        if (!guarded(o, [&] {
                sim::Op_scope s("read_record");
                if (did_peek)
                    for (std::uint32_t n = 1 + sim::w(2); n > 0; --n) {
                        auto p = r.peek_record();
                        had = p.has_value();
                        if (p) peeked = from_slice(p->payload());
                    }
                rec = r.read_record();
            })) {
            out.error = true;
            out.what = o.what;
            out.type = o.type;
            return out;
        }
        if (did_peek)
            SIM_CHECK(had == rec.has_value() && (!rec || peeked == from_slice(rec->payload())), "peek-mismatch", "peek_record showed '%s', read_record returned '%s'",
                      esc(peeked).c_str(), rec ? esc(from_slice(rec->payload())).c_str() : "end");
        if (!rec) return out;
        out.recs.push_back({from_slice(rec->payload()), static_cast<int>(rec->kind())});
        SIM_CHECK(out.recs.size() <= max, "too-many-records", "%zu records", out.recs.size());
    }
}

Str nasty_text(const Csv_params &p, std::uint32_t max_pieces)
{
    const Str q(1, p.quote_char), d(1, p.delimiter), c(1, p.comment_char ? *p.comment_char : '#');
    const std::vector<Str> pieces{"a", "\n", "\r", "\r\n", q, d, c, q + q, q + d, d + q, "\n\n", "\r\r", "bcdef", " ", "\xef\xbb\xbf", q + "\n", q + "\r\n", "\xc3\xa9", q + q + q, "x\r"};
    Str s;
    std::uint32_t n = sim::w(max_pieces + 1);
    if (sim::wone_in(5)) s = "\xef\xbb\xbf";
    for (std::uint32_t i = 0; i < n; ++i) {
        if (sim::wone_in(25)) s += Str(1 + sim::w(40), 'l');
        else s += sim::wpick(pieces);
    }
    return s;
}

Str put_recordio(const Str &payload, bool split)
{
    Str out;
    auto part = [&](const Str &p, std::uint32_t kind) {
        std::uint32_t m = 0xced7230a, h = (kind << 29) | static_cast<std::uint32_t>(p.size());
        out.append(reinterpret_cast<char *>(&m), 4);
        out.append(reinterpret_cast<char *>(&h), 4);
        out += p;
        while (out.size() % 4) out += '\0';
    };
    if (!split) { part(payload, 0); return out; }
    std::size_t parts = 2 + sim::w(3), pos = 0;
    for (std::size_t i = 0; i < parts; ++i) {
        std::size_t n = i + 1 == parts ? payload.size() - pos : sim::w(static_cast<std::uint32_t>(payload.size() - pos + 1));
        part(payload.substr(pos, n), i == 0 ? 1 : i + 1 == parts ? 3 : 2);
        pos += n;
    }
    return out;
}

void compare_records(const Recs &got, const Recs &want, const char *cls, const char *what)
{
    for (std::size_t i = 0; i < got.recs.size() || i < want.recs.size(); ++i) {
        if (i >= want.recs.size())
            sim::violation(cls, "%s: record %zu '%s' but %zu records are expected%s", what, i, esc(got.recs[i].data).c_str(), want.recs.size(), want.error ? " before an error" : "");
        if (i >= got.recs.size())
            sim::violation(cls, "%s: %s after %zu records, the next one is '%s'", what, got.error ? got.what.c_str() : "ended", got.recs.size(), esc(want.recs[i].data).c_str());
        if (!(got.recs[i] == want.recs[i]))
            sim::violation(cls, "%s: record %zu is '%s' (kind %d), expected '%s' (kind %d)", what, i, esc(got.recs[i].data).c_str(), got.recs[i].kind, esc(want.recs[i].data).c_str(), want.recs[i].kind);
    }
    if (got.error != want.error)
        sim::violation(cls, "%s: after %zu records %s, expected %s", what, got.recs.size(), got.error ? got.what.c_str() : "a clean end", want.error ? "an error" : "a clean end");
}
}  // namespace wk
