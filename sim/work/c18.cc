// C18: every stream kind honours read, seek, size, position and close.
#include "work/faulty.h"
#include <mlio/streams/gzip_inflate_stream.h>
#include <mlio/streams/memory_input_stream.h>
#include <mlio/streams/utf8_input_stream.h>
using namespace mlio;
using namespace wk;

namespace {
struct Source {
    Intrusive_ptr<Data_store> store;
    Kind kind{};
    Str text;                       // what the stream has to deliver
    bool utf8 = false;              // read through a converting stream ...
    std::optional<Text_encoding> enc;  // ... with this encoding, or a detected one
    bool once = false;              // can be opened once
    bool bom = false;               // starts with a byte-order mark
};
struct Held {
    Memory_slice s;
    Str copy;
};
std::uint64_t fails(const Source &s)
{
    std::uint64_t n = sim::hard_faults_fired();
    if (auto *f = dynamic_cast<const Frag_store *>(s.store.get())) n += f->failures;
    return n;
}
const Str units{"ab\nz,\" "};
Str make_text(Str &utf16)
{
    Str t;
    std::uint32_t n = sim::w(4) ? sim::w(60) : sim::w(2000);
    for (std::uint32_t i = 0; i < n; ++i) {
        std::uint32_t c = sim::w(3) ? static_cast<unsigned char>(units[sim::w(static_cast<std::uint32_t>(units.size()))]) : std::vector<std::uint32_t>{0xe9, 0x7ff, 0x20ac, 0x800}[sim::w(4)];
        if (c < 0x80) t += static_cast<char>(c);
        else if (c < 0x800) { t += static_cast<char>(0xc0 | c >> 6); t += static_cast<char>(0x80 | (c & 63)); }
        else { t += static_cast<char>(0xe0 | c >> 12); t += static_cast<char>(0x80 | (c >> 6 & 63)); t += static_cast<char>(0x80 | (c & 63)); }
        utf16 += static_cast<char>(c & 255);
        utf16 += static_cast<char>(c >> 8);
    }
    return t;
}

struct Driver {
    Source &src;
    bool faulty;
    std::vector<Held> &held;
    Intrusive_ptr<Input_stream> st;
    std::size_t pos = 0;
    bool seekable = false, closed = false;

    // 1: done, 0: failed by an injected fault; anything else is a violation.
    bool op(const char *what, const std::function<void()> &fn)
    {
        std::uint64_t f0 = fails(src);
        Outcome o;
        sim::note("%s at %zu", what, pos);
        if (guarded(o, [&] { sim::Op_scope sc(what); fn(); })) {
            SIM_CHECK(!closed, "closed-works", "%s succeeds on a closed %s stream", what, kind_name(src.kind));
            return true;
        }
        if (closed) {
            // A copying read of a slice allocates before it looks at the stream.
            SIM_CHECK(fails(src) != f0 || o.type.find("Stream_error") != Str::npos, "closed-error", "%s on a closed %s stream: %s: %s", what, kind_name(src.kind), o.type.c_str(), o.what.c_str());
            return false;
        }
        SIM_CHECK(fails(src) != f0, "unexpected-error", "%s of a %s stream at %zu of %zu: %s: %s", what, kind_name(src.kind), pos, src.text.size(), o.type.c_str(), o.what.c_str());
        sim::probe("an operation failed");
        return false;
    }
    bool open()
    {
        closed = false;
        pos = 0;
        if (!op("open", [&] {
                st = src.store->open_read();
                if (src.utf8) st = make_utf8_stream(std::move(st), src.enc);
            }))
            return false;
        bool conv = src.enc && !(*src.enc == Text_encoding::utf8);
        bool want = !conv && (src.kind == Kind::mem || src.kind == Kind::file_mmap || src.kind == Kind::file_stream || src.kind == Kind::frag_seek || src.kind == Kind::s3);
        // A detected byte-order mark makes it a converting stream.
        if (src.utf8 && !src.enc && marked) want = false;
        seekable = want;
        SIM_CHECK(st->seekable() == want, "seekable", "a %s stream says seekable=%d", kind_name(src.kind), st->seekable());
        SIM_CHECK(!st->closed(), "closed", "a new stream is closed");
        return true;
    }
    bool marked = false;
    std::size_t some_size()
    {
        std::size_t rest = src.text.size() - pos;
        switch (sim::w(6)) {
        case 0: return sim::w(5);
        case 1: return rest;
        case 2: return rest + sim::w(9);
        case 3: return 1;
        default: return sim::w(static_cast<std::uint32_t>(src.text.size() + 10));
        }
    }
    void got(const Str &b, std::size_t n)
    {
        SIM_CHECK(b.size() <= n, "too-much", "%zu bytes for a read of %zu", b.size(), n);
        SIM_CHECK(src.text.compare(pos, b.size(), b) == 0 && pos + b.size() <= src.text.size(), "wrong-bytes", "%s%s stream: read of %zu at %zu of %zu returns %s, want %s",
                  kind_name(src.kind), src.utf8 ? "+utf8" : "", n, pos, src.text.size(), esc(b).c_str(), esc(src.text.substr(pos, b.size())).c_str());
        if (n > 0) SIM_CHECK(!b.empty() || pos == src.text.size(), "false-end", "%s%s stream: read of %zu at %zu of %zu returns nothing", kind_name(src.kind), src.utf8 ? "+utf8" : "", n, pos, src.text.size());
        pos += b.size();
    }
    void step()
    {
        switch (sim::w(12)) {
        case 0: case 1: case 2: case 3: {
            std::size_t n = some_size();
            Str b(n + 8, '\x5a');
            std::size_t r = 0;
            if (!op("read", [&] { r = st->read(Mutable_memory_span{reinterpret_cast<std::byte *>(b.data()), n}); })) break;
            SIM_CHECK(r <= n && b.substr(n) == Str(8, '\x5a'), "overrun", "read of %zu returns %zu", n, r);
            got(b.substr(0, r), n);
            break;
        }
        case 4: case 5: case 6: {
            std::size_t n = some_size();
            bool zc = st->supports_zero_copy();
            if (zc && sim::wone_in(8)) {
                static const std::vector<std::size_t> huge{SIZE_MAX, SIZE_MAX / 2, SIZE_MAX / 2 + 1, SIZE_MAX - 7};
                n = sim::wpick(huge);
            }
            Memory_slice s;
            if (!op("read of a slice", [&] { s = st->read(n); })) break;
            Str b = from_slice(s);
            got(b, n);
            if (zc && n > 0) SIM_CHECK(b.size() == std::min(n, src.text.size() - (pos - b.size())), "zero-copy-short", "a zero-copy read of %zu at %zu of %zu returns %zu", n, pos - b.size(), src.text.size(), b.size());
            if (zc && !b.empty()) sim::probe("zero-copy slice");
            held.push_back({s, b});
            break;
        }
        case 7: case 8: {
            std::size_t p = sim::w(static_cast<std::uint32_t>(src.text.size() + 1));
            if (sim::wone_in(4)) {
                static const std::vector<std::size_t> far{SIZE_MAX, SIZE_MAX / 2, SIZE_MAX / 2 + 1, SIZE_MAX - 7};
                p = sim::wflip() ? src.text.size() + 1 + sim::w(9) : sim::wpick(far);
            }
            if (src.kind == Kind::frag_seek || src.kind == Kind::s3) p = std::min(p, src.text.size());
            unsupported("seek", [&] { st->seek(p); }) || (op("seek", [&] { st->seek(p); }) && (pos = std::min(p, src.text.size()), true));
            break;
        }
        case 9: {
            std::size_t n = 0;
            if (!unsupported("size", [&] { n = st->size(); }) && op("size", [&] { n = st->size(); }))
                SIM_CHECK(n == src.text.size(), "wrong-size", "%s stream: size %zu, want %zu", kind_name(src.kind), n, src.text.size());
            break;
        }
        case 10: {
            std::size_t n = 0;
            if (!unsupported("position", [&] { n = st->position(); }) && op("position", [&] { n = st->position(); }))
                SIM_CHECK(n == pos, "wrong-position", "%s stream: position %zu, want %zu", kind_name(src.kind), n, pos);
            break;
        }
        default:
            SIM_CHECK(st->closed() == closed, "closed-flag", "closed() is %d, want %d", st->closed(), closed);
            if (sim::wone_in(3)) {
                sim::note("close");
                st->close();
                closed = true;
                SIM_CHECK(st->closed(), "closed-flag", "closed() is false after close()");
                sim::probe("closed");
            }
        }
    }
    bool unsupported(const char *what, const std::function<void()> &fn)
    {
        if (seekable) return false;
        Outcome o;
        SIM_CHECK(!guarded(o, fn), "unsupported-works", "%s works on a %s stream that is not seekable", what, kind_name(src.kind));
        SIM_CHECK(o.type.find("Not_supported") != Str::npos || (closed && o.type.find("Stream_error") != Str::npos), "unsupported-error", "%s on a %s stream: %s: %s", what,
                  kind_name(src.kind), o.type.c_str(), o.what.c_str());
        return true;
    }
    void run(bool to_end)
    {
        if (!open()) return;
        std::uint32_t n = 1 + sim::w(25);
        for (std::uint32_t i = 0; i < n; ++i) step();
        if (closed || !to_end) { st = nullptr; return; }
        // The rest of the source, in pieces.
        for (int guard = 0; pos < src.text.size() && guard < 4000; ++guard) {
            std::size_t k = 1 + sim::w(200);
            Str b(k, 0);
            std::size_t r = 0;
            if (!op("read", [&] { r = st->read(Mutable_memory_span{reinterpret_cast<std::byte *>(b.data()), k}); })) continue;
            got(b.substr(0, r), k);
        }
        char c;
        std::size_t r = 1;
        if (pos == src.text.size() && op("read at the end", [&] { r = st->read(Mutable_memory_span{reinterpret_cast<std::byte *>(&c), 1}); }))
            SIM_CHECK(r == 0, "past-the-end", "a read at the end returns %zu", r);
        sim::probe("read to the end");
        st = nullptr;
    }
};
}  // namespace

static void run()
{
    random_knobs();
    random_legal_io();
    bool faulty = sim::wflip();
    bool threads = sim::wone_in(3);
    if (faulty) random_allocator();
    std::vector<std::unique_ptr<Source>> src;
    std::uint32_t n = 1 + sim::w(3);
    for (std::uint32_t i = 0; i < n; ++i) {
        auto s = std::make_unique<Source>();
        Str u16;
        s->text = make_text(u16);
        Str bytes = s->text;
        bool bom = false;
        if (sim::wone_in(3)) {
            s->utf8 = true;
            switch (sim::w(4)) {
            case 0: bytes = "\xff\xfe" + u16; bom = true; break;
            case 1: bytes = u16; s->enc = Text_encoding::utf16_le; break;
            case 2: s->enc = Text_encoding::utf8; break;
            default:
                if (sim::wflip()) { bytes = "\xef\xbb\xbf" + bytes; bom = true; }
            }
            // Removing the mark is left to the record readers.
            if (bom) s->text = "\xef\xbb\xbf" + s->text;
        }
        s->kind = sim::wpick(all_kinds(true));
        s->store = make_store(bytes, s->kind, "s" + std::to_string(i));
        s->once = s->kind == Kind::pipe;
        if (faulty && (s->kind == Kind::frag || s->kind == Kind::frag_seek)) {
            Frag_cfg c;
            c.seekable = s->kind == Kind::frag_seek;
            c.max_piece = static_cast<int>(sim::w(4)) * 3;
            c.fail_at = sim::w(static_cast<std::uint32_t>(bytes.size() + 1));
            c.fail_times = static_cast<int>(sim::w(3));
            c.fail_kind = static_cast<int>(sim::w(4));
            s->store = make_intrusive<Frag_store>("s" + std::to_string(i), bytes, c);
        }
        sim::describe("%s%s/%zu ", kind_name(s->kind), s->utf8 ? "+utf8" : "", s->text.size());
        s->bom = bom;
        src.push_back(std::move(s));
    }
    if (faulty) {
        random_hard_faults(false);
        sim::faults.armed = true;
    }
    std::vector<Held> held;
    auto drive = [&](Source &s, std::vector<Held> &h) {
        std::uint32_t times = s.once ? 1 : 1 + sim::w(3);
        for (std::uint32_t k = 0; k < times; ++k) {
            Driver d{s, faulty, h, {}};
            d.marked = s.bom;
            d.run(sim::wflip());
        }
    };
    if (threads) {
        std::vector<std::vector<Held>> hs(n + 1);
        std::vector<std::unique_ptr<sim::Thread>> th;
        for (std::uint32_t i = 0; i < n; ++i)
            th.push_back(std::make_unique<sim::Thread>([&, i] { drive(*src[i], hs[i]); }));
        // One more reader of the first source, at the same time.
        if (!src[0]->once) th.push_back(std::make_unique<sim::Thread>([&] { drive(*src[0], hs[n]); }));
        for (auto &t : th) t->join();
        for (auto &h : hs) held.insert(held.end(), h.begin(), h.end());
        sim::probe("streams used concurrently");
    }
    else
        for (auto &s : src) drive(*s, held);
    sim::faults.armed = false;
    src.clear();
    for (auto &h : held)
        SIM_CHECK(from_slice(h.s) == h.copy, "slice-changed", "a held slice of %zu bytes changed", h.copy.size());
    held.clear();
    SIM_CHECK(sim::fs::open_fds() == 0, "fd-left", "%s", sim::fs::describe_open().c_str());
    SIM_CHECK(sim::fs::live_mappings() == 0, "mapping-left", "%s", sim::fs::describe_open().c_str());
}
SIM_WORKLOAD("C18", run);
