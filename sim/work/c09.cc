// C09: compressed sources decompress exactly or fail loudly.
#include <zlib.h>
#include "work/faulty.h"
#include "mlio/data_stores/compression.h"
#include "mlio/streams/gzip_inflate_stream.h"
using namespace mlio;
using namespace wk;

namespace {
Str deflate_member(const Str &data, int bits)
{
    z_stream z{};
    static const std::vector<int> levels{6, 0, 1, 9}, strat{Z_DEFAULT_STRATEGY, Z_HUFFMAN_ONLY, Z_FIXED, Z_RLE};
    deflateInit2(&z, sim::wpick(levels), Z_DEFLATED, bits, 8, sim::wpick(strat));
    gz_header h{};
    Bytef extra[] = {1, 2, 3, 4, 5, 6, 7, 8};
    Bytef name[] = "some-file.txt", comment[] = "a comment";
    if (bits > 15 && sim::wone_in(3)) {
        if (sim::wflip()) { h.extra = extra; h.extra_len = sizeof extra; }
        if (sim::wflip()) h.name = name;
        if (sim::wflip()) h.comment = comment;
        h.hcrc = sim::wflip();
        deflateSetHeader(&z, &h);
    }
    Str out(deflateBound(&z, data.size()) + data.size() + 4096, 0);
    z.next_out = reinterpret_cast<Bytef *>(out.data());
    z.avail_out = static_cast<uInt>(out.size());
    std::size_t pos = 0;
    while (pos < data.size()) {
        std::size_t n = sim::wone_in(3) ? 1 + sim::w(static_cast<std::uint32_t>(data.size() - pos)) : data.size() - pos;
        z.next_in = reinterpret_cast<Bytef *>(const_cast<char *>(data.data() + pos));
        z.avail_in = static_cast<uInt>(n);
        deflate(&z, sim::wflip() ? Z_SYNC_FLUSH : Z_NO_FLUSH);
        pos += n;
    }
    deflate(&z, Z_FINISH);
    out.resize(out.size() - z.avail_out);
    deflateEnd(&z);
    return out;
}
struct Ref {
    Str out;
    bool error = false;
};
// Straightforward whole-buffer decoder.
Ref reference(const Str &src)
{
    Ref r;
    z_stream z{};
    inflateInit2(&z, 47);
    z.next_in = reinterpret_cast<Bytef *>(const_cast<char *>(src.data()));
    z.avail_in = static_cast<uInt>(src.size());
    bool ended = src.empty();  // no member at all
    while (!src.empty()) {
        char buf[4096];
        z.next_out = reinterpret_cast<Bytef *>(buf);
        z.avail_out = sizeof buf;
        int rc = inflate(&z, Z_NO_FLUSH);
        r.out.append(buf, sizeof buf - z.avail_out);
        if (rc == Z_STREAM_END) {
            ended = true;
            if (z.avail_in == 0) break;
            inflateReset(&z);
            ended = false;
            continue;
        }
        if (rc != Z_OK || (z.avail_in == 0 && z.avail_out != 0)) break;
    }
    inflateEnd(&z);
    r.error = !ended;
    return r;
}
Str content()
{
    Str s;
    std::uint32_t n = sim::w(4) ? sim::w(120) : sim::w(4000);
    int style = static_cast<int>(sim::w(3));
    std::uint32_t x = sim::w(1000000) + 1;
    for (std::uint32_t i = 0; i < n; ++i) {
        x = x * 1664525u + 1013904223u;
        s += style == 0 ? static_cast<char>('a' + i / 50 % 26) : style == 1 ? static_cast<char>(x >> 24) : "line of text\n"[i % 13];
    }
    return s;
}
}  // namespace

static void streams()
{
    Str src, plain;
    std::uint32_t members = sim::wone_in(3) ? 2 + sim::w(4) : 1;
    for (std::uint32_t i = 0; i < members; ++i) {
        Str c = content();
        plain += c;
        src += deflate_member(c, members == 1 && sim::wone_in(4) ? 15 : 31);
    }
    bool damaged = false;
    if (sim::wone_in(3)) {
        damaged = true;
        switch (sim::w(5)) {
        case 0: case 1:
            src.resize(sim::w(static_cast<std::uint32_t>(src.size())));
            sim::fault_injected(sim::f_truncate);
            break;
        case 2: case 3:
            for (std::uint32_t k = 1 + sim::w(2); k > 0; --k) src[sim::w(static_cast<std::uint32_t>(src.size()))] ^= static_cast<char>(1u << sim::w(8));
            sim::fault_injected(sim::f_corrupt);
            break;
        default:
            src += Str(1 + sim::w(12), static_cast<char>(sim::w(3) ? sim::w(256) : 0));
            sim::fault_injected(sim::f_corrupt);
            break;
        }
    }
    Ref ref = reference(src);
    if (!damaged) SIM_CHECK(!ref.error && ref.out == plain, "model", "reference decoder");
    random_knobs();
    random_legal_io();
    random_allocator();
    Intrusive_ptr<Data_store> st;
    Frag_store *frag = nullptr;
    bool hard = false;
    int kind = static_cast<int>(sim::w(6));
    Compression comp = Compression::gzip;
    sim::describe("%u members, %zu bytes from %zu, %s, source %d ", members, plain.size(), src.size(), damaged ? "damaged" : "intact", kind);
    switch (kind) {
    case 0:
        st = make_intrusive<In_memory_store>(to_slice(src), comp);
        break;
    case 1: case 2:
        sim::fs::add_file("/sim/a.gz", src);
        st = make_intrusive<File>("/sim/a.gz", kind == 1, sim::wflip() ? Compression::infer : comp);
        break;
    case 3: {
        using Op = sim::fs::Fifo_op;
        std::vector<Op> ops{{Op::open, sim::w(3) * 1000, {}}};
        for (std::size_t pos = 0; pos < src.size();) {
            std::size_t n = 1 + sim::w(static_cast<std::uint32_t>(std::min<std::size_t>(src.size() - pos, 300)));
            ops.push_back({Op::write, sim::w(3), src.substr(pos, n)});
            pos += n;
        }
        ops.push_back({Op::close, 0, {}});
        sim::fs::add_fifo("/sim/p_0", ops);
        st = make_intrusive<Sagemaker_pipe>("/sim/p", std::chrono::seconds{60}, std::nullopt, comp);
        break;
    }
    default: {
        Frag_cfg c;
        c.max_piece = std::vector<int>{0, 1, 2, 3, 7, 64}[sim::w(6)];
        c.seekable = sim::wflip();
        if (sim::wone_in(3)) {
            c.fail_at = sim::w(static_cast<std::uint32_t>(src.size() + 1));
            c.fail_times = 1 + static_cast<int>(sim::w(2));
            c.fail_kind = static_cast<int>(sim::w(4));
            hard = true;
        }
        auto f = make_intrusive<Frag_store>("f", src, c);
        frag = f.get();
        st = f;
        break;
    }
    }
    if (sim::wone_in(4)) {
        random_hard_faults();
        hard = true;
    }
    Intrusive_ptr<Input_stream> s;
    Outcome o;
    if (!guarded(o, [&] {
            sim::Op_scope sc("open");
            s = st->open_read();
            if (frag != nullptr) s = make_inflate_stream(std::move(s), comp);
        })) {
        SIM_CHECK(hard && sim::hard_faults_fired() != 0, "unexpected-error", "open: %s", o.what.c_str());
        return;
    }
    SIM_CHECK(!s->seekable(), "seekable", "an inflating stream claims to be seekable");
    Str got;
    int errors = 0;
    std::uint32_t cap = sim::wpick(std::vector<std::uint32_t>{1, 2, 10, 100, 5000});
    while (true) {
        Str buf(1 + sim::w(cap), 0);
        std::size_t n = 0;
        Outcome o2;
        if (!guarded(o2, [&] {
                sim::Op_scope sc("read");
                if (sim::wone_in(5)) {
                    // nothing asked, nothing read
                    SIM_CHECK(s->read(Mutable_memory_span{}) == 0, "empty-read", "an empty read returns bytes");
                }
                if (sim::wone_in(4)) {
                    auto m = s->read(buf.size());
                    n = m.size();
                    SIM_CHECK(n <= buf.size(), "too-long", "%zu bytes, %zu asked", n, buf.size());
                    std::memcpy(buf.data(), m.data(), n);
                }
                else n = s->read(Mutable_memory_span{reinterpret_cast<std::byte *>(buf.data()), buf.size()});
            })) {
            SIM_CHECK(ref.error || (hard && sim::hard_faults_fired() != 0), "unexpected-error", "after %zu of %zu bytes: %s", got.size(), ref.out.size(), o2.what.c_str());
            if (++errors > 6) return;  // stays an error
            sim::probe("read again after an error");
            continue;
        }
        if (n == 0) break;
        got.append(buf, 0, n);
        // Bytes inflated by a failed read may be lost with it, but then the end must not come.
        if (errors == 0) SIM_CHECK(got == ref.out.substr(0, got.size()), "wrong-bytes", "byte %zu and on differ", got.size() - n);
    }
    SIM_CHECK(!ref.error, "shortened", "a clean end after %zu bytes although the source is damaged", got.size());
    SIM_CHECK(got == ref.out, errors ? "shortened-after-error" : "shortened", "a clean end after %zu of %zu bytes", got.size(), ref.out.size());
    for (int i = 0; i < 2; ++i) {
        char c[9];
        Outcome o3;
        std::size_t n = 0;
        if (guarded(o3, [&] { n = s->read(Mutable_memory_span{reinterpret_cast<std::byte *>(c), 9}); }))
            SIM_CHECK(n == 0, "data-after-end", "%zu bytes after the end", n);
    }
}

// Data readers on truncated sources.
static void readers()
{
    Session s;
    Gen g;
    g.max_rows = 30;
    g.max_stores = 2;
    g.fmts = {Fmt::csv, Fmt::text, Fmt::recordio, Fmt::image_rec, Fmt::image};
    s.d = make_dataset(g);
    random_knobs();
    random_legal_io();
    std::size_t bad = SIZE_MAX, row = 0;
    for (std::size_t i = 0; i < s.d.stores.size(); ++i) {
        Str z = gz(s.d.stores[i].bytes, sim::wflip() ? 31 : 15);
        bool cut = bad == SIZE_MAX && sim::wone_in(2);
        if (cut) {
            bad = row;
            z.resize(1 + sim::w(static_cast<std::uint32_t>(z.size() - 1)));
            sim::fault_injected(sim::f_truncate);
        }
        if (bad == SIZE_MAX) row += s.d.stores[i].rows.size();
        Str path = "/sim/z" + std::to_string(i) + ".gz";
        if (sim::wflip()) {
            sim::fs::add_file(path, z);
            s.st.list.push_back(make_intrusive<File>(path, sim::wflip()));
        }
        else s.st.list.push_back(make_intrusive<In_memory_store>(to_slice(z), Compression::gzip));
    }
    s.p.dataset = s.st.list;
    random_tuning(s.p);
    sim::describe("%s", params_text(s.p).c_str());
    auto want = expect(s.d, s.p);
    auto r = make_reader(s.d, s.p);
    for (int ep = 0; ep < 2; ++ep) {
        auto o = read_all(*r, s.d);
        for (std::size_t i = 0; i < o.ex.size(); ++i) {
            SIM_CHECK(i < want.ex.size(), "extra-rows", "example %zu, %zu expected", i, want.ex.size());
            SIM_CHECK(o.ex[i] == want.ex[i], "wrong-rows", "example %zu is %s, expected %s", i, o.ex[i].text().c_str(), want.ex[i].text().c_str());
        }
        if (bad == SIZE_MAX) {
            SIM_CHECK(!o.error, "unexpected-error", "%s: %s", o.type.c_str(), o.what.c_str());
            SIM_CHECK(o.ex.size() == want.ex.size(), "early-end", "%zu of %zu examples", o.ex.size(), want.ex.size());
        }
        else SIM_CHECK(o.error, "shortened", "a clean end after %zu of %zu examples although a compressed source is truncated", o.ex.size(), want.ex.size());
        r->reset();
    }
}

static void run()
{
    if (sim::wone_in(4)) readers();
    else streams();
}
SIM_WORKLOAD("C09", run);
