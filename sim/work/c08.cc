// C08: pipe channels are read in sequence, one FIFO per opened stream.
#include "work/session.h"
#include "mlio/data_stores/sagemaker_pipe.h"
using namespace mlio;
using namespace wk;
using std::chrono::seconds;

namespace {
enum class Trouble { none, silent, missing, stall, late };
struct Fifo {
    Str data;
    Trouble t = Trouble::none;
    std::size_t stall_at = 0;
    bool opened = false;
};
struct Channel {
    Str path;
    std::uint64_t timeout = 5;
    std::vector<Fifo> f;
    std::size_t next = 0;
    Str fifo(std::size_t i) const { return path + "_" + std::to_string(i); }
    // Creates the FIFOs and their writers.
    void create()
    {
        using Op = sim::fs::Fifo_op;
        for (std::size_t i = 0; i < f.size(); ++i) {
            std::vector<Op> ops;
            std::uint64_t first = sim::w(4) ? sim::w(900) * 1000 : sim::w(8);
            if (f[i].t == Trouble::silent) first = (timeout + 3) * 1000000;
            if (f[i].t == Trouble::missing) continue;
            ops.push_back({Op::open, f[i].t == Trouble::silent && sim::wflip() ? 0 : first, {}});
            std::size_t pos = 0;
            const Str &d = f[i].data;
            bool lead = true;
            while (pos < d.size()) {
                std::size_t n = 1 + sim::w(static_cast<std::uint32_t>(std::min<std::size_t>(d.size() - pos, 60)));
                std::uint64_t delay = sim::w(3) ? sim::w(3) : sim::w(900) * 1000;
                if (f[i].t == Trouble::silent && lead) delay = (timeout + 3) * 1000000;
                if (f[i].t == Trouble::stall && f[i].stall_at >= pos) {
                    if (f[i].stall_at == pos) delay = (timeout + 3) * 1000000;
                    else n = std::min(n, f[i].stall_at - pos);
                }
                lead = false;
                ops.push_back({Op::write, delay, d.substr(pos, n)});
                pos += n;
            }
            std::uint64_t cd = sim::w(3) ? 0 : sim::w(900) * 1000;
            if (f[i].t == Trouble::stall && f[i].stall_at == d.size()) cd = (timeout + 3) * 1000000;
            ops.push_back({Op::close, cd, {}});
            if (f[i].t == Trouble::late) sim::fs::add_fifo_later(fifo(i), 200000 + sim::w(1500) * 1000, ops);
            else sim::fs::add_fifo(fifo(i), ops);
        }
    }
};
Str blob(std::size_t i, std::uint32_t max)
{
    Str s;
    std::uint32_t n = sim::w(max + 1);
    for (std::uint32_t k = 0; k < n; ++k) s += static_cast<char>('a' + (i * 7 + k) % 26);
    return s;
}
}  // namespace

// Streams of one or more channels, driven by hand.
static void channel_ops(Channel &ch, bool explicit_id, bool store)
{
    Intrusive_ptr<Data_store> st;
    if (explicit_id) ch.next = sim::w(static_cast<std::uint32_t>(ch.f.size()));
    std::optional<std::size_t> id;
    if (explicit_id) id = ch.next;
    seconds to{ch.timeout};
    if (store) st = make_intrusive<Sagemaker_pipe>(ch.path, to, id);
    std::vector<Intrusive_ptr<Input_stream>> old;  // closed but not destroyed
    bool first = true;
    while (ch.next < ch.f.size()) {
        Fifo &f = ch.f[ch.next];
        if (sim::wone_in(5)) old.clear();
        Intrusive_ptr<Input_stream> s;
        Outcome o;
        std::uint64_t t0 = sim::now_us();
        bool ok = guarded(o, [&] {
            sim::Op_scope sc("open");
            if (st) s = st->open_read();
            else s = make_sagemaker_pipe_input_stream(ch.path, to, first ? id : std::nullopt);
        });
        std::uint64_t took = sim::now_us() - t0;
        first = false;
        if (!ok) {
            SIM_CHECK(f.t == Trouble::missing || f.t == Trouble::silent || (f.t == Trouble::stall && f.stall_at == 0), "unexpected-error", "FIFO %zu of %s cannot be opened: %s", ch.next, ch.path.c_str(), o.what.c_str());
            SIM_CHECK(took <= (ch.timeout + 4) * 1000000, "slow-error", "opening FIFO %zu fails after %llu us, timeout %llu s", ch.next, static_cast<unsigned long long>(took), static_cast<unsigned long long>(ch.timeout));
            if (f.t == Trouble::missing) {
                sim::probe("missing FIFO");
                SIM_CHECK(sim::fs::opens(ch.fifo(ch.next)) == 0, "model", "missing FIFO opened");
                // The channel has not moved: the FIFO can be read once it is there.
                if (sim::wflip()) return;
                f.t = Trouble::none;
                sim::fs::add_fifo(ch.fifo(ch.next), {{sim::fs::Fifo_op::open, 0, {}}, {sim::fs::Fifo_op::write, 1, f.data}, {sim::fs::Fifo_op::close, 1, {}}});
                continue;
            }
            sim::probe("silent writer");
            return;
        }
        SIM_CHECK(f.t == Trouble::none || f.t == Trouble::late || (f.t == Trouble::stall && f.stall_at != 0), "error-missing", "FIFO %zu of %s was opened although its writer is silent", ch.next, ch.path.c_str());
        SIM_CHECK(sim::fs::opens(ch.fifo(ch.next)) == 1, "wrong-fifo", "FIFO %zu of %s has been opened %zu times", ch.next, ch.path.c_str(), static_cast<std::size_t>(sim::fs::opens(ch.fifo(ch.next))));
        f.opened = true;
        if (sim::wone_in(4)) {
            // A second stream cannot have the channel meanwhile.
            Outcome o2;
            Intrusive_ptr<Input_stream> s2;
            bool got = guarded(o2, [&] { s2 = make_sagemaker_pipe_input_stream(ch.path, to); });
            SIM_CHECK(!got, "two-streams", "the channel %s has been opened twice", ch.path.c_str());
        }
        // Older streams do not matter.
        for (auto &x : old)
            if (sim::wone_in(3)) x->close();
        if (sim::wone_in(3)) old.clear();
        Str got;
        std::size_t stop = sim::wone_in(4) ? sim::w(static_cast<std::uint32_t>(f.data.size() + 1)) : SIZE_MAX;
        bool end = false, failed = false;
        while (got.size() < stop && !end) {
            Str buf(1 + sim::w(50), 0);
            Outcome o3;
            std::size_t n = 0;
            if (!guarded(o3, [&] {
                    sim::Op_scope sc("read");
                    if (sim::wone_in(3)) {
                        auto m = s->read(buf.size());
                        n = m.size();
                        std::memcpy(buf.data(), m.data(), n);
                    }
                    else n = s->read(Mutable_memory_span{reinterpret_cast<std::byte *>(buf.data()), buf.size()});
                })) {
                SIM_CHECK(f.t == Trouble::stall, "unexpected-error", "FIFO %zu of %s after %zu of %zu bytes: %s", ch.next, ch.path.c_str(), got.size(), f.data.size(), o3.what.c_str());
                SIM_CHECK(got.size() == f.stall_at, "early-timeout", "timeout after %zu bytes, the writer stalls after %zu", got.size(), f.stall_at);
                sim::probe("writer stalled");
                failed = true;
                break;
            }
            if (n == 0) end = true;
            got.append(buf, 0, n);
            SIM_CHECK(got == f.data.substr(0, got.size()), "wrong-bytes", "FIFO %zu of %s: '%s', written '%s'", ch.next, ch.path.c_str(), esc(got).c_str(), esc(f.data).c_str());
        }
        if (end) {
            SIM_CHECK(got == f.data, "early-end", "FIFO %zu of %s ended after %zu of %zu bytes", ch.next, ch.path.c_str(), got.size(), f.data.size());
            SIM_CHECK(f.t != Trouble::stall, "error-missing", "the end is reported although the writer is silent");
        }
        (void)failed;
        for (std::uint32_t i = sim::w(3); i > 0; --i) s->close();
        if (s->closed()) {
            SIM_CHECK(s->closed(), "not-closed", "closed");
            Outcome o4;
            char c[4];
            SIM_CHECK(!guarded(o4, [&] { s->read(Mutable_memory_span{reinterpret_cast<std::byte *>(c), 4}); }), "read-closed", "a closed stream can be read");
            if (sim::wflip()) old.push_back(s);
        }
        s = nullptr;
        ++ch.next;
        for (auto &x : old)
            if (sim::wone_in(3)) x->close();
    }
}

static Channel make_channel(int i, bool writer_delays)
{
    Channel ch;
    ch.path = "/sim/ch" + std::to_string(i);
    ch.timeout = 3 + sim::w(5);
    if (writer_delays) {
        ch.timeout = 30;
        sim::faults.p[sim::f_writer_delay] = 0.2;
        sim::faults.budget[sim::f_writer_delay] = 6;
    }
    std::uint32_t n = 1 + sim::w(5);
    for (std::uint32_t k = 0; k < n; ++k) {
        Fifo f;
        f.data = blob(k + 10 * static_cast<std::size_t>(i), 120);
        if (sim::wone_in(4) && sim::faults.p[sim::f_writer_delay] == 0) {
            f.t = sim::wpick(std::vector<Trouble>{Trouble::late, Trouble::missing, Trouble::silent, Trouble::stall});
            if (f.t == Trouble::stall) f.stall_at = sim::w(static_cast<std::uint32_t>(f.data.size() + 1));
            if (f.t == Trouble::silent && f.data.empty()) f.data = "x";
        }
        ch.f.push_back(f);
    }
    return ch;
}

static void streams()
{
    std::uint32_t n = sim::wone_in(3) ? 2 : 1;
    std::vector<Channel> chs;
    std::vector<int> modes;
    bool delays = sim::wone_in(4);
    for (std::uint32_t i = 0; i < n; ++i) {
        chs.push_back(make_channel(static_cast<int>(i), delays));
        modes.push_back(static_cast<int>(sim::w(4)));
    }
    // A fresh writer per FIFO: it waits for its reader, so delays count from the open.
    for (auto &c : chs) c.create();
    sim::describe("%u channels, %zu FIFOs", n, chs[0].f.size());
    if (n == 1) channel_ops(chs[0], modes[0] == 1, modes[0] >= 2);
    else {
        sim::Thread t{[&] { channel_ops(chs[1], modes[1] == 1, modes[1] >= 2); }};
        channel_ops(chs[0], modes[0] == 1, modes[0] >= 2);
        t.join();
        sim::probe("channels used concurrently");
    }
    SIM_CHECK(sim::fs::open_fds() == 0, "fd-left", "descriptors left open:%s", sim::fs::describe_open().c_str());
}

// Data readers: one FIFO per epoch.
static void epochs()
{
    Session s;
    s.d.fmt = Fmt::text;
    std::uint32_t stores = 1 + sim::w(2), n = 2 + sim::w(4);
    bool gzip = sim::wone_in(4);
    std::vector<Channel> chs(stores);
    for (std::uint32_t i = 0; i < stores; ++i) {
        chs[i].path = "/sim/e" + std::to_string(i);
        chs[i].timeout = 60;
        for (std::uint32_t k = 0; k < n; ++k) {
            Fifo f;
            std::uint32_t rows = 1 + sim::w(12);
            for (std::uint32_t r = 0; r < rows; ++r) f.data += "s" + std::to_string(i) + "-f" + std::to_string(k) + "-r" + std::to_string(r) + "\n";
            chs[i].f.push_back(f);
        }
        Channel wire = chs[i];
        if (gzip)
            for (auto &f : wire.f) f.data = gz_random(f.data);
        wire.create();
        s.st.list.push_back(make_intrusive<Sagemaker_pipe>(chs[i].path, seconds{60}, std::nullopt, gzip ? Compression::gzip : Compression::none));
    }
    random_knobs();
    random_legal_io();
    if (sim::wone_in(3)) {
        sim::faults.p[sim::f_select_fail] = 0.3;
        sim::faults.budget[sim::f_select_fail] = 5;
    }
    s.p.dataset = s.st.list;
    random_tuning(s.p);
    sim::describe("epochs of %u pipes, %u FIFOs, %s", stores, n, params_text(s.p).c_str());
    s.open();
    // The last epoch is the one that has been read last; every epoch takes the
    // next FIFO of each channel it opens.
    std::uint32_t ep = 0;
    while (true) {
        std::vector<std::size_t> start(stores);
        bool avail = true;
        for (std::uint32_t i = 0; i < stores; ++i) {
            std::size_t k = 0;
            while (k < n && sim::fs::opens(chs[i].fifo(k)) != 0) {
                SIM_CHECK(sim::fs::opens(chs[i].fifo(k)) == 1, "opened-twice", "FIFO %zu of channel %u has been opened %zu times", k, i, static_cast<std::size_t>(sim::fs::opens(chs[i].fifo(k))));
                ++k;
            }
            for (std::size_t j = k; j < n; ++j) SIM_CHECK(sim::fs::opens(chs[i].fifo(j)) == 0, "skipped-fifo", "FIFO %zu of channel %u is read but %zu is not", j, i, k);
            start[i] = k;
            if (k == n) avail = false;
        }
        if (!avail || ep > 8) break;
        ++ep;
        std::vector<Str> want;
        for (std::uint32_t i = 0; i < stores; ++i) {
            std::size_t pos = 0;
            const Str &d = chs[i].f[start[i]].data;
            while (pos < d.size()) {
                auto e = d.find('\n', pos);
                want.push_back(d.substr(pos, e - pos));
                pos = e + 1;
            }
        }
        std::size_t stop = sim::wone_in(3) ? sim::w(static_cast<std::uint32_t>(want.size() + 1)) : SIZE_MAX;
        std::vector<Str> got;
        bool end = false;
        if (sim::wone_in(6)) {
            Intrusive_ptr<const Schema> sc;
            SIM_CHECK(s.schema(sc), "unexpected-error", "%s", s.err.what.c_str());
        }
        while (got.size() < stop) {
            Intrusive_ptr<Example> e;
            Outcome o;
            if (!guarded(o, [&] {
                    sim::Op_scope sc("read_example");
                    if (sim::wone_in(6)) s.r->peek_example();
                    e = s.r->read_example();
                }))
                sim::violation("unexpected-error", "epoch %u after %zu rows: %s", ep, got.size(), o.what.c_str());
            if (!e) {
                end = true;
                break;
            }
            for (auto &row : decode(*e, s.d).rows) got.push_back(row);
            SIM_CHECK(got.size() <= want.size(), "extra-rows", "epoch %u has %zu rows, %zu written", ep, got.size(), want.size());
            for (std::size_t i = 0; i < got.size(); ++i)
                SIM_CHECK(got[i] == want[i], "wrong-rows", "row %zu of epoch %u is '%s', expected '%s'", i, ep, esc(got[i]).c_str(), esc(want[i]).c_str());
        }
        if (end) {
            SIM_CHECK(got.size() == want.size(), "early-end", "epoch %u ended after %zu of %zu rows", ep, got.size(), want.size());
            sim::probe("complete epoch");
        }
        if (sim::wone_in(5)) {
            s.destroy();
            s.open();
        }
        else s.reset();
    }
    s.destroy();
    SIM_CHECK(sim::fs::open_fds() == 0, "fd-left", "descriptors left open:%s", sim::fs::describe_open().c_str());
}

static void run()
{
    sim::report_races = true;
    if (sim::wone_in(3)) epochs();
    else streams();
}
SIM_WORKLOAD("C08", run);
