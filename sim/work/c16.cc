// C16: nothing is left behind.
#include "work/faulty.h"
#include "work/records.h"
#include "mlio/data_stores/file.h"
#include "mlio/instance.h"
#include "mlio/instance_readers/instance_reader.h"
#include "mlio/data_stores/compression.h"
#include "mlio/streams/utf8_input_stream.h"
using namespace mlio;
using namespace wk;
namespace {
std::vector<Frag_store *> *frags_now;

// The life of a data reader, ended anywhere.
void reader_life(const Dataset &d, const std::vector<Kind> &kinds, const Data_reader_params &params, int round, bool cut_short)
{
    Data_reader_params p = params;
    sim::faults.armed = false;
    Stores st = make_stores(d, kinds, "r" + std::to_string(round) + "_");
    sim::faults.armed = true;
    std::vector<Intrusive_ptr<Frag_store>> frags;
    for (auto &s : st.list)
        if (auto *f = dynamic_cast<Frag_store *>(s.get())) {
            if (cut_short && sim::wflip()) {
                f->cfg_.fail_at = sim::w(static_cast<std::uint32_t>(f->data_.size() + 1));
                f->cfg_.fail_times = 1 + static_cast<int>(sim::w(2));
                f->cfg_.fail_kind = static_cast<int>(sim::w(4));
            }
            frags.push_back(wrap_intrusive(f, true));
        }
    p.dataset = st.list;
    Intrusive_ptr<Data_reader> r;
    std::vector<Intrusive_ptr<Example>> held;
    std::vector<Intrusive_ptr<const Schema>> schemas;
    Outcome o;
    if (cut_short && sim::wone_in(6)) {
        // not a valid configuration
        switch (sim::w(5)) {
        case 0: p.batch_size = 0; break;
        case 1: p.num_shards = 2, p.shard_index = 2; break;
        case 2: p.sample_ratio = 2.0F; break;
        case 3: p.shard_index = 7; break;
        default: p.num_parallel_reads = 0;
        }
    }
    if (guarded(o, [&] { sim::Op_scope s("construct"); r = make_reader(d, p); })) {
        std::uint32_t n = cut_short ? sim::w(20) : 200;
        for (std::uint32_t i = 0; i < n && r; ++i) {
            std::uint32_t k = cut_short ? sim::w(12) : 0;
            Intrusive_ptr<Example> e;
            Intrusive_ptr<const Schema> sc;
            if (k <= 6) {
                bool ok = guarded(o, [&] { sim::Op_scope s("read_example"); e = r->read_example(); });
                if (ok && !e && !cut_short) break;
                if (!ok && !cut_short) break;
                if (ok && !e && sim::wone_in(3)) r->reset();
                if (!ok && sim::wflip()) r->reset();
            }
            else if (k == 7) guarded(o, [&] { sim::Op_scope s("peek_example"); e = r->peek_example(); });
            else if (k == 8) guarded(o, [&] { sim::Op_scope s("read_schema"); sc = r->read_schema(); });
            else if (k == 9) r->reset();
            else if (k == 10) sim::wait_quiescent();
            else if (sim::wone_in(4)) {
                r = nullptr;
                if (sim::wflip()) {
                    guarded(o, [&] { sim::Op_scope s("construct"); r = make_reader(d, p); });
                }
            }
            if (e && sim::wone_in(3)) held.push_back(std::move(e));
            if (sc && sim::wflip()) schemas.push_back(std::move(sc));
            if (held.size() > 3 && sim::wflip()) held.erase(held.begin());
        }
    }
    else SIM_CHECK(cut_short, "unexpected-error", "%s: %s", o.type.c_str(), o.what.c_str());
    o = {};
    if (sim::wflip()) {
        p.dataset.clear();
        st.list.clear();
    }
    if (cut_short && sim::wone_in(3) && !held.empty()) {
        // The examples outlive everything and go on another thread.
        { sim::Op_scope s("destroy"); r = nullptr; }
        sim::Thread t{[&] { held.clear(); }};
        t.join();
        sim::probe("examples dropped on another thread");
    }
    {
        sim::Op_scope s("destroy");
        r = nullptr;
    }
    held.clear();
    for (auto &f : frags) SIM_CHECK(f->live_streams == 0, "stream-leak", "%d streams of %s are still alive", f->live_streams, f->id().c_str());
}

// Streams and records, ended anywhere.
void stream_life(const Str &bytes, const std::vector<Kind> &kinds, int round, bool cut_short)
{
    sim::faults.armed = false;
    auto st = make_store(bytes, sim::wpick(kinds), "t" + std::to_string(round));
    sim::faults.armed = true;
    Outcome o;
    std::uint32_t opens = 1 + sim::w(3);
    std::vector<Memory_slice> slices;
    std::vector<Intrusive_ptr<Input_stream>> streams;
    for (std::uint32_t i = 0; i < opens; ++i)
        guarded(o, [&] {
            sim::Op_scope s("stream");
            Intrusive_ptr<Input_stream> in = st->open_read();
            if (sim::wone_in(3)) in = make_utf8_stream(std::move(in));
            if (sim::wone_in(4)) in = make_inflate_stream(std::move(in), Compression::gzip);
            std::vector<std::byte> buf(1 + sim::w(50));
            for (std::uint32_t k = sim::w(8); k > 0; --k) {
                if (in->supports_zero_copy() && sim::wflip()) {
                    auto s2 = in->read(1 + sim::w(40));
                    if (sim::wflip()) slices.push_back(s2);
                }
                else in->read(buf);
                if (in->seekable() && sim::wone_in(4)) in->seek(sim::w(static_cast<std::uint32_t>(bytes.size() + 1)));
            }
            if (sim::wone_in(3)) in->close();
            if (sim::wflip()) streams.push_back(in);
            else if (sim::wflip()) {
                Csv_params cp{};
                auto rr = make_records(static_cast<Rk>(sim::w(3)), in, cp, sim::wflip());
                for (std::uint32_t k = sim::w(6); k > 0; --k) {
                    if (sim::wone_in(4)) rr->peek_record();
                    else if (!rr->read_record()) break;
                }
            }
        });
    (void)cut_short;
    if (sim::wflip()) st = nullptr;
    streams.clear();
}

void list_life(int)
{
    Outcome o;
    for (std::uint32_t n = 1 + sim::w(2); n > 0; --n)
        guarded(o, [&] {
            sim::Op_scope s("list_files");
            std::vector<Str> paths{"/sim/tree"};
            if (sim::wone_in(3)) paths.push_back("/sim/tree/a");
            if (sim::wone_in(3)) paths.push_back("/sim/none");
            Str pat = sim::wflip() ? "*f*" : "";
            File_list_options opt{};
            opt.pattern = pat;
            File_list_options::Predicate_callback pred = [](const Str &p) -> bool {
                if (sim::wone_in(8)) throw std::runtime_error{"predicate"};
                return p.size() % 2 == 0;
            };
            if (sim::wflip()) opt.predicate = &pred;
            auto v = list_files(paths, opt);
        });
}

void nothing_left(const char *when)
{
    SIM_CHECK(sim::fs::open_fds() == 0, "fd-leak", "%s:%s", when, sim::fs::describe_open().c_str());
    SIM_CHECK(sim::fs::live_mappings() == 0, "mapping-leak", "%s:%s", when, sim::fs::describe_open().c_str());
    SIM_CHECK(sim::fs::temp_files_visible() == 0, "temp-file-leak", "%s:%s", when, sim::fs::describe_open().c_str());
    SIM_CHECK(sim::fs::open_fts() == 0, "fts-leak", "%s: %d directory traversals open", when, sim::fs::open_fts());
    SIM_CHECK(sim::live_threads() == 0, "thread-leak", "%s: %d threads are alive", when, sim::live_threads());
}
}  // namespace

static void run()
{
    random_knobs();
    random_legal_io();
    random_allocator();
    std::uint32_t what = sim::w(6);
    std::function<void(int, bool)> life;
    Dataset d;
    Data_reader_params p;
    Str bytes;
    bool exact_heap = true;
    if (what < 4) {
        Gen g;
        g.max_rows = 20;
        if (sim::wone_in(3)) g.bad_one_in = 3 + static_cast<int>(sim::w(8));
        d = make_dataset(g);
        // protobuf keeps memory of its own for every thread
        exact_heap = d.fmt == Fmt::csv || d.fmt == Fmt::text || d.fmt == Fmt::image;
        random_tuning(p);
        random_policies(p);
        if (sim::wone_in(4)) random_selection(p, d);
        if (sim::wone_in(4)) {
            p.shuffle_instances = true;
            p.shuffle_window = sim::w(10);
        }
        sim::describe("%s", params_text(p).c_str());
        life = [&](int k, bool c) { reader_life(d, all_kinds(), p, k, c); };
    }
    else if (what == 4) {
        bytes = nasty_text(Csv_params{}, 60);
        if (sim::wone_in(3)) bytes = gz_random(bytes);
        sim::describe("streams");
        // the library remembers every channel for ever (one entry each)
        bool pipes = sim::wone_in(3);
        exact_heap = !pipes;
        life = [&, pipes](int k, bool c) { stream_life(bytes, all_kinds(pipes), k, c); };
    }
    else {
        sim::fs::add_dir("/sim/tree");
        sim::fs::add_dir("/sim/tree/a");
        sim::fs::add_dir("/sim/tree/a/b");
        for (int i = 0; i < 5; ++i) sim::fs::add_file("/sim/tree/f" + std::to_string(i), "x");
        sim::fs::add_file("/sim/tree/a/f", "x");
        sim::fs::add_file("/sim/tree/a/b/g", "x");
        sim::describe("list");
        life = [&](int k, bool) { list_life(k); };
    }
    // Once without faults, so that what the libraries allocate once is there.
    life(0, false);
    sim::wait_quiescent();
    nothing_left("without faults");
    if (what == 5) {
        sim::faults.p[sim::f_fts_fail] = 0.3;
        sim::faults.budget[sim::f_fts_fail] = 1 + static_cast<int>(sim::w(2));
    }
    if (sim::wflip() || what == 5) random_hard_faults();
    std::uint32_t rounds = 1 + sim::w(3);
    s3_client();
    sim::heap::start();
    std::size_t before = sim::heap::live();
    for (std::uint32_t k = 1; k <= rounds; ++k) {
        life(static_cast<int>(k), true);
        nothing_left("at the end of a life");
    }
    sim::faults.armed = false;
    sim::wait_quiescent();
    nothing_left("at rest");
    // oneTBB leaks a buffer of its own if the construction of a graph node runs out of memory
    if (exact_heap && sim::fault_fired(sim::f_new_fail) == 0) {
        std::size_t after = sim::heap::live();
        Str dump;
        if (after > before) {
            sim::heap::dump(dump, 20);
            sim::violation("memory-leak", "%zu blocks are still allocated:%s", after - before, dump.c_str());
        }
        sim::probe("heap compared");
    }
}
SIM_WORKLOAD("C16", run);
