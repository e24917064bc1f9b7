// C06: read-ahead and parallelism stay within the configured bounds.
#include "work/session.h"
using namespace mlio;
using namespace wk;

namespace {
struct Watch {
    std::size_t batch = 1, prefetch = 1, parallel = 1;
    std::size_t calls = 0;                 // reads that have been started in this epoch
    bool resetting = false, inferring = false;
    std::set<std::size_t> opened;          // rows taken in this epoch
    std::map<std::size_t, int> live;       // batch -> streams being read
    std::size_t max_live = 0, max_ahead = 0;
    bool decode_only = false;              // stores are opened by decoding
};

class Watch_stream final : public Input_stream_base {
public:
    Watch_stream(const Str &d, Watch *w, std::size_t b) : d_{d}, w_{w}, b_{b}
    {
        if (++w_->live[b_] == 1) check();
    }
    ~Watch_stream() override { done(); }
    using Input_stream_base::read;
    std::size_t read(Mutable_memory_span dst) override
    {
        sim::yield_point("watch_read");
        std::size_t n = std::min<std::size_t>(std::min(dst.size(), d_.size() - pos_), 1 + sim::choose(sim::F, 64));
        std::memcpy(dst.data(), d_.data() + pos_, n);
        pos_ += n;
        return n;
    }
    void close() noexcept override { done(); }
    bool closed() const noexcept override { return closed_; }
private:
    void done()
    {
        if (closed_) return;
        closed_ = true;
        if (--w_->live[b_] == 0) w_->live.erase(b_);
    }
    void check()
    {
        w_->max_live = std::max(w_->max_live, w_->live.size());
        if (w_->decode_only && !w_->inferring)
            SIM_CHECK(w_->live.size() <= w_->parallel, "too-parallel", "%zu batches are decoded at once, limit %zu", w_->live.size(), w_->parallel);
    }
    const Str &d_;
    Watch *w_;
    std::size_t b_, pos_ = 0;
    bool closed_ = false;
};

class Watch_store final : public Data_store {
public:
    Watch_store(std::size_t row, Str data, Watch *w) : row_{row}, data_{std::move(data)}, w_{w}, id_{"w" + std::to_string(row)} {}
    Intrusive_ptr<Input_stream> open_read() const override
    {
        sim::yield_point("watch_open");
        w_->opened.insert(row_);
        if (!w_->resetting) {
            std::size_t c = w_->calls, n = w_->opened.size();
            std::size_t lim = c == 0 ? 1 : w_->batch * (c + 2 * w_->prefetch - 1 + w_->parallel + (w_->decode_only ? 0 : 1));
            SIM_CHECK(n <= lim, "too-far-ahead", "%zu rows %s after %zu reads: batch %zu, prefetch %zu, parallel %zu allow %zu", n,
                      w_->decode_only ? "decoded" : "consumed", c, w_->batch, w_->prefetch, w_->parallel, lim);
            if (n > c * w_->batch) w_->max_ahead = std::max(w_->max_ahead, n - c * w_->batch);
        }
        return make_intrusive<Watch_stream>(data_, w_, row_ / w_->batch);
    }
    std::string repr() const override { return id_; }
    const std::string &id() const override { return id_; }
private:
    std::size_t row_;
    Str data_;
    Watch *w_;
    Str id_;
};
}  // namespace

static void run()
{
    Session s;
    auto w = std::make_unique<Watch>();
    bool image = sim::wone_in(3);
    Gen g;
    g.fmts = {image ? Fmt::image : Fmt::text};
    g.max_rows = g.min_rows = 1;
    s.d = make_dataset(g);
    std::uint32_t n = (image ? 8 : 16) + sim::w(image ? 24 : 60);
    if (image) {
        // The image of the generator, over and over.
        Store_data one;
        for (auto &x : s.d.stores)
            if (!x.rows.empty()) one = x;
        s.d.stores.assign(n, one);
    }
    else {
        s.d.stores.clear();
        for (std::uint32_t i = 0; i < n; ++i) {
            Store_data sd;
            Row r;
            Str t = "row" + std::to_string(i);
            r.canon = t;
            r.size = t.size();
            sd.bytes = t + "\n";
            sd.rows.push_back(r);
            sd.extent.push_back({0, sd.bytes.size()});
            s.d.stores.push_back(sd);
        }
    }
    random_knobs();
    s.p.batch_size = 1 + sim::w(4);
    s.p.num_prefetched_examples = sim::w(5);
    s.p.num_parallel_reads = sim::w(6);
    w->batch = s.p.batch_size;
    w->prefetch = s.p.num_prefetched_examples ? s.p.num_prefetched_examples : static_cast<std::size_t>(sim::hw_threads());
    w->parallel = s.p.num_parallel_reads ? std::min(s.p.num_parallel_reads, w->prefetch) : w->prefetch;
    w->decode_only = image;
    if (image) sim::set_knob("parallel_decode_cut_off", std::vector<std::size_t>{1, 2, 1000}[sim::w(3)]);
    for (std::size_t i = 0; i < s.d.stores.size(); ++i)
        s.st.list.push_back(make_intrusive<Watch_store>(i, s.d.stores[i].bytes, w.get()));
    s.p.dataset = s.st.list;
    sim::describe("%s", params_text(s.p).c_str());
    s.want = expect(s.d, s.p);
    s.open();
    std::uint32_t epochs = 1 + sim::w(2);
    for (std::uint32_t ep = 0; ep < epochs; ++ep) {
        if (sim::wone_in(3)) {
            Intrusive_ptr<const Schema> sc;
            w->inferring = true;
            s.schema(sc);
            w->inferring = false;
            sim::wait_quiescent();
            SIM_CHECK(w->opened.size() <= 1, "too-far-ahead", "%zu rows consumed before the first read", w->opened.size());
        }
        std::uint32_t reads = sim::w(static_cast<std::uint32_t>(s.want.ex.size() + 2));
        if (sim::wflip()) reads = std::min<std::uint32_t>(reads, 3);
        for (std::uint32_t i = 0; i < reads; ++i) {
            bool peek = sim::wone_in(6);
            if (!s.peeked) w->calls++;
            int rc = s.read(peek);
            SIM_CHECK(rc >= 0, "unexpected-error", "%s: %s", s.err.type.c_str(), s.err.what.c_str());
            if (rc == 0) break;
            if (sim::wone_in(3)) {
                // The consumer rests: the pipeline fills up and stops.
                sim::wait_quiescent();
                if (!w->opened.empty() && w->opened.size() < s.d.stores.size()) sim::probe("pipeline full");
                SIM_CHECK(w->live.empty() || !image, "decode-at-rest", "a store is being read while nothing runs");
            }
        }
        if (ep + 1 < epochs) {
            w->resetting = true;
            s.reset();
            w->resetting = false;
            SIM_CHECK(sim::live_threads() == 0, "thread-left", "a background thread runs after reset");
            w->opened.clear();
            w->calls = 0;
        }
    }
    if (w->max_live > 1) sim::probe("batches decoded at once");
    w->resetting = true;
    s.destroy();
}
SIM_WORKLOAD("C06", run);
