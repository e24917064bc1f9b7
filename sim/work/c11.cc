// C11: skipping, sharding, sampling and shuffling select exactly the right rows.
#include "work/session.h"
#include <cmath>
using namespace mlio;
using namespace wk;

namespace {
// Numbered text rows over several stores.
Dataset numbered(std::size_t total)
{
    Dataset d;
    d.fmt = Fmt::text;
    std::size_t ns = 1 + sim::w(4), left = total, no = 0;
    for (std::size_t i = 0; i < ns; ++i) {
        std::size_t n = i + 1 == ns ? left : sim::w(static_cast<std::uint32_t>(left + 1));
        left -= n;
        Store_data s;
        for (std::size_t k = 0; k < n; ++k) {
            Row r;
            r.canon = "r" + std::to_string(no++);
            r.size = r.canon.size();
            std::size_t b = s.bytes.size();
            s.bytes += r.canon;
            if (k + 1 < n || sim::wflip()) s.bytes += '\n';
            s.extent.emplace_back(b, s.bytes.size());
            s.rows.push_back(std::move(r));
        }
        d.stores.push_back(std::move(s));
    }
    sim::describe("%zu rows, %zu stores", total, ns);
    return d;
}

struct Epoch {
    std::vector<std::size_t> rows;
    bool complete = false;
};

Epoch read_rows(Data_reader &r, const Dataset &d, const Data_reader_params &p, std::size_t max)
{
    Epoch e;
    bool small = false;
    while (e.rows.size() < max) {
        Ex x;
        Outcome o;
        bool peek = sim::wone_in(12);
        int rc = read_one(r, d, x, o, peek);
        if (peek && rc > 0) continue;
        SIM_CHECK(rc >= 0, "unexpected-error", "%s: %s", o.type.c_str(), o.what.c_str());
        if (rc == 0) {
            e.complete = true;
            break;
        }
        SIM_CHECK(x.padding == 0 && x.rows.size() == x.size, "wrong-batch", "%s", x.text().c_str());
        SIM_CHECK(!small, "wrong-batch", "a batch follows one that was not full");
        if (x.size < p.batch_size) small = true;
        SIM_CHECK(x.size > 0 && x.size <= p.batch_size, "wrong-batch", "batch of %zu, configured %zu", x.size, p.batch_size);
        for (auto &s : x.rows) e.rows.push_back(static_cast<std::size_t>(std::stoul(s.substr(1))));
    }
    return e;
}

Str list(const std::vector<std::size_t> &v, std::size_t max = 40)
{
    Str s;
    for (std::size_t i = 0; i < v.size() && i < max; ++i) s += (i ? "," : "") + std::to_string(v[i]);
    if (v.size() > max) s += "...";
    return s;
}

// in: what reaches the shuffling stage.
void check_shuffled(const Epoch &e, const std::vector<std::size_t> &in, std::size_t window, const char *when)
{
    std::map<std::size_t, std::size_t> at;
    for (std::size_t i = 0; i < in.size(); ++i) at[in[i]] = i;
    std::set<std::size_t> seen;
    for (std::size_t i = 0; i < e.rows.size(); ++i) {
        auto it = at.find(e.rows[i]);
        SIM_CHECK(it != at.end(), "wrong-row", "%s: row %zu delivered, not selected", when, e.rows[i]);
        SIM_CHECK(seen.insert(e.rows[i]).second, "row-twice", "%s: row %zu delivered twice", when, e.rows[i]);
        if (window != 0)
            SIM_CHECK(it->second <= i + window - 1, "outside-window", "%s: row %zu (number %zu selected) delivered as number %zu, window %zu", when, e.rows[i], it->second, i, window);
    }
    if (e.complete) SIM_CHECK(seen.size() == in.size(), "row-missing", "%s: %zu of %zu rows delivered", when, seen.size(), in.size());
}
}  // namespace

static void run()
{
    std::uint32_t shape = sim::w(8);
    std::size_t total = shape < 5 ? sim::w(40) : shape < 7 ? sim::w(130) : 90 + sim::w(260);
    Session s;
    s.d = numbered(total);
    random_knobs();
    random_legal_io();
    std::vector<Kind> kinds{Kind::mem, Kind::mem, Kind::file_mmap, Kind::file_stream, Kind::gz_mem, Kind::frag};
    auto fresh = [&](Data_reader_params &p) {
        // Another layout of the same rows' readers: stores are reused, tuning is not.
        random_tuning(p);
        if (total > 60) p.batch_size = 1 + sim::w(40);
        return make_reader(s.d, p);
    };
    s.st = make_stores(s.d, kinds);
    s.p.dataset = s.st.list;
    if (sim::wone_in(3)) s.p.num_instances_to_skip = sim::w(static_cast<std::uint32_t>(total + 2));
    if (sim::wone_in(3)) s.p.num_instances_to_read = sim::w(static_cast<std::uint32_t>(total + 2));
    std::size_t shards = sim::wone_in(2) ? 1 + sim::w(6) : 0;
    bool sampled = sim::wone_in(3);
    if (sampled) s.p.sample_ratio = static_cast<float>(1 + sim::w(99)) / 100.0F;
    bool shuffled = sim::wone_in(2);
    std::size_t window = 0;
    if (shuffled) {
        s.p.shuffle_instances = true;
        switch (sim::w(5)) {
        case 0: window = 0; break;
        case 1: window = 1; break;
        case 2: window = 2 + sim::w(4); break;
        case 3: window = total + sim::w(3); break;
        default: window = 1 + sim::w(static_cast<std::uint32_t>(total + 1)); break;
        }
        s.p.shuffle_window = window;
        s.p.reshuffle_each_epoch = sim::wflip();
        if (sim::wflip()) s.p.shuffle_seed = sim::w(1000);
    }
    s.p.num_shards = shards;
    // Every row that is in range, by shard.
    std::set<std::size_t> covered;
    std::size_t range_size = 0;
    {
        Data_reader_params p = s.p;
        p.num_shards = p.shard_index = 0;
        range_size = select_rows(s.d, p).size();
    }
    std::size_t first = 0, last = shards == 0 ? 1 : shards;
    if (shards > 0 && sim::wflip()) {  // one shard only
        first = sim::w(static_cast<std::uint32_t>(shards));
        last = first + 1;
    }
    sim::describe("%s shards %zu [%zu,%zu)", params_text(s.p).c_str(), shards, first, last);
    for (std::size_t sh = first; sh < last; ++sh) {
        Data_reader_params p = s.p;
        p.shard_index = shards == 0 ? 0 : sh;
        auto sel = select_rows(s.d, p);
        auto r = fresh(p);
        std::vector<std::size_t> in = sel;  // after sampling
        std::vector<Epoch> full;
        std::uint32_t epochs = 1 + sim::w(3);
        bool clean_history = true;  // only complete epochs so far
        for (std::uint32_t k = 0; k <= epochs; ++k) {
            // The last epoch is a complete one.
            std::size_t max = SIZE_MAX;
            if (k < epochs && sim::wflip()) max = sim::w(static_cast<std::uint32_t>(sel.size() + 2));
            if (sim::wone_in(6)) {
                auto sc = r->read_schema();
                SIM_CHECK(sc != nullptr || sel.empty() || sampled, "no-schema", "no schema for %zu rows", sel.size());
            }
            Epoch e = read_rows(*r, s.d, p, max);
            Str when = "epoch " + std::to_string(k) + " of shard " + std::to_string(sh);
            if (sampled) {
                // An in-order (before shuffling) part of the selection.
                std::set<std::size_t> have(e.rows.begin(), e.rows.end());
                SIM_CHECK(have.size() == e.rows.size(), "row-twice", "%s: a row is delivered twice: %s", when.c_str(), list(e.rows).c_str());
                std::set<std::size_t> all(sel.begin(), sel.end());
                for (auto x : have) SIM_CHECK(all.count(x) != 0, "wrong-row", "%s: row %zu delivered, not selected", when.c_str(), x);
                if (!shuffled || window == 1)
                    SIM_CHECK(std::is_sorted(e.rows.begin(), e.rows.end()), "wrong-order", "%s: %s", when.c_str(), list(e.rows).c_str());
                if (e.complete) {
                    // The fraction is kept per block of 100 rows, rounded down.
                    double want = static_cast<double>(*p.sample_ratio) * static_cast<double>(sel.size());
                    double blocks = std::ceil(static_cast<double>(sel.size()) / 100.0);
                    SIM_CHECK(static_cast<double>(e.rows.size()) <= want + 0.01 && static_cast<double>(e.rows.size()) >= want - blocks - 0.01, "wrong-fraction",
                              "%s: %zu of %zu rows kept with ratio %g", when.c_str(), e.rows.size(), sel.size(), static_cast<double>(*p.sample_ratio));
                    std::vector<std::size_t> kept(have.begin(), have.end());
                    if (!full.empty()) {
                        std::vector<std::size_t> before = full[0].rows;
                        std::sort(before.begin(), before.end());
                        SIM_CHECK(before == kept, "sample-differs", "%s keeps %s, before %s", when.c_str(), list(kept).c_str(), list(before).c_str());
                    }
                    in = kept;
                    if (shuffled) check_shuffled(e, in, window, when.c_str());
                }
            }
            else if (!shuffled || window == 1) {
                for (std::size_t i = 0; i < e.rows.size(); ++i)
                    SIM_CHECK(i < sel.size() && e.rows[i] == sel[i], "wrong-row", "%s: row %zu delivered as number %zu, %s expected", when.c_str(), e.rows[i], i,
                              i < sel.size() ? std::to_string(sel[i]).c_str() : "none");
                if (e.complete) SIM_CHECK(e.rows.size() == sel.size(), "row-missing", "%s: %zu of %zu rows delivered", when.c_str(), e.rows.size(), sel.size());
            }
            else check_shuffled(e, in, window, when.c_str());
            if (!full.empty() && shuffled && !p.reshuffle_each_epoch) {
                auto &f = full[0].rows;
                for (std::size_t i = 0; i < e.rows.size(); ++i)
                    SIM_CHECK(i < f.size() && e.rows[i] == f[i], "order-changed", "%s: number %zu is row %zu, in the first epoch %s", when.c_str(), i, e.rows[i], i < f.size() ? std::to_string(f[i]).c_str() : "none");
            }
            if (shuffled && p.reshuffle_each_epoch && clean_history && e.complete && !full.empty() && (window == 0 || window >= 14) && e.rows.size() >= 14) {
                SIM_CHECK(e.rows != full.back().rows, "order-repeated", "%s: same order as in the epoch before although reshuffling is on: %s", when.c_str(), list(e.rows).c_str());
                sim::probe("reshuffled epochs compared");
            }
            if (shuffled && e.complete && full.empty() && k == 0 && (window == 0 || window >= 14) && e.rows.size() >= 14)
                SIM_CHECK(!std::is_sorted(e.rows.begin(), e.rows.end()), "not-shuffled", "%s: %zu rows in their original order, window %zu", when.c_str(), e.rows.size(), window);
            if (e.complete && (k == 0 || clean_history || !p.reshuffle_each_epoch || !shuffled)) full.push_back(e);
            if (!e.complete) clean_history = false;
            if (k == epochs && !sampled)
                for (auto x : e.rows) SIM_CHECK(covered.insert(x).second, "shards-overlap", "row %zu is in two shards", x);
            if (k < epochs) {
                if (sim::wone_in(3)) sim::wait_quiescent();
                r->reset();
            }
        }
        // The same seed gives the same order, whatever the tuning.
        if (shuffled && p.shuffle_seed && !full.empty() && sim::wflip() && clean_history) {
            Data_reader_params q = s.p;
            q.shard_index = p.shard_index;
            auto r2 = fresh(q);
            for (std::size_t k = 0; k < full.size(); ++k) {
                Epoch e = read_rows(*r2, s.d, q, SIZE_MAX);
                SIM_CHECK(e.rows == full[k].rows, "seed-order", "seed %lu, epoch %zu: %s and %s", static_cast<unsigned long>(*p.shuffle_seed), k, list(e.rows).c_str(), list(full[k].rows).c_str());
                r2->reset();
            }
            sim::probe("same seed compared");
        }
    }
    if (!sampled && first == 0 && last == (shards == 0 ? 1 : shards))
        SIM_CHECK(covered.size() == range_size, "shards-incomplete", "the shards cover %zu of %zu rows", covered.size(), range_size);
}
SIM_WORKLOAD("C11", run);
