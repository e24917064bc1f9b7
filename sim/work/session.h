// A data reader under test together with its model.
#pragma once
#include "work/common.h"

namespace wk {
struct Session {
    Dataset d;
    Stores st;
    mlio::Data_reader_params p{};
    Expected want;
    mlio::Intrusive_ptr<mlio::Data_reader> r;
    std::size_t pos = 0;       // examples delivered in this epoch
    bool failed = false;       // a read of this epoch failed
    Outcome err;
    mlio::Intrusive_ptr<mlio::Example> peeked;
    bool keep = false;         // hold on to every example
    std::vector<std::pair<mlio::Intrusive_ptr<mlio::Example>, std::size_t>> held;

    void open() { r = make_reader(d, p); }
    // Reads one example and compares it with the model: 1/0/-1.
    int read(bool peek = false)
    {
        mlio::Intrusive_ptr<mlio::Example> e;
        Outcome o;
        if (!guarded(o, [&] {
                sim::Op_scope s(peek ? "peek_example" : "read_example");
                e = peek ? r->peek_example() : r->read_example();
            })) {
            SIM_CHECK(peeked == nullptr, "peek-lost", "after a successful peek the next %s failed: %s", peek ? "peek" : "read", o.what.c_str());
            if (failed) sim::probe("error repeated");
            // Nothing has been consumed if the background thread could not
            // be started; the next read tries again.
            bool retry = sim::fault_fired(sim::f_thread_fail) != 0 && o.what.find("Resource temporarily unavailable") != Str::npos;
            bool no_memory = sim::fault_fired(sim::f_new_fail) != 0 && o.what == "std::bad_alloc" && sim::live_threads() == 0;
            if (no_memory && !failed) ;
            else if (retry) SIM_CHECK(!failed, "error-changed", "after the error '%s' a read fails to start a thread", err.what.c_str());
            else failed = true;
            err = o;
            return -1;
        }
        if (!e) {
            SIM_CHECK(peeked == nullptr, "peek-lost", "after a successful peek the next %s reports the end", peek ? "peek" : "read");
            SIM_CHECK(!failed, "error-forgotten", "after the error '%s' a read reports a clean end", err.what.c_str());
            SIM_CHECK(!want.error, "error-missing", "clean end after %zu examples although a bad row is in example %zu", pos, want.ex.size());
            SIM_CHECK(pos == want.ex.size(), "early-end", "clean end after %zu examples, %zu expected", pos, want.ex.size());
            return 0;
        }
        SIM_CHECK(!failed, "error-forgotten", "after the error '%s' a read returns an example", err.what.c_str());
        if (peeked) SIM_CHECK(e.get() == peeked.get(), "peek-mismatch", "the example returned is not the one that was peeked");
        Ex x = decode(*e, d);
        if (sim::tracing()) sim::note("%s %s", peek ? "peeked" : "example", x.text().c_str());
        SIM_CHECK(pos < want.ex.size(), "extra-example", "example %zu delivered, %zu expected: %s", pos, want.ex.size(), x.text().c_str());
        SIM_CHECK(x == want.ex[pos], "wrong-example", "example %zu is %s, expected %s", pos, x.text().c_str(), want.ex[pos].text().c_str());
        if (peek) peeked = e;
        else {
            peeked = nullptr;
            pos++;
        }
        return 1;
    }
    // true = schema obtained (may be null)
    bool schema(mlio::Intrusive_ptr<const mlio::Schema> &s)
    {
        Outcome o;
        if (!guarded(o, [&] { sim::Op_scope sc("read_schema"); s = r->read_schema(); })) {
            failed = true;
            err = o;
            return false;
        }
        return true;
    }
    void reset()
    {
        if (sim::tracing()) sim::note("reset");
        {
            sim::Op_scope s("reset");
            r->reset();
        }
        pos = 0;
        failed = false;
        peeked = nullptr;
    }
    void destroy()
    {
        if (sim::tracing()) sim::note("destroy");
        sim::Op_scope s("destroy");
        r = nullptr;
        peeked = nullptr;
    }
    // Reads to the end of the epoch; model says whether that is an error.
    void finish()
    {
        for (std::size_t i = 0; i <= want.ex.size() + 1; ++i) {
            int rc = read(sim::wone_in(6));
            if (rc == 0) return;
            if (rc < 0) {
                SIM_CHECK(want.error, "unexpected-error", "after %zu examples: %s: %s", pos, err.type.c_str(), err.what.c_str());
                return;
            }
        }
        // peeks may use up iterations
        while (true) {
            int rc = read(false);
            if (rc == 0) return;
            if (rc < 0) {
                SIM_CHECK(want.error, "unexpected-error", "after %zu examples: %s: %s", pos, err.type.c_str(), err.what.c_str());
                return;
            }
        }
    }
};

// Last-example and bad-row policies.
inline void random_policies(mlio::Data_reader_params &p)
{
    using L = mlio::Last_example_handling;
    using B = mlio::Bad_example_handling;
    p.last_example_handling = sim::wpick(std::vector<L>{L::none, L::drop, L::pad, L::drop_warn, L::pad_warn});
    p.bad_example_handling = sim::wpick(std::vector<B>{B::error, B::skip, B::pad, B::skip_warn, B::pad_warn});
    p.warn_bad_instances = sim::wone_in(3);
}
inline void random_selection(mlio::Data_reader_params &p, std::size_t rows)
{
    if (sim::wone_in(3)) p.num_instances_to_skip = sim::w(static_cast<std::uint32_t>(rows + 2));
    if (sim::wone_in(3)) p.num_instances_to_read = sim::w(static_cast<std::uint32_t>(rows + 2));
    if (sim::wone_in(3)) {
        p.num_shards = 1 + sim::w(4);
        p.shard_index = sim::w(static_cast<std::uint32_t>(p.num_shards));
    }
}
// The schema is inferred from the first selected row; if that row is a bad
// one, what the other rows are checked against is anybody's guess. Such
// selections are dropped (the first row of a dataset is a good one).
inline bool infers_from_bad_row(const Dataset &d, const mlio::Data_reader_params &p)
{
    auto sel = select_rows(d, p);
    return !sel.empty() && d.rows()[sel[0]].bad;
}
inline void random_selection(mlio::Data_reader_params &p, const Dataset &d)
{
    random_selection(p, d.num_rows());
    if (infers_from_bad_row(d, p)) {
        p.num_instances_to_skip = 0;
        p.num_shards = p.shard_index = 0;
    }
}
}  // namespace wk
