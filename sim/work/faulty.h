// Fault plans shared by the workloads.
#pragma once
#include "work/session.h"
#include "mlio/memory/file_backed_memory_allocator.h"
#include "mlio/memory/heap_memory_allocator.h"
#include "mlio/memory/memory_allocator.h"
#include "mlio/memory/memory_block.h"

namespace wk {
// The allocator the library is given: fails on demand.
class Sim_allocator final : public mlio::Memory_allocator {
public:
    explicit Sim_allocator(std::unique_ptr<mlio::Memory_allocator> inner) : inner_{std::move(inner)} {}
    mlio::Intrusive_ptr<mlio::Mutable_memory_block> allocate(std::size_t size) override
    {
        if (sim::fault(sim::f_alloc_fail)) throw std::bad_alloc{};
        return inner_->allocate(size);
    }
private:
    std::unique_ptr<mlio::Memory_allocator> inner_;
};
inline void random_allocator()
{
    std::unique_ptr<mlio::Memory_allocator> a;
    std::size_t t = 0;
    int k = static_cast<int>(sim::w(3));
    if (k == 1) a = std::make_unique<mlio::Heap_memory_allocator>();
    else {
        static const std::vector<std::size_t> th{1, 16, 64, 512, 4096};
        t = k == 0 ? 1u << 20 : sim::wpick(th);
        a = std::make_unique<mlio::File_backed_memory_allocator>(t);
    }
    mlio::set_memory_allocator(std::make_unique<Sim_allocator>(std::move(a)));
    sim::describe(" allocator=%s/%zu ", k == 1 ? "heap" : "hybrid", t);
}

// Switches on one to three kinds of failures, each with a small budget.
inline void random_hard_faults(bool thread_faults = true)
{
    using namespace sim;
    std::vector<Fault_kind> kinds{f_read_eio, f_read_eintr, f_open_fail, f_fstat_fail, f_lseek_fail, f_mmap_fail, f_mremap_fail,
                                  f_mkstemp_fail, f_ftruncate_fail, f_alloc_fail, f_new_fail, f_select_fail, f_iconv_fail, f_s3_fail};
    if (thread_faults) kinds.push_back(f_thread_fail);
    std::uint32_t n = 1 + sim::w(3);
    new_fail_min = std::vector<std::size_t>{1, 400, 1}[sim::w(3)];
    for (std::uint32_t i = 0; i < n; ++i) {
        Fault_kind k = wone_in(6) ? f_new_fail : wpick(kinds);
        faults.p[k] = std::vector<double>{0.3, 0.05, 1.0}[sim::w(3)];
        if (k == f_new_fail) faults.p[k] = std::vector<double>{0.1, 0.02, 0.003}[sim::w(3)];
        faults.budget[k] = 1 + static_cast<int>(sim::w(3));
        sim::describe("%s ", fault_names[k]);
    }
}

// Stores whose streams fail a limited number of times.
inline std::vector<Frag_store *> failing_stores(Session &s)
{
    std::vector<Frag_store *> out;
    int i = 0;
    for (auto &sd : s.d.stores) {
        Frag_cfg c;
        c.max_piece = static_cast<int>(sim::w(3)) * 3;
        c.seekable = sim::wflip();
        if (sim::wflip()) {
            c.fail_at = sim::w(static_cast<std::uint32_t>(sd.bytes.size() + 1));
            c.fail_times = 1 + static_cast<int>(sim::w(2));
            c.fail_kind = static_cast<int>(sim::w(4));
        }
        if (sim::wone_in(4)) c.open_fail_times = 1 + static_cast<int>(sim::w(2));
        auto f = mlio::make_intrusive<Frag_store>("f" + std::to_string(i++), sd.bytes, c);
        out.push_back(f.get());
        s.st.list.push_back(f);
    }
    return out;
}
}  // namespace wk
