// Simulated task scheduler: replaces the entry points of libtbb used by the
// oneTBB headers. The flow graph, parallel_for and partitioners are real code.
#include <stdlib.h>

#include <stdexcept>

#include <tbb/tbb.h>

#include "internal.h"

using sim::point;
using sim::self;

namespace tbb {
namespace detail {
namespace r1 {

class tbb_exception_ptr {
public:
    std::exception_ptr p;
};

class arena {
public:
    struct Pending {
        d1::task *t;
        d1::task_group_context *ctx;
        d1::slot_id slot;
    };
    std::vector<Pending> tasks;
    int refs = 1;
    int max_concurrency = 1;
};

namespace {
std::vector<arena *> *arenas = new std::vector<arena *>;
std::vector<d1::task_group_context *> *contexts = new std::vector<d1::task_group_context *>;
const char pool_key = 0;
int workers;
arena *default_arena;
// Used when libtbb entry points are reached outside a simulated run.
arena *get_default()
{
    sim::Quiet quiet;
    if (default_arena == nullptr) {
        default_arena = new arena;
        default_arena->max_concurrency = sim::hw_threads();
        arenas->push_back(default_arena);
    }
    return default_arena;
}
}  // namespace

struct task_group_context_impl {
    static d1::task_group_context &actual(d1::task_group_context &c) { return c.actual_context(); }
    static void init(d1::task_group_context &c)
    {
        c.my_cancellation_requested.store(0, std::memory_order_relaxed);
        c.my_may_have_children.store(0, std::memory_order_relaxed);
        c.my_state.store(d1::task_group_context::state::created, std::memory_order_relaxed);
        c.my_parent = nullptr;
        c.my_context_list = nullptr;
        c.my_exception.store(nullptr, std::memory_order_relaxed);
        c.my_itt_caller = nullptr;
    }
    static void bind(d1::task_group_context &c)
    {
        sim::Quiet quiet;
        if (c.my_state.load(std::memory_order_relaxed) != d1::task_group_context::state::created) return;
        auto *cur = sim::self ? static_cast<d1::task_group_context *>(sim::self->ctx) : nullptr;
        if (cur != nullptr && cur != &c && c.my_traits.bound) {
            c.my_parent = cur;
            c.my_state.store(d1::task_group_context::state::bound, std::memory_order_relaxed);
            if (cur->my_cancellation_requested.load(std::memory_order_relaxed) != 0)
                c.my_cancellation_requested.store(1, std::memory_order_relaxed);
            contexts->push_back(&c);
        }
        else {
            c.my_state.store(d1::task_group_context::state::isolated, std::memory_order_relaxed);
        }
    }
    static void destroy(d1::task_group_context &c)
    {
        auto &v = *contexts;
        for (std::size_t i = 0; i < v.size(); ++i) {
            if (v[i] == &c) {
                v.erase(v.begin() + static_cast<long>(i));
                break;
            }
        }
        auto *e = c.my_exception.exchange(nullptr);
        delete e;
        c.my_state.store(d1::task_group_context::state::dead, std::memory_order_relaxed);
    }
    static void reset(d1::task_group_context &c)
    {
        auto *e = c.my_exception.exchange(nullptr);
        delete e;
        c.my_cancellation_requested.store(0, std::memory_order_relaxed);
    }
    static bool cancelled(d1::task_group_context &c)
    {
        return c.my_cancellation_requested.load(std::memory_order_relaxed) != 0;
    }
    static bool cancel(d1::task_group_context &c)
    {
        if (c.my_cancellation_requested.exchange(1) != 0) return false;
        bool changed = true;
        while (changed) {
            changed = false;
            for (auto *k : *contexts) {
                if (k->my_parent != nullptr &&
                    k->my_parent->my_cancellation_requested.load(std::memory_order_relaxed) != 0 &&
                    k->my_cancellation_requested.exchange(1) == 0)
                    changed = true;
            }
        }
        return true;
    }
    static void set_exception(d1::task_group_context &c)
    {
        sim::Quiet quiet;
        auto *e = new tbb_exception_ptr{std::current_exception()};
        delete c.my_exception.exchange(e);
    }
    static void rethrow(d1::task_group_context &c)
    {
        auto *e = c.my_exception.load();
        if (e != nullptr) {
            std::exception_ptr p = e->p;
            std::rethrow_exception(p);
        }
    }
};

class task_dispatcher {
public:
    static bool busy(d1::wait_context &w) { return w.continue_execution(); }
    static const void *addr(d1::wait_context &w) { return &w.m_ref_count; }
};

struct task_arena_impl {
    static arena *get(const d1::task_arena_base &t) { return t.my_arena.load(std::memory_order_relaxed); }
    static void init(d1::task_arena_base &t)
    {
        sim::Quiet quiet;
        auto *a = new arena;
        int m = t.my_max_concurrency;
        if (m <= 0) {
            m = sim::hw_threads();
            t.my_max_concurrency = m;
        }
        a->max_concurrency = m;
        arenas->push_back(a);
        t.my_arena.store(a);
    }
    static void attach(d1::task_arena_base &t, arena *a)
    {
        ++a->refs;
        t.my_max_concurrency = a->max_concurrency;
        t.my_num_reserved_slots = 1;
        t.my_arena.store(a);
    }
    static void clear(d1::task_arena_base &t)
    {
        arena *a = t.my_arena.load();
        t.my_arena.store(nullptr);
        if (a != nullptr && --a->refs == 0 && a->tasks.empty()) {
            auto &v = *arenas;
            for (std::size_t i = 0; i < v.size(); ++i) {
                if (v[i] == a) {
                    v.erase(v.begin() + static_cast<long>(i));
                    break;
                }
            }
            delete a;
        }
    }
    static int max_conc(const d1::task_arena_base &t) { return t.my_max_concurrency; }
};

namespace {
d1::slot_id slot_of_self() { return static_cast<d1::slot_id>(self != nullptr ? self->id % 16 : 0); }

void run_task(arena *a, arena::Pending p)
{
    using impl = task_group_context_impl;
    void *save_a = self->arena, *save_c = self->ctx;
    self->arena = a;
    self->ctx = p.ctx;
    ++self->depth;
    ++a->refs;
    d1::execution_data ed{};
    ed.context = p.ctx;
    ed.original_slot = p.slot;
    ed.affinity_slot = d1::no_slot;
    d1::task *t = p.t;
    sim::race_acquire(t);
    for (;;) {
        try {
            while (t != nullptr) {
                bool c = impl::cancelled(*p.ctx);
                if (c) sim::probe("task cancelled before running");
                t = c ? t->cancel(ed) : t->execute(ed);
                ed.original_slot = slot_of_self();
                if (t != nullptr) point("tbb_bypass");
            }
            break;
        }
        catch (...) {
            sim::probe("exception escaped from a task");
            if (impl::cancel(*p.ctx)) impl::set_exception(*p.ctx);
        }
    }
    --self->depth;
    self->arena = save_a;
    self->ctx = save_c;
    if (--a->refs == 0 && a->tasks.empty() && a != default_arena) {
        auto &v = *arenas;
        for (std::size_t i = 0; i < v.size(); ++i) {
            if (v[i] == a) {
                v.erase(v.begin() + static_cast<long>(i));
                break;
            }
        }
        delete a;
    }
}

arena::Pending take(arena *a)
{
    auto n = static_cast<std::uint32_t>(a->tasks.size());
    std::uint32_t v = n > 1 ? sim::choose(sim::S, n) : 0;
    std::size_t i = n - 1 - v;  // 0: most recent
    arena::Pending p = a->tasks[i];
    a->tasks.erase(a->tasks.begin() + static_cast<long>(i));
    return p;
}

void *worker_main(void *)
{
    for (;;) {
        std::vector<arena *> c;
        {
            sim::Quiet quiet;
            for (arena *a : *arenas)
                if (!a->tasks.empty() && a->max_concurrency > 1) c.push_back(a);
        }
        if (c.empty()) {
            sim::block(&pool_key, "tbb_worker_idle");
            continue;
        }
        arena *a = c[c.size() > 1 ? sim::choose(sim::S, static_cast<std::uint32_t>(c.size())) : 0];
        arena::Pending p = take(a);
        ++a->refs;
        point("tbb_take", p.t);
        run_task(a, p);
        --a->refs;
    }
    return nullptr;
}

void push(arena *a, d1::task &t, d1::task_group_context &c)
{
    sim::Quiet quiet;
    d1::task_group_context &ctx = task_group_context_impl::actual(c);
    task_group_context_impl::bind(ctx);
    sim::race_release(&t);
    a->tasks.push_back({&t, &ctx, slot_of_self()});
    if (a->max_concurrency > 1 && sim::waiters(&pool_key) == 0 && workers < sim::hw_threads() - 1) {
        ++workers;
        sim::spawn_internal(worker_main, nullptr, true);
    }
    sim::wake_all(&pool_key);
    sim::wake_all(a);
    point("tbb_spawn");
}

arena *current()
{
    return self->arena != nullptr ? static_cast<arena *>(self->arena) : get_default();
}

void wait_impl(d1::wait_context &w, d1::task_group_context &c)
{
    d1::task_group_context &ctx = task_group_context_impl::actual(c);
    arena *a = current();
    ++a->refs;
    while (task_dispatcher::busy(w)) {
        if (a->tasks.empty()) {
            sim::block(a, "tbb_wait");
            continue;
        }
        arena::Pending p = take(a);
        point("tbb_take", p.t);
        run_task(a, p);
    }
    --a->refs;
    sim::race_acquire(task_dispatcher::addr(w));
    task_group_context_impl::rethrow(ctx);
}
}  // namespace

void initialize(d1::task_group_context &c) { task_group_context_impl::init(c); }
void destroy(d1::task_group_context &c) { task_group_context_impl::destroy(c); }
void reset(d1::task_group_context &c) { task_group_context_impl::reset(task_group_context_impl::actual(c)); }
bool cancel_group_execution(d1::task_group_context &c)
{
    point("tbb_cancel");
    bool r = task_group_context_impl::cancel(task_group_context_impl::actual(c));
    point("tbb_cancelled");
    return r;
}
bool is_group_execution_cancelled(d1::task_group_context &c)
{
    return task_group_context_impl::cancelled(task_group_context_impl::actual(c));
}

void initialize(d1::task_arena_base &t) { task_arena_impl::init(t); }
void terminate(d1::task_arena_base &t) { task_arena_impl::clear(t); }
bool attach(d1::task_arena_base &t)
{
    if (self == nullptr || self->arena == nullptr) return false;
    task_arena_impl::attach(t, static_cast<arena *>(self->arena));
    return true;
}
void execute(d1::task_arena_base &t, d1::delegate_base &d)
{
    arena *a = task_arena_impl::get(t);
    if (self == nullptr) {
        d();
        return;
    }
    void *save_a = self->arena, *save_c = self->ctx;
    if (self->arena != a) self->ctx = nullptr;
    self->arena = a;
    struct Guard {
        void *a, *c;
        ~Guard() { self->arena = a; self->ctx = c; }
    } g{save_a, save_c};
    d();
}
void wait(d1::task_arena_base &) {}
int max_concurrency(const d1::task_arena_base *t)
{
    if (t != nullptr) return task_arena_impl::max_conc(*t);
    if (self != nullptr && self->arena != nullptr) return static_cast<arena *>(self->arena)->max_concurrency;
    return sim::hw_threads();
}
int numa_default_concurrency(int) { return sim::hw_threads(); }

void spawn(d1::task &t, d1::task_group_context &c) { push(current(), t, c); }
void spawn(d1::task &t, d1::task_group_context &c, d1::slot_id) { push(current(), t, c); }
void submit(d1::task &t, d1::task_group_context &c, arena *a, std::uintptr_t)
{
    push(a != nullptr ? a : current(), t, c);
}
void execute_and_wait(d1::task &t, d1::task_group_context &tc, d1::wait_context &w, d1::task_group_context &wc)
{
    d1::task_group_context &ctx = task_group_context_impl::actual(tc);
    task_group_context_impl::bind(ctx);
    sim::race_release(&t);
    run_task(current(), arena::Pending{&t, &ctx, slot_of_self()});
    wait_impl(w, wc);
}
void wait(d1::wait_context &w, d1::task_group_context &c)
{
    task_group_context_impl::bind(task_group_context_impl::actual(c));
    wait_impl(w, c);
}
void notify_waiters(std::uintptr_t)
{
    if (!sim::on()) return;
    for (arena *a : *arenas) sim::wake_all(a);
}
d1::slot_id execution_slot(const d1::execution_data *) { return slot_of_self(); }
d1::task_group_context *current_context()
{
    return self ? static_cast<d1::task_group_context *>(self->ctx) : nullptr;
}

static d1::small_object_pool *pool()
{
    static char p[64];
    return reinterpret_cast<d1::small_object_pool *>(p);
}
static void *aligned(std::size_t n)
{
    void *p = nullptr;
    if (posix_memalign(&p, 64, n) != 0) throw std::bad_alloc{};
    return p;
}
void *allocate(d1::small_object_pool *&p, std::size_t n)
{
    p = pool();
    return aligned(n);
}
void *allocate(d1::small_object_pool *&p, std::size_t n, const d1::execution_data &)
{
    p = pool();
    return aligned(n);
}
void deallocate(d1::small_object_pool &, void *p, std::size_t n)
{
    sim::race_free(p, n);
    free(p);
}
void deallocate(d1::small_object_pool &, void *p, std::size_t n, const d1::execution_data &)
{
    sim::race_free(p, n);
    free(p);
}
void *cache_aligned_allocate(std::size_t n)
{
    void *p = nullptr;
    if (posix_memalign(&p, 128, n) != 0) throw std::bad_alloc{};
    return p;
}
void cache_aligned_deallocate(void *p) { free(p); }
std::size_t cache_line_size() { return 128; }

void throw_exception(d0::exception_id id)
{
    switch (id) {
    case d0::exception_id::bad_alloc: throw std::bad_alloc{};
    case d0::exception_id::out_of_range: throw std::out_of_range{"tbb: out of range"};
    case d0::exception_id::reservation_length_error: throw std::length_error{"tbb: reservation"};
    default: throw std::runtime_error{"tbb: internal error"};
    }
}
bool is_present(d1::task_scheduler_observer &) { return false; }

}  // namespace r1
}  // namespace detail
}  // namespace tbb
