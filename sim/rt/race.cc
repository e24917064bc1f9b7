// Happens-before data race detector and access-level pre-emption: the runtime
// behind -fsanitize=thread instrumentation of the code under test. As only one
// simulated thread runs at a time and every pre-emption is a recorded choice,
// the reports are a function of the seed.
#include <errno.h>
#include <malloc.h>
#include <pthread.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <unistd.h>

#include <atomic>
#include <unordered_map>
#include <vector>

#include "internal.h"

extern "C" void __libc_free(void *);
extern "C" void *__libc_realloc(void *, size_t);

extern "C" char __executable_start;

namespace sim {

bool race_build = true;

namespace {
using VC = std::vector<std::uint32_t>;

struct Cell {
    std::uint32_t epoch;
    std::uint16_t tid;
    std::uint8_t mask;
    std::uint8_t flags;  // 1 write, 2 atomic
    std::uint64_t pc;
};
struct Word {
    Cell c[4];
};
struct Page {
    Word w[512];
};
struct TS {
    int tid;
    VC vc;
    VC acq_pending, rel_fence;
    bool has_rel_fence = false, has_pending = false;
};

std::unordered_map<std::uint64_t, Page *> *pages;
struct Cache {
    std::uint64_t key;
    Page *p;
};
Cache cache[4096];
std::unordered_map<const void *, VC> *sync_vars;
bool ready;
bool busy;  // inside the detector: its own allocations are not looked at
std::uint32_t rot;

void join(VC &a, const VC &b)
{
    if (a.size() < b.size()) a.resize(b.size());
    for (std::size_t i = 0; i < b.size(); ++i)
        if (a[i] < b[i]) a[i] = b[i];
}

struct Busy {
    Quiet quiet;
    bool prev;
    Busy() : prev{busy} { busy = true; }
    ~Busy() { busy = prev; }
};

Page *page_of(std::uint64_t a, bool create)
{
    std::uint64_t k = a >> 12;
    Cache &c = cache[k & 4095];
    if (c.key == k && c.p != nullptr) return c.p;
    Busy b;
    auto it = pages->find(k);
    if (it == pages->end()) {
        if (!create) return nullptr;
        auto *p = static_cast<Page *>(calloc(1, sizeof(Page)));
        if (p == nullptr) _exit(7);
        it = pages->emplace(k, p).first;
    }
    c = {k, it->second};
    return it->second;
}

TS *ts() { return static_cast<TS *>(self->race); }

// addresses in the executable, independent of where it is loaded
std::uint64_t rel(std::uint64_t pc) { return pc - reinterpret_cast<std::uint64_t>(&__executable_start); }

[[noreturn]] void report(std::uint64_t addr, const Cell &o, std::uint8_t flags, std::uint64_t pc)
{
    std::uint64_t p1 = rel(o.pc), p2 = rel(pc);
    std::uint8_t f1 = o.flags, f2 = flags;
    if (p1 > p2) {
        std::swap(p1, p2);
        std::swap(f1, f2);
    }
    char cls[120];
    snprintf(cls, sizeof cls, "race:0x%llx:0x%llx", static_cast<unsigned long long>(p1), static_cast<unsigned long long>(p2));
    violation(cls, "data race on one object: %s%s by T%d at pc 0x%llx and %s%s by T%d at pc 0x%llx, not ordered by any synchronisation (operation: %s; object #%u)",
              (o.flags & 2) ? "atomic " : "", (o.flags & 1) ? "write" : "read", static_cast<int>(o.tid),
              static_cast<unsigned long long>(rel(o.pc)), (flags & 2) ? "atomic " : "", (flags & 1) ? "write" : "read", self->id,
              static_cast<unsigned long long>(rel(pc)), self->op, object_id(reinterpret_cast<void *>(addr)));
}

void access_word(TS *t, std::uint64_t a8, std::uint8_t mask, std::uint8_t flags, std::uint64_t pc)
{
    Page *p = page_of(a8, true);
    Word &w = p->w[(a8 >> 3) & 511];
    auto tid = static_cast<std::uint16_t>(t->tid);
    std::uint32_t ep = t->vc[tid];
    int slot = -1;
    for (int i = 0; i < 4; ++i) {
        Cell &c = w.c[i];
        if (c.epoch == 0) {
            if (slot < 0) slot = i;
            continue;
        }
        if (c.tid == tid) {
            if ((c.mask & mask) == mask && c.mask == mask && (c.flags & 1) <= (flags & 1) && (c.flags & 2) == (flags & 2)) slot = i;
            if (c.epoch == ep && (c.mask & mask) == mask && ((c.flags & 1) >= (flags & 1)) && (c.flags & 2) == (flags & 2)) return;
            continue;
        }
        if ((c.mask & mask) == 0) continue;
        bool ordered = c.tid < t->vc.size() && c.epoch <= t->vc[c.tid];
        if (!ordered) {
            if (((c.flags | flags) & 1) != 0 && !((c.flags & 2) != 0 && (flags & 2) != 0))
                report(a8, c, flags, pc);
        }
        else if (slot < 0 && (flags & 1) != 0 && (c.mask & mask) == c.mask) {
            slot = i;  // superseded by a later, ordered write
        }
    }
    if (slot < 0) slot = static_cast<int>(rot++ & 3);
    w.c[slot] = {ep, tid, mask, flags, pc};
}

void access(const void *ptr, std::size_t n, std::uint8_t flags, std::uint64_t pc)
{
    if (!ready || busy || !on() || n == 0) return;
    ++shm->accesses;
    tick_access((flags & 2) != 0 ? 6 : 1);
    if (!report_races) return;
    TS *t = ts();
    auto a = reinterpret_cast<std::uint64_t>(ptr);
    std::uint64_t e = a + n;
    while (a < e) {
        std::uint64_t w = a & ~7ull;
        std::uint64_t end = std::min<std::uint64_t>(e, w + 8);
        auto mask = static_cast<std::uint8_t>(((1u << (end - a)) - 1) << (a - w));
        access_word(t, w, mask, flags, pc);
        a = end;
    }
}

void clear_range(const void *ptr, std::size_t n)
{
    if (!ready || busy || n == 0) return;
    auto a = reinterpret_cast<std::uint64_t>(ptr) & ~7ull;
    std::uint64_t e = reinterpret_cast<std::uint64_t>(ptr) + n;
    while (a < e) {
        std::uint64_t pe = std::min<std::uint64_t>(e, (a | 4095) + 1);
        Page *p = page_of(a, false);
        if (p != nullptr) {
            std::size_t i = (a >> 3) & 511, k = (pe - a + 7) / 8;
            if (i + k > 512) k = 512 - i;
            memset(static_cast<void *>(&p->w[i]), 0, k * sizeof(Word));
        }
        a = pe;
    }
}

void acquire(TS *t, const void *p)
{
    Busy b;
    auto it = sync_vars->find(p);
    if (it != sync_vars->end()) join(t->vc, it->second);
}
void release(TS *t, const void *p)
{
    Busy b;
    join((*sync_vars)[p], t->vc);
    ++t->vc[static_cast<std::size_t>(t->tid)];
}

// Atomics. mo: 0 relaxed, 1 consume, 2 acquire, 3 release, 4 acq_rel, 5 seq_cst
bool is_acq(int mo) { return mo == 1 || mo == 2 || mo == 4 || mo == 5; }
bool is_rel(int mo) { return mo == 3 || mo == 4 || mo == 5; }

void pre_atomic(const void *p, std::size_t n, bool write, std::uint64_t pc)
{
    access(p, n, static_cast<std::uint8_t>(2 | (write ? 1 : 0)), pc);
}
void atomic_acq(const void *p, int mo)
{
    if (!ready || busy || !on()) return;
    TS *t = ts();
    if (is_acq(mo)) acquire(t, p);
    else {
        Busy b;
        auto it = sync_vars->find(p);
        if (it != sync_vars->end()) {
            join(t->acq_pending, it->second);
            t->has_pending = true;
        }
    }
}
void atomic_rel(const void *p, int mo)
{
    if (!ready || busy || !on()) return;
    TS *t = ts();
    if (is_rel(mo)) release(t, p);
    else if (t->has_rel_fence) {
        Busy b;
        join((*sync_vars)[p], t->rel_fence);
    }
}
void fence(int mo)
{
    if (!ready || busy || !on()) return;
    TS *t = ts();
    Busy b;
    if (is_acq(mo) && t->has_pending) {
        join(t->vc, t->acq_pending);
        t->has_pending = false;
        t->acq_pending.clear();
    }
    if (is_rel(mo)) {
        t->rel_fence = t->vc;
        t->has_rel_fence = true;
        ++t->vc[static_cast<std::size_t>(t->tid)];
    }
    if (mo == 5) {
        static const char g = 0;
        acquire(t, &g);
        release(t, &g);
    }
}
}  // namespace

void race_init()
{
    pages = new std::unordered_map<std::uint64_t, Page *>;
    sync_vars = new std::unordered_map<const void *, VC>;
    ready = true;
}
void race_thread_create(SThread *parent, SThread *child)
{
    Busy b;
    auto *t = new TS;
    t->tid = child->id;
    if (parent != nullptr && parent->race != nullptr) {
        auto *p = static_cast<TS *>(parent->race);
        t->vc = p->vc;
        ++p->vc[static_cast<std::size_t>(p->tid)];
    }
    if (t->vc.size() <= static_cast<std::size_t>(t->tid)) t->vc.resize(static_cast<std::size_t>(t->tid) + 1);
    t->vc[static_cast<std::size_t>(t->tid)] = 1;
    child->race = t;
}
void race_thread_start()
{
    // the stack may be a recycled one
    pthread_attr_t at;
    if (pthread_getattr_np(pthread_self(), &at) == 0) {
        void *a;
        std::size_t n;
        pthread_attr_getstack(&at, &a, &n);
        pthread_attr_destroy(&at);
        auto *here = static_cast<char *>(__builtin_frame_address(0));
        clear_range(a, static_cast<std::size_t>(here - static_cast<char *>(a)));
        clear_range(here, static_cast<std::size_t>(static_cast<char *>(a) + n - here));
    }
}
void race_thread_join(SThread *joiner, SThread *child)
{
    Busy b;
    join(static_cast<TS *>(joiner->race)->vc, static_cast<TS *>(child->race)->vc);
}
void race_acquire(const void *p)
{
    if (ready && !busy && self != nullptr && self->race != nullptr) acquire(ts(), p);
}
void race_release(const void *p)
{
    if (ready && !busy && self != nullptr && self->race != nullptr) release(ts(), p);
}
void race_free(const void *p, std::size_t n)
{
    if (n == 0) n = malloc_usable_size(const_cast<void *>(p));
    clear_range(p, n);
}
static void race_forget(void *p)
{
    if (ready && !busy && self != nullptr) clear_range(p, malloc_usable_size(p));
}

}  // namespace sim

using namespace sim;
#define PC reinterpret_cast<std::uint64_t>(__builtin_return_address(0))

extern "C" {

void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}

#define RW(N)                                                                     \
    void __tsan_read##N(void *p) { access(p, N, 0, PC); }                          \
    void __tsan_write##N(void *p) { access(p, N, 1, PC); }                         \
    void __tsan_unaligned_read##N(void *p) { access(p, N, 0, PC); }                \
    void __tsan_unaligned_write##N(void *p) { access(p, N, 1, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, unsigned long n) { access(p, n, 0, PC); }
void __tsan_write_range(void *p, unsigned long n) { access(p, n, 1, PC); }
void __tsan_vptr_read(void **p) { access(p, 8, 0, PC); }
void __tsan_vptr_update(void **p, void *v)
{
    if (*p != v) access(p, 8, 1, PC);
}

#define ATOMIC(BITS, T)                                                                                     \
    T __tsan_atomic##BITS##_load(const volatile T *p, int mo)                                               \
    {                                                                                                       \
        const void *q = const_cast<const T *>(p);                                                           \
        pre_atomic(q, sizeof(T), false, PC);                                                                \
        atomic_acq(q, mo);                                                                                  \
        return *p;                                                                                          \
    }                                                                                                       \
    void __tsan_atomic##BITS##_store(volatile T *p, T v, int mo)                                            \
    {                                                                                                       \
        const void *q = const_cast<const T *>(p);                                                           \
        pre_atomic(q, sizeof(T), true, PC);                                                                 \
        atomic_rel(q, mo);                                                                                  \
        *p = v;                                                                                             \
    }                                                                                                       \
    T __tsan_atomic##BITS##_exchange(volatile T *p, T v, int mo)                                            \
    {                                                                                                       \
        const void *q = const_cast<const T *>(p);                                                           \
        pre_atomic(q, sizeof(T), true, PC);                                                                 \
        atomic_acq(q, mo);                                                                                  \
        atomic_rel(q, mo);                                                                                  \
        T o = *p;                                                                                           \
        *p = v;                                                                                             \
        return o;                                                                                           \
    }                                                                                                       \
    int __tsan_atomic##BITS##_compare_exchange_strong(volatile T *p, T *e, T v, int mo, int fmo)            \
    {                                                                                                       \
        const void *q = const_cast<const T *>(p);                                                           \
        pre_atomic(q, sizeof(T), true, PC);                                                                 \
        if (*p == *e) {                                                                                     \
            atomic_acq(q, mo);                                                                              \
            atomic_rel(q, mo);                                                                              \
            *p = v;                                                                                         \
            return 1;                                                                                       \
        }                                                                                                   \
        atomic_acq(q, fmo);                                                                                 \
        *e = *p;                                                                                            \
        return 0;                                                                                           \
    }                                                                                                       \
    int __tsan_atomic##BITS##_compare_exchange_weak(volatile T *p, T *e, T v, int mo, int fmo)              \
    {                                                                                                       \
        return __tsan_atomic##BITS##_compare_exchange_strong(p, e, v, mo, fmo);                             \
    }                                                                                                       \
    T __tsan_atomic##BITS##_compare_exchange_val(volatile T *p, T e, T v, int mo, int fmo)                  \
    {                                                                                                       \
        __tsan_atomic##BITS##_compare_exchange_strong(p, &e, v, mo, fmo);                                   \
        return e;                                                                                           \
    }
#define FETCH(BITS, T, NAME, EXPR)                                                                          \
    T __tsan_atomic##BITS##_fetch_##NAME(volatile T *p, T v, int mo)                                        \
    {                                                                                                       \
        const void *q = const_cast<const T *>(p);                                                           \
        pre_atomic(q, sizeof(T), true, PC);                                                                 \
        atomic_acq(q, mo);                                                                                  \
        atomic_rel(q, mo);                                                                                  \
        T o = *p;                                                                                           \
        *p = static_cast<T>(EXPR);                                                                          \
        return o;                                                                                           \
    }
#define ALL(BITS, T)                                                                                        \
    ATOMIC(BITS, T)                                                                                         \
    FETCH(BITS, T, add, o + v)                                                                              \
    FETCH(BITS, T, sub, o - v)                                                                              \
    FETCH(BITS, T, and, o & v)                                                                              \
    FETCH(BITS, T, or, o | v)                                                                               \
    FETCH(BITS, T, xor, o ^ v)                                                                              \
    FETCH(BITS, T, nand, ~(o & v))
ALL(8, unsigned char)
ALL(16, unsigned short)
ALL(32, unsigned int)
ALL(64, unsigned long)

void __tsan_atomic_thread_fence(int mo) { fence(mo); }
void __tsan_atomic_signal_fence(int) {}

// objcopy redirects the block operations of instrumented objects here.
void *mlio_race_memcpy(void *d, const void *s, size_t n)
{
    access(s, n, 0, PC);
    access(d, n, 1, PC);
    return memcpy(d, s, n);
}
void *mlio_race_memmove(void *d, const void *s, size_t n)
{
    access(s, n, 0, PC);
    access(d, n, 1, PC);
    return memmove(d, s, n);
}
void *mlio_race_memset(void *d, int c, size_t n)
{
    access(d, n, 1, PC);
    return memset(d, c, n);
}
}

// ------------------------------------------------------------------ memory
// In a run, memory comes from a region of its own in which small blocks are
// never used again: two objects never share an address and the run does not
// depend on what the process allocated before it.
namespace {
constexpr std::uintptr_t region_base = 0x100000000000ull;
constexpr std::size_t region_max = std::size_t{1} << 38;
constexpr std::size_t grow = std::size_t{16} << 20;
bool region_on;
std::uintptr_t region_next = region_base, region_end = region_base;
constexpr std::size_t large = 64 << 10;
void *free_large[48];
struct Hdr {
    std::size_t size;   // what can be used
    std::size_t cls;    // 0: small, otherwise its power of two
};
inline bool ours(const void *p)
{
    auto a = reinterpret_cast<std::uintptr_t>(p);
    return a >= region_base && a < region_base + region_max;
}
void *carve(std::size_t n, std::size_t al)
{
    std::uintptr_t a = (region_next + sizeof(Hdr) + al - 1) & ~(al - 1);
    if (a + n > region_end) {
        std::size_t more = ((a + n - region_end) + grow - 1) / grow * grow;
        if (region_end + more > region_base + region_max ||
            syscall(SYS_mmap, region_end, more, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE | MAP_NORESERVE, -1, 0) != static_cast<long>(region_end)) return nullptr;
        region_end += more;
    }
    region_next = a + n;
    return reinterpret_cast<void *>(a);
}
inline bool in_region() { return region_on && !sim::busy; }
std::atomic_flag region_lock = ATOMIC_FLAG_INIT;
struct Lock {
    Lock() { while (region_lock.test_and_set(std::memory_order_acquire)) {} }
    ~Lock() { region_lock.clear(std::memory_order_release); }
};
void *region_alloc(std::size_t n, std::size_t al = 16)
{
    Lock l;
    if (n == 0) n = 1;
    if (n > region_max / 4) return nullptr;
    std::size_t cls = 0;
    if (n >= large && al <= 64) {
        al = 64;
        cls = 64 - static_cast<std::size_t>(__builtin_clzll(n - 1));
        n = std::size_t{1} << cls;
        if (void *p = free_large[cls]) {
            free_large[cls] = *static_cast<void **>(p);
            return p;
        }
    }
    n = (n + 15) & ~std::size_t{15};
    void *p = carve(n, al < 16 ? 16 : al);
    if (p != nullptr) static_cast<Hdr *>(p)[-1] = Hdr{n, cls};
    else errno = ENOMEM;
    return p;
}
void region_free(void *p)
{
    Hdr &h = static_cast<Hdr *>(p)[-1];
    if (h.cls == 0) return;
    if (h.size >= (1u << 20)) madvise(reinterpret_cast<void *>((reinterpret_cast<std::uintptr_t>(p) + 4095) & ~std::uintptr_t{4095}), h.size - 8192, MADV_DONTNEED);
    *static_cast<void **>(p) = free_large[h.cls];
    free_large[h.cls] = p;
}
}  // namespace
namespace sim { void race_memory() { region_on = true; } }

extern "C" {
void *__libc_malloc(std::size_t);
void *__libc_calloc(std::size_t, std::size_t);
void *__libc_realloc(void *, std::size_t);
void *__libc_memalign(std::size_t, std::size_t);
void __libc_free(void *);
void *malloc(std::size_t n) { return in_region() ? region_alloc(n) : __libc_malloc(n); }
void free(void *p)
{
    if (p == nullptr) return;
    sim::race_forget(p);
    if (ours(p)) {
        Lock l;
        region_free(p);
    }
    else __libc_free(p);
}
void *calloc(std::size_t a, std::size_t b)
{
    if (!in_region()) return __libc_calloc(a, b);
    std::size_t n;
    if (__builtin_mul_overflow(a, b, &n)) return nullptr;
    void *p = region_alloc(n);
    if (p != nullptr) memset(p, 0, n);
    return p;
}
std::size_t malloc_usable_size(void *p)
{
    if (p == nullptr) return 0;
    if (ours(p)) return static_cast<Hdr *>(p)[-1].size;
    std::size_t h = reinterpret_cast<std::size_t *>(p)[-1];  // of a glibc chunk
    return (h & ~std::size_t{7}) - ((h & 2) != 0 ? 16 : 8);
}
void *realloc(void *p, std::size_t n)
{
    if (p == nullptr) return malloc(n);
    if (!in_region() && !ours(p)) {
        sim::race_forget(p);
        return __libc_realloc(p, n);
    }
    if (n == 0) {
        free(p);
        return nullptr;
    }
    std::size_t have = malloc_usable_size(p);
    void *q = malloc(n);
    if (q == nullptr) return nullptr;
    memcpy(q, p, have < n ? have : n);
    free(p);
    return q;
}
void *memalign(std::size_t al, std::size_t n) { return in_region() ? region_alloc(n, al) : __libc_memalign(al, n); }
void *aligned_alloc(std::size_t al, std::size_t n) { return memalign(al, n); }
int posix_memalign(void **out, std::size_t al, std::size_t n)
{
    void *p = memalign(al, n);
    if (p == nullptr) return ENOMEM;
    *out = p;
    return 0;
}
void *valloc(std::size_t n) { return memalign(4096, n); }
void *pvalloc(std::size_t n) { return memalign(4096, (n + 4095) & ~std::size_t{4095}); }
}
