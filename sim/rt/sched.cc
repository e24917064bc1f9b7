// Deterministic scheduler: real threads, parked and released one at a time.
#include <dlfcn.h>
#include <errno.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <queue>
#include <unordered_map>

#include "internal.h"

namespace sim {

Shared *shm;
Plan plan;
__thread SThread *self = nullptr;
namespace detail { bool active = false; }

const char *const fault_names[f_count] = {
    "short_read", "read_eio", "read_eintr", "open_fail", "fstat_fail", "lseek_fail",
    "mmap_fail", "mremap_fail", "mkstemp_fail", "ftruncate_fail", "thread_create_fail",
    "spurious_wakeup", "alloc_fail", "operator_new_fail", "fts_fail", "iconv_open_fail",
    "select_fail", "pipe_writer_delay", "truncate", "corrupt", "file_shrink",
    "custom_stream_fail", "custom_stream_short", "s3_request_fail", "s3_delay"};

Fault_cfg faults;

// ------------------------------------------------------------------ choices
namespace {
struct Rng {
    std::uint64_t s;
    std::uint64_t next()
    {
        std::uint64_t z = (s += 0x9e3779b97f4a7c15ull);
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
        return z ^ (z >> 31);
    }
    std::uint32_t below(std::uint32_t n) { return static_cast<std::uint32_t>(next() % n); }
    double unit() { return static_cast<double>(next() >> 11) * 0x1p-53; }
};
Rng rng[4];
Rng strat_rng;

void log_choice(int s, std::uint64_t idx, std::uint32_t v)
{
    if (v == 0) return;
    if (shm->nlog[s] < Shared::log_cap) {
        shm->log[s][shm->nlog[s]++] = {static_cast<std::uint32_t>(idx), v};
    }
    else {
        shm->log_overflow = 1;
    }
}
bool replay_value(int s, std::uint64_t idx, std::uint32_t n, std::uint32_t &v)
{
    if (!plan.replay) return false;
    auto it = plan.sparse[s].find(static_cast<std::uint32_t>(idx));
    v = it == plan.sparse[s].end() ? 0 : it->second % n;
    return true;
}
}  // namespace

void event(std::uint64_t h)
{
    std::uint64_t x = shm->hash ^ h;
    x *= 0x9fb21c651e98df25ull;
    x ^= x >> 32;
    shm->hash = x;
}

std::uint32_t choose_rare(Stream s, std::uint32_t n, double p)
{
    std::uint64_t idx = shm->idx[s]++;
    std::uint32_t v;
    if (!replay_value(s, idx, n, v)) {
        v = 0;
        if (n > 1 && rng[s].unit() < p) v = 1 + rng[s].below(n - 1);
    }
    log_choice(s, idx, v);
    event(v * 7919u + static_cast<unsigned>(s));
    return v;
}

std::uint32_t choose(Stream s, std::uint32_t n)
{
    std::uint64_t idx = shm->idx[s]++;
    std::uint32_t v;
    if (n == 0) n = 1;
    if (!replay_value(s, idx, n, v)) v = rng[s].below(n);
    log_choice(s, idx, v);
    event(v * 7907u + static_cast<unsigned>(s));
    return v;
}

std::uint32_t fault(Fault_kind k, std::uint32_t n)
{
    if (!detail::active || !faults.armed) return 0;
    if (faults.p[k] <= 0 || faults.budget[k] <= 0) return 0;
    ++shm->asked[k];
    std::uint32_t v = choose_rare(F, n, faults.p[k]);
    if (v != 0) {
        ++shm->fired[k];
        --faults.budget[k];
        if (plan.trace) note("FAULT %s flavour=%u", fault_names[k], v);
    }
    return v;
}
void fault_taken_back(Fault_kind k)
{
    --shm->fired[k];
    ++faults.budget[k];
    if (plan.trace) note("FAULT %s taken back", fault_names[k]);
}
void fault_injected(Fault_kind k)
{
    ++shm->asked[k];
    ++shm->fired[k];
    if (plan.trace) note("FAULT %s", fault_names[k]);
}
std::uint64_t fault_fired(Fault_kind k) { return shm->fired[k]; }
std::uint64_t hard_faults_fired()
{
    std::uint64_t n = 0;
    for (int k = 0; k < f_count; ++k) {
        if (k == f_short_read || k == f_spurious_wake || k == f_writer_delay ||
            k == f_stream_short || k == f_s3_delay)
            continue;
        n += shm->fired[k];
    }
    return n;
}

// ------------------------------------------------------------------ reporting
bool tracing() { return plan.trace; }

static void trace_append(const char *buf, int n)
{
    if (n <= 0) return;
    if (shm->tracelen + static_cast<unsigned>(n) + 2 >= Shared::trace_cap) return;
    memcpy(shm->trace + shm->tracelen, buf, static_cast<unsigned>(n));
    shm->tracelen += static_cast<unsigned>(n);
    shm->trace[shm->tracelen++] = '\n';
    shm->trace[shm->tracelen] = 0;
}

void note(const char *fmt, ...)
{
    if (!plan.trace) return;
    char buf[1024];
    int n = snprintf(buf, sizeof buf, "%7llu t=%llu T%d ",
                     static_cast<unsigned long long>(shm->steps),
                     static_cast<unsigned long long>(shm->now), self ? self->id : -1);
    va_list ap;
    va_start(ap, fmt);
    int m = vsnprintf(buf + n, sizeof buf - static_cast<unsigned>(n), fmt, ap);
    va_end(ap);
    trace_append(buf, std::min<int>(n + m, sizeof buf - 1));
}

void describe(const char *fmt, ...)
{
    std::size_t n = strlen(shm->desc);
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(shm->desc + n, sizeof shm->desc - n, fmt, ap);
    va_end(ap);
}

void probe(const char *name)
{
    for (std::uint32_t i = 0; i < shm->nprobes; ++i) {
        if (strncmp(shm->probes[i].name, name, sizeof shm->probes[i].name - 1) == 0) {
            ++shm->probes[i].n;
            return;
        }
    }
    if (shm->nprobes < 96) {
        auto &p = shm->probes[shm->nprobes++];
        strncpy(p.name, name, sizeof p.name - 1);
        p.name[sizeof p.name - 1] = 0;
        p.n = 1;
    }
}

void violation(const char *cls, const char *fmt, ...)
{
    snprintf(shm->cls, sizeof shm->cls, "%s", cls);
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(shm->msg, sizeof shm->msg, fmt, ap);
    va_end(ap);
    if (plan.trace) note("VIOLATION %s: %s", cls, shm->msg);
    shm->status = 2;
    _exit(3);
}

void finish_ok()
{
    shm->status = 1;
    _exit(0);
}

// ------------------------------------------------------------------ scheduler
namespace {
struct Timer {
    std::uint64_t at, seq;
    std::function<void()> fn;
    bool operator<(const Timer &o) const
    {
        return at != o.at ? at > o.at : seq > o.seq;
    }
};
std::vector<SThread *> *threads;
std::priority_queue<Timer> *timers;
std::uint64_t timer_seq;
std::unordered_map<const void *, std::uint32_t> *objids;
std::unordered_map<pthread_t, SThread *> *by_pthread;
pthread_key_t exit_key;
std::map<std::string, std::size_t> *knobs = new std::map<std::string, std::size_t>;
std::uint64_t step_limit = 600000;
std::uint64_t preemptions;   // steps taken between two memory accesses do not count
int hw = 4;
const char quiescent_key = 0;

// strategy
enum Strat { st_random, st_sticky, st_pct, st_starve };
int strat;
double sticky_p;
std::uint64_t starve_mask;
std::uint64_t starve_switch;
std::vector<std::uint64_t> *pct_points;
std::int64_t pct_low = -1;

volatile int exiting_tid;

long futex(volatile int *a, int op, int v)
{
    return syscall(SYS_futex, a, op, v, nullptr, nullptr, 0);
}
void gate_wait(SThread *t)
{
    while (__atomic_load_n(&t->gate, __ATOMIC_ACQUIRE) == 0) futex(&t->gate, FUTEX_WAIT_PRIVATE, 0);
    __atomic_store_n(&t->gate, 0, __ATOMIC_RELEASE);
    // A thread that ends goes on freeing its memory after it has handed over;
    // let it, so that addresses are a function of the schedule.
    if (int e = exiting_tid) {
        exiting_tid = 0;
        while (syscall(SYS_tgkill, getpid(), e, 0) == 0) syscall(SYS_sched_yield);
    }
}
void gate_open(SThread *t)
{
    __atomic_store_n(&t->gate, 1, __ATOMIC_RELEASE);
    futex(&t->gate, FUTEX_WAKE_PRIVATE, 1);
}

void setup_strategy()
{
    std::uint32_t r = strat_rng.below(10);
    strat = r < 3 ? st_random : r < 6 ? st_sticky : r < 8 ? st_pct : st_starve;
    static const double ps[] = {0.5, 0.8, 0.9, 0.97};
    sticky_p = ps[strat_rng.below(4)];
    starve_mask = strat_rng.next();
    starve_switch = 1 + strat_rng.below(12);
    pct_points = new std::vector<std::uint64_t>;
    std::uint32_t d = 1 + strat_rng.below(5);
    static const std::uint32_t spans[] = {60, 300, 1500, 6000};
    std::uint32_t span = spans[strat_rng.below(4)];
    for (std::uint32_t i = 0; i < d; ++i) pct_points->push_back(1 + strat_rng.below(span));
}

void fire_due()
{
    while (!timers->empty() && timers->top().at <= shm->now) {
        auto fn = timers->top().fn;
        timers->pop();
        fn();
    }
    for (SThread *t : *threads) {
        if (t->state == TState::blocked && t->deadline <= shm->now) {
            t->timed_out = !t->deadline_is_spurious;
            t->state = TState::runnable;
            t->key = nullptr;
            t->deadline = ~0ull;
        }
    }
}

[[noreturn]] void deadlock()
{
    std::string s;
    char b[256];
    SThread *m = (*threads)[0];
    for (SThread *t : *threads) {
        if (t->state == TState::finished) continue;
        snprintf(b, sizeof b, " T%d%s blocked in %s%s%s;", t->id, t->worker ? "(worker)" : "",
                 t->what, *t->op ? " during " : "", t->op);
        s += b;
    }
    char cls[160];
    snprintf(cls, sizeof cls, "deadlock:%s:%s", m->op, m->what);
    violation(cls, "no thread can run and no timer is pending:%s", s.c_str());
}

std::uint32_t gen_pick(const std::vector<SThread *> &c, bool cur_first)
{
    auto n = static_cast<std::uint32_t>(c.size());
    bool fair = shm->steps > 120000;
    int st = fair ? st_random : strat;
    switch (st) {
    case st_random: return rng[S].below(n);
    case st_sticky:
        if (cur_first && rng[S].unit() < sticky_p) return 0;
        return rng[S].below(n);
    case st_pct: {
        std::uint32_t best = 0;
        for (std::uint32_t i = 1; i < n; ++i)
            if (c[i]->prio > c[best]->prio) best = i;
        return best;
    }
    default: {
        // starve: threads whose bit is set run only when nobody else can
        std::vector<std::uint32_t> ok;
        std::uint64_t mask = starve_mask >> ((shm->steps / (starve_switch * 64)) % 16);
        for (std::uint32_t i = 0; i < n; ++i)
            if (!((mask >> (c[i]->id % 48)) & 1)) ok.push_back(i);
        if (ok.empty() || rng[S].unit() < 0.01) return rng[S].below(n);
        return ok[rng[S].below(static_cast<std::uint32_t>(ok.size()))];
    }
    }
}

std::uint64_t next_deadline()
{
    std::uint64_t nx = ~0ull;
    if (!timers->empty()) nx = timers->top().at;
    for (SThread *t : *threads)
        if (t->state == TState::blocked && t->deadline < nx) nx = t->deadline;
    return nx;
}

bool in_pick;
SThread *pick(bool cur_last)
{
    in_pick = true;
    struct Leave { ~Leave() { in_pick = false; } } leave;
    static std::vector<SThread *> *cp = new std::vector<SThread *>;
    std::vector<SThread *> &c = *cp;
    for (;;) {
        fire_due();
        c.clear();
        bool cur_ok = self->state == TState::runnable;
        if (cur_ok && !cur_last) c.push_back(self);
        for (SThread *t : *threads)
            if (t != self && t->state == TState::runnable) c.push_back(t);
        if (cur_ok && cur_last) c.push_back(self);
        if (!c.empty()) break;
        std::uint64_t nx = next_deadline();
        if (nx == ~0ull) {
            SThread *m = (*threads)[0];
            if (m->state == TState::blocked && m->key == &quiescent_key) {
                m->state = TState::runnable;
                m->key = nullptr;
                continue;
            }
            deadlock();
        }
        if (nx > shm->now) shm->now = nx;
    }
    std::uint32_t v = 0;
    auto n = static_cast<std::uint32_t>(c.size());
    if (n > 1) {
        std::uint64_t idx = shm->idx[S]++;
        ++shm->picks;
        if (!replay_value(S, idx, n, v)) {
            if (strat == st_pct) {
                for (auto p : *pct_points)
                    if (p == shm->picks) self->prio = pct_low--;
                if (cur_last) self->prio = pct_low--;
            }
            v = gen_pick(c, !cur_last && c[0] == self);
        }
        log_choice(S, idx, v);
    }
    return c[v];
}

void check_limits()
{
    if (shm->steps - preemptions > step_limit) {
        step_limit = ~0ull;
        SThread *m = (*threads)[0];
        char cls[160];
        snprintf(cls, sizeof cls, "no-progress:%s", m->op);
        std::string s;
        char b[256];
        for (SThread *t : *threads) {
            if (t->state == TState::finished) continue;
            snprintf(b, sizeof b, " T%d %s at %s;", t->id,
                     t->state == TState::runnable ? "runnable" : "blocked", t->what);
            s += b;
        }
        violation(cls, "operation did not finish within the step bound (%llu steps):%s",
                  static_cast<unsigned long long>(shm->steps), s.c_str());
    }
}

void switch_to(SThread *t)
{
    if (t == self) return;
    ++shm->switches;
    std::uint64_t x = shm->schash ^ (static_cast<std::uint64_t>(t->id) + 0x9e37u + shm->steps * 131);
    x *= 0x9fb21c651e98df25ull;
    x ^= x >> 29;
    shm->schash = x;
    SThread *me = self;
    gate_open(t);
    gate_wait(me);
}

void reschedule(bool cur_last)
{
    SThread *t = pick(cur_last);
    switch_to(t);
}

std::uint32_t idle_yields;  // yields since anything else happened

void step(const char *what, const void *obj, std::uint64_t v)
{
    ++shm->steps;
    if (strcmp(what, "preempt") != 0) idle_yields = 0;
    ++shm->now;
    self->what = what;
    std::uint64_t h = v * 31 + static_cast<std::uint64_t>(self->id) * 1000003u;
    for (const char *p = what; *p; ++p) h = h * 33 + static_cast<unsigned char>(*p);
    if (obj != nullptr) h += object_id(obj) * 2654435761u;
    event(h);
    if (plan.trace) {
        if (obj != nullptr) note("%s #%u %llu", what, object_id(obj), static_cast<unsigned long long>(v));
        else note("%s %llu", what, static_cast<unsigned long long>(v));
    }
    check_limits();
}
}  // namespace

std::uint32_t object_id(const void *p)
{
    Quiet quiet;
    auto r = objids->emplace(p, static_cast<std::uint32_t>(objids->size() + 1));
    return r.first->second;
}

void point(const char *what, const void *obj, std::uint64_t v)
{
    Quiet quiet;
    if (!on()) return;
    int e = errno;
    step(what, obj, v);
    reschedule(false);
    errno = e;
}
void yield_point(const char *what) { point(what); }

// Pre-emption between two memory accesses of the code under test. Stream P
// is indexed by the access count; only the accesses pre-empted are recorded.
static std::uint64_t next_preempt;
static double preempt_mean;
static void draw_preempt()
{
    if (plan.replay) {
        auto it = plan.sparse[P].upper_bound(static_cast<std::uint32_t>(shm->idx[P]));
        next_preempt = it == plan.sparse[P].end() ? ~0ull : it->first;
        return;
    }
    if (preempt_mean == 0) {
        next_preempt = ~0ull;
        return;
    }
    double g = preempt_mean * 2 * rng[P].unit();
    next_preempt = shm->idx[P] + 1 + static_cast<std::uint64_t>(g);
}
void tick_access(unsigned weight)
{
    Quiet quiet;
    shm->idx[P] += weight;
    if (shm->idx[P] < next_preempt || in_pick) return;
    bool other = false;
    for (SThread *t : *threads)
        if (t != self && t->state == TState::runnable) other = true;
    if (!other) {
        draw_preempt();
        return;
    }
    log_choice(P, shm->idx[P], 1);
    draw_preempt();
    int e = errno;   // the code under test may be about to look at it
    ++preemptions;
    point("preempt");
    errno = e;
}

void spin_yield()
{
    Quiet quiet;
    if (!on()) return;
    std::uint32_t idle = idle_yields;
    step("sched_yield", nullptr, 0);
    idle_yields = idle + 1;
    if (idle_yields > 300) {
        // Whoever can run just spins until something else happens, which can
        // only be that time goes by.
        std::uint64_t nx = next_deadline();
        if (nx != ~0ull && nx > shm->now) shm->now = nx;
        idle_yields = 0;
    }
    reschedule(true);
}

bool block(const void *key, const char *what, std::uint64_t deadline, bool spurious)
{
    Quiet quiet;
    step(what, key, 1);
    self->state = TState::blocked;
    self->key = key;
    self->deadline = deadline;
    self->deadline_is_spurious = spurious;
    self->timed_out = false;
    self->what = what;
    reschedule(false);
    self->deadline = ~0ull;
    return !self->timed_out;
}

static void make_runnable(SThread *t)
{
    t->state = TState::runnable;
    t->key = nullptr;
    t->deadline = ~0ull;
    t->timed_out = false;
}
int wake_all(const void *key)
{
    int n = 0;
    for (SThread *t : *threads) {
        if (t->state == TState::blocked && t->key == key) {
            make_runnable(t);
            ++n;
        }
    }
    return n;
}
int waiters(const void *key)
{
    int n = 0;
    for (SThread *t : *threads)
        if (t->state == TState::blocked && t->key == key) ++n;
    return n;
}
bool wake_one(const void *key)
{
    Quiet quiet;
    std::vector<SThread *> c;
    for (SThread *t : *threads)
        if (t->state == TState::blocked && t->key == key) c.push_back(t);
    if (c.empty()) return false;
    make_runnable(c[c.size() == 1 ? 0 : choose(S, static_cast<std::uint32_t>(c.size()))]);
    return true;
}

std::uint64_t now_us() { return shm->now; }
std::uint64_t steps() { return shm->steps; }
int hw_threads() { return hw; }
void set_hw_threads(int n) { hw = n; }
void set_knob(const std::string &name, std::size_t v) { (*knobs)[name] = v; }
void set_step_limit(std::uint64_t extra) { step_limit = shm->steps - preemptions + extra; }
void at(std::uint64_t d, std::function<void()> fn)
{
    Quiet quiet;
    timers->push(Timer{shm->now + d, timer_seq++, std::move(fn)});
}
void sleep_us(std::uint64_t us)
{
    if (!on()) return;
    static const char key = 0;
    block(&key, "sleep", shm->now + us);
}
void wait_quiescent() { block(&quiescent_key, "wait_quiescent"); }

int live_threads()
{
    int n = 0;
    for (SThread *t : *threads)
        if (t->id != 0 && !t->worker && !t->sim_internal && !t->joined) ++n;
    return n;
}

Op_scope::Op_scope(const char *n) : prev_{self ? self->op : ""}
{
    if (self) self->op = n;
    if (plan.trace && self) note("BEGIN %s", n);
}
Op_scope::~Op_scope()
{
    if (plan.trace && self) note("END %s", self->op);
    if (self) self->op = prev_;
}

// ------------------------------------------------------------------ threads
static void thread_finish(void *p)
{
    auto *t = static_cast<SThread *>(p);
    if (t == nullptr) return;
    step("thread_exit", nullptr, static_cast<std::uint64_t>(t->id));
    race_release(t);
    t->state = TState::finished;
    wake_all(t);
    SThread *n = pick(false);
    ++shm->switches;
    self = nullptr;
    exiting_tid = t->tid;
    gate_open(n);
}

static void *trampoline(void *p)
{
    auto *t = static_cast<SThread *>(p);
    __atomic_store_n(&t->tid, static_cast<int>(syscall(SYS_gettid)), __ATOMIC_RELEASE);
    gate_wait(t);
    self = t;
    race_thread_start();
    pthread_setspecific(exit_key, t);
    return t->fn(t->arg);
}

static SThread *new_thread(void *(*fn)(void *), void *arg)
{
    Quiet quiet;
    auto *t = new SThread;
    t->id = static_cast<int>(threads->size());
    t->fn = fn;
    t->arg = arg;
    t->prio = static_cast<std::int64_t>(strat_rng.next() >> 2);
    threads->push_back(t);
    ++shm->threads;
    return t;
}

// real functions
#define REAL(name) static decltype(&name) real_##name
#define RESOLVE(name, ver)                                                          \
    do {                                                                            \
        if (real_##name == nullptr) {                                               \
            void *p_ = (ver) ? dlvsym(RTLD_NEXT, #name, ver) : nullptr;             \
            if (p_ == nullptr) p_ = dlsym(RTLD_NEXT, #name);                        \
            real_##name = reinterpret_cast<decltype(real_##name)>(p_);              \
        }                                                                           \
    } while (0)

REAL(pthread_create);
REAL(pthread_join);
REAL(pthread_detach);
REAL(pthread_mutex_lock);
REAL(pthread_mutex_trylock);
REAL(pthread_mutex_unlock);
REAL(pthread_cond_wait);
REAL(pthread_cond_timedwait);
REAL(pthread_cond_clockwait);
REAL(pthread_cond_signal);
REAL(pthread_cond_broadcast);
REAL(pthread_once);
REAL(sched_yield);
REAL(nanosleep);
REAL(clock_nanosleep);
REAL(clock_gettime);
REAL(pthread_rwlock_rdlock);
REAL(pthread_rwlock_wrlock);
REAL(pthread_rwlock_unlock);
REAL(sem_wait);
REAL(sem_trywait);
REAL(sem_timedwait);
REAL(sem_clockwait);
REAL(sem_post);

static SThread *start(void *(*fn)(void *), void *arg, int *err)
{
    Quiet quiet;
    SThread *t = new_thread(fn, arg);
    RESOLVE(pthread_create, nullptr);
    int r = real_pthread_create(&t->pt, nullptr, trampoline, t);
    if (r != 0) {
        fprintf(stderr, "SIM-INTERNAL: pthread_create: %s\n", strerror(r));
        _exit(7);
    }
    while (__atomic_load_n(&t->tid, __ATOMIC_ACQUIRE) == 0) syscall(SYS_sched_yield);
    (*by_pthread)[t->pt] = t;
    race_thread_create(self, t);
    *err = 0;
    return t;
}

SThread *spawn_internal(void *(*fn)(void *), void *arg, bool worker)
{
    int e;
    SThread *t = start(fn, arg, &e);
    t->worker = worker;
    t->sim_internal = true;
    return t;
}
void join_internal(SThread *t)
{
    while (t->state != TState::finished) block(t, "join");
    race_thread_join(self, t);
    t->joined = true;
    RESOLVE(pthread_join, nullptr);
    real_pthread_join(t->pt, nullptr);
}

struct Thread_state {
    std::function<void()> fn;
    SThread *t = nullptr;
    bool joined = false;
};
static void *thread_body(void *p)
{
    static_cast<Thread_state *>(p)->fn();
    return nullptr;
}
Thread::Thread(std::function<void()> fn) : st_{std::make_shared<Thread_state>()}
{
    st_->fn = std::move(fn);
    st_->t = spawn_internal(thread_body, st_.get(), false);
    st_->t->client = true;
    point("sim_thread_create", nullptr, static_cast<std::uint64_t>(st_->t->id));
}
void Thread::join()
{
    if (st_->joined) return;
    join_internal(st_->t);
    st_->joined = true;
}
Thread::~Thread() { join(); }

void init_run()
{
    race_memory();
    threads = new std::vector<SThread *>;
    timers = new std::priority_queue<Timer>;
    objids = new std::unordered_map<const void *, std::uint32_t>;
    objids->reserve(4096);
    by_pthread = new std::unordered_map<pthread_t, SThread *>;
    for (int i = 0; i < 4; ++i) {
        rng[i].s = plan.seed * 0x2545f4914f6cdd1dull + static_cast<std::uint64_t>(i) * 0xda942042e4dd58b5ull;
        rng[i].next();
    }
    strat_rng.s = plan.seed ^ 0x1234567855aa55aaull;
    setup_strategy();
    pthread_key_create(&exit_key, thread_finish);
    SThread *m = new_thread(nullptr, nullptr);
    m->pt = pthread_self();
    self = m;
    race_init();
    race_thread_create(nullptr, m);
    static const double means[] = {0, 30, 150, 700, 3000, 12000};
    preempt_mean = race_build ? means[strat_rng.below(6)] : 0;
    draw_preempt();
    detail::active = true;
}

}  // namespace sim

// ====================================================================== interposers
using namespace sim;

extern "C" {

int pthread_create(pthread_t *out, const pthread_attr_t *attr, void *(*fn)(void *), void *arg)
{
    RESOLVE(pthread_create, nullptr);
    if (!on()) return real_pthread_create(out, attr, fn, arg);
    if (fault(f_thread_fail)) {
        point("thread_create_fail");
        return EAGAIN;
    }
    int e;
    SThread *t = start(fn, arg, &e);
    *out = t->pt;
    point("thread_create", nullptr, static_cast<std::uint64_t>(t->id));
    return 0;
}

int pthread_join(pthread_t p, void **ret)
{
    RESOLVE(pthread_join, nullptr);
    if (!on()) return real_pthread_join(p, ret);
    auto it = by_pthread->find(p);
    if (it == by_pthread->end()) return ESRCH;
    SThread *t = it->second;
    point("thread_join", nullptr, static_cast<std::uint64_t>(t->id));
    while (t->state != TState::finished) block(t, "thread_join");
    race_thread_join(self, t);
    t->joined = true;
    by_pthread->erase(p);
    return real_pthread_join(p, ret);
}

int pthread_detach(pthread_t p)
{
    RESOLVE(pthread_detach, nullptr);
    return real_pthread_detach(p);
}

int pthread_mutex_trylock(pthread_mutex_t *m)
{
    RESOLVE(pthread_mutex_trylock, nullptr);
    if (!on()) return real_pthread_mutex_trylock(m);
    point("mutex_trylock", m);
    int r = real_pthread_mutex_trylock(m);
    if (r == 0) race_acquire(m);
    return r;
}

static void sim_lock(pthread_mutex_t *m)
{
    RESOLVE(pthread_mutex_trylock, nullptr);
    while (real_pthread_mutex_trylock(m) != 0) block(m, "mutex_lock");
    race_acquire(m);
}

int pthread_mutex_lock(pthread_mutex_t *m)
{
    RESOLVE(pthread_mutex_lock, nullptr);
    if (!on()) return real_pthread_mutex_lock(m);
    point("mutex_lock", m);
    sim_lock(m);
    return 0;
}

static int sim_unlock(pthread_mutex_t *m)
{
    RESOLVE(pthread_mutex_unlock, nullptr);
    race_release(m);
    int r = real_pthread_mutex_unlock(m);
    wake_all(m);
    return r;
}

int pthread_mutex_unlock(pthread_mutex_t *m)
{
    RESOLVE(pthread_mutex_unlock, nullptr);
    if (!on()) return real_pthread_mutex_unlock(m);
    int r = sim_unlock(m);
    point("mutex_unlock", m);
    return r;
}

static int sim_cond_wait(pthread_cond_t *c, pthread_mutex_t *m, std::uint64_t deadline)
{
    // A pre-emption here, with the mutex held, then atomic release + wait.
    point("cond_wait", c);
    bool spurious = false;
    std::uint32_t v = fault(f_spurious_wake, 33);
    if (v != 0) {
        std::uint64_t d = now_us() + v * 3;
        if (d < deadline) {
            deadline = d;
            spurious = true;
        }
    }
    sim_unlock(m);
    bool ok = block(c, "cond_wait", deadline, spurious);
    sim_lock(m);
    return ok ? 0 : ETIMEDOUT;
}

static std::uint64_t base_ns() { return 1600000000ull * 1000000000ull; }
static std::uint64_t deadline_of(const timespec *ts)
{
    std::uint64_t ns = static_cast<std::uint64_t>(ts->tv_sec) * 1000000000ull +
                       static_cast<std::uint64_t>(ts->tv_nsec);
    return ns <= base_ns() ? 0 : (ns - base_ns() + 999) / 1000;
}

static int sim_sem_wait(sem_t *m, std::uint64_t deadline)
{
    RESOLVE(sem_trywait, nullptr);
    point("sem_wait", m);
    while (real_sem_trywait(m) != 0) {
        if (!block(m, "sem_wait", deadline)) {
            errno = ETIMEDOUT;
            return -1;
        }
    }
    race_acquire(m);
    return 0;
}

int sem_wait(sem_t *m)
{
    RESOLVE(sem_wait, nullptr);
    return on() ? sim_sem_wait(m, ~0ull) : real_sem_wait(m);
}

int sem_timedwait(sem_t *m, const timespec *ts)
{
    RESOLVE(sem_timedwait, nullptr);
    return on() ? sim_sem_wait(m, deadline_of(ts)) : real_sem_timedwait(m, ts);
}

int sem_clockwait(sem_t *m, clockid_t k, const timespec *ts)
{
    RESOLVE(sem_clockwait, nullptr);
    return on() ? sim_sem_wait(m, deadline_of(ts)) : real_sem_clockwait(m, k, ts);
}

int sem_trywait(sem_t *m)
{
    RESOLVE(sem_trywait, nullptr);
    if (!on()) return real_sem_trywait(m);
    point("sem_trywait", m);
    int r = real_sem_trywait(m);
    if (r == 0) race_acquire(m);
    return r;
}

int sem_post(sem_t *m)
{
    RESOLVE(sem_post, nullptr);
    if (!on()) return real_sem_post(m);
    race_release(m);
    int r = real_sem_post(m);
    wake_all(m);
    point("sem_post", m);
    return r;
}

int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m)
{
    RESOLVE(pthread_cond_wait, "GLIBC_2.3.2");
    if (!on()) return real_pthread_cond_wait(c, m);
    return sim_cond_wait(c, m, ~0ull);
}
int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const timespec *ts)
{
    RESOLVE(pthread_cond_timedwait, "GLIBC_2.3.2");
    if (!on()) return real_pthread_cond_timedwait(c, m, ts);
    return sim_cond_wait(c, m, deadline_of(ts));
}
int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t k, const timespec *ts)
{
    RESOLVE(pthread_cond_clockwait, nullptr);
    if (!on()) return real_pthread_cond_clockwait(c, m, k, ts);
    return sim_cond_wait(c, m, deadline_of(ts));
}
int pthread_cond_signal(pthread_cond_t *c)
{
    RESOLVE(pthread_cond_signal, "GLIBC_2.3.2");
    if (!on()) return real_pthread_cond_signal(c);
    point("cond_signal", c);
    wake_one(c);
    return 0;
}
int pthread_cond_broadcast(pthread_cond_t *c)
{
    RESOLVE(pthread_cond_broadcast, "GLIBC_2.3.2");
    if (!on()) return real_pthread_cond_broadcast(c);
    point("cond_broadcast", c);
    wake_all(c);
    return 0;
}

int pthread_once(pthread_once_t *o, void (*fn)(void))
{
    RESOLVE(pthread_once, nullptr);
    if (!on() || self->quiet != 0) return real_pthread_once(o, fn);
    // 0: never, 1: running, 2: done (glibc uses the same encoding in its low bits)
    for (;;) {
        if (*o == 2) {
            race_acquire(o);
            return 0;
        }
        if (*o == 0) break;
        block(o, "once");
    }
    point("once", o);
    if (*o != 0) return pthread_once(o, fn);
    *o = 1;
    try {
        fn();
    }
    catch (...) {
        *o = 0;
        wake_all(o);
        throw;
    }
    race_release(o);
    *o = 2;
    wake_all(o);
    return 0;
}

int sched_yield()
{
    RESOLVE(sched_yield, nullptr);
    if (!on()) return real_sched_yield();
    spin_yield();
    return 0;
}

int nanosleep(const timespec *r, timespec *rem)
{
    RESOLVE(nanosleep, nullptr);
    if (!on()) return real_nanosleep(r, rem);
    sleep_us(static_cast<std::uint64_t>(r->tv_sec) * 1000000u + static_cast<std::uint64_t>(r->tv_nsec) / 1000 + 1);
    return 0;
}
int clock_nanosleep(clockid_t k, int fl, const timespec *r, timespec *rem)
{
    RESOLVE(clock_nanosleep, nullptr);
    if (!on()) return real_clock_nanosleep(k, fl, r, rem);
    sleep_us(static_cast<std::uint64_t>(r->tv_sec) * 1000000u + static_cast<std::uint64_t>(r->tv_nsec) / 1000 + 1);
    return 0;
}
int clock_gettime(clockid_t k, timespec *ts)
{
    RESOLVE(clock_gettime, nullptr);
    if (!on()) return real_clock_gettime(k, ts);
    std::uint64_t ns = base_ns() + now_us() * 1000;
    ts->tv_sec = static_cast<time_t>(ns / 1000000000ull);
    ts->tv_nsec = static_cast<long>(ns % 1000000000ull);
    return 0;
}

// Function-local statics: libstdc++ would block in a real futex. Asm names, as
// the compiler declares these functions with types of its own.
int sim_guard_acquire(void *g) __asm__("__cxa_guard_acquire");
void sim_guard_release(void *g) __asm__("__cxa_guard_release");
void sim_guard_abort(void *g) __asm__("__cxa_guard_abort");

int sim_guard_acquire(void *g)
{
    auto *b = static_cast<volatile unsigned char *>(g);
    for (;;) {
        if (__atomic_load_n(&b[0], __ATOMIC_ACQUIRE) == 1) {
            if (on()) race_acquire(g);
            return 0;
        }
        if (b[1] == 0) {
            b[1] = 1;
            if (on()) point("guard_acquire", g);
            return 1;
        }
        if (!on()) return 1;  // single threaded outside runs
        block(g, "guard");
    }
}
void sim_guard_release(void *g)
{
    auto *b = static_cast<volatile unsigned char *>(g);
    if (on()) race_release(g);
    __atomic_store_n(&b[0], 1, __ATOMIC_RELEASE);
    b[1] = 0;
    if (on()) wake_all(g);
}
void sim_guard_abort(void *g)
{
    auto *b = static_cast<volatile unsigned char *>(g);
    b[1] = 0;
    if (on()) wake_all(g);
}

// The buffer-size knobs of the code under test.
std::size_t mlio_sim_knob(const char *name, std::size_t dflt)
{
    auto it = knobs->find(name);
    return it == knobs->end() || !on() ? dflt : it->second;
}

}  // extern "C"

// std::random_device: the simulator owns randomness.
#include <random>
namespace sim { unsigned sim_random() { return (choose(W, 65536) << 16) ^ choose(W, 65536); } }
std::random_device::result_type std::random_device::_M_getval()
{
    return sim::sim_random();
}
