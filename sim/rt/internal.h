// Simulator runtime: internals shared by sched.cc, fs.cc, tbb_stub.cc, race.cc.
#pragma once
#include <pthread.h>
#include <csetjmp>
#include "rt.h"

namespace sim {

struct Shared {
    volatile int status;  // 0 running, 1 ok, 2 violation
    char cls[200];
    char msg[8192];
    char desc[8192];
    std::uint64_t steps, switches, now, hash, schash, picks;
    std::uint64_t fired[f_count], asked[f_count];
    std::uint32_t nprobes;
    struct { char name[56]; std::uint64_t n; } probes[96];
    std::uint64_t idx[4];
    std::uint32_t nlog[4];
    std::uint32_t log_overflow;
    std::uint32_t threads;
    std::uint64_t accesses;
    std::uint32_t tracelen;
    struct Ent { std::uint32_t idx, val; };
    static constexpr std::uint32_t log_cap = 1u << 20;
    Ent log[4][log_cap];
    static constexpr std::uint32_t trace_cap = 4u << 20;
    char trace[trace_cap];
};
extern Shared *shm;

struct Plan {  // what the run does with its choices
    bool replay = false;
    std::uint64_t seed = 1;
    std::map<std::uint32_t, std::uint32_t> sparse[4];
    bool trace = false;
};
extern Plan plan;

enum class TState { runnable, blocked, finished };

struct SThread {
    int id = 0;
    volatile int gate = 0;
    volatile int tid = 0;
    TState state = TState::runnable;
    const void *key = nullptr;
    const char *what = "";
    std::uint64_t deadline = ~0ull;
    bool timed_out = false;
    bool deadline_is_spurious = false;
    bool worker = false;
    bool joined = false;
    bool sim_internal = false;   // created by the harness, not by code under test
    pthread_t pt{};
    void *(*fn)(void *) = nullptr;
    void *arg = nullptr;
    std::int64_t prio = 0;
    bool deprioritised = false;
    // TBB
    void *arena = nullptr;
    void *ctx = nullptr;
    int depth = 0;
    // race detector
    void *race = nullptr;
    const char *op = "";
    bool client = false;         // runs code of the workload
    int quiet = 0;               // inside the simulator: its own allocations do not fail
};

extern __thread SThread *self;
struct Quiet {
    Quiet() : t{self} { if (t != nullptr) ++t->quiet; }
    ~Quiet() { if (t != nullptr) --t->quiet; }
    SThread *t;
};
inline bool on() { return detail::active && self != nullptr; }

void init_run();                       // called in the child on the main thread
void point(const char *what, const void *obj = nullptr, std::uint64_t v = 0);
bool block(const void *key, const char *what, std::uint64_t deadline = ~0ull,
           bool spurious = false);     // false: timed out
int wake_all(const void *key);
bool wake_one(const void *key);
int waiters(const void *key);
void spin_yield();
std::uint32_t object_id(const void *p);
SThread *spawn_internal(void *(*fn)(void *), void *arg, bool worker);
void join_internal(SThread *t);
void finish_ok() __attribute__((noreturn));
int all_threads();
void tick_access(unsigned weight);     // memory access pre-emption (race build)

// race detector hooks (no-ops unless linked with race.cc's real ones)
namespace heap {
void add(void *p, std::size_t n, void *site);
void del(void *p);
}
void race_thread_create(SThread *parent, SThread *child);
void race_thread_join(SThread *joiner, SThread *child);
void race_acquire(const void *p);
void race_release(const void *p);
void race_free(const void *p, std::size_t n);
void race_init();
void race_memory();
void race_thread_start();
extern bool race_build;

template <class Fn> Fn real(Fn &slot, const char *name, const char *ver = nullptr);

}  // namespace sim
