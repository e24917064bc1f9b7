// Batch runner, replayer and minimiser.
#include <elf.h>
#include <link.h>
#include <unwind.h>
#include <errno.h>
#include <fcntl.h>
#include <sched.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <new>
#include <set>
#include <string>
#include <unordered_set>

#include "internal.h"

// An error report must not run simulated threads: it holds locks of its own.
extern "C" void __asan_on_error();
extern "C" void __asan_on_error() { sim::detail::active = false; }
extern "C" const char *__asan_default_options();
const char *__asan_default_options()
{
    return "exitcode=86:fast_unwind_on_fatal=1:detect_leaks=0:allocator_may_return_null=1:handle_abort=0:"
           "detect_stack_use_after_return=0:abort_on_error=0:color=never:symbolize=0:"
           "max_allocation_size_mb=3000:quarantine_size_mb=16:malloc_context_size=4";
}

namespace sim {
int phase_tag;
bool report_races;
namespace {
std::map<std::string, void (*)()> *workloads;
int err_fd = -1;

std::uint64_t splitmix(std::uint64_t z)
{
    z += 0x9e3779b97f4a7c15ull;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}
std::uint64_t hash_str(const std::string &s)
{
    std::uint64_t h = 1469598103934665603ull;
    for (unsigned char c : s) h = (h ^ c) * 1099511628211ull;
    return h;
}
double mono()
{
    struct timespec ts;
    syscall(228, CLOCK_MONOTONIC, &ts);
    return static_cast<double>(ts.tv_sec) + static_cast<double>(ts.tv_nsec) * 1e-9;
}

const char *the_op() { return self ? self->op : "?"; }

void on_cpu(int)
{
    snprintf(shm->cls, sizeof shm->cls, "hang:cpu");
    snprintf(shm->msg, sizeof shm->msg, "a run used more than its CPU budget without finishing (last operation: %s)", the_op());
    shm->status = 2;
    _exit(3);
}

void reset_shared()
{
    std::uint32_t tl = shm->tracelen;
    (void)tl;
    memset(static_cast<void *>(shm), 0, offsetof(Shared, log));
    shm->trace[0] = 0;
}

struct Result {
    int status;  // 1 ok, 2 violation, 9 internal error
    std::string cls, msg;
};

std::string read_err()
{
    std::string s;
    off_t n = lseek(err_fd, 0, SEEK_END);
    if (n > 60000) n = 60000;
    s.resize(static_cast<std::size_t>(n));
    if (n > 0) {
        ssize_t k = pread(err_fd, &s[0], static_cast<std::size_t>(n), 0);
        s.resize(k > 0 ? static_cast<std::size_t>(k) : 0);
    }
    return s;
}

std::string asan_class(const std::string &e)
{
    auto p = e.find("ERROR: AddressSanitizer: ");
    if (p == std::string::npos) return "asan:unknown";
    p += 25;
    std::string kind = e.substr(p, e.find_first_of(" \n", p) - p);
    // first frames that name a function of the library or an offset
    std::string frames;
    std::size_t q = p;
    int n = 0;
    while (n < 1) {
        q = e.find("\n    #", q + 1);
        if (q == std::string::npos) break;
        std::size_t end = e.find('\n', q + 1);
        std::string line = e.substr(q + 1, end - q - 1);
        auto in = line.find(" in ");
        std::string f;
        if (in != std::string::npos) {
            f = line.substr(in + 4);
            auto sp = f.find(" /");
            if (sp != std::string::npos) f = f.substr(0, sp);
            if (f.compare(0, 6, "mlio::") != 0 && f.find(" mlio::") == std::string::npos) continue;
            auto par = f.find('(');
            if (par != std::string::npos) f = f.substr(0, par);
        }
        else {
            auto par = line.find("/sim+");
            if (par == std::string::npos) continue;
            f = line.substr(par + 5);
            f = f.substr(0, f.find(')'));
        }
        frames += ":" + f;
        ++n;
    }
    return "asan:" + kind + frames;
}

Result classify(int st)
{
    if (WIFEXITED(st)) {
        int c = WEXITSTATUS(st);
        if (c == 0 && shm->status == 1) return {1, "", ""};
        if (c == 3 && shm->status == 2) return {2, shm->cls, shm->msg};
        std::string e = read_err();
        if (c == 86) return {2, asan_class(e), e};
        return {9, "internal:exit" + std::to_string(c), e};
    }
    if (WIFSIGNALED(st)) {
        std::string e = read_err();
        int s = WTERMSIG(st);
        if (s == SIGKILL || s == SIGALRM) return {9, "internal:killed", e};
        std::string cls = "crash:" + std::string(s == SIGABRT ? "abort" : s == SIGSEGV ? "segv" : s == SIGBUS ? "bus" : s == SIGFPE ? "fpe" : s == SIGPIPE ? "pipe" : std::to_string(s));
        auto p = e.find("terminate called after throwing an instance of '");
        if (p != std::string::npos) {
            p += 48;
            cls = "crash:terminate:" + e.substr(p, e.find('\'', p) - p);
        }
        else if (e.find("terminate called") != std::string::npos) {
            cls = "crash:terminate";
        }
        else if (e.find("Assertion '") != std::string::npos) {
            cls = "crash:assertion";
        }
        return {2, cls, e};
    }
    return {9, "internal:wait", ""};
}

Result run_once(void (*fn)())
{
    reset_shared();
    if (ftruncate(err_fd, 0) != 0) {}
    lseek(err_fd, 0, SEEK_SET);
    pid_t p = fork();
    if (p < 0) {
        perror("fork");
        exit(9);
    }
    if (p == 0) {
        dup2(err_fd, 2);
        signal(SIGPROF, on_cpu);
        struct itimerval it {};
        it.it_value.tv_sec = 30;
        setitimer(ITIMER_PROF, &it, nullptr);
        alarm(240);
        init_run();
        fn();
        finish_ok();
    }
    int st = 0;
    while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
    return classify(st);
}

std::string esc(const std::string &s)
{
    std::string o;
    char b[8];
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') {
            o += '\\';
            o += static_cast<char>(c);
        }
        else if (c == '\n') o += "\\n";
        else if (c < 32 || c > 126) {
            snprintf(b, sizeof b, "\\u%04x", c);
            o += b;
        }
        else o += static_cast<char>(c);
    }
    return o;
}

struct Replay {
    std::string prop, workload, variant, cls;
    std::uint64_t seed = 0;
    std::map<std::uint32_t, std::uint32_t> v[4];
};

bool load(const char *path, Replay &r)
{
    FILE *f = fopen(path, "r");
    if (!f) return false;
    char line[4096];
    while (fgets(line, sizeof line, f)) {
        if (line[0] == '#') continue;
        char k[64];
        unsigned a, b;
        if (sscanf(line, "%63s", k) != 1) continue;
        std::string key = k;
        std::string rest = strlen(line) > key.size() + 1 ? line + key.size() + 1 : "";
        while (!rest.empty() && (rest.back() == '\n' || rest.back() == '\r')) rest.pop_back();
        if (key == "W" || key == "S" || key == "F" || key == "P") {
            if (sscanf(rest.c_str(), "%u %u", &a, &b) == 2) r.v[key == "W" ? 0 : key == "S" ? 1 : key == "F" ? 2 : 3][a] = b;
        }
        else if (key == "property") r.prop = rest;
        else if (key == "workload") r.workload = rest;
        else if (key == "variant") r.variant = rest;
        else if (key == "class") r.cls = rest;
        else if (key == "seed") r.seed = strtoull(rest.c_str(), nullptr, 10);
    }
    fclose(f);
    return true;
}

void save(const char *path, const Replay &r, const Result *res, const char *desc, const char *trace)
{
    FILE *f = fopen(path, "w");
    if (!f) {
        perror(path);
        exit(9);
    }
    fprintf(f, "# mlio deterministic-simulation replay. W: workload, S: schedule, F: fault, P: pre-emption choices (index value);\n");
    fprintf(f, "# every choice that is not listed is 0, the simplest value.\n");
    fprintf(f, "property %s\nworkload %s\nvariant %s\nseed %llu\nclass %s\n", r.prop.c_str(), r.workload.c_str(),
            r.variant.c_str(), static_cast<unsigned long long>(r.seed), res ? res->cls.c_str() : r.cls.c_str());
    const char n[4] = {'W', 'S', 'F', 'P'};
    for (int s = 0; s < 4; ++s)
        for (auto &p : r.v[s]) fprintf(f, "%c %u %u\n", n[s], p.first, p.second);
    auto comment = [&](const char *title, const std::string &t) {
        fprintf(f, "# ---- %s\n", title);
        std::size_t i = 0;
        while (i < t.size()) {
            std::size_t e = t.find('\n', i);
            if (e == std::string::npos) e = t.size();
            fprintf(f, "# %s\n", t.substr(i, e - i).c_str());
            i = e + 1;
        }
    };
    if (res) comment("violation", res->msg);
    if (desc && *desc) comment("scenario", desc);
    if (trace && *trace) {
        std::string t = trace;
        if (t.size() > 400000) t = t.substr(0, 100000) + "\n...\n" + t.substr(t.size() - 300000);
        comment("schedule and fault trace", t);
    }
    fclose(f);
}

void from_log(Replay &r)
{
    for (int s = 0; s < 4; ++s) {
        r.v[s].clear();
        for (std::uint32_t i = 0; i < shm->nlog[s]; ++i) r.v[s][shm->log[s][i].idx] = shm->log[s][i].val;
    }
}
void to_plan(const Replay &r, bool trace)
{
    plan.replay = true;
    plan.seed = r.seed;
    plan.trace = trace;
    for (int s = 0; s < 4; ++s) plan.sparse[s] = r.v[s];
}

bool same_class(const std::string &a, const std::string &b) { return a == b; }

// ddmin over the non-zero entries of all three streams, then value lowering.
int minimise(Replay &r, double budget, void (*fn)())
{
    double t0 = mono();
    int tried = 0;
    auto fails = [&](const Replay &c, Replay *out) {
        to_plan(c, false);
        Result res = run_once(fn);
        ++tried;
        if (res.status == 2 && same_class(res.cls, r.cls)) {
            if (out) {
                *out = c;
                from_log(*out);  // what was really used
            }
            return true;
        }
        return false;
    };
    Replay best = r;
    if (!fails(r, &best)) return -1;
    for (int round = 0; round < 4; ++round) {
        std::size_t before = best.v[0].size() + best.v[1].size() + best.v[2].size() + best.v[3].size();
        for (int s : {3, 1, 2, 0}) {
            std::size_t chunk = std::max<std::size_t>(1, best.v[s].size() / 2);
            while (chunk >= 1) {
                bool any = false;
                std::vector<std::pair<std::uint32_t, std::uint32_t>> ents(best.v[s].begin(), best.v[s].end());
                for (std::size_t i = 0; i < ents.size();) {
                    if (mono() - t0 > budget) goto done;
                    Replay c = best;
                    std::size_t e = std::min(ents.size(), i + chunk);
                    for (std::size_t k = i; k < e; ++k) c.v[s].erase(ents[k].first);
                    Replay o;
                    if (fails(c, &o)) {
                        std::size_t now = o.v[s].size();
                        best = (now < best.v[s].size()) ? o : c;
                        any = true;
                        ents.assign(best.v[s].begin(), best.v[s].end());
                        if (i >= ents.size()) break;
                    }
                    else {
                        i = e;
                    }
                }
                if (chunk == 1) break;
                (void)any;
                chunk = chunk / 2;
            }
            // lower values
            if (s != 1 && s != 3) {
                std::vector<std::pair<std::uint32_t, std::uint32_t>> ents(best.v[s].begin(), best.v[s].end());
                for (auto &e : ents) {
                    if (mono() - t0 > budget) goto done;
                    for (std::uint32_t nv : {1u, e.second / 2, e.second - 1}) {
                        if (nv == 0 || nv >= e.second) continue;
                        Replay c = best;
                        auto it = c.v[s].find(e.first);
                        if (it == c.v[s].end()) break;
                        it->second = nv;
                        if (fails(c, nullptr)) {
                            best = c;
                            break;
                        }
                    }
                }
            }
        }
        std::size_t after = best.v[0].size() + best.v[1].size() + best.v[2].size() + best.v[3].size();
        if (after >= before) break;
    }
done:
    best.cls = r.cls;
    r = best;
    return tried;
}

int usage()
{
    fprintf(stderr, "usage: sim batch|replay|minimise|hash|list ...\n");
    return 2;
}
}  // namespace

void register_workload(const char *name, void (*run)())
{
    if (workloads == nullptr) workloads = new std::map<std::string, void (*)()>;
    (*workloads)[name] = run;
}
bool run_workload(const char *name)
{
    auto it = workloads->find(name);
    if (it == workloads->end()) return false;
    it->second();
    return true;
}

// ------------------------------------------------------------------ heap accounting
namespace heap {
namespace {
bool tracking;
struct Slot {
    void *p;
    std::size_t n;
    void *site;
};
constexpr std::size_t cap = 1u << 18;
Slot *table;
std::size_t count, bytes, peak;
volatile int lock_;
struct Lock {
    Lock()
    {
        while (__atomic_exchange_n(&lock_, 1, __ATOMIC_ACQUIRE)) {}
    }
    ~Lock() { __atomic_store_n(&lock_, 0, __ATOMIC_RELEASE); }
};
std::size_t h(void *p) { return (reinterpret_cast<std::uintptr_t>(p) >> 4) * 0x9e3779b97f4a7c15ull >> 46; }
}  // namespace
void add(void *p, std::size_t n, void *site)
{
    if (!tracking || self == nullptr || self->quiet != 0 || p == nullptr) return;
    Lock l;
    bytes += n;
    peak = std::max(peak, bytes);
    if (count > cap * 3 / 4) return;
    std::size_t i = h(p) & (cap - 1);
    while (table[i].p != nullptr && table[i].p != reinterpret_cast<void *>(1)) i = (i + 1) & (cap - 1);
    table[i] = {p, n, site};
    ++count;
}
void del(void *p)
{
    if (table == nullptr || p == nullptr) return;
    Lock l;
    std::size_t i = h(p) & (cap - 1);
    while (table[i].p != nullptr) {
        if (table[i].p == p) {
            table[i].p = reinterpret_cast<void *>(1);
            bytes -= table[i].n;
            --count;
            return;
        }
        i = (i + 1) & (cap - 1);
    }
}
void start()
{
    table = static_cast<Slot *>(mmap(nullptr, cap * sizeof(Slot), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
    tracking = true;
}
void pause() { tracking = false; }
void resume() { tracking = true; }
std::size_t live() { return count; }
std::size_t live_bytes() { return bytes; }
std::size_t peak_bytes() { return peak; }
void dump(std::string &out, std::size_t max)
{
    tracking = false;
    for (std::size_t i = 0; i < cap && max > 0; ++i) {
        if (table[i].p != nullptr && table[i].p != reinterpret_cast<void *>(1)) {
            char b[96];
            snprintf(b, sizeof b, " %zuB@%p", table[i].n, table[i].site);
            out += b;
            --max;
        }
    }
}
}  // namespace heap

}  // namespace sim

int main(int argc, char **argv);
using namespace sim;
std::size_t sim::new_fail_min = 0;

// Who asks for memory decides whether it may fail: the code under test, also
// through the standard library, {fmt} or Abseil. TBB, which loses edges and
// memory of a graph, and protobuf, whose messages do not survive it, are not
// the code under test, and neither are the simulator and the workloads.
namespace {
enum class Owner : char { skip, tested, other };
struct Code { std::uintptr_t beg, end; Owner owner; };
std::vector<Code> *code;
Owner owner_of(const char *n)
{
    if (n[0] != '_' || n[1] != 'Z') return Owner::other;  // C functions: the simulated system calls
    n += 2;
    if (n[0] == 'n' || n[0] == 'd' || n[0] == 'S' || n[0] == 'T') return Owner::skip;
    while (*n == 'Z' || *n == 'N' || *n == 'K' || *n == 'L') ++n;
    auto is = [&](const char *w) { return strncmp(n, w, strlen(w)) == 0; };
    if (is("4mlio") || is("6pymlio") || is("3hll")) return Owner::tested;
    if (is("St") || is("Sa") || is("Ss") || is("9__gnu_cxx") || is("3fmt") || is("4absl") || is("8pybind11") || is("6do_new") || is("9do_new_al") ||
        is("12_GLOBAL__N_19new_fails") || is("12_GLOBAL__N_116tested_code_asks")) return Owner::skip;
    return Owner::other;
}
bool tested_code_asks();
void find_code()
{
    code = new std::vector<Code>;
    int fd = open("/proc/self/exe", O_RDONLY | O_CLOEXEC);
    if (fd < 0) return;
    auto n = static_cast<std::size_t>(lseek(fd, 0, SEEK_END));
    void *m = mmap(nullptr, n, PROT_READ, MAP_PRIVATE, fd, 0);
    close(fd);
    if (m == MAP_FAILED) return;
    auto *b = static_cast<const char *>(m);
    auto *eh = reinterpret_cast<const Elf64_Ehdr *>(b);
    auto *sh = reinterpret_cast<const Elf64_Shdr *>(b + eh->e_shoff);
    std::uintptr_t own = 0;
    for (int k = 0; k < eh->e_shnum; ++k) {
        if (sh[k].sh_type != SHT_SYMTAB) continue;
        auto *s = reinterpret_cast<const Elf64_Sym *>(b + sh[k].sh_offset);
        const char *names = b + sh[sh[k].sh_link].sh_offset;
        for (std::size_t i = 0; i < sh[k].sh_size / sizeof *s; ++i) {
            if (ELF64_ST_TYPE(s[i].st_info) != STT_FUNC || s[i].st_size == 0) continue;
            const char *name = names + s[i].st_name;
            if (strcmp(name, "main") == 0) own = s[i].st_value;
            code->push_back({s[i].st_value, s[i].st_value + s[i].st_size, owner_of(name)});
        }
    }
    std::uintptr_t base = reinterpret_cast<std::uintptr_t>(&::main) - own;
    for (auto &r : *code) { r.beg += base; r.end += base; }
    munmap(m, n);
    dl_iterate_phdr([](dl_phdr_info *i, std::size_t, void *) {
        // Libraries that have their own answer to a failed allocation; the
        // rest allocates in the name of its caller.
        if (*i->dlpi_name == 0) return 0;
        for (const char *w : {"libstdc++", "/libc.", "/libm.", "libgcc", "libfmt", "libabsl", "san.so", "/ld-", "linux-vdso", "libpthread"})
            if (strstr(i->dlpi_name, w) != nullptr) return 0;
        for (int k = 0; k < i->dlpi_phnum; ++k)
            if (i->dlpi_phdr[k].p_type == PT_LOAD) {
                std::uintptr_t a = i->dlpi_addr + i->dlpi_phdr[k].p_vaddr;
                code->push_back({a, a + i->dlpi_phdr[k].p_memsz, Owner::other});
            }
        return 0;
    }, nullptr);
    std::sort(code->begin(), code->end(), [](auto &x, auto &y) { return x.beg < y.beg; });
    tested_code_asks();  // the unwinder sets itself up
}
bool tested_code_asks()
{
    Owner o = Owner::skip;
    _Unwind_Backtrace([](_Unwind_Context *c, void *p) {
        std::uintptr_t a = _Unwind_GetIP(c) - 1;
        auto it = std::upper_bound(code->begin(), code->end(), a, [](std::uintptr_t x, const Code &r) { return x < r.beg; });
        if (it == code->begin() || a >= std::prev(it)->end) return _URC_NO_REASON;
        auto &res = *static_cast<Owner *>(p);
        res = std::prev(it)->owner;
        return res == Owner::skip ? _URC_NO_REASON : _URC_END_OF_STACK;
    }, &o);
    return o == Owner::tested;
}
bool new_fails(std::size_t n)
{
    if (self == nullptr || !detail::active || self->quiet != 0 || faults.p[f_new_fail] <= 0 || n < new_fail_min) return false;
    if ((self->id == 0 || self->client) && *self->op == 0) return false;
    if (fault(f_new_fail) == 0) return false;
    Quiet quiet;
    if (tested_code_asks()) return true;
    fault_taken_back(f_new_fail);
    return false;
}
}  // namespace
static void *do_new(std::size_t n, void *site)
{
    if (new_fails(n)) throw std::bad_alloc{};
    void *p = malloc(n ? n : 1);
    if (p == nullptr) throw std::bad_alloc{};
    heap::add(p, n, site);
    return p;
}
static void *do_new_al(std::size_t n, std::size_t al, void *site)
{
    void *p = nullptr;
    if (posix_memalign(&p, al < sizeof(void *) ? sizeof(void *) : al, n ? n : 1) != 0) throw std::bad_alloc{};
    heap::add(p, n, site);
    return p;
}
static void do_delete(void *p)
{
    heap::del(p);
    if (race_build && self != nullptr && p != nullptr) race_free(p, 0);
    free(p);
}
#define SITE __builtin_return_address(0)
void *operator new(std::size_t n) { return do_new(n, SITE); }
void *operator new[](std::size_t n) { return do_new(n, SITE); }
void *operator new(std::size_t n, const std::nothrow_t &) noexcept
{
    try { return do_new(n, SITE); } catch (...) { return nullptr; }
}
void *operator new[](std::size_t n, const std::nothrow_t &) noexcept
{
    try { return do_new(n, SITE); } catch (...) { return nullptr; }
}
void *operator new(std::size_t n, std::align_val_t a) { return do_new_al(n, static_cast<std::size_t>(a), SITE); }
void *operator new[](std::size_t n, std::align_val_t a) { return do_new_al(n, static_cast<std::size_t>(a), SITE); }
void operator delete(void *p) noexcept { do_delete(p); }
void operator delete[](void *p) noexcept { do_delete(p); }
void operator delete(void *p, std::size_t) noexcept { do_delete(p); }
void operator delete[](void *p, std::size_t) noexcept { do_delete(p); }
void operator delete(void *p, const std::nothrow_t &) noexcept { do_delete(p); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { do_delete(p); }
void operator delete(void *p, std::align_val_t) noexcept { do_delete(p); }
void operator delete[](void *p, std::align_val_t) noexcept { do_delete(p); }
void operator delete(void *p, std::size_t, std::align_val_t) noexcept { do_delete(p); }
void operator delete[](void *p, std::size_t, std::align_val_t) noexcept { do_delete(p); }

namespace sim { void warm_up() __attribute__((weak)); }

int main(int argc, char **argv)
{
    if (argc < 2) return usage();
    if (getenv("SIM_NO_REEXEC") == nullptr) {
        int per = personality(0xffffffff);
        if (per != -1 && (per & ADDR_NO_RANDOMIZE) == 0 && personality(static_cast<unsigned long>(per) | ADDR_NO_RANDOMIZE) != -1) {
            setenv("SIM_NO_REEXEC", "1", 1);
            execv("/proc/self/exe", argv);
        }
    }
    std::string cmd = argv[1];
    std::map<std::string, std::string> o;
    for (int i = 2; i + 1 < argc; i += 2) o[argv[i]] = argv[i + 1];
    auto num = [&](const char *k, double d) { return o.count(k) ? strtod(o[k].c_str(), nullptr) : d; };

    shm = static_cast<Shared *>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    if (shm == MAP_FAILED) {
        perror("mmap");
        return 9;
    }
    err_fd = memfd_create("err", MFD_CLOEXEC);
    if (o.count("--cpu")) {
        cpu_set_t have, one;
        CPU_ZERO(&one);
        if (sched_getaffinity(0, sizeof have, &have) == 0) {
            int n = CPU_COUNT(&have), want = static_cast<int>(num("--cpu", 0)) % std::max(n, 1), k = 0;
            for (int i = 0; i < CPU_SETSIZE; ++i) {
                if (CPU_ISSET(i, &have) && k++ == want) {
                    CPU_SET(i, &one);
                    sched_setaffinity(0, sizeof one, &one);
                    break;
                }
            }
        }
    }
    // keep the children's core files away
    struct rlimit rl {0, 0};
    setrlimit(RLIMIT_CORE, &rl);
    find_code();
    if (warm_up) warm_up();
    {  // a run may use 3 GB more than the parent has mapped (shadow included)
        unsigned long long pages = 0;
        if (FILE *f = fopen("/proc/self/statm", "r")) {
            if (fscanf(f, "%*u %*u %*u %*u %*u %llu", &pages) != 1) pages = 0;
            fclose(f);
        }
        if (pages != 0) {
            struct rlimit dl {};
            dl.rlim_cur = dl.rlim_max = pages * 4096 + (3ull << 30);
            setrlimit(RLIMIT_DATA, &dl);
        }
    }

    if (cmd == "list") {
        for (auto &p : *workloads) printf("%s\n", p.first.c_str());
        return 0;
    }
    if (cmd == "batch") {
        std::string prop = o["--prop"];
        std::string wl = o.count("--workload") ? o["--workload"] : prop;
        auto it = workloads->find(wl);
        if (it == workloads->end()) {
            fprintf(stderr, "no workload %s\n", wl.c_str());
            return 9;
        }
        std::uint64_t seed = strtoull(o["--seed"].c_str(), nullptr, 10);
        auto from = static_cast<std::uint64_t>(num("--from", 0)), stride = static_cast<std::uint64_t>(num("--stride", 1));
        auto max_runs = static_cast<std::uint64_t>(num("--max-runs", 1e18));
        double budget = num("--budget", 10);
        std::size_t max_viol = static_cast<std::size_t>(num("--max-violations", 3));
        std::string out = o["--out"], stop_file = o.count("--stop-file") ? o["--stop-file"] : "";
        // known findings: lines "class TAB text in the message"
        std::vector<std::pair<std::string, std::string>> known;
        std::map<std::string, std::uint64_t> known_hits;
        if (o.count("--known")) {
            if (FILE *f = fopen(o["--known"].c_str(), "r")) {
                char line[2048];
                while (fgets(line, sizeof line, f)) {
                    std::string l = line;
                    while (!l.empty() && l.back() == '\n') l.pop_back();
                    auto t = l.find('\t');
                    if (t != std::string::npos) known.push_back({l.substr(0, t), l.substr(t + 1)});
                }
                fclose(f);
            }
        }
        FILE *dump = o.count("--dump") ? fopen(o["--dump"].c_str(), "w") : nullptr;
        bool twice = o.count("--twice");
        double t0 = mono();
        std::uint64_t runs = 0, steps = 0, simt = 0, switches = 0, idxs[3] = {0, 0, 0}, accesses = 0, threads = 0;
        std::uint64_t fired[f_count] = {}, asked[f_count] = {}, runs_with[f_count] = {}, faulty = 0;
        std::map<std::string, std::pair<std::uint64_t, std::uint64_t>> probes;
        std::unordered_set<std::uint64_t> hashes, scheds;
        std::vector<std::string> samples, viol;
        std::set<std::string> classes;
        std::uint64_t all_hash = 0;
        std::uint64_t nviol = 0;
        int internal = 0;
        std::string internal_msg;
        for (std::uint64_t i = from; runs < max_runs; i += stride) {
            if (mono() - t0 > budget) break;
            if (!stop_file.empty() && access(stop_file.c_str(), F_OK) == 0) break;
            plan.replay = false;
            plan.trace = false;
            plan.seed = splitmix(splitmix(seed) ^ hash_str(wl) ^ splitmix(i));
            if (const char *ts = getenv("SIM_TRACE_SEED")) plan.trace = strtoull(ts, nullptr, 10) == plan.seed;
            Result r = run_once(it->second);
            if (plan.trace) fputs(shm->trace, stderr);
            if (dump) fprintf(dump, "%llu %llu %llu %s\n", static_cast<unsigned long long>(plan.seed), static_cast<unsigned long long>(shm->hash), static_cast<unsigned long long>(shm->steps), r.cls.c_str());
            if (twice) {  // the log replayed gives the same run
                std::uint64_t h = shm->hash, st = shm->steps;
                Replay rp;
                rp.workload = wl;
                rp.seed = plan.seed;
                from_log(rp);
                auto keep = plan;
                to_plan(rp, false);
                Result r2 = run_once(it->second);
                if (r2.status != r.status || r2.cls != r.cls || shm->hash != h || shm->steps != st) fprintf(stderr, "DIFFERS seed %llu\n", static_cast<unsigned long long>(rp.seed));
                plan = keep;
            }
            ++runs;
            steps += shm->steps;
            simt += shm->now;
            switches += shm->switches;
            threads += shm->threads;
            accesses += shm->accesses;
            for (int s = 0; s < 3; ++s) idxs[s] += shm->idx[s];
            bool any = false;
            for (int k = 0; k < f_count; ++k) {
                fired[k] += shm->fired[k];
                asked[k] += shm->asked[k];
                if (shm->fired[k]) {
                    ++runs_with[k];
                    any = true;
                }
            }
            faulty += any;
            for (std::uint32_t k = 0; k < shm->nprobes; ++k) {
                auto &p = probes[shm->probes[k].name];
                p.first += 1;
                p.second += shm->probes[k].n;
            }
            hashes.insert(shm->hash);
            scheds.insert(shm->schash);
            all_hash = splitmix(all_hash ^ shm->hash ^ splitmix(i));
            if (samples.size() < 2 || (samples.size() < 4 && any)) {
                char b[200];
                snprintf(b, sizeof b, "seed=%llu steps=%llu switches=%llu: ", static_cast<unsigned long long>(plan.seed),
                         static_cast<unsigned long long>(shm->steps), static_cast<unsigned long long>(shm->switches));
                samples.push_back(b + std::string(shm->desc).substr(0, 700));
            }
            if (r.status == 9) {
                ++internal;
                internal_msg = r.cls + " seed=" + std::to_string(plan.seed) + "\n" + r.msg + "\n" + shm->desc;
                if (internal > 3) break;
            }
            if (r.status == 2) {
                bool is_known = false;
                for (auto &k : known)
                    if (r.cls == k.first && r.msg.find(k.second) != std::string::npos) {
                        ++known_hits[k.first + "\t" + k.second];
                        is_known = true;
                        break;
                    }
                if (is_known) continue;
                ++nviol;
                if (!stop_file.empty()) {
                    FILE *sf = fopen(stop_file.c_str(), "w");
                    if (sf) fclose(sf);
                }
                if (classes.insert(r.cls).second && viol.size() < max_viol) {
                    Replay rp;
                    rp.prop = prop;
                    rp.workload = wl;
                    rp.variant = race_build ? "race" : "asan";
                    rp.seed = plan.seed;
                    from_log(rp);
                    std::string f = out + ".v" + std::to_string(viol.size());
                    if (shm->log_overflow) fprintf(stderr, "choice log overflow\n");
                    std::uint64_t h = shm->hash;
                    save(f.c_str(), rp, &r, shm->desc, nullptr);
                    char b[64];
                    snprintf(b, sizeof b, "%llu", static_cast<unsigned long long>(h));
                    viol.push_back("{\"cls\":\"" + esc(r.cls) + "\",\"msg\":\"" + esc(r.msg.substr(0, 4000)) + "\",\"seed\":" +
                                   std::to_string(plan.seed) + ",\"file\":\"" + esc(f) + "\",\"hash\":\"" + b +
                                   "\",\"desc\":\"" + esc(shm->desc) + "\"}");
                }
                if (viol.size() >= max_viol || (o.count("--stop") && nviol >= static_cast<std::uint64_t>(num("--stop", 1)))) break;
            }
        }
        FILE *f = fopen(out.c_str(), "w");
        if (!f) return 9;
        auto u = [](std::uint64_t v) { return static_cast<unsigned long long>(v); };
        fprintf(f, "{\"runs\":%llu,\"steps\":%llu,\"sim_us\":%llu,\"switches\":%llu,\"threads\":%llu,\"accesses\":%llu,\"wall\":%.3f,"
                   "\"choices\":[%llu,%llu,%llu],\"hash\":\"%llu\",\"violations_seen\":%llu,\"runs_with_fault\":%llu,",
                u(runs), u(steps), u(simt), u(switches), u(threads), u(accesses), mono() - t0, u(idxs[0]), u(idxs[1]), u(idxs[2]), u(all_hash),
                u(nviol), u(faulty));
        fprintf(f, "\"faults\":{");
        bool first = true;
        for (int k = 0; k < f_count; ++k) {
            if (asked[k] == 0 && fired[k] == 0) continue;
            fprintf(f, "%s\"%s\":[%llu,%llu,%llu]", first ? "" : ",", fault_names[k], u(asked[k]), u(fired[k]), u(runs_with[k]));
            first = false;
        }
        fprintf(f, "},\"probes\":{");
        first = true;
        for (auto &p : probes) {
            fprintf(f, "%s\"%s\":[%llu,%llu]", first ? "" : ",", esc(p.first).c_str(), u(p.second.first), u(p.second.second));
            first = false;
        }
        fprintf(f, "},\"known\":{");
        first = true;
        for (auto &p : known_hits) {
            fprintf(f, "%s\"%s\":%llu", first ? "" : ",", esc(p.first).c_str(), u(p.second));
            first = false;
        }
        fprintf(f, "},\"samples\":[");
        for (std::size_t i = 0; i < samples.size(); ++i) fprintf(f, "%s\"%s\"", i ? "," : "", esc(samples[i]).c_str());
        fprintf(f, "],\"violations\":[");
        for (std::size_t i = 0; i < viol.size(); ++i) fprintf(f, "%s%s", i ? "," : "", viol[i].c_str());
        fprintf(f, "],\"internal\":%d,\"internal_msg\":\"%s\",\"hashes\":[", internal, esc(internal_msg.substr(0, 3000)).c_str());
        first = true;
        for (auto h : scheds) {
            fprintf(f, "%s%llu", first ? "" : ",", u(h));
            first = false;
        }
        fprintf(f, "],\"traces\":[");
        first = true;
        for (auto h : hashes) {
            fprintf(f, "%s%llu", first ? "" : ",", u(h));
            first = false;
        }
        fprintf(f, "]}\n");
        fclose(f);
        return internal ? 9 : nviol ? 3 : 0;
    }
    if (cmd == "replay" || cmd == "minimise") {
        Replay r;
        if (!load(o["--file"].c_str(), r)) {
            fprintf(stderr, "cannot read %s\n", o["--file"].c_str());
            return 9;
        }
        auto it = workloads->find(r.workload.empty() ? r.prop : r.workload);
        if (it == workloads->end()) return 9;
        if (cmd == "minimise") {
            // classes are compared within this process' symbolisation mode
            to_plan(r, false);
            Result base = run_once(it->second);
            if (base.status != 2) {
                printf("NOT-REPRODUCED status=%d %s\n", base.status, base.cls.c_str());
                return 9;
            }
            r.cls = base.cls;
            int tried = minimise(r, num("--budget", 30), it->second);
            to_plan(r, true);
            Result res = run_once(it->second);
            save(o["--out"].c_str(), r, &res, shm->desc, shm->trace);
            printf("{\"tried\":%d,\"cls\":\"%s\",\"W\":%zu,\"S\":%zu,\"F\":%zu}\n", tried, esc(res.cls).c_str(), r.v[0].size(), r.v[1].size(), r.v[2].size());
            return res.status == 2 ? 3 : 9;
        }
        bool trace = o.count("--trace");
        to_plan(r, trace);
        Result res = run_once(it->second);
        printf("{\"status\":%d,\"cls\":\"%s\",\"hash\":\"%llu\",\"steps\":%llu,\"desc\":\"%s\",\"msg\":\"%s\"}\n", res.status, esc(res.cls).c_str(),
               static_cast<unsigned long long>(shm->hash), static_cast<unsigned long long>(shm->steps), esc(shm->desc).c_str(), esc(res.msg.substr(0, 6000)).c_str());
        if (trace) {
            printf("%s", shm->trace);
            std::string e = read_err();
            printf("---- stderr\n%s", e.c_str());
        }
        return res.status == 1 ? 0 : res.status == 2 ? 3 : 9;
    }
    if (cmd == "seed") {  // one generated run, by its own seed
        auto it = workloads->find(o["--workload"]);
        if (it == workloads->end()) return 9;
        plan.replay = false;
        plan.seed = strtoull(o["--seed"].c_str(), nullptr, 10);
        plan.trace = o.count("--trace");
        Result res = run_once(it->second);
        printf("{\"status\":%d,\"cls\":\"%s\",\"hash\":\"%llu\",\"steps\":%llu,\"desc\":\"%s\",\"msg\":\"%s\"}\n", res.status, esc(res.cls).c_str(),
               static_cast<unsigned long long>(shm->hash), static_cast<unsigned long long>(shm->steps), esc(shm->desc).c_str(), esc(res.msg.substr(0, 6000)).c_str());
        if (plan.trace) {
            printf("%s", shm->trace);
            printf("---- stderr\n%s", read_err().c_str());
        }
        return res.status == 1 ? 0 : res.status == 2 ? 3 : 9;
    }
    return usage();
}
