// Deterministic simulator runtime: public interface used by the workloads.
#pragma once
#include <cstddef>
#include <cstdint>
#include <functional>
#include <map>
#include <memory>
#include <string>
#include <vector>

namespace sim {

// ---------------------------------------------------------------- choices
enum Stream : int { W = 0, S = 1, F = 2, P = 3 };  // workload, schedule, fault, access pre-emption

// Returns a value in [0, n). 0 is always the "simplest" value. Every call
// consumes one index of the stream; replay is by index.
std::uint32_t choose(Stream s, std::uint32_t n);
// As choose, but in generation mode 0 is returned except with probability p.
std::uint32_t choose_rare(Stream s, std::uint32_t n, double p);

// Workload helpers (stream W).
inline std::uint32_t w(std::uint32_t n) { return n <= 1 ? 0 : choose(W, n); }
inline std::int64_t wrange(std::int64_t lo, std::int64_t hi)
{
    return lo + static_cast<std::int64_t>(w(static_cast<std::uint32_t>(hi - lo + 1)));
}
inline bool wflip() { return w(2) == 1; }
// True in one of n cases (0 = false is the simplest).
inline bool wone_in(std::uint32_t n) { return w(n) == n - 1; }
template <class T>
const T &wpick(const std::vector<T> &v) { return v[w(static_cast<std::uint32_t>(v.size()))]; }

// ---------------------------------------------------------------- faults
enum Fault_kind : int {
    f_short_read,     // read() returns less than asked (legal)
    f_read_eio,       // read() fails with EIO
    f_read_eintr,     // read() fails with EINTR
    f_open_fail,      // open() fails (EMFILE/EACCES/ENOENT/EINTR)
    f_fstat_fail,     // fstat() fails
    f_lseek_fail,     // lseek() fails
    f_mmap_fail,      // mmap() fails with ENOMEM
    f_mremap_fail,    // mremap() fails with ENOMEM
    f_mkstemp_fail,   // mkstemp() fails
    f_ftruncate_fail, // ftruncate() fails with ENOSPC
    f_thread_fail,    // pthread_create() fails with EAGAIN
    f_spurious_wake,  // a condition wait returns without a signal (legal)
    f_alloc_fail,     // memory allocator seam fails
    f_new_fail,       // operator new fails
    f_fts_fail,       // directory traversal reports an error
    f_iconv_fail,     // iconv_open fails
    f_select_fail,    // select() fails with EINTR
    f_writer_delay,   // pipe writer stalls
    f_truncate,       // stored bytes truncated
    f_corrupt,        // stored byte(s) corrupted
    f_shrink,         // file shrinks while it is read
    f_stream_fail,    // a caller-supplied stream throws
    f_stream_short,   // a caller-supplied stream reads short (legal)
    f_s3_fail,        // a request to the S3 service fails
    f_s3_delay,       // a request to the S3 service takes time (legal)
    f_count
};
extern const char *const fault_names[f_count];

// Probability per opportunity and budget; 0 switches the kind off.
struct Fault_cfg {
    double p[f_count]{};
    int budget[f_count]{};
    bool armed = true;
};
extern Fault_cfg faults;
extern std::size_t new_fail_min;  // f_new_fail applies to allocations of at least this size, inside an Op_scope or on other threads
// Records a fault that the workload injected itself.
void fault_injected(Fault_kind k);
// The fault that just fired turned out not to apply.
void fault_taken_back(Fault_kind k);
// Asks whether the fault fires now: 0 = no, otherwise 1..n-1 selects a flavour.
std::uint32_t fault(Fault_kind k, std::uint32_t n = 2);
std::uint64_t fault_fired(Fault_kind k);
std::uint64_t hard_faults_fired();  // everything that may legitimately cause an error

// ---------------------------------------------------------------- results
[[noreturn]] void violation(const char *cls, const char *fmt, ...)
    __attribute__((format(printf, 2, 3)));
void probe(const char *name);           // "this rare condition was hit"
void note(const char *fmt, ...) __attribute__((format(printf, 1, 2)));  // trace line
bool tracing();
void event(std::uint64_t h);            // mixes into the event hash
void describe(const char *fmt, ...) __attribute__((format(printf, 1, 2)));  // scenario text

#define SIM_CHECK(cond, cls, ...) \
    do {                          \
        if (!(cond)) ::sim::violation(cls, __VA_ARGS__); \
    } while (0)

// ---------------------------------------------------------------- scheduler
extern bool report_races;  // race build: report data races (otherwise only pre-empt at accesses)
void yield_point(const char *what);
std::uint64_t now_us();
void sleep_us(std::uint64_t us);
std::uint64_t steps();
int hw_threads();        // simulated hardware concurrency
void set_hw_threads(int n);
void set_knob(const std::string &name, std::size_t v);  // MLIO_SIM_KNOB of the code under test
int live_threads();      // started by code under test and not yet joined (workers excluded)
void at(std::uint64_t delay_us, std::function<void()> fn);  // external actor event
// Runs fn on the given number of extra simulated threads.
class Thread {
public:
    explicit Thread(std::function<void()> fn);
    void join();
    ~Thread();
private:
    std::shared_ptr<struct Thread_state> st_;
};
void wait_quiescent();   // runs the other threads until nothing is runnable
void set_step_limit(std::uint64_t extra);
extern int phase_tag;    // what the main thread is doing (for hang classes)
struct Op_scope {        // names the operation in progress for hang reports
    explicit Op_scope(const char *n);
    ~Op_scope();
    const char *prev_;
};

// ---------------------------------------------------------------- file system
namespace fs {
void add_file(const std::string &path, std::vector<std::uint8_t> data);
void add_file(const std::string &path, const std::string &data);
void add_dir(const std::string &path);
void add_link(const std::string &path, const std::string &target);
std::vector<std::uint8_t> *file_data(const std::string &path);
void remove(const std::string &path);
struct Fifo_op {
    enum Kind { open, write, close } kind;
    std::uint64_t delay_us;
    std::string data;
};
void add_fifo(const std::string &path, std::vector<Fifo_op> script);
// Creates the FIFO only after the delay.
void add_fifo_later(const std::string &path, std::uint64_t delay_us, std::vector<Fifo_op> script);
int open_fds();
int live_mappings();
std::size_t live_mapping_bytes();
int temp_files_visible();
int open_fts();
std::string describe_open();
std::uint64_t bytes_read(const std::string &path);  // via read()
std::uint64_t opens(const std::string &path);
// per-path error: open of this path fails with this errno
void set_open_error(const std::string &path, int err);
// per-path permanent read error from this offset on
void set_read_error(const std::string &path, std::uint64_t off, int err);
void set_dir_error(const std::string &path, int fts_kind, int err);
extern std::uint64_t sysinfo_ram;
}  // namespace fs

// ---------------------------------------------------------------- S3 service
namespace s3 {
struct Client { std::string id, secret, token, profile, region; bool https = true; };
void make_bucket(const std::string &bucket);
void put(const std::string &bucket, const std::string &key, const std::string &data, const std::string &version = "");
void remove(const std::string &bucket, const std::string &key);
void set_error(const std::string &bucket, const std::string &key, int err);
void set_pages(const std::vector<int> &sizes);                // keys per page of a listing, in turn
void set_delays(const std::vector<std::uint64_t> &us);        // latency of the requests, in turn
std::uint64_t requests();
int last_error();             // the S3Errors value injected last
const Client &last_client();  // what the last client was made with
int clients();                // live clients
}

// ---------------------------------------------------------------- heap accounting
namespace heap {
void start();                 // start tracking operator new
std::size_t live();           // live tracked blocks
std::size_t live_bytes();
std::size_t peak_bytes();
void dump(std::string &out, std::size_t max);
void pause();
void resume();
}

// ---------------------------------------------------------------- workloads
struct Workload {
    const char *name;
    void (*run)();
};
void register_workload(const char *name, void (*run)());
#define SIM_WORKLOAD(ID, FN) \
    static struct Reg_##FN { Reg_##FN() { ::sim::register_workload(ID, FN); } } reg_##FN

// Called by library threads of the simulator.
namespace detail {
extern bool active;
}

}  // namespace sim
