// Simulated file system, FIFOs, mappings and directory traversal.
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <fts.h>
#include <iconv.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/select.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/sysinfo.h>
#include <unistd.h>

#include <algorithm>
#include <deque>

#include "internal.h"

extern "C" {
__attribute__((weak)) void __asan_poison_memory_region(void const volatile *addr, size_t size);
__attribute__((weak)) void __asan_unpoison_memory_region(void const volatile *addr, size_t size);
}

namespace sim {
namespace fs {

enum class Kind { reg, dir, fifo, link };
struct Node {
    Kind kind = Kind::reg;
    std::string path;
    std::vector<std::uint8_t> data;
    bool linked = true;
    bool temp = false;
    int open_err = 0;
    std::uint64_t err_off = ~0ull;
    int err_no = 0;
    std::string target;         // of a symbolic link
    int dir_kind = 0;
    int dir_err = 0;
    std::uint64_t bytes_read = 0, opens = 0;
    // fifo
    std::deque<std::uint8_t> pipe;
    int readers = 0;
    bool writer = false;
    std::uint64_t wcount = 0;   // how many times a writer opened
    std::vector<Fifo_op> script;
    std::size_t script_pos = 0;
    std::size_t write_off = 0;
    bool actor_waiting = false;
    bool actor_running = false;
};
using Node_p = std::shared_ptr<Node>;

struct Fd {
    Node_p node;
    off_t pos = 0;
    int flags = 0;
    bool open = false;
    std::uint64_t wcount_at_open = 0;
};
struct Mapping {
    Node_p node;
    std::uint8_t *addr;
    std::size_t len;
    bool shared;
    bool live;
};

namespace {
constexpr int fd_base = 600, fd_max = 1020;
std::map<std::string, Node_p> *nodes;
std::vector<Fd> *fds;
std::vector<Mapping> *maps;
std::uintptr_t const va_base = 0x200000000000ull;
std::uintptr_t const va_end = 0x280000000000ull;
std::uintptr_t va_next = va_base;
int temp_seq;
int live_fts;
constexpr std::size_t pipe_cap = 65536;
constexpr std::size_t page = 4096;

void init()
{
    if (nodes == nullptr) {
        nodes = new std::map<std::string, Node_p>;
        fds = new std::vector<Fd>;
        maps = new std::vector<Mapping>;
    }
}
bool any_link;
Node_p find(const std::string &path)
{
    init();
    auto it = nodes->find(path);
    if (it != nodes->end() && it->second->kind != Kind::link) return it->second;
    if (!any_link) return nullptr;
    std::string p = path;
    for (int depth = 0; depth < 16; ++depth) {
        bool again = false;
        for (std::size_t e = p.find('/', 1); !again; e = p.find('/', e + 1)) {
            auto i = nodes->find(p.substr(0, e));
            if (i != nodes->end() && i->second->kind == Kind::link) {
                p = i->second->target + (e == std::string::npos ? "" : p.substr(e));
                again = true;
            }
            if (e == std::string::npos) break;
        }
        if (!again) {
            auto i = nodes->find(p);
            return i == nodes->end() ? nullptr : i->second;
        }
    }
    return nullptr;
}
bool sim_path(const char *p) { return p != nullptr && strncmp(p, "/sim/", 5) == 0; }
bool sim_fd(int fd) { return fd >= fd_base && fd < fd_max + 4; }

Fd *get(int fd, const char *op)
{
    init();
    auto i = static_cast<std::size_t>(fd - fd_base);
    if (i >= fds->size() || !(*fds)[i].open) {
        violation("fd:use-after-close", "%s on descriptor %d which is not open", op, fd);
    }
    return &(*fds)[i];
}
int new_fd(Node_p n, int flags)
{
    init();
    Fd f;
    f.node = std::move(n);
    f.flags = flags;
    f.open = true;
    f.wcount_at_open = f.node->wcount;
    if (fds->size() < static_cast<std::size_t>(fd_max - fd_base)) {
        fds->push_back(f);
        return fd_base + static_cast<int>(fds->size()) - 1;
    }
    for (std::size_t i = 0; i < fds->size(); ++i) {
        if (!(*fds)[i].open) {
            (*fds)[i] = f;
            return fd_base + static_cast<int>(i);
        }
    }
    errno = EMFILE;
    return -1;
}

void run_actor(const Node_p &n);
void wake_readers(Node *n) { wake_all(n); }

void schedule_actor(const Node_p &n)
{
    if (n->script_pos >= n->script.size()) return;
    n->actor_running = true;
    std::uint64_t d = n->script[n->script_pos].delay_us;
    std::uint32_t v = fault(f_writer_delay, 8);
    if (v != 0) d += 500000ull * v;
    at(d, [n] { run_actor(n); });
}

void run_actor(const Node_p &n)
{
    if (n->script_pos >= n->script.size()) return;
    Fifo_op &op = n->script[n->script_pos];
    switch (op.kind) {
    case Fifo_op::open:
        // A blocking open for writing completes once there is a reader.
        if (n->readers == 0) {
            n->actor_waiting = true;
            return;
        }
        n->writer = true;
        ++n->wcount;
        if (tracing()) note("WRITER open %s", n->path.c_str());
        wake_readers(n.get());
        break;
    case Fifo_op::write: {
        if (n->readers == 0 || !n->writer) {  // EPIPE: the writer gives up
            n->script_pos = n->script.size();
            n->writer = false;
            return;
        }
        std::size_t room = pipe_cap - n->pipe.size();
        std::size_t k = std::min(room, op.data.size() - n->write_off);
        n->pipe.insert(n->pipe.end(), op.data.begin() + static_cast<long>(n->write_off),
                       op.data.begin() + static_cast<long>(n->write_off + k));
        n->write_off += k;
        if (tracing()) note("WRITER write %s %zu bytes", n->path.c_str(), k);
        if (k != 0) wake_readers(n.get());
        if (n->write_off < op.data.size()) {
            n->actor_waiting = true;  // pipe full
            return;
        }
        n->write_off = 0;
        break;
    }
    case Fifo_op::close:
        n->writer = false;
        if (tracing()) note("WRITER close %s", n->path.c_str());
        wake_readers(n.get());
        break;
    }
    ++n->script_pos;
    n->actor_running = false;
    schedule_actor(n);
}
void kick_actor(const Node_p &n)
{
    if (n->actor_waiting) {
        n->actor_waiting = false;
        at(1, [n] { run_actor(n); });
    }
}

void release_fifo_reader(Node *n)
{
    if (--n->readers == 0) {
        n->pipe.clear();
    }
}

Mapping *find_map(const void *p)
{
    init();
    auto a = reinterpret_cast<std::uintptr_t>(p);
    if (a < va_base || a >= va_end) return nullptr;
    for (auto &m : *maps)
        if (reinterpret_cast<std::uintptr_t>(m.addr) == a) return &m;
    return nullptr;
}
bool in_va(const void *p)
{
    auto a = reinterpret_cast<std::uintptr_t>(p);
    return a >= va_base && a < va_end;
}

void bound_by_file(Mapping &m);
std::uint8_t *map_new(const Node_p &n, std::size_t len, bool shared, bool writable)
{
    std::size_t total = (len + page - 1) / page * page;
    std::uintptr_t a = va_next + page;
    va_next = a + total + page;
    void *r = reinterpret_cast<void *>(syscall(SYS_mmap, a, total, PROT_READ | PROT_WRITE,
                                               MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED, -1, 0));
    if (r == MAP_FAILED) {
        fprintf(stderr, "SIM-INTERNAL: mmap\n");
        _exit(7);
    }
    auto *p = static_cast<std::uint8_t *>(r);
    if (__asan_unpoison_memory_region) __asan_unpoison_memory_region(p, total);
    std::size_t k = std::min(len, n->data.size());
    if (k != 0) memcpy(p, n->data.data(), k);
    if (!writable) syscall(SYS_mprotect, p, total, PROT_READ);
    if (total > len && __asan_poison_memory_region) __asan_poison_memory_region(p + len, total - len);
    maps->push_back({n, p, len, shared, true});
    bound_by_file(maps->back());
    return p;
}
// Pages that lie wholly behind the end of the file cannot be touched.
void bound_by_file(Mapping &m)
{
    std::size_t total = (m.len + page - 1) / page * page;
    std::size_t ok = std::min(total, (m.node->data.size() + page - 1) / page * page);
    if (__asan_poison_memory_region && __asan_unpoison_memory_region) {
        if (ok < total) __asan_poison_memory_region(m.addr + ok, total - ok);
        std::size_t use = std::min(ok, m.len);
        __asan_unpoison_memory_region(m.addr, use);
    }
}
void map_kill(Mapping *m)
{
    if (m->shared) {
        std::size_t k = std::min(m->len, m->node->data.size());
        memcpy(m->node->data.data(), m->addr, k);
    }
    std::size_t total = (m->len + page - 1) / page * page;
    m->live = false;
    m->node.reset();
    syscall(SYS_munmap, m->addr, total);
    // never reused: a later access faults
}
}  // namespace

std::uint64_t sysinfo_ram = 4096ull << 20;

void add_dir(const std::string &path)
{
    Quiet quiet;
    init();
    auto n = std::make_shared<Node>();
    n->kind = Kind::dir;
    n->path = path;
    (*nodes)[path] = n;
}
void add_link(const std::string &path, const std::string &target)
{
    Quiet quiet;
    init();
    auto n = std::make_shared<Node>();
    n->kind = Kind::link;
    n->path = path;
    n->target = target;
    (*nodes)[path] = n;
    any_link = true;
}
void add_file(const std::string &path, std::vector<std::uint8_t> data)
{
    Quiet quiet;
    init();
    auto n = std::make_shared<Node>();
    n->path = path;
    n->data = data;
    (*nodes)[path] = n;
}
void add_file(const std::string &path, const std::string &data)
{
    Quiet quiet;
    add_file(path, std::vector<std::uint8_t>(data.begin(), data.end()));
}
std::vector<std::uint8_t> *file_data(const std::string &path)
{
    auto n = find(path);
    return n ? &n->data : nullptr;
}
void remove(const std::string &path)
{
    Quiet quiet;
    init();
    nodes->erase(path);
}
void add_fifo(const std::string &path, std::vector<Fifo_op> script)
{
    Quiet quiet;
    init();
    auto n = std::make_shared<Node>();
    n->kind = Kind::fifo;
    n->path = path;
    n->script = script;
    (*nodes)[path] = n;
    schedule_actor(n);
}
void add_fifo_later(const std::string &path, std::uint64_t d, std::vector<Fifo_op> script)
{
    Quiet quiet;
    at(d, [path, script] {
        if (tracing()) note("FIFO %s appears", path.c_str());
        add_fifo(path, script);
    });
}
int open_fds()
{
    init();
    int n = 0;
    for (auto &f : *fds)
        if (f.open) ++n;
    return n;
}
int live_mappings()
{
    init();
    int n = 0;
    for (auto &m : *maps)
        if (m.live) ++n;
    return n;
}
std::size_t live_mapping_bytes()
{
    init();
    std::size_t n = 0;
    for (auto &m : *maps)
        if (m.live) n += m.len;
    return n;
}
int temp_files_visible()
{
    init();
    int n = 0;
    for (auto &p : *nodes)
        if (p.second->temp && p.second->linked) ++n;
    return n;
}
int open_fts() { return live_fts; }
std::string describe_open()
{
    std::string s;
    init();
    for (std::size_t i = 0; i < fds->size(); ++i)
        if ((*fds)[i].open) s += " fd" + std::to_string(fd_base + static_cast<int>(i)) + "=" + (*fds)[i].node->path;
    for (auto &m : *maps)
        if (m.live) s += " map:" + m.node->path + ":" + std::to_string(m.len);
    for (auto &p : *nodes)
        if (p.second->temp && p.second->linked) s += " temp:" + p.first;
    return s;
}
std::uint64_t bytes_read(const std::string &path)
{
    auto n = find(path);
    return n ? n->bytes_read : 0;
}
std::uint64_t opens(const std::string &path)
{
    auto n = find(path);
    return n ? n->opens : 0;
}
void set_open_error(const std::string &path, int err)
{
    auto n = find(path);
    if (n) n->open_err = err;
}
void set_read_error(const std::string &path, std::uint64_t off, int err)
{
    auto n = find(path);
    if (n) {
        n->err_off = off;
        n->err_no = err;
    }
}
void set_dir_error(const std::string &path, int k, int err)
{
    auto n = find(path);
    if (n) {
        n->dir_kind = k;
        n->dir_err = err;
    }
}

// ---------------------------------------------------------------- fts
struct Sim_fts {
    std::uint64_t magic = 0x51f75f75;
    int (*cmp)(const FTSENT **, const FTSENT **);
    int opts = 0;
    struct Level {
        std::vector<FTSENT *> ents;
        std::size_t pos = 0;
    };
    std::vector<Level> stack;
    std::vector<FTSENT *> all;
    std::map<FTSENT *, Node_p> node;    // directories
    std::vector<Node_p> above;          // the directories being traversed
    FTSENT *pending_dir = nullptr;
    bool dead = false;
};

namespace {
FTSENT *make_ent(Sim_fts *f, const std::string &path, const std::string &name, int level)
{
    auto *e = static_cast<FTSENT *>(calloc(1, sizeof(FTSENT) + name.size() + 1));
    f->all.push_back(e);
    memcpy(e->fts_name, name.c_str(), name.size() + 1);
    e->fts_namelen = static_cast<unsigned short>(name.size());
    e->fts_path = strdup(path.c_str());
    e->fts_accpath = e->fts_path;
    e->fts_pathlen = static_cast<unsigned short>(path.size());
    e->fts_level = static_cast<short>(level);
    e->fts_statp = static_cast<struct stat *>(calloc(1, sizeof(struct stat)));
    Node_p n = find(path);
    std::uint32_t fv;
    auto link = nodes->find(path);
    if ((f->opts & FTS_NOCHDIR) == 0 && level > 0) e->fts_accpath = e->fts_name;
    bool follow = (f->opts & FTS_LOGICAL) != 0 || ((f->opts & FTS_COMFOLLOW) != 0 && level == 0);
    if (link != nodes->end() && link->second->kind == Kind::link && !follow) {
        e->fts_info = FTS_SL;
    }
    else if (!n && link != nodes->end()) {
        e->fts_info = FTS_SLNONE;
    }
    else if (!n) {
        e->fts_info = FTS_NS;
        e->fts_errno = ENOENT;
    }
    else if (n->kind == Kind::dir && std::find(f->above.begin(), f->above.end(), n) != f->above.end()) {
        e->fts_info = FTS_DC;
    }
    else if (n->dir_err != 0 && n->dir_kind == FTS_NS) {
        e->fts_info = FTS_NS;
        e->fts_errno = n->dir_err;
    }
    else if ((fv = fault(f_fts_fail, n->kind == Kind::dir ? 3 : 2)) == 1) {
        e->fts_info = FTS_NS;
        e->fts_errno = EACCES;
    }
    else if (n->kind == Kind::dir) {
        e->fts_info = FTS_D;
        e->fts_statp->st_mode = S_IFDIR | 0755;
        f->node[e] = n;
        if ((n->dir_err != 0 && n->dir_kind == FTS_DNR) || fv == 2) {
            e->fts_errno = n->dir_err != 0 ? n->dir_err : EACCES;
            e->fts_number = FTS_DNR;
        }
    }
    else if (n->kind == Kind::fifo) {
        e->fts_info = FTS_DEFAULT;
        e->fts_statp->st_mode = S_IFIFO | 0644;
    }
    else {
        e->fts_info = FTS_F;
        e->fts_statp->st_mode = S_IFREG | 0644;
        e->fts_statp->st_size = static_cast<off_t>(n->data.size());
        if ((f->opts & FTS_NOSTAT) != 0) {
            e->fts_info = FTS_NSOK;
            memset(e->fts_statp, 0, sizeof(struct stat));
        }
    }
    return e;
}
void sort_ents(Sim_fts *f, std::vector<FTSENT *> &v)
{
    if (f->cmp == nullptr) return;
    std::stable_sort(v.begin(), v.end(), [&](FTSENT *a, FTSENT *b) {
        const FTSENT *x = a, *y = b;
        return f->cmp(&x, &y) < 0;
    });
}
}  // namespace
}  // namespace fs
}  // namespace sim

using namespace sim;
using namespace sim::fs;

#define REALF(name, ...)                                                              \
    static auto real = reinterpret_cast<decltype(&name)>(dlsym(RTLD_NEXT, #name));     \
    (void)real

extern "C" {

static int sim_open(const char *path, int flags)
{
    Quiet quiet;
    point("open");
    Node_p n = find(path);
    if (!n || !n->linked) {
        errno = ENOENT;
        return -1;
    }
    if (n->open_err != 0) {
        errno = n->open_err;
        return -1;
    }
    std::uint32_t v = fault(f_open_fail, 5);
    if (v != 0) {
        static const int e[] = {0, EMFILE, EACCES, ENOENT, EIO};
        errno = e[v];
        return -1;
    }
    ++n->opens;
    int fd = new_fd(n, flags);
    if (fd >= 0 && n->kind == Kind::fifo) {
        ++n->readers;
        kick_actor(n);
    }
    if (tracing()) note("open %s -> %d", path, fd);
    return fd;
}

int open(const char *path, int flags, ...)
{
    va_list ap;
    va_start(ap, flags);
    mode_t m = va_arg(ap, mode_t);
    va_end(ap);
    if (on() && sim_path(path)) return sim_open(path, flags);
    REALF(open);
    return real(path, flags, m);
}
int open64(const char *path, int flags, ...)
{
    va_list ap;
    va_start(ap, flags);
    mode_t m = va_arg(ap, mode_t);
    va_end(ap);
    if (on() && sim_path(path)) return sim_open(path, flags);
    REALF(open);
    return real(path, flags, m);
}

ssize_t read(int fd, void *buf, size_t n)
{
    if (!on() || !sim_fd(fd)) {
        REALF(read);
        return real(fd, buf, n);
    }
    Quiet quiet;
    point("read", nullptr, n);
    Fd *f = get(fd, "read");
    Node *nd = f->node.get();
    if (nd->kind == Kind::dir) {
        errno = EISDIR;
        return -1;
    }
    if (fault(f_read_eintr)) {
        errno = EINTR;
        return -1;
    }
    if (fault(f_read_eio)) {
        errno = EIO;
        return -1;
    }
    if (nd->kind == Kind::fifo) {
        if (nd->pipe.empty()) {
            if (nd->writer) {
                errno = EAGAIN;
                return -1;
            }
            return 0;
        }
        std::size_t k = std::min(n, nd->pipe.size());
        if (k > 1) {
            std::uint32_t v = fault(f_short_read, 65);
            if (v != 0) k = 1 + (v - 1) % std::min<std::size_t>(k - 1, 64);
        }
        auto *p = static_cast<std::uint8_t *>(buf);
        for (std::size_t i = 0; i < k; ++i) p[i] = nd->pipe[i];
        nd->pipe.erase(nd->pipe.begin(), nd->pipe.begin() + static_cast<long>(k));
        nd->bytes_read += k;
        kick_actor(f->node);
        if (tracing()) note("read fd%d want=%zu got=%zu", fd, n, k);
        return static_cast<ssize_t>(k);
    }
    if (nd->data.size() > static_cast<std::size_t>(f->pos) && nd->data.size() > 1) {
        std::uint32_t v = fault(f_shrink, 5);
        if (v != 0) nd->data.resize(nd->data.size() * (v - 1) / 4);
    }
    if (static_cast<std::uint64_t>(f->pos) >= nd->err_off) {
        errno = nd->err_no;
        return -1;
    }
    std::size_t avail = nd->data.size() > static_cast<std::size_t>(f->pos)
                            ? nd->data.size() - static_cast<std::size_t>(f->pos)
                            : 0;
    std::size_t k = std::min(n, avail);
    if (static_cast<std::uint64_t>(f->pos) + k > nd->err_off)
        k = static_cast<std::size_t>(nd->err_off - static_cast<std::uint64_t>(f->pos));
    if (k > 1) {
        std::uint32_t v = fault(f_short_read, 257);
        if (v != 0) {
            std::size_t lim = k - 1;
            // bias to tiny and to just-short reads
            if (v < 64) k = 1 + (v - 1) % std::min<std::size_t>(lim, 8);
            else if (v < 128) k = k - (1 + (v - 64) % std::min<std::size_t>(lim, 8));
            else k = 1 + (v * 2654435761u >> 8) % lim;
        }
    }
    if (k != 0) memcpy(buf, nd->data.data() + f->pos, k);
    f->pos += static_cast<off_t>(k);
    nd->bytes_read += k;
    event(k);
    if (tracing()) note("read fd%d want=%zu got=%zu", fd, n, k);
    return static_cast<ssize_t>(k);
}

int close(int fd)
{
    if (!on() || !sim_fd(fd)) {
        REALF(close);
        return real(fd);
    }
    Quiet quiet;
    point("close", nullptr, static_cast<std::uint64_t>(fd));
    init();
    auto i = static_cast<std::size_t>(fd - 600);
    if (i >= fds->size() || !(*fds)[i].open)
        violation("fd:double-close", "close of descriptor %d which is not open", fd);
    Fd &f = (*fds)[i];
    f.open = false;
    if (f.node->kind == Kind::fifo) release_fifo_reader(f.node.get());
    if (tracing()) note("close fd%d %s", fd, f.node->path.c_str());
    f.node.reset();
    return 0;
}

static int sim_fstat(int fd, struct stat *st)
{
    Quiet quiet;
    point("fstat");
    Fd *f = get(fd, "fstat");
    std::uint32_t v = fault(f_fstat_fail);
    if (v != 0) {
        errno = EIO;
        return -1;
    }
    memset(st, 0, sizeof *st);
    st->st_mode = f->node->kind == Kind::fifo ? (S_IFIFO | 0644) : f->node->kind == Kind::dir ? (S_IFDIR | 0755) : (S_IFREG | 0644);
    st->st_size = static_cast<off_t>(f->node->data.size());
    return 0;
}
int fstat(int fd, struct stat *st) noexcept
{
    if (on() && sim_fd(fd)) return sim_fstat(fd, st);
    REALF(fstat);
    return real(fd, st);
}
int fstat64(int fd, struct stat64 *st) noexcept
{
    if (on() && sim_fd(fd)) return sim_fstat(fd, reinterpret_cast<struct stat *>(st));
    REALF(fstat64);
    return real(fd, st);
}

static off_t sim_lseek(int fd, off_t off, int wh)
{
    Quiet quiet;
    point("lseek");
    Fd *f = get(fd, "lseek");
    if (f->node->kind == Kind::fifo) {
        errno = ESPIPE;
        return -1;
    }
    if (fault(f_lseek_fail)) {
        errno = EIO;
        return -1;
    }
    off_t b = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? f->pos : static_cast<off_t>(f->node->data.size());
    if (b + off < 0) {
        errno = EINVAL;
        return -1;
    }
    f->pos = b + off;
    return f->pos;
}
off_t lseek(int fd, off_t off, int wh) noexcept
{
    if (on() && sim_fd(fd)) return sim_lseek(fd, off, wh);
    REALF(lseek);
    return real(fd, off, wh);
}
off64_t lseek64(int fd, off64_t off, int wh) noexcept
{
    if (on() && sim_fd(fd)) return sim_lseek(fd, off, wh);
    REALF(lseek64);
    return real(fd, off, wh);
}

int posix_fadvise(int fd, off_t o, off_t l, int a) noexcept
{
    if (on() && sim_fd(fd)) {
        Quiet quiet;
        point("fadvise");
        get(fd, "posix_fadvise");
        return 0;
    }
    REALF(posix_fadvise);
    return real(fd, o, l, a);
}
int posix_fadvise64(int fd, off64_t o, off64_t l, int a) noexcept
{
    if (on() && sim_fd(fd)) {
        Quiet quiet;
        point("fadvise");
        get(fd, "posix_fadvise");
        return 0;
    }
    REALF(posix_fadvise64);
    return real(fd, o, l, a);
}

int select(int nfds, fd_set *r, fd_set *w_, fd_set *e, struct timeval *tv)
{
    int sfd = -1;
    if (on() && r != nullptr) {
        for (int i = 600; i < nfds && i < FD_SETSIZE; ++i)
            if (FD_ISSET(i, r)) sfd = i;
    }
    if (sfd < 0) {
        REALF(select);
        return real(nfds, r, w_, e, tv);
    }
    Quiet quiet;
    point("select");
    Fd *f = get(sfd, "select");
    Node_p n = f->node;
    std::uint64_t dl = tv ? now_us() + static_cast<std::uint64_t>(tv->tv_sec) * 1000000u +
                                static_cast<std::uint64_t>(tv->tv_usec)
                          : ~0ull;
    for (;;) {
        if (fault(f_select_fail)) {
            if (tv) {
                std::uint64_t left = dl > now_us() ? dl - now_us() : 0;
                tv->tv_sec = static_cast<time_t>(left / 1000000u);
                tv->tv_usec = static_cast<suseconds_t>(left % 1000000u);
            }
            errno = EINTR;
            return -1;
        }
        bool ready = n->kind != Kind::fifo || !n->pipe.empty() ||
                     (!n->writer && n->wcount != f->wcount_at_open);
        if (ready) return 1;
        if (now_us() >= dl) {
            FD_ZERO(r);
            return 0;
        }
        block(n.get(), "select", dl);
        f = get(sfd, "select");
    }
}

static void *sim_mmap(size_t len, int prot, int flags, int fd)
{
    Quiet quiet;
    point("mmap", nullptr, len);
    Fd *f = get(fd, "mmap");
    if (len == 0) {
        errno = EINVAL;
        return MAP_FAILED;
    }
    std::uint32_t v = fault(f_mmap_fail, 3);
    if (v != 0) {
        errno = v == 1 ? ENOMEM : EACCES;
        return MAP_FAILED;
    }
    return map_new(f->node, len, (flags & MAP_SHARED) != 0, (prot & PROT_WRITE) != 0);
}
void *mmap(void *a, size_t len, int prot, int flags, int fd, off_t off) noexcept
{
    if (on() && sim_fd(fd)) return sim_mmap(len, prot, flags, fd);
    return reinterpret_cast<void *>(syscall(SYS_mmap, a, len, prot, flags, fd, off));
}
void *mmap64(void *a, size_t len, int prot, int flags, int fd, off64_t off) noexcept
{
    if (on() && sim_fd(fd)) return sim_mmap(len, prot, flags, fd);
    return reinterpret_cast<void *>(syscall(SYS_mmap, a, len, prot, flags, fd, off));
}
int munmap(void *a, size_t len) noexcept
{
    if (on() && in_va(a)) {
        Quiet quiet;
        point("munmap", nullptr, len);
        Mapping *m = find_map(a);
        if (m == nullptr || !m->live)
            violation("map:double-munmap", "munmap of an address that is not mapped");
        if (m->len != len)
            violation("map:bad-munmap", "munmap with length %zu of a mapping of %zu bytes", len, m->len);
        map_kill(m);
        return 0;
    }
    return static_cast<int>(syscall(SYS_munmap, a, len));
}
void *mremap(void *a, size_t old, size_t len, int flags, ...) noexcept
{
    if (on() && in_va(a)) {
        Quiet quiet;
        point("mremap", nullptr, len);
        Mapping *m = find_map(a);
        if (m == nullptr || !m->live) violation("map:bad-mremap", "mremap of an unmapped address");
        if (m->len != old)
            violation("map:bad-mremap", "mremap with old length %zu of a mapping of %zu bytes", old, m->len);
        if (fault(f_mremap_fail)) {
            errno = ENOMEM;
            return MAP_FAILED;
        }
        Node_p n = m->node;
        bool shared = m->shared;
        map_kill(m);
        return map_new(n, len, shared, true);
    }
    return reinterpret_cast<void *>(syscall(SYS_mremap, a, old, len, flags, nullptr));
}

// objcopy redirects realloc and free of the code under test here.
void *mlio_sim_realloc(void *p, size_t n)
{
    if (on() && n != 0) {
        Quiet quiet;
        if (fault(f_alloc_fail)) return nullptr;
    }
    void *q = realloc(p, n);
    if (q != nullptr || n == 0) {
        if (p != nullptr) sim::heap::del(p);
        sim::heap::add(q, n, __builtin_return_address(0));
    }
    return q;
}
void mlio_sim_free(void *p)
{
    sim::heap::del(p);
    free(p);
}

static int sim_mkstemp(char *t)
{
    Quiet quiet;
    point("mkstemp");
    std::uint32_t v = fault(f_mkstemp_fail, 4);
    if (v != 0) {
        static const int e[] = {0, EMFILE, EACCES, ENOSPC};
        errno = e[v];
        return -1;
    }
    std::size_t n = strlen(t);
    char b[16];
    snprintf(b, sizeof b, "%06d", ++temp_seq);
    memcpy(t + n - 6, b, 6);
    init();
    auto nd = std::make_shared<Node>();
    nd->path = t;
    nd->temp = true;
    (*nodes)[t] = nd;
    return new_fd(nd, O_RDWR);
}
int mkstemp(char *t)
{
    if (on()) return sim_mkstemp(t);
    REALF(mkstemp);
    return real(t);
}
int mkstemp64(char *t)
{
    if (on()) return sim_mkstemp(t);
    REALF(mkstemp);
    return real(t);
}
static int sim_ftruncate(int fd, off_t len)
{
    Quiet quiet;
    point("ftruncate", nullptr, static_cast<std::uint64_t>(len));
    Fd *f = get(fd, "ftruncate");
    bool grow = static_cast<std::size_t>(len) > f->node->data.size();
    std::uint32_t v = fault(f_ftruncate_fail, 3);
    if (v != 0) {
        errno = v == 1 && grow ? ENOSPC : EIO;
        return -1;
    }
    // live shared mappings hold the newest bytes
    for (auto &m : *maps) {
        if (m.live && m.shared && m.node == f->node) {
            std::size_t k = std::min(m.len, f->node->data.size());
            memcpy(f->node->data.data(), m.addr, k);
        }
    }
    f->node->data.resize(static_cast<std::size_t>(len));
    for (auto &m : *maps)
        if (m.live && m.node == f->node) {
            if (m.shared && static_cast<std::size_t>(len) < m.len) memset(m.addr + len, 0, m.len - static_cast<std::size_t>(len));
            bound_by_file(m);
        }
    return 0;
}
int ftruncate(int fd, off_t len) noexcept
{
    if (on() && sim_fd(fd)) return sim_ftruncate(fd, len);
    REALF(ftruncate);
    return real(fd, len);
}
int ftruncate64(int fd, off64_t len) noexcept
{
    if (on() && sim_fd(fd)) return sim_ftruncate(fd, len);
    REALF(ftruncate64);
    return real(fd, len);
}
int unlink(const char *p) noexcept
{
    if (on()) {
        Node_p n = find(p);
        if (n) {
            Quiet quiet;
            point("unlink");
            n->linked = false;
            nodes->erase(p);
            return 0;
        }
        if (sim_path(p) || strncmp(p, "/tmp/mlio-", 10) == 0) {
            errno = ENOENT;
            return -1;
        }
    }
    REALF(unlink);
    return real(p);
}
int sysinfo(struct sysinfo *i) noexcept
{
    if (on()) {
        memset(i, 0, sizeof *i);
        i->totalram = fs::sysinfo_ram;
        i->mem_unit = 1;
        return 0;
    }
    return static_cast<int>(syscall(SYS_sysinfo, i));
}

iconv_t iconv_open(const char *to, const char *from)
{
    REALF(iconv_open);
    if (on()) {
        Quiet quiet;
        point("iconv_open");
        std::uint32_t v = fault(f_iconv_fail, 4);
        if (v != 0) {
            static const int e[] = {0, EMFILE, ENOMEM, EINVAL};
            errno = e[v];
            return reinterpret_cast<iconv_t>(-1);
        }
    }
    return real(to, from);
}

// ---------------------------------------------------------------- fts
FTS *fts_open(char *const *argv, int opts, int (*cmp)(const FTSENT **, const FTSENT **))
{
    if (!on()) {
        REALF(fts_open);
        return real(argv, opts, cmp);
    }
    Quiet quiet;
    point("fts_open");
    if (argv[0] == nullptr) {
        errno = EINVAL;
        return nullptr;
    }
    for (int i = 0; argv[i] != nullptr; ++i) {
        if (*argv[i] == 0) {
            errno = ENOENT;
            return nullptr;
        }
    }
    if (fault(f_fts_fail)) {
        errno = ENOMEM;
        return nullptr;
    }
    auto *f = new Sim_fts;
    f->cmp = cmp;
    f->opts = (opts & FTS_LOGICAL) != 0 ? opts | FTS_NOCHDIR : opts;
    f->stack.emplace_back();
    for (int i = 0; argv[i] != nullptr; ++i) {
        std::string p = argv[i];
        while (p.size() > 1 && p.back() == '/') p.pop_back();
        f->stack[0].ents.push_back(make_ent(f, p, argv[i], 0));
    }
    if (f->stack[0].ents.size() > 1) sort_ents(f, f->stack[0].ents);
    ++live_fts;
    return reinterpret_cast<FTS *>(f);
}
FTSENT *fts_read(FTS *p)
{
    if (!on()) {
        REALF(fts_read);
        return real(p);
    }
    auto *f = reinterpret_cast<Sim_fts *>(p);
    Quiet quiet;
    point("fts_read");
    if (f->dead) return nullptr;
    if (fault(f_fts_fail)) {
        f->dead = true;
        errno = ENOMEM;
        return nullptr;
    }
    if (f->pending_dir != nullptr) {
        FTSENT *d = f->pending_dir;
        f->pending_dir = nullptr;
        if (d->fts_number == FTS_DNR) {
            d->fts_info = FTS_DNR;
            errno = d->fts_errno;
            return d;
        }
        Sim_fts::Level l;
        Node_p dn = f->node[d];
        f->above.push_back(dn);
        std::string base = dn->path + "/";
        std::vector<std::string> names;
        for (auto &n : *nodes) {
            if (n.first.size() > base.size() && n.first.compare(0, base.size(), base) == 0 &&
                n.first.find('/', base.size()) == std::string::npos)
                names.push_back(n.first.substr(base.size()));
        }
        // The entries are examined one after the other, in the order of the directory.
        for (std::size_t i = names.size(); i > 1; --i) std::swap(names[i - 1], names[choose(F, static_cast<std::uint32_t>(i))]);
        std::string shown = std::string{d->fts_path} + "/";
        for (auto &n : names) {
            point("fts_stat");
            l.ents.push_back(make_ent(f, shown + n, n, d->fts_level + 1));
        }
        sort_ents(f, l.ents);
        auto *post = static_cast<FTSENT *>(calloc(1, sizeof(FTSENT) + 1));
        f->all.push_back(post);
        post->fts_path = strdup(d->fts_path);
        post->fts_accpath = post->fts_path;
        post->fts_statp = static_cast<struct stat *>(calloc(1, sizeof(struct stat)));
        post->fts_info = FTS_DP;
        l.ents.push_back(post);
        f->stack.push_back(std::move(l));
    }
    while (!f->stack.empty()) {
        auto &l = f->stack.back();
        if (l.pos >= l.ents.size()) {
            f->stack.pop_back();
            if (!f->above.empty()) f->above.pop_back();
            continue;
        }
        FTSENT *e = l.ents[l.pos++];
        if (e->fts_info == FTS_D) f->pending_dir = e;
        if (e->fts_info == FTS_NS) errno = e->fts_errno;
        return e;
    }
    f->dead = true;
    errno = 0;
    return nullptr;
}
int fts_close(FTS *p)
{
    if (!on()) {
        REALF(fts_close);
        return real(p);
    }
    auto *f = reinterpret_cast<Sim_fts *>(p);
    if (f->magic != 0x51f75f75) violation("fts:double-close", "fts_close of a closed handle");
    f->magic = 0;
    for (FTSENT *e : f->all) {
        free(e->fts_path);
        free(e->fts_statp);
        free(e);
    }
    delete f;
    --live_fts;
    return 0;
}
}
