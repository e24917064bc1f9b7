// C15: memory blocks keep their bytes.
#include "work/faulty.h"
#include "mlio/memory/external_memory_block.h"
#include "mlio/memory/file_backed_memory_block.h"
#include "mlio/memory/file_mapped_memory_block.h"
#include "mlio/memory/heap_memory_block.h"
#include "mlio/memory/memory_slice.h"
#include "mlio/memory/util.h"
#include <new>
#include <system_error>
using namespace mlio;
using namespace wk;
namespace {
using Bytes = std::vector<std::uint8_t>;
struct B {
    Intrusive_ptr<Mutable_memory_block> p;
    Bytes model;
    std::vector<bool> known;  // the bytes a growth adds are not specified
};
struct Sl {
    Memory_slice s;
    Bytes model;
    std::vector<bool> known;
};
std::size_t some_size()
{
    static const std::vector<std::size_t> edge{0, 1, 15, 16, 17, 63, 64, 65, 511, 512, 513, 4095, 4096, 4097, 8192, 12289};
    return sim::wflip() ? sim::wpick(edge) : static_cast<std::size_t>(sim::w(sim::wflip() ? 9000 : 100));
}
template <class I>
void verify(const char *what, I data, std::size_t n, const Bytes &m, const std::vector<bool> &known)
{
    SIM_CHECK(n == m.size(), "wrong-size", "%s: %zu bytes, expected %zu", what, n, m.size());
    auto *d = reinterpret_cast<const std::uint8_t *>(data);
    for (std::size_t i = 0; i < n; ++i)
        if (known[i]) SIM_CHECK(d[i] == m[i], "wrong-bytes", "%s: byte %zu of %zu is %u, expected %u", what, i, n, d[i], m[i]);
}
void verify(const char *what, const B &b)
{
    if (b.p == nullptr) return;
    SIM_CHECK((b.p->data() == nullptr) == b.model.empty() || b.model.empty(), "wrong-size", "%s: no data", what);
    SIM_CHECK(b.p->size() == b.model.size() && static_cast<std::size_t>(b.p->end() - b.p->begin()) == b.model.size(), "wrong-size", "%s: %zu bytes, expected %zu", what, b.p->size(), b.model.size());
    verify(what, b.p->data(), b.p->size(), b.model, b.known);
}
bool try_(const char *what, const std::function<void()> &f)
{
    std::uint64_t h = sim::hard_faults_fired();
    try {
        sim::Op_scope o{what};
        f();
        sim::event(what[0]);
        return true;
    }
    catch (const std::bad_alloc &) {}
    catch (const std::system_error &) {}
    SIM_CHECK(sim::hard_faults_fired() > h, "unexpected-error", "%s failed without a fault", what);
    sim::probe("an operation failed");
    return false;
}
void fill(B &b)
{
    if (b.model.empty()) return;
    std::size_t lo = sim::w(static_cast<std::uint32_t>(b.model.size())), n = 1 + sim::w(static_cast<std::uint32_t>(b.model.size() - lo));
    if (sim::wflip()) lo = 0, n = b.model.size();
    std::uint8_t k = static_cast<std::uint8_t>(1 + sim::w(250));
    auto *d = reinterpret_cast<std::uint8_t *>(b.p->data());
    for (std::size_t i = lo; i < lo + n; ++i) {
        b.model[i] = static_cast<std::uint8_t>(k + i * 7 + (i >> 8) * 3);
        d[i] = b.model[i];
        b.known[i] = true;
    }
}
struct Counted final : Memory_block {
    Counted(int *n, Bytes b) : n_{n}, b_{std::move(b)} {}
    ~Counted() override { ++*n_; }
    const_pointer data() const noexcept final { return reinterpret_cast<const_pointer>(b_.data()); }
    size_type size() const noexcept final { return b_.size(); }
    int *n_;
    Bytes b_;
};
struct Fixed final : Mutable_memory_block {  // cannot be resized
    void resize(size_type) final { throw std::logic_error{"not resizable"}; }
    bool resizable() const noexcept final { return false; }
    explicit Fixed(std::size_t n) : b_(n) {}
    pointer data() noexcept final { return reinterpret_cast<pointer>(b_.data()); }
    const_pointer data() const noexcept final { return reinterpret_cast<const_pointer>(b_.data()); }
    size_type size() const noexcept final { return b_.size(); }
    Bytes b_;
};
}  // namespace

static void run()
{
    sim::report_races = true;
    std::vector<std::unique_ptr<Memory_allocator>> allocs;
    std::size_t th = std::vector<std::size_t>{64, 1, 16, 512, 4096, 8192}[sim::w(6)];
    random_allocator();
    allocs.push_back(std::make_unique<Heap_memory_allocator>());
    allocs.push_back(std::make_unique<File_backed_memory_allocator>(th));
    if (sim::wone_in(3)) {
        sim::fs::sysinfo_ram = std::vector<std::uint64_t>{1000, 8192, 0, 4ull << 30}[sim::w(4)];
        allocs.push_back(std::make_unique<File_backed_memory_allocator>());
    }
    bool faulty = sim::wflip();
    if (faulty) random_hard_faults(false);
    sim::describe(" threshold=%zu", th);
    sim::fs::add_file("/sim/m", std::string(1 + sim::w(5000), 'm'));
    std::vector<B> v;
    std::vector<Sl> sl;
    int created = 0, destroyed = 0;
    auto slice_of = [&](Memory_slice whole, const Bytes &m, const std::vector<bool> &known) {
        std::size_t lo = sim::w(static_cast<std::uint32_t>(m.size() + 1)), hi = lo + sim::w(static_cast<std::uint32_t>(m.size() - lo + 1));
        Memory_slice s = whole;
        switch (sim::w(4)) {
        case 0: s = whole.subslice(lo, hi - lo); break;
        case 1: {
            Memory_slice t = whole.subslice(lo);
            s = std::move(t).first(hi - lo);
            break;
        }
        case 2: {
            Memory_slice t = whole.first(hi);
            s = std::move(t).last(hi - lo);
            break;
        }
        default: s = Memory_slice{whole}.subslice(whole.begin() + static_cast<std::ptrdiff_t>(lo), whole.begin() + static_cast<std::ptrdiff_t>(hi));
        }
        sl.push_back({s, Bytes(m.begin() + static_cast<std::ptrdiff_t>(lo), m.begin() + static_cast<std::ptrdiff_t>(hi)), std::vector<bool>(known.begin() + static_cast<std::ptrdiff_t>(lo), known.begin() + static_cast<std::ptrdiff_t>(hi))});
        // outside the slice
        std::size_t n = s.size();
        for (int k = 0; k < 3; ++k) {
            bool threw = false;
            try {
                if (k == 0) (void)s.subslice(n + 1);
                else if (k == 1) (void)s.first(n + 1);
                else (void)s.last(n + 1);
            }
            catch (const std::invalid_argument &) {
                threw = true;
            }
            if (s.data() != nullptr) SIM_CHECK(threw, "range-not-checked", "a slice of %zu bytes can be widened (%d)", n, k);
        }
        SIM_CHECK(s.size() == n && s.empty() == (n == 0), "wrong-size", "slice changed");
    };
    std::uint32_t ops = 3 + sim::w(25);
    for (std::uint32_t op = 0; op < ops; ++op) {
        std::uint32_t k = sim::w(12);
        if (v.empty()) k = 0;
        std::size_t i = v.empty() ? 0 : sim::w(static_cast<std::uint32_t>(v.size()));
        sim::event(0x15000000u + k * 64 + i);
        switch (k) {
        case 0:
        case 1: {  // a new block
            std::size_t n = some_size();
            B b;
            std::uint32_t kind = sim::w(static_cast<std::uint32_t>(allocs.size() + 3));
            int fd0 = sim::fs::open_fds(), map0 = sim::fs::live_mappings();
            bool ok = try_("allocate", [&] {
                if (kind < allocs.size()) b.p = allocs[kind]->allocate(n);
                else if (kind == allocs.size()) b.p = make_intrusive<Heap_memory_block>(n);
                else if (kind == allocs.size() + 1) b.p = make_intrusive<File_backed_memory_block>(n);
                else b.p = make_intrusive<Fixed>(n);
            });
            if (!ok) {
                SIM_CHECK(sim::fs::open_fds() == fd0 && sim::fs::live_mappings() == map0, "leak", "after a failed allocation:%s", sim::fs::describe_open().c_str());
                break;
            }
            SIM_CHECK(b.p->size() >= n, "too-small", "asked for %zu bytes, got %zu", n, b.p->size());
            SIM_CHECK(b.p->size() == n, "wrong-size", "asked for %zu bytes, got %zu", n, b.p->size());
            b.model.resize(n);
            b.known.resize(n);
            fill(b);
            v.push_back(std::move(b));
            break;
        }
        case 2:
        case 3: fill(v[i]); break;
        case 4: v.erase(v.begin() + static_cast<std::ptrdiff_t>(i)); break;
        case 5: {  // drops a slice somewhere
            if (sl.empty()) break;
            std::size_t j = sim::w(static_cast<std::uint32_t>(sl.size()));
            sl.erase(sl.begin() + static_cast<std::ptrdiff_t>(j));
            break;
        }
        case 6: {  // no resizing after this: the slice would dangle
            if (v[i].p == nullptr) break;
            B b = std::move(v[i]);
            v.erase(v.begin() + static_cast<std::ptrdiff_t>(i));
            std::uint32_t n = 1 + sim::w(3);
            for (std::uint32_t q = 0; q < n; ++q) slice_of(Memory_slice{b.p}, b.model, b.known);
            break;
        }
        case 7: {  // a block that is not the library's
            Bytes m(1 + some_size());
            for (std::size_t q = 0; q < m.size(); ++q) m[q] = static_cast<std::uint8_t>(q * 11);
            ++created;
            auto p = make_intrusive<Counted>(&destroyed, m);
            slice_of(Memory_slice{p}, m, std::vector<bool>(m.size(), true));
            break;
        }
        case 8: {  // a mapped file
            Intrusive_ptr<File_mapped_memory_block> p;
            int map0 = sim::fs::live_mappings(), fd0 = sim::fs::open_fds();
            if (!try_("map", [&] { p = make_intrusive<File_mapped_memory_block>("/sim/m"); })) {
                SIM_CHECK(sim::fs::live_mappings() == map0 && sim::fs::open_fds() == fd0, "leak", "after a failed mapping:%s", sim::fs::describe_open().c_str());
                break;
            }
            SIM_CHECK(sim::fs::open_fds() == fd0, "leak", "after a mapping:%s", sim::fs::describe_open().c_str());
            auto *d = sim::fs::file_data("/sim/m");
            slice_of(Memory_slice{p}, *d, std::vector<bool>(d->size(), true));
            break;
        }
        default: {
            B &b = v[i];
            std::size_t n = some_size();
            if (sim::wone_in(4)) n = b.model.size() + sim::w(3) - (b.model.empty() ? 0 : 1);
            bool ok, direct = b.p->resizable() && sim::wflip();
            if (direct) ok = try_("resize", [&] { b.p->resize(n); });
            else ok = try_("resize_memory_block", [&] {
                Intrusive_ptr<Mutable_memory_block> q = resize_memory_block(b.p, n);
                b.p = std::move(q);
            });
            if (ok) {
                SIM_CHECK(b.p->size() >= n, "too-small", "resized to %zu bytes, got %zu", n, b.p->size());
                std::size_t old = b.model.size();
                b.model.resize(n);
                b.known.resize(n, false);
                if (n > old) sim::probe("grown");
                else if (n < old) sim::probe("shrunk");
            }
            SIM_CHECK(b.p != nullptr, "lost", "the block is gone after a failed resize");
            verify(ok ? "after a resize" : "after a failed resize", b);
        }
        }
        if (sim::wone_in(3)) {
            for (auto &b : v) verify("later", b);
            for (auto &s : sl) verify("slice", s.s.data(), s.s.size(), s.model, s.known);
        }
        SIM_CHECK(sim::fs::temp_files_visible() == 0, "temp-file", "visible:%s", sim::fs::describe_open().c_str());
        SIM_CHECK(sim::fs::open_fds() <= static_cast<int>(v.size() + sl.size()), "leak", "%d descriptors for %zu blocks:%s", sim::fs::open_fds(), v.size() + sl.size(), sim::fs::describe_open().c_str());
        SIM_CHECK(sim::fs::live_mappings() <= static_cast<int>(v.size() + sl.size()), "leak", "%d mappings for %zu blocks:%s", sim::fs::live_mappings(), v.size() + sl.size(), sim::fs::describe_open().c_str());
    }
    // After the faults everything works again.
    sim::faults.armed = false;
    for (auto &b : v) {
        verify("at the end", b);
        std::size_t n = some_size();
        try_("resize", [&] {
            Intrusive_ptr<Mutable_memory_block> q = resize_memory_block(b.p, n);
            b.p = std::move(q);
        });
        b.model.resize(n);
        b.known.resize(n, false);
        verify("after the faults", b);
        fill(b);
        verify("after the faults", b);
    }
    // The rest is looked at and dropped by several threads.
    std::vector<std::unique_ptr<sim::Thread>> ts;
    std::uint32_t nt = sim::w(3);
    for (auto &b : v) sl.push_back({Memory_slice{b.p}, b.model, b.known});
    v.clear();
    for (std::uint32_t t = 0; t < nt; ++t)
        ts.push_back(std::make_unique<sim::Thread>([mine = sl]() mutable {
            while (!mine.empty()) {
                verify("slice on a thread", mine.back().s.data(), mine.back().s.size(), mine.back().model, mine.back().known);
                mine.pop_back();
            }
        }));
    while (!sl.empty()) {
        verify("slice", sl.back().s.data(), sl.back().s.size(), sl.back().model, sl.back().known);
        sl.pop_back();
    }
    for (auto &t : ts) t->join();
    ts.clear();
    SIM_CHECK(destroyed == created, "leak", "%d of %d caller's blocks destroyed", destroyed, created);
    SIM_CHECK(sim::fs::open_fds() == 0 && sim::fs::live_mappings() == 0 && sim::fs::temp_files_visible() == 0, "leak", "at the end:%s", sim::fs::describe_open().c_str());
}
SIM_WORKLOAD("C15", run);
