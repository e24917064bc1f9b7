// C24: tensors and their DLPack exports have the type, shape, strides and data
// of the source and live until the last of them is given up.
#include "work/faulty.h"
#include "work/records.h"
#include "mlio/cpu_array.h"
#include "mlio/detail/protobuf/recordio_protobuf.pb.h"
#include "mlio/integ/dlpack.h"
#include "mlio/tensor_visitor.h"
#include <dlpack/dlpack.h>
using namespace mlio;
using namespace wk;

namespace {
using I128 = __int128;

std::size_t width(Data_type t)
{
    switch (t) {
    case Data_type::int8:
    case Data_type::uint8: return 1;
    case Data_type::float16:
    case Data_type::int16:
    case Data_type::uint16: return 2;
    case Data_type::float32:
    case Data_type::int32:
    case Data_type::uint32: return 4;
    case Data_type::string: return sizeof(Str);
    default: return 8;
    }
}
int dl_code(Data_type t)
{
    switch (t) {
    case Data_type::int8:
    case Data_type::int16:
    case Data_type::int32:
    case Data_type::int64: return kDLInt;
    case Data_type::float16:
    case Data_type::float32:
    case Data_type::float64: return kDLFloat;
    default: return kDLUInt;
    }
}
const std::vector<Data_type> &numeric()
{
    static const std::vector<Data_type> v{Data_type::size, Data_type::float16, Data_type::float32, Data_type::float64, Data_type::int8, Data_type::int16,
                                          Data_type::int32, Data_type::int64, Data_type::uint8, Data_type::uint16, Data_type::uint32, Data_type::uint64};
    return v;
}
template<typename V>
Str list(const V &v)
{
    Str s;
    for (auto x : v) s += (s.empty() ? "" : ",") + std::to_string(x);
    return s;
}

// Arrays that do not live where the CPU can reach them.
class Far_array final : public Device_array {
public:
    Far_array(std::size_t n, bool cpu) : cpu_{cpu}, v_(n) {}
    std::unique_ptr<Device_array> clone() const override { return std::make_unique<Far_array>(v_.size(), cpu_); }
    void *data() noexcept override { return v_.data(); }
    const void *data() const noexcept override { return v_.data(); }
    std::size_t size() const noexcept override { return v_.size(); }
    bool empty() const noexcept override { return v_.empty(); }
    Data_type data_type() const noexcept override { return Data_type::float32; }
    Device device() const noexcept override { return Device{cpu_ ? Device_kind::cpu() : Device_kind{"cuda"}, cpu_ ? 3u : 0u}; }
private:
    bool cpu_;
    std::vector<float> v_;
};

// What a tensor is, noted when it came.
struct Snap {
    Data_type dt{};
    std::vector<std::int64_t> shape, strides;
    Str bytes;
    int device = 0;
    Intrusive_ptr<Tensor> tensor;  // held by the history until the end
};
Snap snap(Dense_tensor &t)
{
    Snap s;
    s.dt = t.data_type();
    for (auto x : t.shape()) s.shape.push_back(static_cast<std::int64_t>(x));
    for (auto x : t.strides()) s.strides.push_back(x);
    s.bytes.assign(static_cast<const char *>(t.data().data()), t.data().size() * width(s.dt));
    s.tensor = wrap_intrusive(static_cast<Tensor *>(&t), true);
    return s;
}

// The elements an array of this shape and these strides has to have.
I128 needed(const std::vector<I128> &shape, const std::vector<I128> &strides)
{
    I128 n = 1;
    for (std::size_t i = 0; i < shape.size(); ++i)
        if (shape[i] == 0) return 0;
    for (std::size_t i = 0; i < shape.size(); ++i) {
        if (shape[i] - 1 > (static_cast<I128>(1) << 50) && strides[i] > (static_cast<I128>(1) << 50)) return static_cast<I128>(1) << 100;
        n += (shape[i] - 1) * strides[i];
        if (n > (static_cast<I128>(1) << 100)) return n;
    }
    return n;
}

struct Export {
    DLManagedTensor *mt;
    const Snap *s;
    int by;
};

void check_export(const Export &x)
{
    auto &t = x.mt->dl_tensor;
    auto &s = *x.s;
    SIM_CHECK(t.dtype.code == dl_code(s.dt) && t.dtype.bits == width(s.dt) * 8 && t.dtype.lanes == 1, "wrong-type", "type %d exported as code %d bits %d lanes %d",
              static_cast<int>(s.dt), t.dtype.code, t.dtype.bits, t.dtype.lanes);
    SIM_CHECK(t.ctx.device_type == kDLCPU && t.ctx.device_id == s.device, "wrong-device", "device %d/%d", static_cast<int>(t.ctx.device_type), t.ctx.device_id);
    SIM_CHECK(t.ndim == static_cast<int>(s.shape.size()), "wrong-shape", "%d dimensions, expected %zu", t.ndim, s.shape.size());
    std::vector<std::int64_t> shape, strides;
    if (t.ndim > 0) {
        shape.assign(t.shape, t.shape + t.ndim);
        SIM_CHECK(shape == s.shape, "wrong-shape", "shape (%s), expected (%s)", list(shape).c_str(), list(s.shape).c_str());
        if (t.strides) {
            strides.assign(t.strides, t.strides + t.ndim);
            SIM_CHECK(strides == s.strides, "wrong-strides", "strides (%s), expected (%s)", list(strides).c_str(), list(s.strides).c_str());
        }
        else {
            std::int64_t n = 1;
            for (std::size_t i = shape.size(); i-- > 0; n *= std::max<std::int64_t>(shape[i], 1))
                SIM_CHECK(shape[i] <= 1 || s.strides[i] == n, "wrong-strides", "no strides for a tensor that is not compact");
            strides = s.strides;
        }
    }
    // Every element, or some of them, by their index.
    const char *base = static_cast<const char *>(t.data) + t.byte_offset;
    std::size_t wd = t.dtype.bits / 8u;
    std::size_t n = 1;
    for (auto d : shape) n = d == 0 ? 0 : n > 400 ? n : n * std::min<std::size_t>(static_cast<std::size_t>(d), 500);
    std::size_t elems = s.bytes.size() / wd;
    std::vector<std::int64_t> idx(shape.size(), 0);
    if (t.ndim == 0) n = std::min<std::size_t>(elems, 1);
    for (std::size_t k = 0; k < std::min<std::size_t>(n, 400); ++k) {
        I128 off = 0;
        for (std::size_t i = 0; i < idx.size(); ++i) off += static_cast<I128>(idx[i]) * strides[i];
        SIM_CHECK(off >= 0 && off < static_cast<I128>(elems), "uncovered", "the element (%s) of a tensor of shape (%s) and strides (%s) lies outside of its %zu elements",
                  list(idx).c_str(), list(shape).c_str(), list(strides).c_str(), elems);
        std::size_t o = static_cast<std::size_t>(off) * wd;
        SIM_CHECK(std::memcmp(base + o, s.bytes.data() + o, wd) == 0, "wrong-value", "the element (%s) has changed", list(idx).c_str());
        if (n > 400) {
            for (std::size_t i = 0; i < idx.size(); ++i)
                idx[i] = k == 0 ? shape[i] - 1 : static_cast<std::int64_t>(sim::w(static_cast<std::uint32_t>(std::min<std::int64_t>(shape[i], 1 << 30))));
        }
        else
            for (std::size_t i = idx.size(); i-- > 0;) {
                if (++idx[i] < shape[i]) break;
                idx[i] = 0;
            }
    }
}

// Exports t; null if that is refused (which has to be right).
DLManagedTensor *export_tensor(Tensor &t, bool ok, const char *what)
{
    Outcome o;
    DLManagedTensor *mt = nullptr;
    std::size_t before = t.use_count();
    bool good = guarded(o, [&] {
        sim::Op_scope s("as_dlpack");
        mt = as_dlpack(t, DLPACK_VERSION);
    });
    if (good) {
        SIM_CHECK(mt != nullptr, "no-export", "as_dlpack returned null for %s", what);
        SIM_CHECK(ok, "export-accepted", "%s was exported", what);
        SIM_CHECK(mt->deleter != nullptr, "no-deleter", "an export without a deleter");
        return mt;
    }
    if (o.what == "std::bad_alloc" && sim::fault_fired(sim::f_new_fail)) {
        sim::probe("export out of memory");
        return nullptr;
    }
    SIM_CHECK(!ok, "export-refused", "%s was refused: %s", what, o.what.c_str());
    (void)before;
    sim::probe("export refused");
    return nullptr;
}

// The exports are checked and given up by several threads in any order.
void give_up(std::vector<Export> ex, const std::vector<Intrusive_ptr<Tensor>> &again)
{
    std::size_t nt = 1 + sim::w(3);
    std::vector<std::vector<Export>> of(nt);
    for (std::size_t i = ex.size(); i > 1; --i) std::swap(ex[i - 1], ex[sim::w(static_cast<std::uint32_t>(i))]);
    for (auto &e : ex) of[sim::w(static_cast<std::uint32_t>(nt))].push_back(e);
    auto work = [&](std::size_t k) {
        for (auto &e : of[k]) {
            check_export(e);
            sim::yield_point("checked");
            sim::Op_scope s("deleter");
            e.mt->deleter(e.mt);
        }
        for (auto &t : again) {
            // another export, at the same time
            auto *d = dynamic_cast<Dense_tensor *>(t.get());
            if (!d || d->data_type() == Data_type::string) continue;
            if (auto *mt = export_tensor(*d, true, "a tensor")) mt->deleter(mt);
        }
    };
    std::vector<std::unique_ptr<sim::Thread>> ts;
    for (std::size_t k = 1; k < nt; ++k) ts.push_back(std::make_unique<sim::Thread>([&, k] { work(k); }));
    work(0);
    for (auto &x : ts) x->join();
    if (nt > 1) sim::probe("given up by several threads");
}

void wrong_version(Tensor &t)
{
    std::size_t v = std::vector<std::size_t>{0, 1, 010, DLPACK_VERSION - 1, DLPACK_VERSION + 1, DLPACK_VERSION + (std::size_t{1} << 32), SIZE_MAX}[sim::w(7)];
    if (v == DLPACK_VERSION) return;
    Outcome o;
    DLManagedTensor *mt = nullptr;
    bool good = guarded(o, [&] { mt = as_dlpack(t, v); });
    SIM_CHECK(!good, "version-accepted", "the version %zu was accepted", v);
    SIM_CHECK(mt == nullptr && (o.type.find("Not_supported") != Str::npos || o.what == "std::bad_alloc"), "version-error", "the version %zu gives %s: %s", v, o.type.c_str(), o.what.c_str());
    sim::probe("wrong version refused");
}

// ------------------------------------------------------- tensors made by hand
std::size_t any_dim(bool huge)
{
    if (huge && sim::wone_in(3))
        return sim::wpick(std::vector<std::size_t>{std::size_t{1} << 31, std::size_t{1} << 32, std::size_t{1} << 33, (std::size_t{1} << 62) + 1, std::size_t{1} << 62,
                                                   std::size_t{1} << 63, SIZE_MAX, SIZE_MAX / 3 + 1, std::size_t{1} << 16, (std::size_t{1} << 32) + 1});
    return sim::wpick(std::vector<std::size_t>{1, 2, 3, 4, 5, 0, 7});
}

std::unique_ptr<Device_array> filled(Data_type t, std::size_t n)
{
    auto a = make_cpu_array(t, n);
    SIM_CHECK(a->size() == n && a->empty() == (n == 0) && a->data_type() == t, "array", "an array of %zu elements has %zu", n, a->size());
    auto *p = static_cast<unsigned char *>(a->data());
    std::uint32_t h = sim::w(1 << 30);
    if (t != Data_type::string)
        for (std::size_t i = 0; i < n * width(t); ++i) p[i] = static_cast<unsigned char>((h = h * 1664525u + 1013904223u) >> 24);
    return a;
}

void dense(int round)
{
    bool huge = sim::wone_in(3);
    std::size_t rank = sim::w(5);
    Size_vector shape;
    std::vector<I128> sh, st;
    bool zero = false;
    for (std::size_t i = 0; i < rank; ++i) {
        shape.push_back(any_dim(huge));
        sh.push_back(static_cast<I128>(shape.back()));
        if (shape.back() == 0) zero = true;
    }
    Ssize_vector strides;
    bool overflow = false, bad_rank = false;
    std::vector<I128> def(rank, 1);
    for (std::size_t i = rank; i-- > 1;) {
        def[i - 1] = def[i] * sh[i];
        if (def[i - 1] > SSIZE_MAX) overflow = true, def[i - 1] = static_cast<I128>(1) << 63;
    }
    if (rank == 0 || sim::wflip()) st = def;
    else {
        int how = static_cast<int>(sim::w(5));
        overflow = false;
        for (std::size_t i = 0; i < rank; ++i) {
            I128 v = def[i] > SSIZE_MAX ? 7 : def[i];
            if (how == 1) v = def[rank - 1 - i] > SSIZE_MAX ? 3 : def[rank - 1 - i];  // transposed or so
            if (how == 2) v = sim::wone_in(3) ? 0 : v;                              // broadcast
            if (how == 3) v = static_cast<I128>(v * 2) > SSIZE_MAX ? 2 : v * 2;      // every second element
            if (how == 4) v = sim::wpick(std::vector<std::size_t>{0, 1, 2, 3, 10, std::size_t{1} << 31, std::size_t{1} << 32, std::size_t{1} << 62, SSIZE_MAX});
            st.push_back(v);
            strides.push_back(static_cast<std::ptrdiff_t>(v));
        }
        if (sim::wone_in(12)) {
            if (sim::wflip() && strides.size() > 1) strides.pop_back();
            else strides.push_back(1);
            bad_rank = true;
        }
    }
    I128 need = needed(sh, st);
    std::size_t have = need <= 3000 ? static_cast<std::size_t>(need) : sim::w(40);
    switch (sim::w(4)) {
    case 0: have += sim::w(3); break;
    case 1:
        if (have > 0 && sim::wflip()) have -= 1;
        break;
    case 2:
        if (sim::wone_in(3)) have = sim::w(10);
        break;
    default: break;
    }
    Data_type t = sim::wone_in(12) ? Data_type::string : sim::wpick(numeric());
    bool far = sim::wone_in(14);
    bool cpu = far && sim::wflip();
    if (far) t = Data_type::float32;
    sim::describe("dense%d type=%d shape=(%s) strides=(%s) size=%zu ", round, static_cast<int>(t), list(shape).c_str(), list(strides).c_str(), have);
    bool armed = sim::faults.armed;
    sim::faults.armed = false;
    auto arr = far ? std::unique_ptr<Device_array>{std::make_unique<Far_array>(have, cpu)} : filled(t, have);
    auto copy = arr->clone();
    SIM_CHECK(copy->size() == have && (t == Data_type::string || far || have == 0 || std::memcmp(copy->data(), arr->data(), have * width(t)) == 0), "clone", "a clone differs");
    SIM_CHECK(have == 0 || copy->data() != arr->data(), "clone", "a clone shares its data");
    copy = nullptr;
    sim::faults.armed = armed;
    Outcome o;
    Intrusive_ptr<Dense_tensor> x;
    if (!guarded(o, [&] { sim::Op_scope sc("Dense_tensor"); x = make_intrusive<Dense_tensor>(shape, std::move(arr), strides); })) {
        if (o.what == "std::bad_alloc" && sim::fault_fired(sim::f_new_fail)) return;
        bool open = zero && overflow;  // nothing to address, and strides that cannot be represented
        SIM_CHECK(bad_rank || need > static_cast<I128>(have) || open || (overflow && strides.empty()), "tensor-refused", "%zu elements for the shape (%s) and the strides (%s): %s", have, list(shape).c_str(), list(strides).c_str(), o.what.c_str());
        sim::probe("tensor refused");
        return;
    }
    SIM_CHECK(!bad_rank, "rank-accepted", "%zu dimensions and %zu strides", shape.size(), strides.size());
    SIM_CHECK(rank == 0 || need <= static_cast<I128>(have), "uncovered", "a tensor of %zu elements has the shape (%s) and the strides (%s)", have, list(shape).c_str(), list(x->strides()).c_str());
    SIM_CHECK(x->shape() == shape, "wrong-shape", "shape (%s), expected (%s)", list(x->shape()).c_str(), list(shape).c_str());
    for (std::size_t i = 0; i < rank && !(zero && overflow); ++i)
        SIM_CHECK(x->strides().size() == rank && x->strides()[i] == static_cast<std::ptrdiff_t>(st[i]), "wrong-strides", "strides (%s)", list(x->strides()).c_str());
    SIM_CHECK(x->data().size() == have && x->data_type() == t, "wrong-type", "type or size");
    const Dense_tensor &cx = *x;
    SIM_CHECK(cx.data().data() == x->data().data(), "wrong-value", "data");
    wrong_version(*x);
    bool ok = t != Data_type::string && (!far || cpu);
    Snap s = snap(*x);
    if (far) s.device = 3;
    s.tensor = nullptr;
    std::vector<Export> ex;
    for (std::uint32_t i = 1 + sim::w(3); i > 0; --i)
        if (auto *mt = export_tensor(*x, ok, "a dense tensor")) ex.push_back({mt, &s, 0});
    SIM_CHECK(x->use_count() == 1 + ex.size(), "ref-count", "%zu references, %zu exports", x->use_count(), ex.size());
    std::vector<Intrusive_ptr<Tensor>> again;
    if (ok && sim::wflip()) again.push_back(x);
    if (sim::wflip()) {
        x = nullptr;  // the exports keep it
        sim::probe("tensor dropped before its exports");
    }
    give_up(ex, again);
    again.clear();
    if (x) SIM_CHECK(x->use_count() == 1, "ref-count", "%zu references after the exports are gone", x->use_count());
    sim::probe("dense");
}

void sparse(int round)
{
    Outcome o;
    bool csr = sim::wflip();
    std::size_t nnz = sim::w(6);
    Data_type t = sim::wpick(numeric());
    bool armed = sim::faults.armed;
    Intrusive_ptr<Tensor> x;
    bool want = true;
    Size_vector shape;
    std::size_t rank = sim::w(csr ? 4 : 5);
    for (std::size_t i = 0; i < rank; ++i) shape.push_back(any_dim(sim::wone_in(8)));
    sim::faults.armed = false;
    auto data = filled(t, nnz);
    const void *dp = data->data();
    if (csr) {
        std::size_t ni = sim::wone_in(6) ? sim::w(6) : nnz;
        I128 rows = rank == 0 ? 0 : rank == 1 ? 1 : static_cast<I128>(shape[0]);
        std::size_t np = rows > 1000 ? sim::w(3) : static_cast<std::size_t>(rows) + 1;
        if (sim::wone_in(6)) np = sim::w(5);
        want = rank <= 2 && ni == nnz && static_cast<I128>(np) == rows + 1;
        auto ind = filled(Data_type::size, ni), ptr = filled(Data_type::size, np);
        const void *ip = ind->data(), *pp = ptr->data();
        sim::describe("csr%d shape=(%s) nnz=%zu indices=%zu indptr=%zu ", round, list(shape).c_str(), nnz, ni, np);
        sim::faults.armed = armed;
        if (guarded(o, [&] {
                sim::Op_scope sc("tensor");
                auto c = make_intrusive<Csr_tensor>(shape, std::move(data), std::move(ind), std::move(ptr));
                const Csr_tensor &k = *c;
                SIM_CHECK(c->data().data() == dp && k.data().data() == dp && c->data().size() == nnz, "wrong-value", "CSR data");
                SIM_CHECK(k.indices().data() == ip && k.indices().size() == ni && k.indptr().data() == pp && k.indptr().size() == np, "wrong-value", "CSR indices");
                x = c;
            }))
            SIM_CHECK(want, "csr-accepted", "a CSR tensor of shape (%s) with %zu values, %zu indices and %zu row pointers", list(shape).c_str(), nnz, ni, np);
    }
    else {
        std::vector<std::unique_ptr<Device_array>> co;
        std::vector<const void *> cp;
        std::size_t nc = sim::wone_in(6) ? sim::w(5) : rank;
        want = nc == rank;
        for (std::size_t i = 0; i < nc; ++i) {
            std::size_t n = sim::wone_in(12) ? sim::w(6) : nnz;
            if (n != nnz) want = false;
            co.push_back(filled(Data_type::size, n));
            cp.push_back(co.back()->data());
        }
        sim::describe("coo%d shape=(%s) nnz=%zu coordinates=%zu ", round, list(shape).c_str(), nnz, nc);
        sim::faults.armed = armed;
        if (guarded(o, [&] {
                sim::Op_scope sc("tensor");
                auto c = make_intrusive<Coo_tensor>(shape, std::move(data), std::move(co));
                const Coo_tensor &k = *c;
                SIM_CHECK(c->data().data() == dp && k.data().data() == dp && c->data().size() == nnz, "wrong-value", "COO data");
                for (std::size_t i = 0; i < nc; ++i) SIM_CHECK(c->indices(i).data() == cp[i] && k.indices(i).data() == cp[i], "wrong-value", "COO coordinates of dimension %zu", i);
                Outcome o2;
                SIM_CHECK(!guarded(o2, [&] { c->indices(nc); }), "wrong-value", "coordinates of a dimension that does not exist");
                x = c;
            }))
            SIM_CHECK(want, "coo-accepted", "a COO tensor of shape (%s) with %zu values and other numbers of coordinates", list(shape).c_str(), nnz);
    }
    if (!x) {
        bool no_memory = o.what == "std::bad_alloc" && sim::fault_fired(sim::f_new_fail);
        bool large = false;  // default strides that cannot be represented
        I128 n = 1;
        for (std::size_t i = rank; i-- > 1;) {
            n *= static_cast<I128>(shape[i]);
            if (n > SSIZE_MAX) large = true, n = static_cast<I128>(1) << 63;
        }
        SIM_CHECK(!want || no_memory || large, "sparse-refused", "shape (%s) nnz %zu: %s", list(shape).c_str(), nnz, o.what.c_str());
        sim::probe("sparse tensor refused");
        return;
    }
    SIM_CHECK(x->shape() == shape && x->data_type() == t, "wrong-shape", "shape or type of a sparse tensor");
    wrong_version(*x);
    Outcome o3;
    DLManagedTensor *mt = nullptr;
    bool good = guarded(o3, [&] { mt = as_dlpack(*x, DLPACK_VERSION); });
    SIM_CHECK(!good && mt == nullptr, "export-accepted", "a sparse tensor was exported");
    SIM_CHECK(o3.type.find("invalid_argument") != Str::npos || o3.what == "std::bad_alloc", "export-error", "a sparse tensor gives %s", o3.type.c_str());
    SIM_CHECK(x->use_count() == 1, "ref-count", "%zu references after a refused export", x->use_count());
    sim::probe("sparse");
}

void by_hand()
{
    if (sim::wone_in(3)) {
        sim::faults.p[sim::f_new_fail] = std::vector<double>{0.1, 0.3, 0.02}[sim::w(3)];
        sim::faults.budget[sim::f_new_fail] = 1 + static_cast<int>(sim::w(3));
        sim::new_fail_min = 1;
    }
    bool armed = true;
    sim::faults.armed = false;
    {
        // what is allocated once
        Outcome o;
        numeric();
        auto x = make_intrusive<Dense_tensor>(Size_vector{1}, filled(Data_type::uint8, 1));
        guarded(o, [&] { as_dlpack(*x, 1); });
    }
    sim::wait_quiescent();
    sim::heap::start();
    std::size_t before = sim::heap::live();
    sim::faults.armed = armed;
    for (int i = 0, n = 1 + static_cast<int>(sim::w(5)); i < n; ++i) {
        if (sim::wone_in(4)) sparse(i);
        else dense(i);
    }
    sim::faults.armed = false;
    sim::wait_quiescent();
    std::size_t after = sim::heap::live();
    if (after > before) {
        Str dump;
        sim::heap::dump(dump, 20);
        sim::violation("memory-leak", "%zu blocks are still allocated:%s", after - before, dump.c_str());
    }
}

// ------------------------------------------------------- tensors of readers
void from_reader()
{
    Session s;
    Gen g;
    g.max_rows = 24;
    g.min_rows = 1;
    if (sim::wone_in(3)) g.bad_one_in = 4;
    s.d = make_dataset(g);
    random_knobs();
    random_legal_io();
    s.st = make_stores(s.d, all_kinds());
    s.p.dataset = s.st.list;
    random_tuning(s.p);
    random_policies(s.p);
    if (sim::wone_in(3)) random_selection(s.p, s.d);
    sim::describe("reader %s %s", fmt_name(s.d.fmt), params_text(s.p).c_str());
    s.want = expect(s.d, s.p);
    s.open();
    if (sim::wone_in(3)) random_hard_faults();
    std::vector<std::unique_ptr<Snap>> snaps;
    std::vector<Export> ex;
    std::vector<Intrusive_ptr<Example>> kept;
    std::uint32_t n = 2 + sim::w(12);
    for (std::uint32_t i = 0; i < n && s.r; ++i) {
        if (sim::wone_in(8)) {
            s.reset();
            continue;
        }
        Outcome o;
        Intrusive_ptr<Example> e;
        if (!guarded(o, [&] { sim::Op_scope sc("read_example"); e = s.r->read_example(); })) {
            SIM_CHECK(s.want.error || sim::hard_faults_fired(), "unexpected-error", "%s: %s", o.type.c_str(), o.what.c_str());
            continue;
        }
        if (!e) {
            s.reset();
            continue;
        }
        Ex x = decode(*e, s.d);
        for (auto &f : e->features()) {
            auto *d = dynamic_cast<Dense_tensor *>(f.get());
            if (!d || d->data_type() == Data_type::string) {
                export_tensor(*f, false, d ? "a tensor of strings" : "a sparse tensor");
                continue;
            }
            if (sim::wone_in(3)) continue;
            snaps.push_back(std::make_unique<Snap>(snap(*d)));
            auto &sn = *snaps.back();
            if (sim::wflip()) sn.tensor = nullptr;  // the export alone keeps it
            for (std::uint32_t k = 1 + sim::w(2); k > 0; --k)
                if (auto *mt = export_tensor(*d, true, "a tensor")) ex.push_back({mt, &sn, static_cast<int>(i)});
        }
        if (sim::wone_in(4)) kept.push_back(e);
        e = nullptr;
        if (!ex.empty() && sim::wone_in(4)) {
            check_export(ex.back());
            ex.back().mt->deleter(ex.back().mt);
            ex.pop_back();
        }
    }
    int order = static_cast<int>(sim::w(3));
    if (order == 1) kept.clear();
    if (order != 0) {
        s.destroy();
        s.p.dataset.clear();
        s.st = {};
        sim::probe("reader gone before its exports");
    }
    for (auto &x : ex) check_export(x);
    give_up(ex, {});
    kept.clear();
    s.destroy();
    sim::faults.armed = false;
    for (auto &sn : snaps)
        if (sn->tensor) SIM_CHECK(sn->tensor->use_count() == 1, "ref-count", "%zu references to a tensor whose exports are gone", sn->tensor->use_count());
    sim::probe("tensors of a reader");
}

// ------------------------------------------------------- shapes in the data
void shapes_in_data()
{
    using aialgs::data::Record;
    // One feature; its shape is whatever the record says.
    std::vector<std::uint64_t> shape;
    I128 total = 1;
    for (std::uint32_t i = 1 + sim::w(3); i > 0; --i) {
        shape.push_back(any_dim(sim::wflip()));
        total *= static_cast<I128>(shape.back());
        if (total > (static_cast<I128>(1) << 63)) total = static_cast<I128>(1) << 63;  // a zero makes it small again
    }
    for (auto x : shape)
        if (x == 0) total = 0;
    bool sp = sim::wone_in(3);
    std::uint64_t wrapped = 1;
    for (auto x : shape) wrapped *= x;
    std::size_t nv = wrapped <= 50 ? static_cast<std::size_t>(wrapped) : total <= 50 ? static_cast<std::size_t>(total) : sim::w(8);
    if (sim::wone_in(5)) nv = sim::w(8);
    Store_data sd;
    std::size_t rows = 1 + sim::w(5);
    std::vector<std::uint64_t> keys;
    std::vector<std::vector<float>> vals(rows);
    if (sp) {
        I128 lim = std::min<I128>(total, static_cast<I128>(1) << 64);
        nv = lim == 0 ? 0 : sim::w(4);
        for (std::size_t i = 0; i < nv; ++i) {
            I128 k = sim::wone_in(3) ? lim - 1 - static_cast<I128>(sim::w(5)) : static_cast<I128>(sim::w(60));
            if (k < 0) k = 0;
            if (k >= lim) k = lim - 1;
            keys.push_back(static_cast<std::uint64_t>(k));
        }
    }
    for (std::size_t r = 0; r < rows; ++r) {
        Record rec;
        auto *t = (*rec.mutable_features())["x"].mutable_float32_tensor();
        for (std::size_t i = 0; i < nv; ++i) {
            float v = static_cast<float>(sim::wrange(1, 999));
            vals[r].push_back(v);
            t->add_values(v);
        }
        for (auto k : keys) t->add_keys(k);
        for (auto x : shape) t->add_shape(x);
        Str payload;
        rec.SerializeToString(&payload);
        sd.bytes += put_recordio(payload, false);
    }
    Data_reader_params p;
    p.batch_size = 1 + sim::w(4);
    p.num_prefetched_examples = 1 + sim::w(3);
    p.num_parallel_reads = 1 + sim::w(3);
    p.dataset = {make_store(sd.bytes, sim::wflip() ? Kind::mem : Kind::frag, "s")};
    sim::describe("record shape=(%s) values=%zu keys=%zu batch=%zu ", list(shape).c_str(), nv, keys.size(), p.batch_size);
    auto r = make_intrusive<Recordio_protobuf_reader>(std::move(p));
    std::size_t row = 0;
    Outcome o;
    for (std::uint32_t i = 0; i < rows + 2; ++i) {
        Intrusive_ptr<Example> e;
        if (!guarded(o, [&] { sim::Op_scope s("read_example"); e = r->read_example(); })) {
            // nothing in it, and strides that cannot be represented
            I128 rest = 1;
            for (auto x : shape)
                if (x != 0 && rest < (static_cast<I128>(1) << 63)) rest *= static_cast<I128>(x);
            bool fits = total <= (1 << 20) && rest <= SSIZE_MAX;
            bool legal = sp || keys.size() == nv;
            if (!sp && fits && total == static_cast<I128>(nv) && legal) sim::violation("record-refused", "a record of shape (%s) with %zu values: %s", list(shape).c_str(), nv, o.what.c_str());
            if (sp && total <= static_cast<I128>(SSIZE_MAX) && rest <= SSIZE_MAX) sim::violation("record-refused", "a sparse record of shape (%s): %s", list(shape).c_str(), o.what.c_str());
            sim::probe("record refused");
            return;
        }
        if (!e) break;
        auto &t = *e->features().at(0);
        SIM_CHECK(t.shape().size() == shape.size() + 1, "wrong-shape", "rank %zu", t.shape().size());
        for (std::size_t k = 0; k < shape.size(); ++k) SIM_CHECK(t.shape()[k + 1] == shape[k], "wrong-shape", "shape (%s), the record says (%s)", list(t.shape()).c_str(), list(shape).c_str());
        std::size_t bn = t.shape()[0];
        if (auto *d = dynamic_cast<Dense_tensor *>(&t)) {
            SIM_CHECK(total * static_cast<I128>(bn) == static_cast<I128>(d->data().size()) && (nv == static_cast<std::size_t>(total)), "uncovered",
                      "a tensor of %zu elements has the shape (%s)", d->data().size(), list(t.shape()).c_str());
            for (std::size_t b = 0; b < bn; ++b, ++row)
                for (std::size_t k = 0; k < nv; ++k) SIM_CHECK(d->data().as<float>()[b * nv + k] == vals[row][k], "wrong-value", "row %zu value %zu", row, k);
            if (auto *mt = export_tensor(*d, true, "a tensor")) {
                Snap s = snap(*d);
                give_up({{mt, &s, 0}}, {});
            }
        }
        else {
            auto *c = dynamic_cast<Coo_tensor *>(&t);
            SIM_CHECK(c && (sp || nv == 0), "wrong-kind", "a dense record came out sparse");
            SIM_CHECK(c->data().size() == nv * bn, "wrong-value", "%zu values of %zu", c->data().size(), nv * bn);
            for (std::size_t j = 0; j < nv * bn; ++j) {
                SIM_CHECK(c->data().as<float>()[j] == vals[row + j / std::max<std::size_t>(nv, 1)][j % std::max<std::size_t>(nv, 1)], "wrong-value", "value %zu", j);
                SIM_CHECK(c->indices(0).as<std::size_t>()[j] == j / nv, "wrong-value", "row of value %zu", j);
                I128 flat = 0;
                for (std::size_t k = 0; k < shape.size(); ++k) {
                    std::size_t i2 = c->indices(k + 1).as<std::size_t>()[j];
                    SIM_CHECK(i2 < shape[k], "coordinate", "coordinate %zu of a dimension of %zu", i2, static_cast<std::size_t>(shape[k]));
                    flat = flat * static_cast<I128>(shape[k]) + static_cast<I128>(i2);
                }
                SIM_CHECK(flat == static_cast<I128>(keys[j % nv]), "coordinate", "the key %zu has got other coordinates in the shape (%s)", static_cast<std::size_t>(keys[j % nv]), list(shape).c_str());
            }
            row += bn;
        }
    }
    SIM_CHECK(row == rows, "early-end", "%zu of %zu rows", row, rows);
    sim::probe("shape of a record");
}

void run()
{
    sim::report_races = true;
    switch (sim::w(4)) {
    case 0:
    case 1: by_hand(); break;
    case 2: from_reader(); break;
    default: shapes_in_data();
    }
}
}  // namespace
SIM_WORKLOAD("C24", run);
