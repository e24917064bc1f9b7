// C31: what Python and the library share keeps its contents and its owner.
#include "py.h"

#include <mlio/integ/dlpack.h>
#include <dlpack/dlpack.h>

namespace {
using namespace mlio;
using namespace wkpy;
using wk::Str;

std::size_t item_size(Data_type t)
{
    switch (t) {
    case Data_type::float16: case Data_type::int16: case Data_type::uint16: return 2;
    case Data_type::float32: case Data_type::int32: case Data_type::uint32: return 4;
    case Data_type::int8: case Data_type::uint8: return 1;
    default: return 8;
    }
}
const char *formats(Data_type t)
{
    switch (t) {
    case Data_type::size: return "qQN";
    case Data_type::float16: return "e";
    case Data_type::float32: return "f";
    case Data_type::float64: return "d";
    case Data_type::int8: return "b";
    case Data_type::int16: return "h";
    case Data_type::int32: return "i";
    case Data_type::int64: return "ql";
    case Data_type::uint8: return "B";
    case Data_type::uint16: return "H";
    case Data_type::uint32: return "I";
    case Data_type::uint64: return "QL";
    case Data_type::string: return "O";
    }
    return "";
}

// Text of one item of a buffer.
Str item(const void *p, std::size_t size, bool object)
{
    if (!object) return Str{static_cast<const char *>(p), size};
    PyObject *o;
    memcpy(&o, p, sizeof o);
    SIM_CHECK(o != nullptr, "string-buffer", "an item of a string buffer is null");
    if (o == Py_None) return "<none>";
    SIM_CHECK(PyUnicode_Check(o), "string-buffer", "an item of a string buffer is not a string");
    return py::cast<Str>(py::handle(o));
}
Str items(const Py_buffer &b)
{
    Str s;
    std::vector<Py_ssize_t> idx(static_cast<std::size_t>(b.ndim));
    for (int i = 0; i < b.ndim; ++i)
        if (b.shape[i] == 0) return s;
    for (;;) {
        auto *p = static_cast<const char *>(b.buf);
        for (int i = 0; i < b.ndim; ++i) p += idx[static_cast<std::size_t>(i)] * b.strides[i];
        s += item(p, static_cast<std::size_t>(b.itemsize), b.format[0] == 'O') + "\x1e";
        int i = b.ndim - 1;
        for (; i >= 0; --i) {
            if (++idx[static_cast<std::size_t>(i)] < b.shape[i]) break;
            idx[static_cast<std::size_t>(i)] = 0;
        }
        if (i < 0) return s;
    }
}
// The elements of a C++ tensor.
Str element(Device_array_span s, std::size_t i)
{
    SIM_CHECK(i < s.size(), "tensor-too-small", "element %zu of %zu", i, s.size());
    if (s.data_type() == Data_type::string) return s.as<std::string>()[i];
    std::size_t z = item_size(s.data_type());
    return {static_cast<const char *>(s.data()) + i * z, z};
}
Str elements(Device_array_span s, const Size_vector &shape, const Ssize_vector &strides)
{
    Str r;
    std::vector<std::size_t> idx(shape.size());
    for (auto d : shape)
        if (d == 0) return r;
    for (;;) {
        std::ptrdiff_t o = 0;
        for (std::size_t i = 0; i < shape.size(); ++i) o += static_cast<std::ptrdiff_t>(idx[i]) * strides[i];
        r += element(s, static_cast<std::size_t>(o)) + "\x1e";
        std::size_t i = shape.size();
        while (i > 0 && ++idx[i - 1] == shape[i - 1]) idx[--i] = 0;
        if (i == 0) return r;
    }
}

bool utf8(const Str &s)
{
    PyObject *o = PyUnicode_DecodeUTF8(s.data(), static_cast<Py_ssize_t>(s.size()), nullptr);
    if (o == nullptr) {
        PyErr_Clear();
        return false;
    }
    Py_DECREF(o);
    return true;
}

Str array_text(const py::object &a);

// A buffer that Python holds, and what it has to contain.
struct View {
    Py_buffer b{};
    Str text;
    const char *what;
};
struct World {
    std::vector<View> views;

    // Asks for the buffer of an object and compares it with the elements.
    // false: not exportable (text that is not UTF-8).
    bool view(py::handle o, Data_type dt, const Str &text, const Size_vector &shape, bool bad_text, const char *what)
    {
        View v;
        v.what = what;
        v.text = text;
        int rc = PyObject_GetBuffer(o.ptr(), &v.b, PyBUF_STRIDES | PyBUF_FORMAT);
        bool error = PyErr_Occurred() != nullptr;
        if (error) PyErr_Clear();
        if (rc == 0 && error) items(v.b);  // safe, whatever is in it
        if (rc != 0 || error) {
            SIM_CHECK(bad_text, "no-buffer", "%s exports no buffer", what);
            if (rc == 0) PyBuffer_Release(&v.b);
            sim::probe("text that is not UTF-8");
            return false;
        }
        SIM_CHECK(!bad_text, "bad-text", "%s exports a buffer although its text is not UTF-8", what);
        SIM_CHECK(v.b.format[0] != 0 && v.b.format[1] == 0 && strchr(formats(dt), v.b.format[0]) != nullptr, "wrong-buffer", "%s of type %d has the format %s", what, static_cast<int>(dt), v.b.format);
        SIM_CHECK(v.b.itemsize == static_cast<Py_ssize_t>(item_size(dt)), "wrong-buffer", "%s has items of %zd bytes", what, v.b.itemsize);
        SIM_CHECK(v.b.ndim == static_cast<int>(shape.size()), "wrong-buffer", "%s has %d dimensions, expected %zu", what, v.b.ndim, shape.size());
        Py_ssize_t n = v.b.itemsize;
        for (std::size_t i = 0; i < shape.size(); ++i) {
            SIM_CHECK(v.b.shape[i] == static_cast<Py_ssize_t>(shape[i]), "wrong-buffer", "%s: dimension %zu is %zd, expected %zu", what, i, v.b.shape[i], shape[i]);
            n *= v.b.shape[i];
        }
        SIM_CHECK(v.b.len == n, "wrong-buffer", "%s has the length %zd, expected %zd", what, v.b.len, n);
        Str got = items(v.b);
        SIM_CHECK(got == text, "wrong-buffer", "%s contains '%s', expected '%s'", what, wk::esc(got, 200).c_str(), wk::esc(text, 200).c_str());
        views.push_back(v);
        return true;
    }
    void check()
    {
        // Some go earlier than others.
        if (sim::wflip())
            for (std::size_t i = views.size(); i-- > 0;)
                if (sim::wflip()) drop(i);
        for (auto &v : views) {
            Str got = items(v.b);
            SIM_CHECK(got == v.text, "buffer-changed", "the buffer of %s now contains '%s', it was '%s'", v.what, wk::esc(got, 200).c_str(), wk::esc(v.text, 200).c_str());
        }
    }
    void drop(std::size_t i)
    {
        PyBuffer_Release(&views[i].b);
        views.erase(views.begin() + static_cast<std::ptrdiff_t>(i));
    }
    ~World()
    {
        while (!views.empty()) drop(views.size() - 1);
    }
    void tensor(py::handle o)
    {
        auto t = py::cast<Intrusive_ptr<Tensor>>(o);
        SIM_CHECK(py::cast<Data_type>(o.attr("data_type")) == t->data_type(), "wrong-tensor", "data_type");
        auto shape = py::cast<std::vector<std::size_t>>(o.attr("shape"));
        SIM_CHECK(Size_vector(shape.begin(), shape.end()) == t->shape(), "wrong-tensor", "shape");
        if (auto *d = dynamic_cast<Dense_tensor *>(t.get())) {
            auto strides = py::cast<std::vector<std::ptrdiff_t>>(o.attr("strides"));
            SIM_CHECK(Ssize_vector(strides.begin(), strides.end()) == t->strides(), "wrong-tensor", "strides");
            array(py::object(o.attr("data")), d->data(), "the data of a dense tensor");
            bool bad = has_bad_text(d->data());
            for (std::uint32_t k = 1 + sim::w(2); k > 0; --k) view(o, t->data_type(), elements(d->data(), t->shape(), t->strides()), t->shape(), bad, "a dense tensor");
        }
        else if (auto *c = dynamic_cast<Coo_tensor *>(t.get())) {
            array(py::object(o.attr("data")), c->data(), "the data of a COO tensor");
            for (std::size_t i = 0; i < t->shape().size(); ++i) array(py::object(o.attr("indices")(i)), c->indices(i), "the indices of a COO tensor");
        }
    }
    static bool has_bad_text(Device_array_span s)
    {
        if (s.data_type() != Data_type::string) return false;
        for (auto &x : s.as<std::string>())
            if (!utf8(x)) return true;
        return false;
    }
    void array(py::object a, Device_array_span s, const char *what)
    {
        SIM_CHECK(py::cast<std::size_t>(a.attr("size")) == s.size(), "wrong-buffer", "%s has the size %zu", what, s.size());
        Size_vector n{s.size()};
        bool bad = has_bad_text(s);
        // An array is asked more than once.
        for (std::uint32_t k = 1 + sim::w(3); k > 0; --k) view(a, s.data_type(), elements(s, n, {1}), n, bad, what);
    }
};

void release_gil_now()
{
    py::gil_scoped_release r;
    sim::yield_point("python");
}

// ------------------------------------------------------------ readers
void read_examples(World &w, int id)
{
    wk::Gen g;
    g.max_rows = 12;
    auto d = wk::make_dataset(g);
    if (d.fmt == wk::Fmt::text && sim::wflip()) {  // lines that are no text
        for (auto &s : d.stores)
            for (auto &c : s.bytes)
                if (c != '\n' && c != '\r' && sim::wone_in(12)) c = static_cast<char>(0xff);
    }
    auto st = wk::make_stores(d, {wk::Kind::mem, wk::Kind::file_mmap, wk::Kind::file_stream, wk::Kind::gz_file}, "r" + std::to_string(id) + "_");
    Data_reader_params p{};
    wk::random_tuning(p);
    py::list l = store_objects(st);
    for (std::size_t i = 0; i < st.list.size(); ++i)
        if (st.kinds[i] == wk::Kind::mem && sim::wflip()) l[i] = core().attr("InMemoryStore")(fn("array_of")(py::bytes(d.stores[i].bytes)));
    st.list.clear();
    py::object reader = make_reader(d, p, l);
    std::uint32_t n = 1 + sim::w(8);
    std::vector<py::object> kept;
    for (std::uint32_t i = 0; i < n; ++i) {
        py::object e;
        try {
            sim::Op_scope s("read_example");
            e = reader.attr("read_example")();
        }
        catch (py::error_already_set &) {
            break;
        }
        if (e.is_none()) break;
        auto &c = *py::cast<Intrusive_ptr<Example>>(e);
        std::uint32_t how = sim::w(4);
        std::size_t k = c.features().size();
        if (how == 0) {  // for tensor in reader.read_example()
            py::object it = e.attr("__iter__")();
            e = py::object();
            std::size_t m = 0;
            while (PyObject *x = PyIter_Next(it.ptr())) {
                auto t = py::reinterpret_steal<py::object>(x);
                w.tensor(t);
                ++m;
            }
            SIM_CHECK(!PyErr_Occurred() && m == k, "iteration", "iterating over an example of %zu features gives %zu", k, m);
        }
        else {
            auto &attrs = c.schema().attributes();
            py::object pa = e.attr("schema").attr("attributes");
            SIM_CHECK(py::len(pa) == attrs.size(), "wrong-example", "attributes");
            for (std::size_t f = 0; f < k; ++f) {
                py::object t = how == 1 ? e[py::str(attrs[f].name())] : e[py::int_(f)];
                SIM_CHECK(py::cast<Intrusive_ptr<Tensor>>(t).get() == c.features()[f].get(), "wrong-example", "feature %zu is another one", f);
                SIM_CHECK(py::cast<Str>(pa[py::int_(f)].attr("name")) == attrs[f].name(), "wrong-example", "the attribute of feature %zu is another one", f);
                w.tensor(t);
                if (sim::wone_in(4)) kept.push_back(t);
            }
            auto c1 = call("getitem", [&] { return e[py::int_(k)]; });
            auto c2 = call("getitem", [&] { return e[py::str("no such feature")]; });
            SIM_CHECK(c1.type == "KeyError" && c2.type == "KeyError", "wrong-error", "an absent feature raises '%s' and '%s'", c1.type.c_str(), c2.type.c_str());
        }
        if (e && sim::wone_in(4)) {
            bool dense = true, bad = false;
            for (auto &x : c.features()) {
                auto *y = dynamic_cast<Dense_tensor *>(x.get());
                dense = dense && y != nullptr;
                bad = bad || (y != nullptr && World::has_bad_text(y->data()));
            }
            // What NumPy makes of the error that text in no encoding raises is
            // not up to the library.
            if (bad) continue;
            auto f = call("to_pandas", [&] { return fn("mlio_pandas").attr("to_pandas")(e); });
            if (f.ok) {
                SIM_CHECK(dense, "accepted", "an example that has no table is made one");
                py::dict data = f.value.attr("data");
                SIM_CHECK(data.size() == k, "wrong-example", "a table has %zu of %zu features", data.size(), k);
                std::size_t i = 0;
                for (auto kv : data) {
                    SIM_CHECK(py::cast<Str>(kv.first) == c.schema().attributes()[i].name(), "wrong-example", "feature %zu of a table has another name", i);
                    auto *y = dynamic_cast<Dense_tensor *>(c.features()[i].get());
                    SIM_CHECK(array_text(py::reinterpret_borrow<py::object>(kv.second)) == elements(y->data(), y->shape(), y->strides()), "wrong-example", "feature %zu of a table has other values", i);
                    ++i;
                }
            }
            else SIM_CHECK(!dense, "refused", "to_pandas raises %s: %s", f.type.c_str(), f.what.c_str());
        }
        if (sim::wone_in(4)) kept.push_back(e);
        release_gil_now();
        if (sim::wone_in(5)) reader.attr("reset")();
        if (sim::wone_in(3)) w.check();
    }
    reader = py::object();
    w.check();
    kept.clear();
    w.check();
}

// ------------------------------------------------------------ tensors made from Python buffers
const std::vector<const char *> dtypes{"int8", "uint8", "int16", "uint16", "int32", "uint32", "int64", "uint64", "float16", "float32", "float64", "bool", "complex64", "longlong", "ulonglong", "intp"};
py::object np() { return fn("numpy"); }

py::object random_array(Size_vector *shape_out = nullptr)
{
    std::uint32_t nd = 1 + sim::w(3);
    std::vector<std::size_t> shape;
    for (std::uint32_t i = 0; i < nd; ++i) shape.push_back(sim::wone_in(12) ? 0 : 1 + sim::w(4));
    py::object a = np().attr("empty")(py::cast(shape), py::str(sim::wpick(dtypes)), py::str(sim::wone_in(4) ? "F" : "C"));
    auto bytes = static_cast<std::size_t>(py::cast<std::size_t>(a.attr("nbytes")));
    PyObject *m = PyMemoryView_FromObject(a.ptr());
    if (m == nullptr) throw py::error_already_set();
    auto mv = py::reinterpret_steal<py::object>(m);
    auto *p = static_cast<unsigned char *>(PyMemoryView_GET_BUFFER(mv.ptr())->buf);
    for (std::size_t i = 0; i < bytes; ++i) p[i] = static_cast<unsigned char>(sim::w(256));
    // A part of it.
    for (std::uint32_t k = sim::w(3); k > 0; --k) {
        py::object full = py::slice(std::nullopt, std::nullopt, std::nullopt);
        py::list idx;
        for (std::size_t i = 0; i < py::cast<std::size_t>(a.attr("ndim")); ++i) {
            switch (sim::w(5)) {
            case 1: idx.append(py::slice(std::nullopt, std::nullopt, 2)); break;
            case 2: idx.append(py::slice(std::nullopt, std::nullopt, -1)); break;
            case 3: idx.append(py::slice(1, std::nullopt, std::nullopt)); break;
            default: idx.append(full);
            }
        }
        a = a[py::tuple(idx)];
        if (sim::wone_in(4)) a = a.attr("T");
    }
    fn("watch")(a);
    if (shape_out) {
        auto s = py::cast<std::vector<std::size_t>>(a.attr("shape"));
        *shape_out = Size_vector(s.begin(), s.end());
    }
    return a;
}
// The elements of an array in their logical order.
Str array_text(const py::object &a)
{
    Py_buffer b{};
    if (PyObject_GetBuffer(a.ptr(), &b, PyBUF_STRIDES | PyBUF_FORMAT) != 0) throw py::error_already_set();
    Str s = items(b);
    PyBuffer_Release(&b);
    return s;
}
bool supported(const py::object &a)
{
    auto n = py::cast<Str>(a.attr("dtype").attr("name"));
    return n != "bool" && n.compare(0, 7, "complex") != 0;
}
Data_type type_of(const py::object &a)
{
    auto n = py::cast<Str>(a.attr("dtype").attr("name"));
    static const std::map<Str, Data_type> m{{"int8", Data_type::int8}, {"uint8", Data_type::uint8}, {"int16", Data_type::int16}, {"uint16", Data_type::uint16},
        {"int32", Data_type::int32}, {"uint32", Data_type::uint32}, {"int64", Data_type::int64}, {"uint64", Data_type::uint64},
        {"float16", Data_type::float16}, {"float32", Data_type::float32}, {"float64", Data_type::float64}};
    return m.at(n);
}

void from_numpy(World &w)
{
    Size_vector shape;
    py::object a = random_array(&shape);
    auto refs = a.ref_count();
    Str text = array_text(a);
    bool c_order = py::cast<bool>(a.attr("flags").attr("c_contiguous")), dense = c_order || py::cast<bool>(a.attr("flags").attr("f_contiguous"));
    std::uint32_t how = sim::w(4);
    bool copy = how % 2 == 0;
    py::tuple pshape = a.attr("shape");
    auto c = call("DenseTensor", [&]() -> py::object {
        if (how == 0) return core().attr("DenseTensor")(pshape, a);
        if (how == 1) return core().attr("DenseTensor")(pshape, a, py::none(), false);
        if (how == 2) return fn("mlio_numpy").attr("to_tensor")(a);
        return fn("mlio_numpy").attr("as_tensor")(a);
    });
    if (sim::tracing()) sim::note("from_numpy how=%u %s shape=%s strides=%s: %s %s", how, py::cast<Str>(py::str(a.attr("dtype"))).c_str(), py::cast<Str>(py::str(pshape)).c_str(), py::cast<Str>(py::str(a.attr("strides"))).c_str(), c.type.c_str(), c.what.c_str());
    if (!c.ok) {
        SIM_CHECK(c.type == "ValueError", "wrong-error", "an array of %s raises %s: %s", py::cast<Str>(py::str(a.attr("dtype"))).c_str(), c.type.c_str(), c.what.c_str());
        // An array that is not contiguous can be copied only.
        SIM_CHECK(!supported(a) || (how == 1 && !c_order) || (how == 3 && !dense), "refused", "an array of %s, shape %s and strides %s is refused: %s", py::cast<Str>(py::str(a.attr("dtype"))).c_str(),
                  py::cast<Str>(py::str(pshape)).c_str(), py::cast<Str>(py::str(a.attr("strides"))).c_str(), c.what.c_str());
        sim::probe(supported(a) ? "array refused: not contiguous" : "array refused: type");
        SIM_CHECK(a.ref_count() == refs, "leak", "an array that was refused has %d more references", static_cast<int>(a.ref_count() - refs));
        return;
    }
    SIM_CHECK(supported(a), "accepted", "an array of %s is accepted", py::cast<Str>(py::str(a.attr("dtype"))).c_str());
    Str dtype = py::cast<Str>(py::str(a.attr("dtype"))), strides = py::cast<Str>(py::str(a.attr("strides")));
    auto t = py::cast<Intrusive_ptr<Dense_tensor>>(c.value);
    SIM_CHECK(t->data_type() == type_of(a) && t->shape() == shape, "wrong-tensor", "a tensor made from an array of %s has the type %d", dtype.c_str(), static_cast<int>(t->data_type()));
    Str got = elements(t->data(), t->shape(), t->strides());
    SIM_CHECK(got == text, "wrong-tensor", "a tensor made (%u) from an array of %s, shape %s and strides %s has other elements", how, dtype.c_str(), py::cast<Str>(py::str(pshape)).c_str(), strides.c_str());
    if (c_order || dense) {
        // The memory is shared, or it is not.
        bool shared = !shape.empty() && !text.empty() && t->data().data() == reinterpret_cast<void *>(py::cast<std::size_t>(a.attr("ctypes").attr("data")));
        SIM_CHECK(text.empty() || shared == !copy, "sharing", "copy=%d but the memory is %sshared", copy, shared ? "" : "not ");
    }
    if (!copy) SIM_CHECK(a.ref_count() > refs, "sharing", "a tensor that shares the memory of an array does not hold it");
    w.tensor(c.value);
    // Back to NumPy.
    if (sim::wflip()) {
        py::object b = sim::wone_in(4) ? fn("mlio_tensorflow").attr("to_tf")(c.value) : fn("mlio_numpy").attr(sim::wflip() ? "as_numpy" : "to_numpy")(c.value);
        SIM_CHECK(array_text(b) == text && py::object(b.attr("shape")).equal(pshape), "wrong-buffer", "an array made from a tensor has other elements");
    }
    // The last to go is the array, the tensor, or the buffers.
    std::uint32_t order = sim::w(3);
    t = nullptr;
    if (order == 0) {
        a = py::object();
        w.check();
        c.value = py::object();
        w.check();
    }
    else if (order == 1) {
        c.value = py::object();
        a = py::object();
        w.check();
    }
    else {
        c.value = py::object();
        while (!w.views.empty()) w.drop(w.views.size() - 1);
        SIM_CHECK(a.ref_count() == refs, "leak", "an array has %d more references than before the tensor was made", static_cast<int>(a.ref_count()) - static_cast<int>(refs));
    }
    release_gil_now();
}

void coo_from_numpy(World &w)
{
    std::size_t n = sim::w(6), nd = 1 + sim::w(2);
    auto vec = [&](const char *type, std::uint32_t max) {
        bool part = sim::wone_in(3);
        py::object a = np().attr("zeros")(n * (part ? 2 : 1), type);
        if (part) a = a[py::slice(std::nullopt, std::nullopt, sim::wflip() ? 2 : -2)];
        for (std::size_t i = 0; i < n; ++i) a[py::int_(i)] = py::int_(sim::w(max));
        return a;
    };
    py::object data = vec(sim::wpick(std::vector<const char *>{"float32", "int64", "uint8"}), 100);
    py::list coords;
    std::vector<std::size_t> shape;
    for (std::size_t i = 0; i < nd; ++i) {
        coords.append(vec(sim::wflip() ? "int64" : "uint64", 4));
        shape.push_back(4);
    }
    bool copy = sim::wflip();
    auto contiguous = [](py::handle a) { return py::cast<bool>(a.attr("flags").attr("c_contiguous")); };
    bool all = contiguous(data);
    for (auto c : coords) all = all && contiguous(c);
    fn("watch")(data);
    for (auto c : coords) fn("watch")(c);
    auto refs = data.ref_count();
    auto c = call("CooTensor", [&] { return core().attr("CooTensor")(py::cast(shape), data, coords, copy); });
    if (!c.ok) {
        SIM_CHECK(c.type == "ValueError", "wrong-error", "CooTensor raises %s: %s", c.type.c_str(), c.what.c_str());
        SIM_CHECK(!copy && !all, "refused", "arrays of coordinates are refused: %s", c.what.c_str());
        SIM_CHECK(data.ref_count() == refs, "leak", "references to the data that was refused");
        return;
    }
    {
        auto t = py::cast<Intrusive_ptr<Coo_tensor>>(c.value);
        Size_vector one{n};
        SIM_CHECK(elements(t->data(), one, {1}) == array_text(data), "wrong-tensor", "the data of a COO tensor");
        for (std::size_t i = 0; i < nd; ++i) SIM_CHECK(elements(t->indices(i), one, {1}) == array_text(coords[i]), "wrong-tensor", "the indices of a COO tensor");
    }
    w.tensor(c.value);
    if (sim::wflip()) {
        // To SciPy and back.
        Str text = array_text(data);
        auto m = call("to_coo_matrix", [&] { return fn("mlio_scipy").attr("to_coo_matrix")(c.value); });
        SIM_CHECK(m.ok, "refused", "to_coo_matrix raises %s: %s", m.type.c_str(), m.what.c_str());
        py::object row = py::int_(0), col = coords[nd - 1];
        if (nd == 2) row = coords[0];
        SIM_CHECK(array_text(m.value.attr("data")) == text && py::cast<bool>((m.value.attr("row").attr("__eq__")(row)).attr("all")()) && py::cast<bool>((m.value.attr("col").attr("__eq__")(col)).attr("all")()),
                  "wrong-buffer", "a matrix made from a COO tensor has other elements");
        if (sim::wflip()) {
            auto tf = call("to_tf", [&] { return fn("mlio_tensorflow").attr("to_tf")(c.value); });
            SIM_CHECK(tf.ok, "refused", "to_tf raises %s: %s", tf.type.c_str(), tf.what.c_str());
            SIM_CHECK(fn("sparse_cells")(tf.value).equal(fn("coo_cells")(m.value.attr("data"), m.value.attr("row"), m.value.attr("col"))), "wrong-buffer", "a sparse tensor of TensorFlow made from a COO tensor has other elements");
            sim::probe("sparse TensorFlow tensor");
        }
        auto t = call("to_tensor", [&] { return fn("mlio_scipy").attr("to_tensor")(m.value); });
        SIM_CHECK(t.ok, "refused", "to_tensor raises %s: %s", t.type.c_str(), t.what.c_str());
        m.value = py::object();
        w.tensor(t.value);
        auto u = py::cast<Intrusive_ptr<Coo_tensor>>(t.value);
        SIM_CHECK(elements(u->data(), {n}, {1}) == text, "wrong-tensor", "a tensor made from a matrix has other elements");
    }
    if (sim::wflip()) data = py::object();
    coords = py::list();
    w.check();
    c.value = py::object();
    w.check();
}

// ------------------------------------------------------------ strings
void strings(World &w)
{
    std::size_t n = 1 + sim::w(6);
    std::vector<std::string> v;
    for (std::size_t i = 0; i < n; ++i) v.push_back(sim::wone_in(4) ? Str{"ab\xff"} : sim::wone_in(3) ? Str{"\xc3\xa4\0x", 4} : Str(sim::w(5), 'y'));
    auto t = make_intrusive<Dense_tensor>(Size_vector{n}, wrap_cpu_array<Data_type::string>(std::move(v)));
    py::object o = py::cast(Intrusive_ptr<Dense_tensor>{t});
    w.tensor(o);
    // A tensor of strings can be copied only.
    bool bad = World::has_bad_text(t->data());
    auto c = call("DenseTensor", [&] { return core().attr("DenseTensor")(py::make_tuple(n), o.attr("data"), py::none(), false); });
    SIM_CHECK(!c.ok, "accepted", "a buffer of strings is shared");
    PyErr_Clear();
    c = call("DenseTensor", [&] { return core().attr("DenseTensor")(py::make_tuple(n), o.attr("data")); });
    if (bad) SIM_CHECK(!c.ok, "bad-text", "a tensor is made from text that is not UTF-8");
    else {
        SIM_CHECK(c.ok, "refused", "a buffer of strings is refused: %s %s", c.type.c_str(), c.what.c_str());
        auto u = py::cast<Intrusive_ptr<Dense_tensor>>(c.value);
        SIM_CHECK(elements(u->data(), u->shape(), u->strides()) == elements(t->data(), t->shape(), t->strides()), "wrong-tensor", "a copy of strings differs");
    }
    PyErr_Clear();
    o = py::object();
    c.value = py::object();
    t = nullptr;
    w.check();
}

// ------------------------------------------------------------ memory stores, streams and slices
void streams(World &w)
{
    Str bytes;
    for (std::size_t i = sim::w(200); i > 0; --i) bytes.push_back(static_cast<char>(sim::w(256)));
    bool array = sim::wflip(), numpy = sim::wone_in(3);
    py::object src = numpy ? fn("array_of")(py::bytes(bytes)) : array ? py::object(py::bytearray(bytes)) : py::object(py::bytes(bytes));
    auto refs = src.ref_count();
    bool gz = sim::wone_in(3);
    if (numpy) array = false;
    if (gz) src = py::bytes(wk::gz_random(bytes)), refs = src.ref_count(), array = false;
    py::object store = core().attr("InMemoryStore")(src, gz ? core().attr("Compression").attr("GZIP") : core().attr("Compression").attr("NONE"));
    if (bytes.size() > 1) SIM_CHECK(src.ref_count() > refs, "sharing", "a store does not hold its buffer");
    py::object s = store.attr("open_read")();
    if (sim::wflip()) store = py::object();
    std::size_t pos = 0;
    std::vector<py::object> slices;
    for (std::uint32_t k = 1 + sim::w(6); k > 0; --k) {
        std::size_t n = sim::w(80);
        if (sim::wflip()) {
            py::object buf = py::bytearray(Str(n, '\x55'));
            sim::Op_scope op("read");
            auto r = py::cast<std::size_t>(s.attr("read")(buf));
            SIM_CHECK(r <= n && (r != 0 || n == 0 || pos == bytes.size()), "wrong-read", "read(%zu) returns %zu at %zu of %zu", n, r, pos, bytes.size());
            auto got = py::cast<Str>(py::reinterpret_steal<py::object>(PyObject_Bytes(buf.ptr())));
            SIM_CHECK(got.substr(0, r) == bytes.substr(pos, r) && got.substr(r) == Str(n - r, '\x55'), "wrong-read", "read fills a buffer with other bytes");
            SIM_CHECK(buf.ref_count() == 1, "leak", "a buffer that was filled has %d references", static_cast<int>(buf.ref_count()));
            buf.attr("extend")(py::bytes("x"));  // not locked any more
            pos += r;
        }
        else {
            sim::Op_scope op("read");
            py::object x = s.attr("read")(n);
            View v;
            v.what = "a memory slice";
            if (PyObject_GetBuffer(x.ptr(), &v.b, PyBUF_STRIDES | PyBUF_FORMAT) != 0) throw py::error_already_set();
            Str got(static_cast<char *>(v.b.buf), static_cast<std::size_t>(v.b.len));
            SIM_CHECK(got.size() <= n && got == bytes.substr(pos, got.size()) && (!got.empty() || n == 0 || pos == bytes.size()), "wrong-read", "read(%zu) returns %zu other bytes", n, got.size());
            SIM_CHECK(v.b.readonly, "writable-slice", "the buffer of a memory slice can be written to");
            pos += got.size();
            v.text = items(v.b);
            w.views.push_back(v);
            if (sim::wflip()) slices.push_back(x);
        }
        SIM_CHECK(gz || py::cast<std::size_t>(s.attr("position")) == pos, "wrong-read", "position");
        if (!gz && sim::wone_in(4)) {
            pos = sim::w(static_cast<std::uint32_t>(bytes.size() + 1));
            s.attr("seek")(pos);
        }
        release_gil_now();
    }
    if (array) {
        auto c = call("extend", [&] { return src.attr("extend")(py::bytes("x")); });
        SIM_CHECK(!c.ok && c.type == "BufferError", "sharing", "the buffer of an open stream can be resized");
    }
    if (sim::wflip()) {
        s.attr("close")();
        SIM_CHECK(py::cast<bool>(s.attr("closed")), "wrong-read", "closed");
        auto c = call("read", [&] { return s.attr("read")(3); });
        SIM_CHECK(!c.ok, "wrong-read", "a closed stream can be read");
    }
    s = py::object();
    store = py::object();
    w.check();
    slices.clear();
    w.check();
    while (!w.views.empty()) w.drop(w.views.size() - 1);
    SIM_CHECK(src.ref_count() == refs, "leak", "%d references to the buffer of a store are left", static_cast<int>(src.ref_count()) - static_cast<int>(refs));
    if (array) src.attr("extend")(py::bytes("x"));
}

// ------------------------------------------------------------ DLPack
void dlpack(World &)
{
    Size_vector shape;
    py::object a = random_array(&shape);
    bool copy = sim::wflip();
    auto refs = a.ref_count();
    auto c = call("DenseTensor", [&] { return core().attr("DenseTensor")(a.attr("shape"), a, py::none(), copy); });
    if (!c.ok) return;
    Str text = array_text(a);
    bool other = sim::wone_in(6);
    auto cap = call("as_dlpack", [&] { return core().attr("as_dlpack")(c.value, other ? 1 : DLPACK_VERSION); });
    SIM_CHECK(cap.ok == !other, "wrong-error", "as_dlpack (%s version): %s: %s", other ? "another" : "right", cap.type.c_str(), cap.what.c_str());
    if (!cap.ok) {
        SIM_CHECK(cap.type == "NotSupportedError" || cap.type == "ValueError", "wrong-error", "as_dlpack raises %s: %s", cap.type.c_str(), cap.what.c_str());
        return;
    }
    c.value = py::object();
    if (sim::wone_in(3)) {  // nobody takes it
        cap.value = py::object();
        SIM_CHECK(a.ref_count() == refs, "leak", "%d references to an array are left", static_cast<int>(a.ref_count()) - static_cast<int>(refs));
        return;
    }
    auto *m = static_cast<DLManagedTensor *>(PyCapsule_GetPointer(cap.value.ptr(), "dltensor"));
    SIM_CHECK(m != nullptr, "wrong-capsule", "the capsule is not named dltensor");
    PyCapsule_SetName(cap.value.ptr(), "used_dltensor");
    cap.value = py::object();
    std::size_t z = m->dl_tensor.dtype.bits / 8, n = 1;
    for (int i = 0; i < m->dl_tensor.ndim; ++i) n *= static_cast<std::size_t>(m->dl_tensor.shape[i]);
    auto look = [&] {
        Str got;
        for (std::size_t i = 0; i < n; ++i) got += Str{static_cast<char *>(m->dl_tensor.data) + m->dl_tensor.byte_offset + i * z, z} + "\x1e";
        SIM_CHECK(got == text, "wrong-tensor", "a DLPack tensor has other elements");
    };
    look();
    bool last = sim::wflip();
    sim::probe(copy ? "DLPack tensor of a copy" : last ? "last reference held by a DLPack tensor" : "DLPack tensor of a shared array");
    if (last) {
        refs -= 1;
        a = py::object();
    }
    // Who took it frees it where it likes, without the GIL.
    sim::Thread t([&] {
        look();
        if (sim::wone_in(3)) {
            py::gil_scoped_acquire g;
            m->deleter(m);
        }
        else m->deleter(m);
    });
    for (std::uint32_t k = sim::w(4); k > 0; --k) {
        py::object x = py::bytearray(Str(100, 'z'));
        release_gil_now();
    }
    {
        py::gil_scoped_release r;
        t.join();
    }
    if (!last) SIM_CHECK(a.ref_count() == refs, "leak", "%d references to an array are left", static_cast<int>(a.ref_count()) - static_cast<int>(refs));
}

// ------------------------------------------------------------ records
void records(World &w)
{
    Str file = "PAR1";
    for (std::size_t i = 4 + sim::w(60); i > 0; --i) file.push_back(static_cast<char>('a' + sim::w(26)));
    std::uint32_t meta = 9 + sim::w(5);
    file += "\x15" + Str(meta - 2, 'm') + '\0';
    file.append(reinterpret_cast<char *>(&meta), 4);
    file += "PAR1";
    std::uint32_t k = 1 + sim::w(3);
    Str all;
    for (std::uint32_t i = 0; i < k; ++i) all += file;
    py::object store = core().attr("InMemoryStore")(py::bytes(all));
    py::object r = core().attr("ParquetRecordReader")(store.attr("open_read")());
    store = py::object();
    std::uint32_t got = 0;
    py::object it = r.attr("__iter__")();
    r = py::object();
    while (PyObject *x = PyIter_Next(it.ptr())) {
        auto rec = py::reinterpret_steal<py::object>(x);
        View v;
        v.what = "a record";
        if (PyObject_GetBuffer(rec.ptr(), &v.b, PyBUF_STRIDES | PyBUF_FORMAT) != 0) throw py::error_already_set();
        Str s(static_cast<char *>(v.b.buf), static_cast<std::size_t>(v.b.len));
        SIM_CHECK(s == file, "wrong-record", "record %u is '%s'", got, wk::esc(s).c_str());
        SIM_CHECK(v.b.readonly, "writable-slice", "the buffer of a record can be written to");
        v.text = items(v.b);
        w.views.push_back(v);
        ++got;
    }
    bool e = PyErr_Occurred() != nullptr;
    PyErr_Clear();
    SIM_CHECK(!e && got == k, "wrong-record", "%u records, expected %u", got, k);
    it = py::object();
    w.check();
}

void script(int id)
{
    World w;
    for (std::uint32_t k = 1 + sim::w(3); k > 0; --k) {
        switch (sim::w(8)) {
        case 0: read_examples(w, id * 10 + static_cast<int>(k)); break;
        case 1:
        case 2: from_numpy(w); break;
        case 3: coo_from_numpy(w); break;
        case 4: strings(w); break;
        case 5: streams(w); break;
        case 6: dlpack(w); break;
        case 7: records(w); break;
        }
        w.check();
        if (sim::wflip()) fn("collect")();
    }
}

void run()
{
    Python python;
    wk::random_knobs();
    wk::random_legal_io();
    std::vector<std::unique_ptr<sim::Thread>> t;
    std::uint32_t n = sim::w(3);
    for (std::uint32_t i = 0; i < n; ++i) t.push_back(thread([i] { script(static_cast<int>(i) + 1); }));
    script(0);
    py::gil_scoped_release r;
    sim::Op_scope s("join");
    for (auto &x : t) x->join();
    py::gil_scoped_acquire g;
    fn("collect")();
    SIM_CHECK(py::len(fn("watched")) == 0, "leak", "%zu arrays are still there at the end", py::len(fn("watched")));
}
SIM_WORKLOAD("C31", run);
}  // namespace
