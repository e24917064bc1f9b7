#include "py.h"

#include <unistd.h>

#include <mlio/logging.h>

extern "C" PyObject *PyInit__core();

namespace wkpy {
using namespace mlio;
using wk::Str;

namespace {
PyThreadState *main_state;
py::module_ *core_module, *support;

const char *support_text = R"(
import gc, sys, types, weakref, importlib.util
sys.path.append('/usr/lib/python3/dist-packages')
import numpy, numpy.core._internal

# The NumPy integration of the package, over the bindings under test.
mlio = types.ModuleType('mlio')
mlio._core = core
sys.modules['mlio'] = mlio
sys.modules['mlio._core'] = core
# Stand-ins of SciPy and pandas.
class coo_matrix:
    def __init__(self, arg, shape, copy=False):
        data, (row, col) = arg
        assert data.ndim == row.ndim == col.ndim == 1 and data.size == row.size == col.size and len(shape) == 2
        self.data, self.row, self.col, self.shape = numpy.array(data), numpy.array(row), numpy.array(col), shape
    def tocsr(self):
        return csr_matrix(self)
    tocoo = lambda self: self
# Row by row, duplicates summed, explicit zeros kept.
class csr_matrix:
    def __init__(self, m):
        d = {}
        for v, r, c in zip(m.data, m.row, m.col):
            k = (int(r), int(c))
            d[k] = d[k] + v if k in d else v
        k = sorted(d)
        self.data, self.shape = numpy.array([d[x] for x in k], dtype=m.data.dtype), m.shape
        self.row, self.col = (numpy.array([x[i] for x in k], dtype='int32') for i in (0, 1))
    def tocoo(self):
        return coo_matrix((self.data, (self.row, self.col)), self.shape)
    def nonzero(self):
        z = self.data != 0
        return self.row[z], self.col[z]
class DataFrame:
    def __init__(self, data):
        self.data = data
scipy = types.ModuleType('scipy')
scipy.sparse = types.ModuleType('scipy.sparse')
scipy.sparse.coo_matrix = coo_matrix
pandas = types.ModuleType('pandas')
pandas.DataFrame = DataFrame
# A stand-in of TensorFlow.
class SparseTensor:
    def __init__(self, indices, values, shape):
        self.indices, self.values, self.shape = numpy.array(indices), numpy.array(values), shape
        assert self.indices.shape == (self.values.size, len(shape)), 'TensorFlow refuses %s indices of %s values' % (self.indices.shape, self.values.shape)
tensorflow = types.ModuleType('tensorflow')
tensorflow.SparseTensor = SparseTensor
tensorflow.convert_to_tensor = numpy.array
mlio.DenseTensor = core.DenseTensor
sys.modules.update({'scipy': scipy, 'scipy.sparse': scipy.sparse, 'pandas': pandas, 'tensorflow': tensorflow, 'mlio.integ': types.ModuleType('mlio.integ')})
def load(name):
    spec = importlib.util.spec_from_file_location('mlio.integ.' + name, integ + '/' + name + '.py')
    m = importlib.util.module_from_spec(spec)
    sys.modules['mlio.integ.' + name] = m
    spec.loader.exec_module(m)
    return m
mlio_numpy, mlio_scipy, mlio_pandas, mlio_tensorflow = load('numpy'), load('scipy'), load('pandas'), load('tensorflow')

# The cells of a sparse tensor of TensorFlow.
def sparse_cells(t):
    return {tuple(int(x) for x in i): v for i, v in zip(t.indices, t.values)}
def coo_cells(data, row, col):
    d = {}
    for v, r, c in zip(data, row, col):
        k = (int(r), int(c))
        d[k] = d[k] + v if k in d else v
    return d

def collect():
    gc.collect()

# Objects of which the last reference may be dropped by a thread of the library.
watched = []
def gone(r):
    watched.remove(r)
def watch(o):
    watched.append(weakref.ref(o, gone))
    return o
def array_of(data):
    return watch(numpy.array(list(data), dtype='uint8'))
)";
}  // namespace
}  // namespace wkpy

namespace sim {
// Before any run is forked.
void warm_up_more()
{
    using namespace wkpy;
    setenv("OPENBLAS_NUM_THREADS", "1", 1);
    PyImport_AppendInittab("_core", &PyInit__core);
    PyPreConfig pre;
    PyPreConfig_InitIsolatedConfig(&pre);
    pre.allocator = PYMEM_ALLOCATOR_MALLOC;  // the sanitizer sees every object
    pre.utf8_mode = 1;
    PyStatus st = Py_PreInitialize(&pre);
    if (PyStatus_Exception(st)) _exit(7);
    PyConfig cfg;
    PyConfig_InitIsolatedConfig(&cfg);
    cfg.use_hash_seed = 1;
    cfg.hash_seed = 0;
    cfg.site_import = 0;
    cfg.install_signal_handlers = 0;
    cfg.write_bytecode = 0;
    st = Py_InitializeFromConfig(&cfg);
    if (PyStatus_Exception(st)) {
        fprintf(stderr, "SIM-INTERNAL: the interpreter does not start: %s\n", st.err_msg ? st.err_msg : "?");
        _exit(7);
    }
    PyConfig_Clear(&cfg);
    try {
        core_module = new py::module_(py::module_::import("_core"));
        support = new py::module_(py::reinterpret_steal<py::module_>(PyModule_New("support")));
        py::dict g = support->attr("__dict__");
        g["__builtins__"] = py::module_::import("builtins");
        g["core"] = *core_module;
        g["integ"] = MLIO_PY_INTEG;
        py::exec(support_text, g);
        py::module_::import("datetime");
        py::module_::import("traceback");
    }
    catch (const std::exception &e) {
        fprintf(stderr, "SIM-INTERNAL: the bindings do not load: %s\n", e.what());
        _exit(7);
    }
    main_state = PyEval_SaveThread();
}
}  // namespace sim

namespace wkpy {
Python::Python() { PyEval_RestoreThread(main_state); }
Python::~Python()
{
    if (main_state != nullptr) main_state = PyEval_SaveThread();
}
void exit_python()
{
    sim::Op_scope s("exit");
    main_state = nullptr;
    Py_FinalizeEx();
    // The static objects of the library follow.
    mlio::set_log_message_handler({});
    sim::probe("Python exited");
}
py::module_ &core() { return *core_module; }
py::object fn(const char *name) { return support->attr(name); }

std::unique_ptr<sim::Thread> thread(std::function<void()> f)
{
    return std::make_unique<sim::Thread>([f] {
        py::gil_scoped_acquire gil;
        f();
    });
}

Call call(const char *op, const std::function<py::object()> &f)
{
    Call c;
    sim::Op_scope s(op);
    try {
        c.value = f();
        c.ok = true;
    }
    catch (py::error_already_set &e) {
        c.type = py::cast<Str>(e.type().attr("__name__"));
        c.what = py::cast<Str>(py::str(e.value()));
        py::object cause = py::getattr(e.value(), "__cause__", py::none());
        if (!cause.is_none()) c.cause = py::cast<Str>(py::type::of(cause).attr("__name__")) + Str{": "} + py::cast<Str>(py::str(cause));
    }
    return c;
}

namespace {
template<typename T>
py::object opt(const std::optional<T> &o)
{
    return o ? py::cast(*o) : py::object(py::none());
}

// Makes a parameter object. The arguments are in the documented order: some
// are given by position, some by name, some are set afterwards, and those that
// are what an object made without them has may be left alone.
py::object settle(const char *cls, const std::vector<std::pair<Str, py::object>> &args, std::size_t required)
{
    py::object c = core().attr(cls);
    std::size_t by_position = required;
    if (sim::wone_in(4)) by_position = sim::w(static_cast<std::uint32_t>(args.size() + 1));
    py::list pos;
    py::dict kw, later, all;
    for (std::size_t i = 0; i < args.size(); ++i) {
        auto &a = args[i];
        if (i < by_position && by_position > required) pos.append(a.second);
        else if (i < required || sim::w(4) != 3) kw[py::str(a.first)] = a.second;
        else later[py::str(a.first)] = a.second;
    }
    py::object r = c(*pos, **kw);
    std::uint32_t left = 0;
    for (auto x : later) {
        if (py::getattr(r, x.first).equal(x.second)) {
            ++left;
            continue;
        }
        py::setattr(r, x.first, x.second);
    }
    if (left != 0) sim::probe("a parameter left at its default");
    for (auto &a : args)
        if (a.first != "number_base" && a.first != "parser_options" && a.first != "sample_ratio" && a.first != "dataset")
            SIM_CHECK(py::getattr(r, a.first.c_str()).equal(a.second), "wrong-parameters", "%s.%s is %s, given %s", cls, a.first.c_str(), py::cast<Str>(py::repr(py::getattr(r, a.first.c_str()))).c_str(), py::cast<Str>(py::repr(a.second)).c_str());
    return r;
}

py::object parser_params(const Parser_options &o)
{
    py::object r = settle("ParserParams", {{"nan_values", py::cast(o.nan_values)}, {"number_base", py::cast(o.base)}}, 0);
    const auto &g = r.cast<const Parser_options &>();
    SIM_CHECK(g.nan_values == o.nan_values && g.base == o.base, "wrong-parameters", "the fields of ParserParams do not reach the library");
    return r;
}
#define SAME(T, f) SIM_CHECK(g.f == want.f, "wrong-parameters", "the field " #f " of " #T " does not reach the library")
void same(const Data_reader_params &g, const Data_reader_params &want)
{
    SAME(DataReaderParams, dataset);
    SAME(DataReaderParams, batch_size);
    SAME(DataReaderParams, num_prefetched_examples);
    SAME(DataReaderParams, num_parallel_reads);
    SAME(DataReaderParams, last_example_handling);
    SAME(DataReaderParams, bad_example_handling);
    SAME(DataReaderParams, warn_bad_instances);
    SAME(DataReaderParams, num_instances_to_skip);
    SAME(DataReaderParams, num_instances_to_read);
    SAME(DataReaderParams, shard_index);
    SAME(DataReaderParams, num_shards);
    SAME(DataReaderParams, sample_ratio);
    SAME(DataReaderParams, shuffle_instances);
    SAME(DataReaderParams, shuffle_window);
    SAME(DataReaderParams, shuffle_seed);
    SAME(DataReaderParams, reshuffle_each_epoch);
}
void same(const Csv_params &g, const Csv_params &want)
{
    SAME(CsvParams, column_names);
    SAME(CsvParams, name_prefix);
    SAME(CsvParams, use_columns);
    SAME(CsvParams, use_columns_by_index);
    SAME(CsvParams, default_data_type);
    SAME(CsvParams, column_types);
    SAME(CsvParams, column_types_by_index);
    SAME(CsvParams, header_row_index);
    SAME(CsvParams, has_single_header);
    SAME(CsvParams, dedupe_column_names);
    SAME(CsvParams, delimiter);
    SAME(CsvParams, quote_char);
    SAME(CsvParams, comment_char);
    SAME(CsvParams, allow_quoted_new_lines);
    SAME(CsvParams, skip_blank_lines);
    SAME(CsvParams, encoding);
    SAME(CsvParams, max_field_length);
    SAME(CsvParams, max_field_length_handling);
    SAME(CsvParams, max_line_length);
    SAME(CsvParams, parser_options.nan_values);
    SAME(CsvParams, parser_options.base);
}
void same(const Image_reader_params &g, const Image_reader_params &want)
{
    SAME(ImageReaderParams, image_frame);
    SAME(ImageReaderParams, resize);
    SAME(ImageReaderParams, image_dimensions);
    SAME(ImageReaderParams, to_rgb);
}
#undef SAME
}  // namespace

py::object reader_params(const Data_reader_params &p, const py::list &dataset)
{
    py::object r = settle("DataReaderParams", {
        {"dataset", dataset},
        {"batch_size", py::cast(p.batch_size)},
        {"num_prefetched_examples", py::cast(p.num_prefetched_examples)},
        {"num_parallel_reads", py::cast(p.num_parallel_reads)},
        {"last_example_handling", py::cast(p.last_example_handling)},
        {"bad_example_handling", py::cast(p.bad_example_handling)},
        {"warn_bad_instances", py::cast(p.warn_bad_instances)},
        {"num_instances_to_skip", py::cast(p.num_instances_to_skip)},
        {"num_instances_to_read", opt(p.num_instances_to_read)},
        {"shard_index", py::cast(p.shard_index)},
        {"num_shards", py::cast(p.num_shards)},
        {"sample_ratio", opt(p.sample_ratio)},
        {"shuffle_instances", py::cast(p.shuffle_instances)},
        {"shuffle_window", py::cast(p.shuffle_window)},
        {"shuffle_seed", opt(p.shuffle_seed)},
        {"reshuffle_each_epoch", py::cast(p.reshuffle_each_epoch)}}, 2);
    Data_reader_params want = p;
    want.dataset = dataset.cast<std::vector<Intrusive_ptr<Data_store>>>();
    same(r.cast<const Data_reader_params &>(), want);
    return r;
}

py::object csv_params(const Csv_params &c)
{
    auto ch = [](char x) { return py::object(py::str(Str(1, x))); };
    py::object r = settle("CsvParams", {
        {"column_names", py::cast(c.column_names)},
        {"name_prefix", py::cast(c.name_prefix)},
        {"use_columns", py::cast(c.use_columns)},
        {"use_columns_by_index", py::cast(c.use_columns_by_index)},
        {"default_data_type", opt(c.default_data_type)},
        {"column_types", py::cast(c.column_types)},
        {"column_types_by_index", py::cast(c.column_types_by_index)},
        {"header_row_index", opt(c.header_row_index)},
        {"has_single_header", py::cast(c.has_single_header)},
        {"dedupe_column_names", py::cast(c.dedupe_column_names)},
        {"delimiter", ch(c.delimiter)},
        {"quote_char", ch(c.quote_char)},
        {"comment_char", c.comment_char ? ch(*c.comment_char) : py::none()},
        {"allow_quoted_new_lines", py::cast(c.allow_quoted_new_lines)},
        {"skip_blank_lines", py::cast(c.skip_blank_lines)},
        {"encoding", c.encoding ? py::object(py::str(c.encoding->name())) : py::none()},
        {"max_field_length", opt(c.max_field_length)},
        {"max_field_length_handling", py::cast(c.max_field_length_handling)},
        {"max_line_length", opt(c.max_line_length)},
        {"parser_options", parser_params(c.parser_options)}}, 0);
    same(r.cast<const Csv_params &>(), c);
    return r;
}

py::object image_params(const Image_reader_params &i)
{
    py::object r = settle("ImageReaderParams", {
        {"image_frame", py::cast(i.image_frame)},
        {"resize", opt(i.resize)},
        {"image_dimensions", py::cast(i.image_dimensions)},
        {"to_rgb", py::cast(i.to_rgb)}}, 3);
    same(r.cast<const Image_reader_params &>(), i);
    return r;
}

// Parameters of any kind reach the library as they are.
void any_params(const std::vector<Intrusive_ptr<Data_store>> &stores)
{
    auto num = [] { return sim::wflip() ? sim::w(4) : static_cast<std::size_t>(sim::w(1u << 30)) << sim::w(33); };
    auto str = [] {
        Str s;
        for (std::uint32_t k = sim::w(5); k > 0; --k) s += static_cast<char>("ab,;\"\0 \t"[sim::w(8)]);
        return s;
    };
    auto type = [] { return static_cast<Data_type>(sim::w(13)); };
    auto ch = [] { return static_cast<char>(sim::w(128)); };
    Data_reader_params p{};
    p.dataset = stores;
    p.batch_size = num();
    p.num_prefetched_examples = num();
    p.num_parallel_reads = num();
    p.last_example_handling = static_cast<Last_example_handling>(sim::w(5));
    p.bad_example_handling = static_cast<Bad_example_handling>(sim::w(5));
    p.warn_bad_instances = sim::wflip();
    p.num_instances_to_skip = num();
    if (sim::wflip()) p.num_instances_to_read = num();
    p.shard_index = num();
    p.num_shards = num();
    if (sim::wflip()) p.sample_ratio = static_cast<float>(sim::w(1000)) / 1024.0f;
    p.shuffle_instances = sim::wflip();
    p.shuffle_window = num();
    if (sim::wflip()) p.shuffle_seed = num();
    p.reshuffle_each_epoch = sim::wflip();
    reader_params(p, py::cast(stores));
    Csv_params c{};
    auto some = [] { return sim::wflip() ? 0u : sim::w(4); };
    for (std::uint32_t k = some(); k > 0; --k) c.column_names.push_back(str());
    c.name_prefix = str();
    for (std::uint32_t k = some(); k > 0; --k) c.use_columns.insert(str());
    for (std::uint32_t k = some(); k > 0; --k) c.use_columns_by_index.insert(num());
    if (sim::wflip()) c.default_data_type = type();
    for (std::uint32_t k = some(); k > 0; --k) c.column_types[str()] = type();
    for (std::uint32_t k = some(); k > 0; --k) c.column_types_by_index[num()] = type();
    if (sim::wflip()) c.header_row_index = {};
    else if (sim::wflip()) c.header_row_index = num();
    c.has_single_header = sim::wflip();
    c.dedupe_column_names = sim::wflip();
    if (sim::wflip()) c.delimiter = ch();
    if (sim::wflip()) c.quote_char = ch();
    if (sim::wflip()) c.comment_char = ch();
    c.allow_quoted_new_lines = sim::wflip();
    c.skip_blank_lines = sim::wflip();
    if (sim::wflip()) c.encoding = Text_encoding{str()};
    if (sim::wflip()) c.max_field_length = num();
    c.max_field_length_handling = static_cast<Max_field_length_handling>(sim::w(3));
    if (sim::wflip()) c.max_line_length = num();
    for (std::uint32_t k = some(); k > 0; --k) c.parser_options.nan_values.insert(str());
    if (sim::wflip()) c.parser_options.base = static_cast<int>(sim::w(40));
    csv_params(c);
    Image_reader_params i{};
    i.image_frame = sim::wflip() ? Image_frame::none : Image_frame::recordio;
    if (sim::wflip()) i.resize = num();
    for (std::uint32_t k = some(); k > 0; --k) i.image_dimensions.push_back(num());
    i.to_rgb = sim::wflip();
    image_params(i);
}

py::object make_reader(const wk::Dataset &d, const Data_reader_params &p, const py::list &dataset)
{
    py::object ps = reader_params(p, dataset);
    switch (d.fmt) {
    case wk::Fmt::csv: return core().attr("CsvReader")(ps, csv_params(d.csv));
    case wk::Fmt::text: return core().attr("TextLineReader")(ps);
    case wk::Fmt::recordio: return core().attr("RecordIOProtobufReader")(ps);
    default: return core().attr("ImageReader")(ps, image_params(d.img));
    }
}

py::list store_objects(const wk::Stores &st)
{
    py::list l;
    for (auto &s : st.list) l.append(py::cast(s));
    return l;
}
}  // namespace wkpy
