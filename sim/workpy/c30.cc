// C30: a Python program gets what a C++ program gets, and never hangs.
#include "py.h"

#include <mlio/logging.h>

namespace {
using namespace mlio;
using namespace wkpy;
using wk::Str;

const std::vector<std::pair<Str, Str>> error_names{
    {"Not_supported_error", "NotSupportedError"}, {"Invalid_instance_error", "InvalidInstanceError"}, {"Schema_error", "SchemaError"},
    {"Data_reader_error", "DataReaderError"}, {"Record_too_large_error", "RecordTooLargeError"}, {"Corrupt_footer_error", "CorruptFooterError"},
    {"Corrupt_header_error", "CorruptHeaderError"}, {"Corrupt_record_error", "CorruptRecordError"}, {"Record_error", "RecordError"},
    {"Inflate_error", "InflateError"}, {"Stream_error", "StreamError"}, {"Mlio_error", "MLIOError"}};

// What the exception is in Python: the class, and errno for an OSError.
void py_error(const std::exception &e, std::vector<Str> &chain)
{
    Str t;
    if (auto *s = dynamic_cast<const std::system_error *>(&e)) t = "OSError:" + std::to_string(s->code().value());
    else if (dynamic_cast<const std::bad_alloc *>(&e)) t = "MemoryError";
    else if (dynamic_cast<const Mlio_error *>(&e)) {
        wk::Outcome o;
        wk::guarded(o, [&] {  // its most derived class
            if (auto *x = dynamic_cast<const Not_supported_error *>(&e)) throw *x;
            if (auto *x = dynamic_cast<const Invalid_instance_error *>(&e)) throw *x;
            if (auto *x = dynamic_cast<const Schema_error *>(&e)) throw *x;
            if (auto *x = dynamic_cast<const Data_reader_error *>(&e)) throw *x;
            if (auto *x = dynamic_cast<const Record_too_large_error *>(&e)) throw *x;
            if (auto *x = dynamic_cast<const Corrupt_footer_error *>(&e)) throw *x;
            if (auto *x = dynamic_cast<const Corrupt_header_error *>(&e)) throw *x;
            if (auto *x = dynamic_cast<const Corrupt_record_error *>(&e)) throw *x;
            if (auto *x = dynamic_cast<const Record_error *>(&e)) throw *x;
            if (auto *x = dynamic_cast<const Inflate_error *>(&e)) throw *x;
            if (auto *x = dynamic_cast<const Stream_error *>(&e)) throw *x;
            throw *dynamic_cast<const Mlio_error *>(&e);
        });
        Str n = o.type.substr(o.type.rfind(':') + 1);
        for (auto &p : error_names)
            if (p.first == n) t = p.second;
    }
    else if (dynamic_cast<const std::invalid_argument *>(&e)) t = "ValueError";
    else t = "RuntimeError";
    // Only OSError has its own text in Python.
    chain.push_back(t[0] == 'O' ? t : t + ": " + e.what());
    try {
        std::rethrow_if_nested(e);
    }
    catch (const std::exception &n) {
        if (dynamic_cast<const Mlio_error *>(&n) || dynamic_cast<const std::system_error *>(&n)) py_error(n, chain);
    }
}

Str py_text(py::handle v)
{
    if (PyErr_GivenExceptionMatches(v.ptr(), PyExc_OSError)) return "OSError:" + py::cast<Str>(py::str(v.attr("errno")));
    return py::cast<Str>(py::type::of(v).attr("__name__")) + Str{": "} + py::cast<Str>(py::str(v));
}

// The attributes; their order is open where a hash map decides it.
Str schema_text(Str s)
{
    std::vector<Str> v;
    for (std::size_t i = 0, j; (j = s.find("<Attribute", i + 1)) != Str::npos || i < s.size(); i = j) {
        v.push_back(s.substr(i, j - i));
        if (j == Str::npos) break;
    }
    for (auto &x : v)
        while (!x.empty() && strchr(", {}>", x.back()) != nullptr) x.pop_back();
    std::sort(v.begin(), v.end());
    s.clear();
    for (auto &x : v) s += x + ";";
    return s;
}

struct Result {
    std::vector<wk::Ex> ex;
    std::vector<Str> error;  // the exception and its causes
    Str schema;
    std::size_t bytes = 0;
};

// What a C++ program gets.
Result reference(const wk::Dataset &d, const Data_reader_params &p)
{
    Result r;
    try {
        auto reader = wk::make_reader(d, p);
        while (r.ex.size() < 500) {
            auto e = reader->read_example();
            if (!e) break;
            if (r.ex.empty()) r.schema = schema_text(e->schema().repr());
            r.ex.push_back(wk::decode(*e, d));
        }
        r.bytes = reader->num_bytes_read();
    }
    catch (const std::exception &e) {
        py_error(e, r.error);
    }
    return r;
}

// One Python thread and its reader.
struct Prog {
    wk::Dataset d;
    wk::Stores st;
    Data_reader_params p{};
    Result want;
    py::list stores;
    py::object reader, iter;
    std::vector<std::uint8_t> ops;
    std::size_t pos = 0;
    bool exact = true;   // the whole sequence is known
    bool failed = false;
    py::object peeked;
    bool frees_stores = false;
    const std::function<void()> *change_handler = nullptr;
    long choices = 0;    // rows and stores that fail

    void forget()
    {
        pos = 0;
        failed = false;
        peeked = py::object();
        iter = py::object();
    }
    void same_error(py::error_already_set &e, const char *op)
    {
        std::vector<Str> chain;
        py::object v = e.value();
        while (v && !v.is_none() && chain.size() < 20) {
            chain.push_back(py_text(v));
            v = py::getattr(v, "__cause__", py::none());
        }
        Str got, exp;
        for (auto &c : chain) got += "\n  " + c;
        for (auto &c : want.error) exp += "\n  " + c;
        SIM_CHECK(!want.error.empty(), "unexpected-error", "%s fails in Python after %zu examples, not in C++:%s", op, pos, got.c_str());
        if (choices > 1 || want.error[0].compare(0, 10, "ValueError") == 0) {  // any of them may come first; names of a hash set
            got = chain[0].substr(0, chain[0].find(": "));
            exp = want.error[0].substr(0, want.error[0].find(": "));
        }
        SIM_CHECK(got == exp, "wrong-error", "%s raises%s\nbut the error in C++ is%s", op, got.c_str(), exp.c_str());
        failed = true;
        sim::probe("an error in Python");
    }
    bool open()
    {
        forget();
        try {
            sim::Op_scope s("make_reader");
            reader = make_reader(d, p, stores);
        }
        catch (py::error_already_set &e) {
            same_error(e, "the constructor");
            return false;
        }
        if (frees_stores) {  // the reader has what it needs
            stores = py::list();
            st.list.clear();
            p.dataset.clear();
        }
        return true;
    }
    // 1 example, 0 end, -1 error
    int read(int how)
    {
        py::object o;
        bool peek = how == 1;
        const char *op = peek ? "peek_example" : how == 2 ? "next" : "read_example";
        try {
            sim::Op_scope s(op);
            if (how == 2) {
                if (!iter) iter = reader.attr("__iter__")();
                PyObject *n = PyIter_Next(iter.ptr());
                if (n == nullptr && PyErr_Occurred()) throw py::error_already_set();
                o = n != nullptr ? py::reinterpret_steal<py::object>(n) : py::none();
            }
            else o = reader.attr(op)();
        }
        catch (py::error_already_set &e) {
            SIM_CHECK(!peeked, "peek-lost", "after a successful peek the next %s fails", op);
            same_error(e, op);
            return -1;
        }
        SIM_CHECK(!failed, "error-forgotten", "%s succeeds after an error", op);
        if (o.is_none()) {
            SIM_CHECK(!peeked, "peek-lost", "after a successful peek the next %s reports the end", op);
            SIM_CHECK(want.error.empty(), "error-missing", "clean end in Python after %zu examples, an error in C++: %s", pos, want.error[0].c_str());
            SIM_CHECK(pos == want.ex.size(), "early-end", "clean end in Python after %zu examples, after %zu in C++", pos, want.ex.size());
            return 0;
        }
        if (peeked) SIM_CHECK(o.is(peeked), "peek-mismatch", "%s does not return the example that was peeked", op);
        auto e = py::cast<Intrusive_ptr<Example>>(o);
        wk::Ex x = wk::decode(*e, d);
        if (want.error.empty()) {
            SIM_CHECK(pos < want.ex.size(), "extra-example", "example %zu in Python, %zu in C++: %s", pos, want.ex.size(), x.text().c_str());
            SIM_CHECK(schema_text(py::cast<Str>(py::repr(o.attr("schema")))) == want.schema, "wrong-example", "the schema is %s, in C++ %s", schema_text(py::cast<Str>(py::repr(o.attr("schema")))).c_str(), want.schema.c_str());
        }
        if (pos < want.ex.size()) SIM_CHECK(x == want.ex[pos], "wrong-example", "example %zu is %s in Python, %s in C++", pos, x.text().c_str(), want.ex[pos].text().c_str());
        SIM_CHECK(py::cast<std::size_t>(o.attr("padding")) == x.padding, "wrong-example", "padding");
        SIM_CHECK(py::len(o) == e->features().size(), "wrong-example", "an example of %zu features has the length %zu", e->features().size(), py::len(o));
        if (peek) peeked = o;
        else {
            peeked = py::object();
            ++pos;
        }
        return 1;
    }
    void reset()
    {
        {
            sim::Op_scope s("reset");
            reader.attr("reset")();
        }
        forget();
    }
    void destroy()
    {
        sim::Op_scope s("destroy");
        forget();
        reader = py::object();
    }
    void body()
    {
        bool ok = open();
        for (std::uint8_t op : ops) {
            if (!reader && (frees_stores || !(ok = open()))) break;
            if (!ok) break;
            switch (op) {
            default: {
                int rc = read(op < 2 ? 1 : op == 2 ? 2 : 0);
                if (rc == 0 && op % 2 == 0) reset();
                if (rc < 0 && op % 3 == 0) reset();
                break;
            }
            case 8: {
                py::object s;
                try {
                    sim::Op_scope sc("read_schema");
                    s = reader.attr("read_schema")();
                }
                catch (py::error_already_set &e) {
                    SIM_CHECK(!peeked, "peek-lost", "read_schema fails after a successful peek");
                    same_error(e, "read_schema");
                    break;
                }
                if (!want.ex.empty() && want.error.empty() && !failed)
                    SIM_CHECK(!s.is_none() && schema_text(py::cast<Str>(py::repr(s))) == want.schema, "wrong-example", "read_schema returns %s, in C++ %s", schema_text(py::cast<Str>(py::repr(s))).c_str(), want.schema.c_str());
                break;
            }
            case 9:
            case 10: reset(); break;
            case 11: destroy(); break;
            case 12: {
                py::gil_scoped_release r;
                sim::sleep_us(50);
                break;
            }
            case 13: {
                auto n = py::cast<std::size_t>(reader.attr("num_bytes_read"));
                if (pos == 0 && p.num_instances_to_skip == 0 && !want.ex.empty() && want.error.empty())
                    SIM_CHECK(n <= want.bytes || p.reshuffle_each_epoch, "bytes-read", "%zu bytes read, %zu by the whole pass in C++", n, want.bytes);
                break;
            }
            case 14: fn("collect")(); break;
            case 15: if (change_handler) (*change_handler)(); break;
            }
        }
        if (ok && reader && exact) {  // the rest of the pass
            for (std::size_t i = 0; i < 600; ++i) {
                int rc = read(i % 3 == 2 ? 2 : 0);
                if (rc <= 0) break;
            }
        }
        destroy();
    }
};

void run()
{
    Python python;
    wk::random_knobs();
    wk::random_legal_io();
    std::uint32_t n = 1 + sim::w(3);
    std::vector<std::unique_ptr<Prog>> v;
    for (std::uint32_t i = 0; i < n; ++i) {
        auto o = std::make_unique<Prog>();
        wk::Gen g;
        g.max_rows = 16;
        if (sim::wflip()) g.bad_one_in = 2 + static_cast<int>(sim::w(8));
        o->d = wk::make_dataset(g);
        o->st = wk::make_stores(o->d, wk::all_kinds(), "d" + std::to_string(i) + "_");
        bool missing = sim::wone_in(8);
        if (missing) o->st.list.insert(o->st.list.begin() + static_cast<std::ptrdiff_t>(sim::w(static_cast<std::uint32_t>(o->st.list.size() + 1))), make_intrusive<File>("/nowhere/" + std::to_string(i), sim::wflip(), Compression::none));
        o->p.dataset = o->st.list;
        wk::random_tuning(o->p);
        if (sim::wone_in(16)) o->p.batch_size = 0;
        wk::random_policies(o->p);
        wk::random_selection(o->p, o->d);
        if (sim::wone_in(3)) {
            o->p.shuffle_instances = true;
            o->p.shuffle_window = sim::w(5);
            o->p.shuffle_seed = sim::w(1000);
            o->p.reshuffle_each_epoch = false;
        }
        if (sim::wone_in(6)) {
            o->p.sample_ratio = 0.25f * static_cast<float>(1 + sim::w(3));
            if (!o->p.shuffle_seed) o->p.shuffle_seed = sim::w(1000);
            o->p.reshuffle_each_epoch = false;
        }
        o->want = reference(o->d, o->p);
        // A store that fails and rows that fail: which comes first is open.
        if (missing && g.bad_one_in != 0 && o->p.bad_example_handling == Bad_example_handling::error) o->p.bad_example_handling = Bad_example_handling::skip, o->want = reference(o->d, o->p);
        o->choices = missing;
        for (auto &r : o->d.rows()) o->choices += r.bad;
        // A schema inferred from a bad row makes the good ones bad.
        if (o->choices > missing && (o->p.shuffle_instances || o->p.sample_ratio || o->p.num_instances_to_skip != 0 || o->p.num_shards > 1 || o->d.rows()[0].bad)) o->choices += 2;
        sim::describe("[%s%s] ", missing ? "missing " : "", wk::params_text(o->p).c_str());
        for (std::uint32_t k = 1 + sim::w(16); k > 0; --k) o->ops.push_back(static_cast<std::uint8_t>(sim::w(16)));
        o->stores = store_objects(o->st);
        if (sim::wone_in(4)) any_params(o->st.list);
        o->frees_stores = sim::wone_in(4);
        v.push_back(std::move(o));
    }
    // The log handlers of the program.
    std::uint64_t messages = 0;
    std::uint32_t kind = sim::w(6);
    if (sim::wflip()) core().attr("set_log_level")(core().attr("LogLevel").attr("DEBUG"));
    std::vector<py::object> handlers;
    auto make_handler = [&] {
        handlers.push_back(py::cpp_function([&, kind](py::object lvl, Str msg) {
            ++messages;
            SIM_CHECK(PyGILState_Check() == 1, "gil", "a log handler runs without the GIL");
            SIM_CHECK(!msg.empty() && py::isinstance(lvl, core().attr("LogLevel")), "log", "a log handler is called with %s", py::cast<Str>(py::repr(lvl)).c_str());
            sim::event(msg.size());
            if (kind == 3) {
                py::gil_scoped_release r;
                sim::sleep_us(20);
            }
            if (kind == 4) throw py::value_error("the handler fails");
            if (kind == 5) fn("collect")();
        }));
        core().attr("set_log_message_handler")(handlers.back());
    };
    if (kind != 0) make_handler();
    std::uint32_t changes = 0;
    std::function<void()> change_handler = [&] {
        sim::Op_scope s("set_log_message_handler");
        if (changes++ % 2 == 0) core().attr("clear_log_message_handler")();
        else make_handler();
    };
    if (kind != 0 && sim::wone_in(3))
        for (auto &o : v) o->change_handler = &change_handler;
    sim::describe("handler=%u ", kind);
    std::vector<std::unique_ptr<sim::Thread>> t;
    for (std::uint32_t i = 1; i < n; ++i) {
        Prog *o = v[i].get();
        t.push_back(thread([o] { o->body(); }));
    }
    if (sim::wone_in(3)) {  // a thread that works without a reader
        std::uint32_t k = 1 + sim::w(20);
        t.push_back(thread([k] {
            for (std::uint32_t i = 0; i < k; ++i) {
                fn("collect")();
                py::gil_scoped_release r;
                sim::sleep_us(10);
            }
        }));
    }
    v[0]->body();
    {
        py::gil_scoped_release r;
        sim::Op_scope s("join");
        for (auto &x : t) x->join();
    }
    if (messages != 0) sim::probe("messages logged");
    if (sim::wone_in(8)) {  // the program ends with its handler set
        v.clear();
        handlers.clear();
        exit_python();
        return;
    }
    {
        sim::Op_scope s("clear_log_message_handler");
        core().attr("clear_log_message_handler")();
    }
    v.clear();
    for (auto &h : handlers) SIM_CHECK(h.ref_count() == 1, "leak", "%d references to a log handler are left", static_cast<int>(h.ref_count()) - 1);
    SIM_CHECK(sim::live_threads() == 0, "leak", "threads are left: %d", sim::live_threads());
}
SIM_WORKLOAD("C30", run);
}  // namespace
