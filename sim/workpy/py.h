// The embedded interpreter and the bindings under test.
#pragma once
#include <pybind11/embed.h>
#include <pybind11/functional.h>
#include <pybind11/stl.h>

#include "module.h"

#include "work/session.h"

namespace wkpy {
namespace py = pybind11;

// Holds the GIL on the main thread of a run.
struct Python {
    Python();
    ~Python();
};
// The end of the program, after which only the static objects of the library
// are destroyed.
void exit_python();
py::module_ &core();             // the bindings
py::object fn(const char *name); // a function of the embedded support module

// A thread of the Python program: runs fn with the GIL held.
std::unique_ptr<sim::Thread> thread(std::function<void()> fn);

// What a Python call ended in.
struct Call {
    bool ok = false;
    py::object value;
    wk::Str type, what, cause;   // of the exception
};
Call call(const char *op, const std::function<py::object()> &fn);

// Converts parameters to the keyword arguments of the Python classes.
py::object reader_params(const mlio::Data_reader_params &p, const py::list &dataset);
py::object make_reader(const wk::Dataset &d, const mlio::Data_reader_params &p, const py::list &dataset);
void any_params(const std::vector<mlio::Intrusive_ptr<mlio::Data_store>> &stores);
py::list store_objects(const wk::Stores &st);
}  // namespace wkpy
