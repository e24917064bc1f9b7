// The part of pybind11 that the insights module uses: what it exports is kept
// in a table the workload reads.
#pragma once
#include <algorithm>
#include <any>
#include <functional>
#include <map>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <unordered_map>

#define PYBIND11_DECLARE_HOLDER_TYPE(...) static_assert(true, "")
#define PYBIND11_MODULE(name, m) \
    extern "C" void sim_pybind_##name(::pybind11::module_ &m); \
    extern "C" void sim_pybind_##name(::pybind11::module_ &m)

namespace pybind11 {
struct stop_iteration : std::runtime_error {
    explicit stop_iteration(const char *s = "") : std::runtime_error{s} {}
};
struct arg {
    explicit arg(const char *) {}
    template <class T> arg &operator=(T &&) { return *this; }
};
inline namespace literals {
inline arg operator""_a(const char *s, std::size_t) { return arg{s}; }
}
struct dict {
    std::map<std::string, std::any> items;
    std::any &operator[](const char *k) { return items[k]; }
};
using Getter = std::function<std::any(const void *)>;
struct module_ {
    std::map<std::string, std::map<std::string, Getter>> classes;
    std::map<std::string, std::any> functions;
    template <class F, class... A> module_ &def(const char *name, F f, A &&...)
    {
        functions[name] = f;
        return *this;
    }
};
using module = module_;
template <class T, class... O> class class_ {
public:
    template <class... A> class_(module_ &m, const char *name, A &&...) : t_{&m.classes[name]} {}
    template <class D> class_ &def_readwrite(const char *name, D T::*pm)
    {
        (*t_)[name] = [pm](const void *p) { return std::any{static_cast<const T *>(p)->*pm}; };
        return *this;
    }
    template <class F> class_ &def(const char *name, F f)
    {
        (*t_)[name] = [f](const void *p) { return std::any{std::invoke(f, *static_cast<const T *>(p))}; };
        return *this;
    }
private:
    std::map<std::string, Getter> *t_;
};
}  // namespace pybind11
