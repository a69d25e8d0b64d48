// A stand-in for the small part of pybind11 that bindings/python/src/_hgdb.cc uses (pybind11 is not installed here):
// free functions and lambdas over integers, booleans, strings and one opaque class, overloads tried in order, *args.
#pragma once
#include <Python.h>

#include <functional>
#include <map>
#include <memory>
#include <set>
#include <stdexcept>
#include <string>
#include <tuple>
#include <type_traits>
#include <typeinfo>
#include <utility>
#include <vector>

namespace pybind11 {
struct cast_error : std::runtime_error {
    using std::runtime_error::runtime_error;
};

struct handle {
    PyObject *p = nullptr;
    [[nodiscard]] PyObject *ptr() const { return p; }
};
using object = handle;

class args {
public:
    std::vector<handle> v;
    [[nodiscard]] size_t size() const { return v.size(); }
    [[nodiscard]] auto begin() const { return v.begin(); }
    [[nodiscard]] auto end() const { return v.end(); }
    handle operator[](size_t i) const { return v.at(i); }
};

namespace detail {
template <typename T>
constexpr bool is_vector = false;
template <typename T>
constexpr bool is_vector<std::vector<T>> = true;

// what a parameter is kept in while the call runs
template <typename T>
using stored = std::conditional_t<std::is_integral_v<T> || std::is_floating_point_v<T> || std::is_same_v<T, std::string> || is_vector<T>, T, T *>;

template <typename T>
bool load(PyObject *o, stored<T> &out) {
    if constexpr (std::is_same_v<T, bool>) {
        if (o != Py_True && o != Py_False) return false;
        out = o == Py_True;
        return true;
    } else if constexpr (std::is_integral_v<T>) {
        if (!PyLong_Check(o)) return false;
        if constexpr (std::is_unsigned_v<T>) {
            auto x = PyLong_AsUnsignedLongLong(o);
            if (PyErr_Occurred()) return PyErr_Clear(), false;
            out = static_cast<T>(x);
            return out == x;
        } else {
            auto x = PyLong_AsLongLong(o);
            if (PyErr_Occurred()) return PyErr_Clear(), false;
            out = static_cast<T>(x);
            return out == x;
        }
    } else if constexpr (std::is_floating_point_v<T>) {
        out = PyFloat_AsDouble(o);
        if (PyErr_Occurred()) return PyErr_Clear(), false;
        return true;
    } else if constexpr (std::is_same_v<T, std::string>) {
        if (!PyUnicode_Check(o)) return false;
        Py_ssize_t n;
        auto *s = PyUnicode_AsUTF8AndSize(o, &n);
        if (!s) return PyErr_Clear(), false;
        out.assign(s, n);
        return true;
    } else if constexpr (is_vector<T>) {
        if (!PyList_Check(o) && !PyTuple_Check(o)) return false;
        auto n = PySequence_Size(o);
        for (Py_ssize_t i = 0; i < n; i++) {
            auto *e = PySequence_GetItem(o, i);
            stored<typename T::value_type> x{};
            bool ok = load<typename T::value_type>(e, x);
            Py_DECREF(e);
            if (!ok) return false;
            out.push_back(x);
        }
        return true;
    } else {
        if (!PyCapsule_CheckExact(o) || !PyCapsule_IsValid(o, typeid(T).name())) return false;
        out = static_cast<T *>(PyCapsule_GetPointer(o, typeid(T).name()));
        return true;
    }
}

template <typename T>
PyObject *store(T &&value) {
    using U = std::decay_t<T>;
    if constexpr (std::is_same_v<U, bool>) {
        return PyBool_FromLong(value);
    } else if constexpr (std::is_integral_v<U>) {
        if constexpr (std::is_signed_v<U>)
            return PyLong_FromLongLong(value);
        else
            return PyLong_FromUnsignedLongLong(value);
    } else if constexpr (std::is_same_v<U, std::string> || std::is_convertible_v<U, const char *>) {
        std::string s = value;
        return PyUnicode_DecodeUTF8(s.data(), s.size(), nullptr);
    } else if constexpr (std::is_same_v<U, std::set<std::string>>) {
        auto *r = PySet_New(nullptr);
        for (auto const &s : value) {
            auto *x = store(s);
            if (!x || PySet_Add(r, x)) return nullptr;
            Py_DECREF(x);
        }
        return r;
    } else if constexpr (is_vector<U>) {
        auto *r = PyList_New(0);
        for (auto const &s : value) {
            auto *x = store(s);
            if (!x || PyList_Append(r, x)) return nullptr;
            Py_DECREF(x);
        }
        return r;
    } else {
        static_assert(!sizeof(U), "a kind of result the stand-in does not know");
    }
}

template <typename T>
PyObject *capsule(T *p) {
    return PyCapsule_New(p, typeid(T).name(), [](PyObject *c) { delete static_cast<T *>(PyCapsule_GetPointer(c, typeid(T).name())); });
}

template <typename A>
struct Param {
    using T = std::remove_cv_t<std::remove_reference_t<A>>;
    stored<T> v{};
    bool take(const std::vector<PyObject *> &a, size_t &i) { return i < a.size() && load<T>(a[i++], v); }
    A get() {
        if constexpr (std::is_pointer_v<stored<T>> && !std::is_pointer_v<T>)
            return *v;
        else if constexpr (std::is_reference_v<A>)
            return static_cast<A>(v);
        else
            return v;
    }
};
template <>
struct Param<args> {
    args v;
    bool take(const std::vector<PyObject *> &a, size_t &i) {
        for (; i < a.size(); i++) v.v.push_back({a[i]});
        return true;
    }
    args get() { return v; }
};
template <>
struct Param<const args &> : Param<args> {};

template <typename F>
struct traits : traits<decltype(&F::operator())> {};
template <typename R, typename... A>
struct traits<R (*)(A...)> {
    using ret = R;
    using params = std::tuple<Param<A>...>;
};
template <typename C, typename R, typename... A>
struct traits<R (C::*)(A...) const> : traits<R (*)(A...)> {};
template <typename C, typename R, typename... A>
struct traits<R (C::*)(A...)> : traits<R (*)(A...)> {};

// nullptr with no Python error set: the arguments do not fit
using Overload = std::function<PyObject *(const std::vector<PyObject *> &)>;

template <typename F>
Overload wrap(F f, std::vector<PyObject *> defaults) {
    using Tr = traits<F>;
    return [f, defaults](const std::vector<PyObject *> &given) mutable -> PyObject * {
        constexpr auto N = std::tuple_size_v<typename Tr::params>;
        auto a = given;
        if (a.size() < N && a.size() + defaults.size() >= N) a.insert(a.end(), defaults.end() - (N - a.size()), defaults.end());
        typename Tr::params ps;
        size_t i = 0;
        bool ok = std::apply([&](auto &...p) { return (p.take(a, i) && ...); }, ps);
        if (!ok || i != a.size()) return nullptr;
        using R = typename Tr::ret;
        return std::apply(
            [&](auto &...p) -> PyObject * {
                if constexpr (std::is_void_v<R>) {
                    f(p.get()...);
                    Py_RETURN_NONE;
                } else if constexpr (requires(R &&r) { store(std::declval<R>()); } && (std::is_integral_v<R> || std::is_same_v<R, std::string> ||
                                     std::is_same_v<R, std::set<std::string>> || is_vector<R>)) {
                    return store(f(p.get()...));
                } else {
                    return capsule(new R(f(p.get()...)));
                }
            },
            ps);
    };
}

struct Function {
    std::string name;
    std::vector<Overload> overloads;
    PyMethodDef def{};
};

inline PyObject *dispatch(PyObject *self, PyObject *py_args) {
    auto *fn = static_cast<Function *>(PyCapsule_GetPointer(self, "function"));
    std::vector<PyObject *> a;
    for (Py_ssize_t i = 0; i < PyTuple_GET_SIZE(py_args); i++) a.push_back(PyTuple_GET_ITEM(py_args, i));
    try {
        for (auto &o : fn->overloads) {
            auto *r = o(a);
            if (r || PyErr_Occurred()) return r;
        }
    } catch (const cast_error &e) {
        PyErr_SetString(PyExc_RuntimeError, e.what());
        return nullptr;
    } catch (const std::exception &e) {
        PyErr_SetString(PyExc_RuntimeError, e.what());
        return nullptr;
    }
    PyErr_Format(PyExc_TypeError, "%s(): incompatible function arguments", fn->name.c_str());
    return nullptr;
}
}  // namespace detail

struct arg_v {
    PyObject *value;
};
struct arg {
    explicit arg(const char *) {}
    template <typename T>
    arg_v operator=(T &&v) const {
        return {detail::store(std::forward<T>(v))};
    }
};

template <typename T>
T cast(handle h) {
    detail::stored<T> v{};
    if (!detail::load<T>(h.p, v)) throw cast_error("Unable to cast Python instance to C++ type");
    return v;
}

class module_ {
    PyObject *m_;
    std::map<std::string, detail::Function *> fns_;

public:
    explicit module_(PyObject *m) : m_(m) {}
    template <typename F, typename... Extra>
    module_ &def(const char *name, F f, const Extra &...extra) {
        std::vector<PyObject *> defaults;
        auto add = [&](auto const &e) {
            if constexpr (std::is_same_v<std::decay_t<decltype(e)>, arg_v>) defaults.push_back(e.value);
        };
        (add(extra), ...);
        auto &fn = fns_[name];
        if (!fn) {
            fn = new detail::Function;
            fn->name = name;
            fn->def = {fn->name.c_str(), detail::dispatch, METH_VARARGS, nullptr};
            auto *self = PyCapsule_New(fn, "function", nullptr);
            PyModule_AddObject(m_, name, PyCFunction_New(&fn->def, self));
        }
        fn->overloads.push_back(detail::wrap(f, defaults));
        return *this;
    }
    const char *&doc() {
        static const char *d;
        return d;
    }
};

template <typename T>
struct class_ {
    template <typename... E>
    class_(module_ &, const char *, E &&...) {}
};

template <typename... A>
struct overload_cast_impl {
    template <typename R>
    constexpr auto operator()(R (*f)(A...)) const {
        return f;
    }
};
template <typename... A>
constexpr overload_cast_impl<A...> overload_cast{};
}  // namespace pybind11

#define PYBIND11_MODULE(name, var)                                                                      \
    static void pybind_init_##name(pybind11::module_ &var);                                             \
    extern "C" __attribute__((visibility("default"))) PyObject *PyInit_##name() {                       \
        static PyModuleDef def{PyModuleDef_HEAD_INIT, #name, nullptr, -1, nullptr, nullptr, nullptr, nullptr, nullptr}; \
        auto *m = PyModule_Create(&def);                                                                \
        auto *mod = new pybind11::module_(m);                                                           \
        pybind_init_##name(*mod);                                                                       \
        return m;                                                                                       \
    }                                                                                                   \
    static void pybind_init_##name(pybind11::module_ &var)
