// A small stand-in for pybind11 (which is not installed here): the subset that /repo/cppmodule
// uses, written from pybind11's documented behaviour -- overload resolution in two passes
// (without, then with implicit conversions), return value policies, keep-alive, registered
// instances, holders, pickling support, numpy and Eigen conversions.
#pragma once
#include <Python.h>

#ifndef SHIM_NUMPY_INIT
# define NO_IMPORT_ARRAY
#endif
#define PY_ARRAY_UNIQUE_SYMBOL shim_pybind11_array_api
#define NPY_NO_DEPRECATED_API NPY_1_20_API_VERSION
#include <numpy/arrayobject.h>

#include <algorithm>
#include <array>
#include <complex>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <stdexcept>
#include <string>
#include <tuple>
#include <type_traits>
#include <typeindex>
#include <unordered_map>
#include <utility>
#include <vector>

namespace pybind11 {

using ssize_t = Py_ssize_t;

enum class return_value_policy {
    automatic, automatic_reference, take_ownership, copy, move, reference, reference_internal
};

namespace detail {
    template<class T, class SFINAE = void> struct type_caster;
    template<class T> struct intrinsic { using type = T; };
    template<class T> struct intrinsic<T const> : intrinsic<T> {};
    template<class T> struct intrinsic<T*> : intrinsic<T> {};
    template<class T> struct intrinsic<T&> : intrinsic<T> {};
    template<class T> struct intrinsic<T&&> : intrinsic<T> {};
    template<class T> using intrinsic_t = typename intrinsic<T>::type;
    template<class T> using make_caster = type_caster<intrinsic_t<T>>;
    template<class T> struct always_false : std::false_type {};
    template<template<class...> class V> struct visit_helper;

    /// Names of types are only needed for documentation, which the stand-in does not generate
    struct descr {};
    template<size_t N> constexpr descr _(char const (&)[N]) { return {}; }
}

class gil_scoped_acquire {
public:
    gil_scoped_acquire() : state(PyGILState_Ensure()) {}
    ~gil_scoped_acquire() { PyGILState_Release(state); }
    gil_scoped_acquire(gil_scoped_acquire const&) = delete;
private:
    PyGILState_STATE state;
};

class gil_scoped_release {
public:
    gil_scoped_release() : state(PyEval_SaveThread()) {}
    ~gil_scoped_release() { PyEval_RestoreThread(state); }
    gil_scoped_release(gil_scoped_release const&) = delete;
private:
    PyThreadState* state;
};

template<class T> struct call_guard { using type = T; };
template<std::size_t Nurse, std::size_t Patient> struct keep_alive {};

class object;
class tuple;
class handle;

namespace detail {
    struct attr_accessor;
    struct item_accessor;
    struct pyobject_tag {};

    template<class D> struct object_api : pyobject_tag {
        D const& derived() const { return static_cast<D const&>(*this); }
        PyObject* raw() const { return derived().ptr(); }

        attr_accessor attr(char const* name) const;
        template<class K> item_accessor operator[](K const& key) const;
        template<class... Args> object operator()(Args&&... args) const;
        bool is_none() const { return raw() == Py_None; }
        bool contains(char const* key) const;
    };
}

class handle : public detail::object_api<handle> {
public:
    handle() = default;
    handle(PyObject* p) : m_ptr(p) {}
    PyObject* ptr() const { return m_ptr; }
    handle inc_ref() const { need_gil(); Py_XINCREF(m_ptr); return *this; }
    handle dec_ref() const { need_gil(); Py_XDECREF(m_ptr); return *this; }
    explicit operator bool() const { return m_ptr != nullptr; }
    template<class T> T cast() const;
protected:
    /// A reference count may only be changed while holding the interpreter lock
    void need_gil() const {
        if (m_ptr && Py_IsInitialized() && !PyGILState_Check()) {
            std::fprintf(stderr, "MONITOR: a Python reference count was changed without holding the GIL\n");
            std::abort();
        }
    }
    PyObject* m_ptr = nullptr;
};

struct stolen_t {};
struct borrowed_t {};

class object : public handle {
public:
    object() = default;
    object(handle h, stolen_t) : handle(h) {}
    object(handle h, borrowed_t) : handle(h) { inc_ref(); }
    object(object const& o) : handle(o) { inc_ref(); }
    object(object&& o) noexcept : handle(o) { o.m_ptr = nullptr; }
    ~object() { dec_ref(); }
    object& operator=(object const& o) {
        o.inc_ref();
        need_gil();
        auto const old = m_ptr;
        m_ptr = o.m_ptr;
        Py_XDECREF(old);
        return *this;
    }
    object& operator=(object&& o) noexcept {
        if (this != &o) {
            auto const old = m_ptr;
            m_ptr = o.m_ptr;
            o.m_ptr = nullptr;
            Py_XDECREF(old);
        }
        return *this;
    }
    handle release() { auto const p = m_ptr; m_ptr = nullptr; return p; }
    static bool check_(handle h) { return h.ptr() != nullptr; }
};

template<class T> T reinterpret_borrow(handle h) { return T(h, borrowed_t{}); }
template<class T> T reinterpret_steal(handle h) { return T(h, stolen_t{}); }

class error_already_set : public std::runtime_error {
public:
    error_already_set() : std::runtime_error(fetch_message()) {
        PyErr_Fetch(&type, &value, &trace);
    }
    error_already_set(error_already_set const& o)
        : std::runtime_error(o), type(o.type), value(o.value), trace(o.trace) {
        gil_scoped_acquire guard;
        Py_XINCREF(type); Py_XINCREF(value); Py_XINCREF(trace);
    }
    ~error_already_set() override {
        gil_scoped_acquire guard;
        Py_XDECREF(type); Py_XDECREF(value); Py_XDECREF(trace);
    }
    void restore() {
        PyErr_Restore(type, value, trace);
        type = value = trace = nullptr;
    }
private:
    static std::string fetch_message() {
        PyObject *t, *v, *tb;
        PyErr_Fetch(&t, &v, &tb);
        PyErr_NormalizeException(&t, &v, &tb);
        std::string message = t ? reinterpret_cast<PyTypeObject*>(t)->tp_name : "unknown";
        if (v) {
            if (auto const s = PyObject_Str(v)) {
                if (auto const c = PyUnicode_AsUTF8(s)) { message += std::string(": ") + c; }
                Py_DECREF(s);
            }
            PyErr_Clear();
        }
        PyErr_Restore(t, v, tb);
        return message;
    }
    PyObject *type = nullptr, *value = nullptr, *trace = nullptr;
};

struct cast_error : std::runtime_error { using std::runtime_error::runtime_error; };
struct reference_cast_error : cast_error { reference_cast_error() : cast_error("") {} };
struct index_error : std::runtime_error { using std::runtime_error::runtime_error; };
struct value_error : std::runtime_error { using std::runtime_error::runtime_error; };
struct type_error : std::runtime_error { using std::runtime_error::runtime_error; };

[[noreturn]] inline void pybind11_fail(std::string const& what) { throw std::runtime_error(what); }

namespace detail {
    inline object steal(PyObject* p) {
        if (!p) { throw error_already_set(); }
        return {p, stolen_t{}};
    }

    struct attr_accessor : object_api<attr_accessor> {
        object owner; std::string name;
        mutable object cache;
        attr_accessor(handle o, char const* n) : owner(o, borrowed_t{}), name(n) {}
        object get() const {
            if (!cache) { cache = steal(PyObject_GetAttrString(owner.ptr(), name.c_str())); }
            return cache;
        }
        PyObject* ptr() const { return get().ptr(); }
        operator object() const { return get(); }
        template<class T> T cast() const { return get().template cast<T>(); }
        template<class T> void operator=(T const& value);
    };

    struct item_accessor : object_api<item_accessor> {
        object owner, key;
        mutable object cache;
        item_accessor(handle o, object k) : owner(o, borrowed_t{}), key(std::move(k)) {}
        object get() const {
            if (!cache) { cache = steal(PyObject_GetItem(owner.ptr(), key.ptr())); }
            return cache;
        }
        PyObject* ptr() const { return get().ptr(); }
        operator object() const { return get(); }
        template<class T> T cast() const { return get().template cast<T>(); }
        template<class T> void operator=(T const& value);
    };

    template<class D> attr_accessor object_api<D>::attr(char const* name) const {
        return {handle(raw()), name};
    }

    template<class D> bool object_api<D>::contains(char const* key) const {
        auto const k = steal(PyUnicode_FromString(key));
        auto const r = PySequence_Contains(raw(), k.ptr());
        if (r < 0) { throw error_already_set(); }
        return r == 1;
    }
}

template<class T>
object cast(T&& value, return_value_policy policy = return_value_policy::automatic_reference,
            handle parent = {});

#define SHIM_PYOBJECT(Name, check)                                                         \
    Name(handle h, stolen_t) : object(h, stolen_t{}) {}                                     \
    Name(handle h, borrowed_t) : object(h, borrowed_t{}) {}                                 \
    static bool check_(handle h) { return h.ptr() && check(h.ptr()); }

class none : public object {
public:
    none() : object(Py_None, borrowed_t{}) {}
};

class str : public object {
public:
    SHIM_PYOBJECT(str, PyUnicode_Check)
    str(std::string const& s) : object(detail::steal(PyUnicode_FromStringAndSize(
        s.data(), static_cast<ssize_t>(s.size())))) {}
};

class tuple : public object {
public:
    SHIM_PYOBJECT(tuple, PyTuple_Check)
    explicit tuple(object const& o)
        : object(PyTuple_Check(o.ptr()) ? o : detail::steal(PySequence_Tuple(o.ptr()))) {}
    explicit tuple(size_t n) : object(detail::steal(PyTuple_New(static_cast<ssize_t>(n)))) {}
    size_t size() const { return static_cast<size_t>(PyTuple_Size(m_ptr)); }
};

class list : public object {
public:
    SHIM_PYOBJECT(list, PyList_Check)
    explicit list(size_t n = 0) : object(detail::steal(PyList_New(static_cast<ssize_t>(n)))) {}
};

struct arg_v;
struct arg {
    std::string name;
    explicit arg(char const* n) : name(n) {}
    template<class T> arg_v operator=(T&& value) const;
};
struct arg_v : arg {
    object value;
    template<class T>
    arg_v(arg a, T&& x) : arg(std::move(a)),
        value(pybind11::cast(std::forward<T>(x), return_value_policy::automatic)) {}
};
template<class T> arg_v arg::operator=(T&& value) const { return {*this, std::forward<T>(value)}; }

namespace literals {
    inline arg operator"" _a(char const* name, size_t) { return arg(name); }
}

class dict : public object {
public:
    SHIM_PYOBJECT(dict, PyDict_Check)
    dict() : object(detail::steal(PyDict_New())) {}
    template<class... A, class = std::enable_if_t<
        (sizeof...(A) > 0) && std::conjunction<std::is_same<std::decay_t<A>, arg_v>...>::value>>
    explicit dict(A&&... a) : dict() {
        auto const put = [this](arg_v const& v) {
            if (PyDict_SetItemString(m_ptr, v.name.c_str(), v.value.ptr())) {
                throw error_already_set();
            }
            return 0;
        };
        int unused[] = {put(a)...};
        (void)unused;
    }
};

class module_ : public object {
public:
    module_(handle h, borrowed_t) : object(h, borrowed_t{}) {}
    module_(handle h, stolen_t) : object(h, stolen_t{}) {}
    static module_ import(char const* name) {
        auto const m = PyImport_ImportModule(name);
        if (!m) { throw error_already_set(); }
        return {m, stolen_t{}};
    }
    module_ def_submodule(char const* name, char const* = nullptr) {
        auto const full = std::string(PyModule_GetName(m_ptr)) + "." + name;
        auto const sub = PyImport_AddModule(full.c_str());
        if (!sub) { throw error_already_set(); }
        module_ result(sub, borrowed_t{});
        if (PyObject_SetAttrString(m_ptr, name, sub)) { throw error_already_set(); }
        return result;
    }
    template<class F, class... Extra> module_& def(char const* name, F&& f, Extra const&... extra);
};
using module = module_;

template<class T> bool isinstance(handle h);

inline size_t len(handle h) {
    auto const n = PyObject_Length(h.ptr());
    if (n < 0) { throw error_already_set(); }
    return static_cast<size_t>(n);
}

// ---------------------------------------------------------------------------------------------
// Instances of C++ classes
// ---------------------------------------------------------------------------------------------
namespace detail {
    struct type_record {
        std::string name;
        std::type_index index = typeid(void);
        PyTypeObject* type = nullptr;
        type_record* base = nullptr;
        void* (*to_base)(void*) = nullptr;
    };

    struct instance {
        PyObject_HEAD
        void* ptr;                        ///< the C++ object, nullptr before __init__
        std::shared_ptr<void>* holder;    ///< nullptr when the instance is a mere reference
        type_record* record;
        std::vector<PyObject*>* patients; ///< kept alive by this instance
        PyObject* weakrefs;
    };

    struct internals_t {
        std::unordered_map<std::type_index, type_record*> by_cpp;
        std::unordered_map<PyTypeObject*, type_record*> by_py;
        std::unordered_multimap<void const*, instance*> instances;
    };
    internals_t& internals();   // defined in the numpy_init.cpp of this directory

    inline type_record* find_record(std::type_index t) {
        auto const& m = internals().by_cpp;
        auto const it = m.find(t);
        return it == m.end() ? nullptr : it->second;
    }
    inline type_record* find_record(PyTypeObject* t) {
        auto const& m = internals().by_py;
        for (auto i = 0; i < PyTuple_GET_SIZE(t->tp_mro); ++i) {
            auto const it = m.find(reinterpret_cast<PyTypeObject*>(PyTuple_GET_ITEM(t->tp_mro, i)));
            if (it != m.end()) { return it->second; }
        }
        return nullptr;
    }

    inline void forget(instance* self) {
        auto range = internals().instances.equal_range(self->ptr);
        for (auto it = range.first; it != range.second; ++it) {
            if (it->second == self) { internals().instances.erase(it); break; }
        }
    }

    inline PyObject* instance_new(PyTypeObject* type, PyObject*, PyObject*) {
        auto const self = reinterpret_cast<instance*>(type->tp_alloc(type, 0));
        if (!self) { return nullptr; }
        self->ptr = nullptr;
        self->holder = nullptr;
        self->record = find_record(type);
        self->patients = nullptr;
        self->weakrefs = nullptr;
        return reinterpret_cast<PyObject*>(self);
    }

    inline int instance_init(PyObject* self, PyObject*, PyObject*) {
        PyErr_Format(PyExc_TypeError, "%s: No constructor defined!", Py_TYPE(self)->tp_name);
        return -1;
    }

    inline void instance_dealloc(PyObject* o) {
        auto const self = reinterpret_cast<instance*>(o);
        if (self->weakrefs) { PyObject_ClearWeakRefs(o); }
        if (self->ptr) { forget(self); }
        PyObject *t, *v, *tb;
        PyErr_Fetch(&t, &v, &tb);
        delete self->holder;
        if (self->patients) {
            auto const p = self->patients;
            self->patients = nullptr;
            for (auto x : *p) { Py_DECREF(x); }
            delete p;
        }
        PyErr_Restore(t, v, tb);
        auto const type = Py_TYPE(o);
        type->tp_free(o);
        Py_DECREF(type);
    }

    inline void keep_alive_impl(handle nurse, handle patient) {
        if (!nurse || !patient) { pybind11_fail("Could not activate keep_alive!"); }
        if (patient.is_none() || nurse.is_none()) { return; }
        if (find_record(Py_TYPE(nurse.ptr()))) {
            auto const self = reinterpret_cast<instance*>(nurse.ptr());
            if (!self->patients) { self->patients = new std::vector<PyObject*>; }
            patient.inc_ref();
            self->patients->push_back(patient.ptr());
            return;
        }
        static PyMethodDef drop = {"drop", [](PyObject* patient, PyObject* weakref) -> PyObject* {
            (void)patient;            // owned by the function object, which dies with the weakref
            Py_DECREF(weakref);
            Py_RETURN_NONE;
        }, METH_O, nullptr};
        auto const callback = steal(PyCFunction_New(&drop, patient.ptr()));
        auto const weakref = PyWeakref_NewRef(nurse.ptr(), callback.ptr());
        if (!weakref) { throw error_already_set(); } // leaked until the callback is called
    }

    template<class T> void attach(instance* self, T* p, bool owned) {
        self->ptr = const_cast<void*>(static_cast<void const*>(p));
        if (owned) {
            self->holder = new std::shared_ptr<void>(std::shared_ptr<T>(p));
        }
        internals().instances.emplace(self->ptr, self);
    }

    inline instance* find_instance(void const* p, type_record* record) {
        auto const range = internals().instances.equal_range(p);
        for (auto it = range.first; it != range.second; ++it) {
            if (it->second->record == record) { return it->second; }
        }
        return nullptr;
    }

    struct base_caster_tag {};

    template<class T> struct type_caster_base : base_caster_tag {
        T* value = nullptr;
        PyObject* source = nullptr;

        static type_record* record() {
            auto const r = find_record(std::type_index(typeid(T)));
            if (!r) { throw cast_error(std::string("Unregistered type: ") + typeid(T).name()); }
            return r;
        }

        bool load(handle src, bool convert) {
            if (!src) { return false; }
            if (src.is_none()) {
                value = nullptr;
                return convert;
            }
            auto const r = find_record(std::type_index(typeid(T)));
            if (!r || !PyObject_TypeCheck(src.ptr(), r->type)) { return false; }
            auto const self = reinterpret_cast<instance*>(src.ptr());
            auto p = self->ptr;
            for (auto x = self->record; x && x != r; x = x->base) {
                p = p ? x->to_base(p) : nullptr;
            }
            if (!p) {
                throw type_error(r->name + ": the base __init__() was not called");
            }
            value = static_cast<T*>(p);
            source = src.ptr();
            return true;
        }

        static handle make(T const* src, return_value_policy policy, handle parent) {
            if (!src) { return none().release(); }
            auto const r = record();
            if (auto const found = find_instance(src, r)) {
                return handle(reinterpret_cast<PyObject*>(found)).inc_ref();
            }
            auto o = steal(instance_new(r->type, nullptr, nullptr));
            auto const self = reinterpret_cast<instance*>(o.ptr());
            switch (policy) {
                case return_value_policy::automatic:
                case return_value_policy::take_ownership: attach(self, const_cast<T*>(src), true); break;
                case return_value_policy::automatic_reference:
                case return_value_policy::reference: attach(self, const_cast<T*>(src), false); break;
                case return_value_policy::copy:
                    if constexpr (std::is_copy_constructible<T>::value) {
                        attach(self, new T(*src), true);
                    } else { throw cast_error("return_value_policy = copy, but not copyable"); }
                    break;
                case return_value_policy::move:
                    if constexpr (std::is_move_constructible<T>::value) {
                        attach(self, new T(std::move(*const_cast<T*>(src))), true);
                    } else { throw cast_error("return_value_policy = move, but not movable"); }
                    break;
                case return_value_policy::reference_internal:
                    attach(self, const_cast<T*>(src), false);
                    keep_alive_impl(o, parent);
                    break;
            }
            return o.release();
        }
        static handle cast(T const& src, return_value_policy policy, handle parent) {
            if (policy == return_value_policy::automatic
                || policy == return_value_policy::automatic_reference) {
                policy = return_value_policy::copy;
            }
            return make(&src, policy, parent);
        }
        static handle cast(T&& src, return_value_policy, handle parent) {
            // a temporary: never an already registered instance
            auto const r = record();
            auto o = steal(instance_new(r->type, nullptr, nullptr));
            (void)parent;
            if constexpr (std::is_move_constructible<T>::value) {
                attach(reinterpret_cast<instance*>(o.ptr()), new T(std::move(src)), true);
            } else { throw cast_error("return_value_policy = move, but not movable"); }
            return o.release();
        }
        static handle cast(T const* src, return_value_policy policy, handle parent) {
            return make(src, policy, parent);
        }

        operator T*() { return value; }
        operator T&() { if (!value) { throw reference_cast_error(); } return *value; }
    };

    template<class T, class SFINAE> struct type_caster : type_caster_base<T> {};

    // ---- holders ----
    template<class T> struct type_caster<std::shared_ptr<T>> {
        using U = std::remove_const_t<T>;
        std::shared_ptr<T> value;
        bool load(handle src, bool convert) {
            type_caster_base<U> base;
            if (!base.load(src, convert)) { return false; }
            if (!base.value) { value = nullptr; return true; }
            auto const self = reinterpret_cast<instance*>(src.ptr());
            if (!self->holder) { throw cast_error("Unable to cast from non-held to held instance"); }
            value = std::shared_ptr<T>(*self->holder, base.value);
            return true;
        }
        static handle cast(std::shared_ptr<T> const& src, return_value_policy, handle) {
            if (!src) { return none().release(); }
            auto const r = type_caster_base<U>::record();
            if (auto const found = find_instance(src.get(), r)) {
                return handle(reinterpret_cast<PyObject*>(found)).inc_ref();
            }
            auto o = steal(instance_new(r->type, nullptr, nullptr));
            auto const self = reinterpret_cast<instance*>(o.ptr());
            attach(self, const_cast<U*>(src.get()), false);
            self->holder = new std::shared_ptr<void>(std::const_pointer_cast<U>(src));
            return o.release();
        }
        operator std::shared_ptr<T>&() { return value; }
    };

    // ---- conversion from a caster to an argument of type T ----
    template<class T, class Caster> decltype(auto) cast_op(Caster& c) {
        using I = intrinsic_t<T>;
        if constexpr (std::is_pointer<std::remove_reference_t<T>>::value) {
            return static_cast<I*>(c);
        } else if constexpr (std::is_lvalue_reference<T>::value) {
            return static_cast<I&>(c);
        } else if constexpr (std::is_base_of<base_caster_tag, Caster>::value) {
            return I(static_cast<I&>(c));            // copy: the instance keeps its value
        } else {
            return I(std::move(static_cast<I&>(c))); // the caster's own value
        }
    }

#define PYBIND11_TYPE_CASTER(T_, name_)                                                    \
    protected:                                                                              \
        T_ value;                                                                           \
    public:                                                                                 \
        static constexpr auto name = name_;                                                 \
        operator T_*() { return &value; }                                                   \
        operator T_&() { return value; }

    // ---- Python objects ----
    template<class T>
    struct type_caster<T, std::enable_if_t<std::is_base_of<handle, T>::value>> {
        T* stored = nullptr;
        typename std::aligned_storage<sizeof(T), alignof(T)>::type space;
        type_caster() = default;
        type_caster(type_caster const&) = delete;
        ~type_caster() { if (stored) { stored->~T(); } }
        bool load(handle src, bool) {
            if constexpr (std::is_same<T, handle>::value) {
                stored = new (&space) T(src);
            } else {
                if (!T::check_(src)) { return false; }
                stored = new (&space) T(src, borrowed_t{});
            }
            return true;
        }
        static handle cast(handle const& src, return_value_policy, handle) { return src.inc_ref(); }
        operator T&() { return *stored; }
    };

    template<class T> struct type_caster<T, std::enable_if_t<
            std::is_same<T, attr_accessor>::value || std::is_same<T, item_accessor>::value>> {
        static handle cast(T const& src, return_value_policy, handle) { return src.get().release(); }
        static constexpr auto name = _("object");
    };
    template<class T> struct type_caster<T, std::enable_if_t<
        std::is_arithmetic<T>::value && !std::is_same<T, bool>::value>> {
        bool load(handle src, bool convert) {
            if (!src) { return false; }
            if constexpr (std::is_floating_point<T>::value) {
                if (!convert && !PyFloat_Check(src.ptr())) { return false; }
                auto const v = PyFloat_AsDouble(src.ptr());
                if (v == -1.0 && PyErr_Occurred()) {
                    PyErr_Clear();
                    if (!convert || !PyNumber_Check(src.ptr())) { return false; }
                    object tmp(PyNumber_Float(src.ptr()), stolen_t{});
                    PyErr_Clear();
                    return tmp && load(tmp, false);
                }
                value = static_cast<T>(v);
                return true;
            } else {
                if (PyFloat_Check(src.ptr())) { return false; }
                if (!convert && !PyLong_Check(src.ptr()) && !PyIndex_Check(src.ptr())) {
                    return false;
                }
                object idx(PyNumber_Index(src.ptr()), stolen_t{});
                if (!idx) {
                    PyErr_Clear();
                    if (!convert || !PyNumber_Check(src.ptr())) { return false; }
                    idx = object(PyNumber_Long(src.ptr()), stolen_t{});
                    PyErr_Clear();
                    if (!idx) { return false; }
                }
                if constexpr (std::is_unsigned<T>::value) {
                    auto const v = PyLong_AsUnsignedLongLong(idx.ptr());
                    if (PyErr_Occurred()) { PyErr_Clear(); return false; }
                    value = static_cast<T>(v);
                    return static_cast<unsigned long long>(value) == v;
                } else {
                    auto const v = PyLong_AsLongLong(idx.ptr());
                    if (PyErr_Occurred()) { PyErr_Clear(); return false; }
                    value = static_cast<T>(v);
                    return static_cast<long long>(value) == v;
                }
            }
        }
        static handle cast(T src, return_value_policy, handle) {
            if constexpr (std::is_floating_point<T>::value) {
                return PyFloat_FromDouble(static_cast<double>(src));
            } else if constexpr (std::is_unsigned<T>::value) {
                return PyLong_FromUnsignedLongLong(src);
            } else {
                return PyLong_FromLongLong(src);
            }
        }
        PYBIND11_TYPE_CASTER(T, _("number"))
    };

    template<> struct type_caster<bool> {
        bool load(handle src, bool convert) {
            if (src.ptr() == Py_True) { value = true; return true; }
            if (src.ptr() == Py_False) { value = false; return true; }
            if (convert || std::strcmp(Py_TYPE(src.ptr())->tp_name, "numpy.bool_") == 0
                || std::strcmp(Py_TYPE(src.ptr())->tp_name, "numpy.bool") == 0) {
                auto const r = src.is_none() ? 0 : PyObject_IsTrue(src.ptr());
                if (r < 0) { PyErr_Clear(); return false; }
                value = r == 1;
                return true;
            }
            return false;
        }
        static handle cast(bool src, return_value_policy, handle) {
            return handle(src ? Py_True : Py_False).inc_ref();
        }
        PYBIND11_TYPE_CASTER(bool, _("bool"))
    };

    template<class T> struct type_caster<std::complex<T>> {
        using Type = std::complex<T>;
        bool load(handle src, bool convert) {
            if (!src || (!convert && !PyComplex_Check(src.ptr()))) { return false; }
            auto const v = PyComplex_AsCComplex(src.ptr());
            if (v.real == -1.0 && PyErr_Occurred()) { PyErr_Clear(); return false; }
            value = Type(static_cast<T>(v.real), static_cast<T>(v.imag));
            return true;
        }
        static handle cast(Type const& src, return_value_policy, handle) {
            return PyComplex_FromDoubles(src.real(), src.imag());
        }
        PYBIND11_TYPE_CASTER(Type, _("complex"))
    };

    template<> struct type_caster<std::string> {
        bool load(handle src, bool) {
            if (!src) { return false; }
            if (PyUnicode_Check(src.ptr())) {
                ssize_t size = 0;
                auto const c = PyUnicode_AsUTF8AndSize(src.ptr(), &size);
                if (!c) { PyErr_Clear(); return false; }
                value.assign(c, static_cast<size_t>(size));
                return true;
            }
            if (PyBytes_Check(src.ptr())) {
                value.assign(PyBytes_AsString(src.ptr()), static_cast<size_t>(PyBytes_Size(src.ptr())));
                return true;
            }
            return false;
        }
        static handle cast(std::string const& src, return_value_policy, handle) {
            auto const p = PyUnicode_DecodeUTF8(src.data(), static_cast<ssize_t>(src.size()), nullptr);
            if (!p) { throw error_already_set(); }
            return p;
        }
        PYBIND11_TYPE_CASTER(std::string, _("str"))
    };

    template<> struct type_caster<char> {
        static handle cast(char const* src, return_value_policy, handle) {
            return str(std::string(src)).release();
        }
    };
}

template<class T> bool isinstance(handle h) {
    if constexpr (std::is_base_of<handle, T>::value) {
        return T::check_(h);
    } else {
        auto const r = detail::find_record(std::type_index(typeid(T)));
        return r && PyObject_TypeCheck(h.ptr(), r->type);
    }
}

template<class T> object cast(T&& value, return_value_policy policy, handle parent) {
    using D = std::decay_t<T>;
    if constexpr (std::is_same<D, char const*>::value || std::is_same<D, char*>::value) {
        return str(std::string(value));
    } else if constexpr (std::is_base_of<handle, D>::value) {
        return object(value, borrowed_t{});
    } else {
        if (policy == return_value_policy::automatic) {
            policy = std::is_pointer<std::remove_reference_t<T>>::value
                ? return_value_policy::take_ownership
                : std::is_lvalue_reference<T>::value ? return_value_policy::copy
                                                     : return_value_policy::move;
        } else if (policy == return_value_policy::automatic_reference) {
            policy = std::is_pointer<std::remove_reference_t<T>>::value
                ? return_value_policy::reference
                : std::is_lvalue_reference<T>::value ? return_value_policy::copy
                                                     : return_value_policy::move;
        }
        return detail::steal(
            detail::make_caster<T>::cast(std::forward<T>(value), policy, parent).ptr());
    }
}

template<class T> T handle::cast() const {
    if constexpr (std::is_base_of<handle, T>::value) {
        if (!T::check_(*this)) { throw cast_error("Unable to cast Python instance"); }
        return T(*this, borrowed_t{});
    } else {
        detail::make_caster<T> c;
        if (!c.load(*this, true)) {
            throw cast_error(std::string("Unable to cast Python instance of type ")
                             + Py_TYPE(m_ptr)->tp_name + " to C++ type " + typeid(T).name());
        }
        return detail::cast_op<T>(c);
    }
}

namespace detail {
    template<class T> void attr_accessor::operator=(T const& value) {
        auto const v = pybind11::cast(value);
        if (PyObject_SetAttrString(owner.ptr(), name.c_str(), v.ptr())) { throw error_already_set(); }
    }
    template<class T> void item_accessor::operator=(T const& value) {
        auto const v = pybind11::cast(value);
        if (PyObject_SetItem(owner.ptr(), key.ptr(), v.ptr())) { throw error_already_set(); }
    }
    template<class D> template<class K>
    item_accessor object_api<D>::operator[](K const& key) const {
        return {handle(raw()), pybind11::cast(key)};
    }

    struct call_arguments {
        std::vector<object> positional;
        dict keywords;
        template<class T> int add(T&& value) {
            using D = std::decay_t<T>;
            if constexpr (std::is_same<D, arg_v>::value) {
                PyDict_SetItemString(keywords.ptr(), value.name.c_str(), value.value.ptr());
            } else if constexpr (std::is_base_of<pyobject_tag, D>::value) {
                positional.push_back(object(handle(value.ptr()), borrowed_t{}));
            } else if constexpr (std::is_same<D, char const*>::value
                                 || std::is_same<D, char*>::value) {
                positional.push_back(str(std::string(value)));
            } else {
                positional.push_back(steal(make_caster<T>::cast(
                    std::forward<T>(value), return_value_policy::automatic_reference, {}).ptr()));
            }
            return 0;
        }
    };

    template<class D> template<class... Args>
    object object_api<D>::operator()(Args&&... args) const {
        call_arguments c;
        int unused[] = {0, c.add(std::forward<Args>(args))...};
        (void)unused;
        tuple t(c.positional.size());
        for (size_t i = 0; i < c.positional.size(); ++i) {
            PyTuple_SET_ITEM(t.ptr(), static_cast<ssize_t>(i), c.positional[i].release().ptr());
        }
        return steal(PyObject_Call(raw(), t.ptr(), c.keywords.ptr()));
    }
}

template<class... Args> tuple make_tuple(Args&&... args) {
    detail::call_arguments c;
    int unused[] = {0, c.add(std::forward<Args>(args))...};
    (void)unused;
    tuple t(c.positional.size());
    for (size_t i = 0; i < c.positional.size(); ++i) {
        PyTuple_SET_ITEM(t.ptr(), static_cast<ssize_t>(i), c.positional[i].release().ptr());
    }
    return t;
}

// ---------------------------------------------------------------------------------------------
// Functions
// ---------------------------------------------------------------------------------------------
namespace detail {
    struct call_frame {
        std::vector<handle> args;
        bool convert = false;
        handle parent;
    };

    struct function_record {
        std::string name;
        std::vector<arg> args;
        std::vector<object> defaults;   ///< parallel to args, null when required
        size_t nargs = 0;
        bool is_method = false;
        std::function<PyObject*(call_frame&)> impl; ///< PYBIND11_TRY_NEXT_OVERLOAD if no match
    };
    using overloads = std::vector<function_record>;

    inline PyObject* try_next() { return reinterpret_cast<PyObject*>(1); }

    inline void translate_exception() {
        try { throw; }
        catch (error_already_set& e) { e.restore(); }
        catch (index_error const& e) { PyErr_SetString(PyExc_IndexError, e.what()); }
        catch (value_error const& e) { PyErr_SetString(PyExc_ValueError, e.what()); }
        catch (type_error const& e) { PyErr_SetString(PyExc_TypeError, e.what()); }
        catch (std::bad_alloc const& e) { PyErr_SetString(PyExc_MemoryError, e.what()); }
        catch (std::domain_error const& e) { PyErr_SetString(PyExc_ValueError, e.what()); }
        catch (std::invalid_argument const& e) { PyErr_SetString(PyExc_ValueError, e.what()); }
        catch (std::length_error const& e) { PyErr_SetString(PyExc_ValueError, e.what()); }
        catch (std::out_of_range const& e) { PyErr_SetString(PyExc_IndexError, e.what()); }
        catch (std::range_error const& e) { PyErr_SetString(PyExc_ValueError, e.what()); }
        catch (std::overflow_error const& e) { PyErr_SetString(PyExc_OverflowError, e.what()); }
        catch (std::exception const& e) { PyErr_SetString(PyExc_RuntimeError, e.what()); }
        catch (...) { PyErr_SetString(PyExc_RuntimeError, "Caught an unknown exception!"); }
    }

    inline PyObject* dispatch(PyObject* capsule, PyObject* args, PyObject* kwargs) {
        auto const& all = *static_cast<overloads*>(PyCapsule_GetPointer(capsule, nullptr));
        auto const given = static_cast<size_t>(PyTuple_GET_SIZE(args));
        try {
            for (auto pass = all.size() == 1 ? 1 : 0; pass < 2; ++pass) {
                for (auto const& f : all) {
                    if (given > f.nargs) { continue; }
                    call_frame call;
                    call.convert = pass == 1;
                    call.parent = given ? PyTuple_GET_ITEM(args, 0) : nullptr;
                    for (size_t i = 0; i < given; ++i) {
                        call.args.push_back(PyTuple_GET_ITEM(args, static_cast<ssize_t>(i)));
                    }
                    size_t used = 0;
                    auto ok = true;
                    for (auto i = given; i < f.nargs && ok; ++i) {
                        handle value;
                        if (i < f.args.size()) {
                            if (kwargs && !f.args[i].name.empty()) {
                                value = PyDict_GetItemString(kwargs, f.args[i].name.c_str());
                                if (value) { ++used; }
                            }
                            if (!value) { value = f.defaults[i]; }
                        }
                        if (!value) { ok = false; } else { call.args.push_back(value); }
                    }
                    if (!ok || (kwargs && used != static_cast<size_t>(PyDict_Size(kwargs)))) {
                        continue;
                    }
                    PyObject* result = nullptr;
                    try { result = f.impl(call); }
                    catch (reference_cast_error&) { result = try_next(); }
                    if (result != try_next()) { return result; }
                }
            }
        } catch (...) {
            translate_exception();
            return nullptr;
        }
        auto const& name = all.front().name;
        std::string types;
        for (size_t i = 0; i < given; ++i) {
            types += std::string(i ? ", " : "")
                     + Py_TYPE(PyTuple_GET_ITEM(args, static_cast<ssize_t>(i)))->tp_name;
        }
        PyErr_Format(PyExc_TypeError, "%s(): incompatible function arguments. Invoked with: %s",
                     name.c_str(), types.c_str());
        return nullptr;
    }

    inline object make_function(overloads* all) {
        auto const def = new PyMethodDef{};
        def->ml_name = strdup(all->front().name.c_str());
        def->ml_meth = reinterpret_cast<PyCFunction>(reinterpret_cast<void*>(&dispatch));
        def->ml_flags = METH_VARARGS | METH_KEYWORDS;
        auto const capsule = steal(PyCapsule_New(all, nullptr, nullptr));
        return steal(PyCFunction_New(def, capsule.ptr()));
    }

    // ---- what can be called, and with which arguments ----
    template<class F> struct signature : signature<decltype(&F::operator())> {};
    template<class R, class... A> struct signature<R (*)(A...)> {
        using result = R; using args = std::tuple<A...>;
    };
    template<class R, class C, class... A> struct signature<R (C::*)(A...)> {
        using result = R; using args = std::tuple<A...>; using type = C;
    };
    template<class R, class C, class... A> struct signature<R (C::*)(A...) const> {
        using result = R; using args = std::tuple<A...>; using type = C const;
    };

    template<class... Extra> struct find_guard { using type = int; };
    template<class G, class... Rest> struct find_guard<call_guard<G>, Rest...> { using type = G; };
    template<class E, class... Rest> struct find_guard<E, Rest...> : find_guard<Rest...> {};

    template<class R> return_value_policy effective(return_value_policy policy) {
        if constexpr (!std::is_lvalue_reference<R>::value && !std::is_pointer<R>::value) {
            return return_value_policy::move;
        } else {
            return policy;
        }
    }

    template<class R, class... A> struct invoker {
        template<class F, size_t... I>
        static bool load(call_frame& call, F& casters, std::index_sequence<I...>) {
            (void)call; (void)casters;
            bool ok[] = {true, std::get<I>(casters).load(call.args[I], call.convert)...};
            return std::all_of(std::begin(ok), std::end(ok), [](bool b) { return b; });
        }
        template<class Guard, class F, size_t... I>
        static PyObject* run(call_frame& call, F& f, return_value_policy policy,
                             std::index_sequence<I...> seq) {
            std::tuple<make_caster<A>...> casters;
            if (!load(call, casters, seq)) { return try_next(); }
            if constexpr (std::is_void<R>::value) {
                {
                    Guard guard{};
                    (void)guard;
                    f(static_cast<A>(cast_op<A>(std::get<I>(casters)))...);
                }
                return none().release().ptr();
            } else {
                auto&& result = [&]() -> R {
                    Guard guard{};
                    (void)guard;
                    return f(static_cast<A>(cast_op<A>(std::get<I>(casters)))...);
                }();
                using Result = decltype(result);
                return make_caster<R>::cast(std::forward<R>(static_cast<Result>(result)),
                                            effective<R>(policy), call.parent).ptr();
            }
        }
    };

    struct process_extra {
        function_record& r;
        int operator()(arg_v const& a) const { r.args.push_back(a); r.defaults.push_back(a.value); return 0; }
        int operator()(arg const& a) const { r.args.push_back(a); r.defaults.emplace_back(); return 0; }
        int operator()(char const*) const { return 0; }
        int operator()(return_value_policy) const { return 0; }
        template<class G> int operator()(call_guard<G> const&) const { return 0; }
        template<size_t N, size_t P> int operator()(keep_alive<N, P> const&) const { return 0; }
    };

    template<class E> void pick_policy(return_value_policy&, E const&) {}
    inline void pick_policy(return_value_policy& p, return_value_policy v) { p = v; }

    template<class E> void tie_lifetimes(call_frame&, PyObject*, E const&) {}
    template<size_t N, size_t P>
    void tie_lifetimes(call_frame& call, PyObject* result, keep_alive<N, P> const&) {
        auto const get = [&](size_t i) { return i == 0 ? handle(result) : handle(call.args[i - 1]); };
        auto const nurse = get(N), patient = get(P);
        if (nurse && patient && !nurse.is_none() && !patient.is_none()) { keep_alive_impl(nurse, patient); }
    }

    template<class R, class... A, class F, class... Extra>
    function_record make_record(std::string name, F f, bool is_method, return_value_policy policy,
                                std::tuple<A...>*, Extra const&... extra) {
        function_record r;
        r.name = std::move(name);
        r.nargs = sizeof...(A);
        r.is_method = is_method;
        if (is_method) { r.args.emplace_back(""); r.defaults.emplace_back(); }
        int unused[] = {0, process_extra{r}(extra)...};
        (void)unused;
        using Guard = typename find_guard<Extra...>::type;
        (pick_policy(policy, extra), ...);
        auto const extras = std::make_tuple(extra...);
        r.impl = [f, policy, extras](call_frame& call) mutable {
            auto const result = invoker<R, A...>::template run<Guard>(
                call, f, policy, std::index_sequence_for<A...>{});
            if (result && result != try_next()) {
                std::apply([&](auto const&... e) { (tie_lifetimes(call, result, e), ...); (void)call; }, extras);
            }
            return result;
        };
        return r;
    }

    template<class Class, class R, class M, class... A, class... Extra>
    function_record from_member(std::string const& name, M pm, return_value_policy policy,
                                std::tuple<A...>*, Extra const&... extra) {
        auto f = [pm](Class& self, A... args) -> R { return (self.*pm)(std::forward<A>(args)...); };
        return make_record<R>(name, f, true, policy,
                              static_cast<std::tuple<Class&, A...>*>(nullptr), extra...);
    }
    template<class Class, class F, class... Extra>
    function_record method_record(std::string const& name, F&& f, return_value_policy policy,
                                  Extra const&... extra) {
        using D = std::decay_t<F>;
        using S = signature<D>;
        using R = typename S::result;
        if constexpr (std::is_member_function_pointer<D>::value) {
            return from_member<Class, R>(name, f, policy, static_cast<typename S::args*>(nullptr),
                                         extra...);
        } else {
            return make_record<R>(name, std::forward<F>(f), true, policy,
                                  static_cast<typename S::args*>(nullptr), extra...);
        }
    }
}

template<class F, class... Extra>
module_& module_::def(char const* name, F&& f, Extra const&... extra) {
    using S = detail::signature<std::decay_t<F>>;
    auto const all = new detail::overloads;
    all->push_back(detail::make_record<typename S::result>(
        name, std::decay_t<F>(f), false, return_value_policy::automatic,
        static_cast<typename S::args*>(nullptr), extra...));
    auto const function = detail::make_function(all);
    if (PyObject_SetAttrString(m_ptr, name, function.ptr())) { throw error_already_set(); }
    return *this;
}

// ---------------------------------------------------------------------------------------------
// Classes
// ---------------------------------------------------------------------------------------------
namespace detail {
    template<class... A> struct constructor {};
    template<class F> struct factory { F f; };
    template<class G, class S> struct pickle_pair { G get; S set; };
    template<class T> struct is_shared_ptr : std::false_type {};
    template<class T> struct is_shared_ptr<std::shared_ptr<T>> : std::true_type {};
    template<class... O> struct find_base { using type = void; };
    template<class O, class... R> struct find_base<O, R...> {
        using type = std::conditional_t<is_shared_ptr<O>::value, typename find_base<R...>::type, O>;
    };
}

template<class... A> detail::constructor<A...> init() { return {}; }
template<class F> detail::factory<std::decay_t<F>> init(F&& f) { return {std::forward<F>(f)}; }
template<class G, class S> detail::pickle_pair<G, S> pickle(G get, S set) {
    return {std::move(get), std::move(set)};
}

template<class T, class... Options>
class class_ : public object {
    using Base = typename detail::find_base<Options...>::type;
    static constexpr auto internal = return_value_policy::reference_internal;
public:
    class_(module_ const& scope, char const* name) {
        auto const record = new detail::type_record;
        record->name = name;
        record->index = typeid(T);
        static PyMemberDef members[] = {
            {"__weaklistoffset__", Py_T_PYSSIZET, offsetof(detail::instance, weakrefs), Py_READONLY,
             nullptr},
            {nullptr, 0, 0, 0, nullptr}
        };
        PyType_Slot slots[] = {
            {Py_tp_new, reinterpret_cast<void*>(&detail::instance_new)},
            {Py_tp_init, reinterpret_cast<void*>(&detail::instance_init)},
            {Py_tp_dealloc, reinterpret_cast<void*>(&detail::instance_dealloc)},
            {Py_tp_members, members},
            {0, nullptr}
        };
        auto const full = new std::string(std::string(PyModule_GetName(scope.ptr())) + "." + name);
        PyType_Spec spec = {full->c_str(), sizeof(detail::instance), 0,
                            Py_TPFLAGS_DEFAULT | Py_TPFLAGS_BASETYPE, slots};
        PyObject* bases = nullptr;
        if constexpr (!std::is_void<Base>::value) {
            record->base = detail::find_record(std::type_index(typeid(Base)));
            record->to_base = [](void* p) -> void* {
                return static_cast<Base*>(static_cast<T*>(p));
            };
            bases = reinterpret_cast<PyObject*>(record->base->type);
        }
        auto const type = PyType_FromSpecWithBases(&spec, bases);
        if (!type) { throw error_already_set(); }
        m_ptr = type;
        record->type = reinterpret_cast<PyTypeObject*>(type);
        inc_ref(); // types live forever
        detail::internals().by_cpp[std::type_index(typeid(T))] = record;
        detail::internals().by_py[record->type] = record;
        if (PyObject_SetAttrString(scope.ptr(), name, type)) { throw error_already_set(); }
    }

    template<class F, class... Extra>
    class_& def(char const* name, F&& f, Extra const&... extra) {
        return add(detail::method_record<T>(name, std::forward<F>(f),
                                            return_value_policy::automatic, extra...));
    }

    template<class... A, class... Extra>
    class_& def(detail::constructor<A...>, Extra const&... extra) {
        auto f = [](handle self, A... args) {
            emplace(self, new T(std::forward<A>(args)...));
        };
        return add(detail::make_record<void>("__init__", f, true, return_value_policy::automatic,
                                             static_cast<std::tuple<handle, A...>*>(nullptr),
                                             extra...));
    }

    template<class F, class... Extra>
    class_& def(detail::factory<F> init, Extra const&... extra) {
        using S = detail::signature<F>;
        return def_factory("__init__", init.f, static_cast<typename S::args*>(nullptr), extra...);
    }

    template<class G, class S> class_& def(detail::pickle_pair<G, S> p) {
        def("__getstate__", p.get);
        return def_factory("__setstate__", p.set,
                           static_cast<typename detail::signature<S>::args*>(nullptr));
    }

    template<class F, class... Extra>
    class_& def_property_readonly(char const* name, F&& f, Extra const&... extra) {
        return property(name, getter(name, std::forward<F>(f), extra...), nullptr);
    }
    template<class G, class S, class... Extra>
    class_& def_property(char const* name, G&& g, S&& s, Extra const&... extra) {
        auto const set = new detail::overloads{detail::method_record<T>(
            name, std::forward<S>(s), return_value_policy::automatic)};
        return property(name, getter(name, std::forward<G>(g), extra...), set);
    }
    template<class D, class C, class... Extra>
    class_& def_readonly(char const* name, D C::*pm, Extra const&... extra) {
        return property(name, getter(name, [pm](T const& c) -> D const& { return c.*pm; }, extra...), nullptr);
    }
    template<class D, class C, class... Extra>
    class_& def_readwrite(char const* name, D C::*pm, Extra const&... extra) {
        auto const set = new detail::overloads{detail::method_record<T>(
            name, [pm](T& c, D const& v) { c.*pm = v; }, return_value_policy::automatic)};
        return property(name, getter(name, [pm](T const& c) -> D const& { return c.*pm; }, extra...), set);
    }

private:
    static void emplace(handle self, T* p) {
        auto const i = reinterpret_cast<detail::instance*>(self.ptr());
        if (i->ptr) {
            detail::forget(i);
            delete i->holder;
            i->holder = nullptr;
        }
        i->record = detail::find_record(std::type_index(typeid(T)));
        detail::attach(i, p, true);
    }

    template<class F, class... A, class... Extra>
    class_& def_factory(char const* name, F f, std::tuple<A...>*, Extra const&... extra) {
        auto g = [f](handle self, A... args) {
            auto const p = f(std::forward<A>(args)...);
            if constexpr (std::is_pointer<std::decay_t<decltype(p)>>::value) {
                emplace(self, p);
            } else {
                emplace(self, new T(std::move(p)));
            }
        };
        return add(detail::make_record<void>(name, g, true, return_value_policy::automatic,
                                             static_cast<std::tuple<handle, A...>*>(nullptr),
                                             extra...));
    }

    template<class F, class... Extra>
    detail::overloads* getter(char const* name, F&& f, Extra const&... extra) {
        return new detail::overloads{detail::method_record<T>(name, std::forward<F>(f), internal, extra...)};
    }

    class_& add(detail::function_record r) {
        auto const name = r.name;
        auto& chain = methods[name];
        if (chain) {
            chain->push_back(std::move(r));
        } else {
            chain = new detail::overloads{std::move(r)};
            auto const f = detail::make_function(chain);
            auto const method = detail::steal(PyInstanceMethod_New(f.ptr()));
            if (PyObject_SetAttrString(m_ptr, name.c_str(), method.ptr())) {
                throw error_already_set();
            }
        }
        return *this;
    }

    class_& property(char const* name, detail::overloads* get, detail::overloads* set) {
        auto const g = detail::make_function(get);
        auto const s = set ? detail::make_function(set) : object(none());
        auto const p = detail::steal(PyObject_CallFunctionObjArgs(
            reinterpret_cast<PyObject*>(&PyProperty_Type), g.ptr(), s.ptr(), nullptr));
        if (PyObject_SetAttrString(m_ptr, name, p.ptr())) { throw error_already_set(); }
        return *this;
    }

    std::map<std::string, detail::overloads*> methods;
};

void shim_import_numpy();

#define PYBIND11_MODULE(name, variable)                                                     \
    static void shim_init_##name(::pybind11::module_&);                                     \
    extern "C" __attribute__((visibility("default"))) PyObject* PyInit_##name() {           \
        static PyModuleDef def = {PyModuleDef_HEAD_INIT, #name, nullptr, -1,                \
                                  nullptr, nullptr, nullptr, nullptr, nullptr};             \
        try {                                                                               \
            ::pybind11::shim_import_numpy();                                                \
            auto const shim_m = PyModule_Create(&def);                                         \
            if (!shim_m) { return nullptr; }                                                \
            ::pybind11::module_ shim_module(shim_m, ::pybind11::borrowed_t{});              \
            shim_init_##name(shim_module);                                                  \
            return shim_m;                                                                   \
        } catch (...) { ::pybind11::detail::translate_exception(); return nullptr; }        \
    }                                                                                       \
    static void shim_init_##name(::pybind11::module_& variable)

} // namespace pybind11
