// Containers of the standard library for the stand-in, see pybind11.h
#pragma once
#include "pybind11.h"

namespace pybind11 { namespace detail {

template<class T> return_value_policy element_policy(return_value_policy p) {
    // elements of a container which is being returned by value are moved or copied
    return p;
}

inline bool is_sequence(handle src) {
    return src && PySequence_Check(src.ptr()) && !PyUnicode_Check(src.ptr())
           && !PyBytes_Check(src.ptr());
}

template<class V> struct type_caster<std::vector<V>> {
    using Type = std::vector<V>;
    bool load(handle src, bool convert) {
        if (!is_sequence(src)) { return false; }
        value.clear();
        auto const n = PySequence_Size(src.ptr());
        for (auto i = ssize_t{0}; i < n; ++i) {
            auto const item = steal(PySequence_GetItem(src.ptr(), i));
            make_caster<V> c;
            if (!c.load(item, convert)) { return false; }
            value.push_back(cast_op<V>(c));
        }
        return true;
    }
    template<class T> static handle cast(T&& src, return_value_policy policy, handle parent) {
        list l(src.size());
        auto i = ssize_t{0};
        for (auto const& x : src) {
            PyList_SET_ITEM(l.ptr(), i++, make_caster<V>::cast(x, sub(policy), parent).ptr());
        }
        return l.release();
    }
    static return_value_policy sub(return_value_policy p) {
        return p == return_value_policy::move ? return_value_policy::copy : p;
    }
    PYBIND11_TYPE_CASTER(Type, _("list"))
};

template<class V, size_t N> struct type_caster<std::array<V, N>> {
    using Type = std::array<V, N>;
    bool load(handle src, bool convert) {
        if (!is_sequence(src) || PySequence_Size(src.ptr()) != static_cast<ssize_t>(N)) { return false; }
        for (auto i = size_t{0}; i < N; ++i) {
            auto const item = steal(PySequence_GetItem(src.ptr(), static_cast<ssize_t>(i)));
            make_caster<V> c;
            if (!c.load(item, convert)) { return false; }
            value[i] = cast_op<V>(c);
        }
        return true;
    }
    static handle cast(Type const& src, return_value_policy policy, handle parent) {
        return type_caster<std::vector<V>>::cast(src, policy, parent);
    }
    PYBIND11_TYPE_CASTER(Type, _("list"))
};

template<class Map, class K, class V> struct map_caster {
    using Type = Map;
    bool load(handle src, bool convert) {
        if (!src || !PyDict_Check(src.ptr())) { return false; }
        value.clear();
        PyObject *k, *v;
        ssize_t pos = 0;
        while (PyDict_Next(src.ptr(), &pos, &k, &v)) {
            make_caster<K> kc;
            make_caster<V> vc;
            if (!kc.load(k, convert) || !vc.load(v, convert)) { return false; }
            value.emplace(cast_op<K>(kc), cast_op<V>(vc));
        }
        return true;
    }
    static handle cast(Type const& src, return_value_policy policy, handle parent) {
        dict d;
        if (policy == return_value_policy::move) { policy = return_value_policy::copy; }
        for (auto const& pair : src) {
            auto const k = steal(make_caster<K>::cast(pair.first, policy, parent).ptr());
            auto const v = steal(make_caster<V>::cast(pair.second, policy, parent).ptr());
            if (PyDict_SetItem(d.ptr(), k.ptr(), v.ptr())) { throw error_already_set(); }
        }
        return d.release();
    }
    PYBIND11_TYPE_CASTER(Type, _("dict"))
};
template<class K, class V> struct type_caster<std::map<K, V>> : map_caster<std::map<K, V>, K, V> {};
template<class K, class V>
struct type_caster<std::unordered_map<K, V>> : map_caster<std::unordered_map<K, V>, K, V> {};

template<class A, class B> struct type_caster<std::pair<A, B>> {
    using Type = std::pair<A, B>;
    bool load(handle src, bool convert) {
        if (!is_sequence(src) || PySequence_Size(src.ptr()) != 2) { return false; }
        auto const x = steal(PySequence_GetItem(src.ptr(), 0));
        auto const y = steal(PySequence_GetItem(src.ptr(), 1));
        make_caster<A> a;
        make_caster<B> b;
        if (!a.load(x, convert) || !b.load(y, convert)) { return false; }
        value = Type(cast_op<A>(a), cast_op<B>(b));
        return true;
    }
    static handle cast(Type const& src, return_value_policy policy, handle parent) {
        if (policy == return_value_policy::move) { policy = return_value_policy::copy; }
        tuple t(2);
        PyTuple_SET_ITEM(t.ptr(), 0, make_caster<A>::cast(src.first, policy, parent).ptr());
        PyTuple_SET_ITEM(t.ptr(), 1, make_caster<B>::cast(src.second, policy, parent).ptr());
        return t.release();
    }
    PYBIND11_TYPE_CASTER(Type, _("tuple"))
};

template<class V> struct variant_caster;
template<template<class...> class V, class... Ts> struct variant_caster<V<Ts...>> {
    using Type = V<Ts...>;
    template<class U> bool load_one(handle src, bool convert) {
        make_caster<U> c;
        if (!c.load(src, convert)) { return false; }
        value = cast_op<U>(c);
        return true;
    }
    bool load_any(handle src, bool convert) {
        auto done = false;
        int unused[] = {(done = done || load_one<Ts>(src, convert), 0)...};
        (void)unused;
        return done;
    }
    bool load(handle src, bool convert) {
        if (convert && load_any(src, false)) { return true; }
        return load_any(src, convert);
    }
    struct visitor {
        return_value_policy policy;
        handle parent;
        using result_type = handle;
        template<class T> result_type operator()(T const& src) const {
            return make_caster<T>::cast(src, policy, parent);
        }
    };
    static handle cast(Type const& src, return_value_policy policy, handle parent) {
        return visit_helper<V>::call(visitor{policy, parent}, src);
    }
    PYBIND11_TYPE_CASTER(Type, _("variant"))
};

}}
