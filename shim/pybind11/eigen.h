// Eigen types for the stand-in, see pybind11.h
#pragma once
#include "numpy.h"
#include <Eigen/Core>
#include <Eigen/SparseCore>

namespace pybind11 { namespace detail {

template<class T> struct is_plain {
    template<class D> static std::true_type test(Eigen::PlainObjectBase<D> const*);
    static std::false_type test(...);
    static constexpr bool value = decltype(test(static_cast<T*>(nullptr)))::value;
};

struct holder_of_nothing {};

/// A view of the given dense object, or a copy of it if there is no base
template<class T> object eigen_array(T const& src, handle base, bool writable) {
    using Scalar = typename T::Scalar;
    constexpr auto vector = bool(T::IsVectorAtCompileTime);
    npy_intp dims[2], strides[2];
    constexpr auto item = static_cast<npy_intp>(sizeof(Scalar));
    if (vector) {
        dims[0] = src.size();
        strides[0] = src.innerStride() * item;
    } else {
        dims[0] = src.rows();
        dims[1] = src.cols();
        strides[0] = (T::IsRowMajor ? src.outerStride() : src.innerStride()) * item;
        strides[1] = (T::IsRowMajor ? src.innerStride() : src.outerStride()) * item;
    }
    auto view = steal(PyArray_NewFromDescr(
        &PyArray_Type, PyArray_DescrFromType(npy_type<Scalar>()), vector ? 1 : 2, dims, strides,
        const_cast<Scalar*>(src.data()),
        (writable ? NPY_ARRAY_WRITEABLE : 0), nullptr));
    auto const a = reinterpret_cast<PyArrayObject*>(view.ptr());
    PyArray_UpdateFlags(a, NPY_ARRAY_UPDATE_ALL & ~NPY_ARRAY_WRITEABLE);
    if (!base) { return steal(PyArray_NewCopy(a, NPY_KEEPORDER)); }
    if (!base.is_none()) {
        base.inc_ref();
        PyArray_SetBaseObject(a, base.ptr());
    }
    return view;
}

template<class T>
struct type_caster<T, std::enable_if_t<is_plain<T>::value>> {
    using Scalar = typename T::Scalar;
    static constexpr auto vector = bool(T::IsVectorAtCompileTime);
    static constexpr auto fixed_rows = T::RowsAtCompileTime != Eigen::Dynamic;
    static constexpr auto fixed_cols = T::ColsAtCompileTime != Eigen::Dynamic;

    bool load(handle src, bool convert) {
        if (!convert && !isinstance<array_t<Scalar>>(src)) { return false; }
        auto buf = array::ensure(src);
        if (!buf) { return false; }
        auto const dims = buf.ndim();
        if (dims < 1 || dims > 2) { return false; }
        Eigen::Index rows, cols;
        if (dims == 2) {
            rows = buf.shape(0);
            cols = buf.shape(1);
            if ((fixed_rows && rows != T::RowsAtCompileTime)
                || (fixed_cols && cols != T::ColsAtCompileTime)) { return false; }
        } else {
            auto const n = buf.shape(0);
            if (vector) {
                if (T::SizeAtCompileTime != Eigen::Dynamic && n != T::SizeAtCompileTime) { return false; }
                rows = T::RowsAtCompileTime == 1 ? 1 : n;
                cols = T::ColsAtCompileTime == 1 ? 1 : n;
            } else {
                if (fixed_rows && fixed_cols) { return false; }
                if (fixed_cols) {
                    if (T::ColsAtCompileTime != n) { return false; }
                    rows = 1; cols = n;
                } else {
                    if (fixed_rows && T::RowsAtCompileTime != n) { return false; }
                    rows = n; cols = 1;
                }
            }
        }
        value.resize(rows, cols);
        auto ref = eigen_array(value, Py_None, true);
        auto const squeeze = [](object const& o) {
            return steal(PyArray_Squeeze(reinterpret_cast<PyArrayObject*>(o.ptr())));
        };
        object from = buf;
        if (dims == 1) { ref = squeeze(ref); }
        else if (vector) { from = squeeze(buf); }
        if (dims == 1 && value.size() == 1) { from = squeeze(from); }
        if (PyArray_CopyInto(reinterpret_cast<PyArrayObject*>(ref.ptr()),
                             reinterpret_cast<PyArrayObject*>(from.ptr())) < 0) {
            PyErr_Clear();
            return false;
        }
        return true;
    }
    static handle cast(T const& src, return_value_policy policy, handle parent) {
        if (policy == return_value_policy::reference_internal && parent) {
            return eigen_array(src, parent, false).release();
        }
        return eigen_array(src, {}, true).release();
    }
    static handle cast(T const* src, return_value_policy policy, handle parent) {
        return cast(*src, policy, parent);
    }
    PYBIND11_TYPE_CASTER(T, _("numpy.ndarray"))
};

template<class P, int O, class S> struct type_caster<Eigen::Ref<P const, O, S>> {
    using Type = Eigen::Ref<P const, O, S>;
    type_caster<P> copy;
    std::unique_ptr<Type> ref;
    bool load(handle src, bool convert) {
        if (!copy.load(src, convert)) { return false; }
        ref.reset(new Type(static_cast<P&>(copy)));
        return true;
    }
    static handle cast(Type const& src, return_value_policy policy, handle parent) {
        switch (policy) {
            case return_value_policy::reference_internal: return eigen_array(src, parent, false).release();
            case return_value_policy::copy: return eigen_array(src, {}, true).release();
            default: return eigen_array(src, Py_None, false).release();
        }
    }
    operator Type*() { return ref.get(); }
    operator Type&() { return *ref; }
};

template<class P, int O, class S> struct type_caster<Eigen::Ref<P, O, S>, std::enable_if_t<!std::is_const<P>::value>> {
    using Type = Eigen::Ref<P, O, S>;
    static handle cast(Type const& src, return_value_policy policy, handle parent) {
        switch (policy) {
            case return_value_policy::reference_internal: return eigen_array(src, parent, true).release();
            case return_value_policy::copy: return eigen_array(src, {}, true).release();
            default: return eigen_array(src, Py_None, true).release();
        }
    }
};

template<class S, int O, class I> struct type_caster<Eigen::SparseMatrix<S, O, I>> {
    using Type = Eigen::SparseMatrix<S, O, I>;
    bool load(handle src, bool) {
        if (!src) { return false; }
        auto const sparse = module_::import("scipy.sparse");
        auto const type = sparse.attr(Type::IsRowMajor ? "csr_matrix" : "csc_matrix");
        auto obj = object(src, borrowed_t{});
        if (reinterpret_cast<PyObject*>(Py_TYPE(src.ptr())) != type.ptr()) {
            try { obj = type(obj); } catch (error_already_set const&) { return false; }
        }
        auto const data = array_t<S>::ensure(object(obj.attr("data")));
        auto const inner = array_t<I>::ensure(object(obj.attr("indices")));
        auto const outer = array_t<I>::ensure(object(obj.attr("indptr")));
        auto const shape = tuple(object(obj.attr("shape")));
        auto const nnz = obj.attr("nnz").cast<Eigen::Index>();
        if (!data || !inner || !outer) { return false; }
        value = Eigen::Map<Type const>(shape[0].cast<Eigen::Index>(), shape[1].cast<Eigen::Index>(),
                                       nnz, outer.data(), inner.data(), data.data());
        return true;
    }
    PYBIND11_TYPE_CASTER(Type, _("scipy.sparse"))
    static handle cast(Type const& src_, return_value_policy, handle) {
        Type src = src_;
        src.makeCompressed();
        auto const nnz = static_cast<ssize_t>(src.nonZeros());
        auto const outer = static_cast<ssize_t>(src.outerSize()) + 1;
        auto const type = module_::import("scipy.sparse").attr(
            Type::IsRowMajor ? "csr_matrix" : "csc_matrix");
        return type(pybind11::make_tuple(array_t<S>(nnz, src.valuePtr()),
                                         array_t<I>(nnz, src.innerIndexPtr()),
                                         array_t<I>(outer, src.outerIndexPtr())),
                    pybind11::make_tuple(src.rows(), src.cols())).release();
    }
};

}}
