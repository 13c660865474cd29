// numpy arrays for the stand-in, see pybind11.h
#pragma once
#include "pybind11.h"

namespace pybind11 {

namespace detail {
    struct npy_api {
        enum constants {
            NPY_ARRAY_C_CONTIGUOUS_ = NPY_ARRAY_C_CONTIGUOUS,
            NPY_ARRAY_F_CONTIGUOUS_ = NPY_ARRAY_F_CONTIGUOUS,
            NPY_ARRAY_ALIGNED_ = NPY_ARRAY_ALIGNED,
            NPY_ARRAY_WRITEABLE_ = NPY_ARRAY_WRITEABLE
        };
        PyObject* PyArray_NewFromDescr_(PyTypeObject* type, PyObject* descr, int nd,
                                        Py_intptr_t const* dims, Py_intptr_t const* strides,
                                        void* data, int flags, PyObject* base) const {
            return PyArray_NewFromDescr(type, reinterpret_cast<PyArray_Descr*>(descr), nd,
                                        const_cast<npy_intp*>(dims), const_cast<npy_intp*>(strides),
                                        data, flags, base);
        }
        PyTypeObject* PyArray_Type_ = &PyArray_Type;
        static npy_api const& get() { static npy_api const api; return api; }
    };

    template<class T> constexpr int npy_type() {
        using D = std::remove_cv_t<T>;
        if constexpr (std::is_same<D, bool>::value) { return NPY_BOOL; }
        else if constexpr (std::is_same<D, float>::value) { return NPY_FLOAT; }
        else if constexpr (std::is_same<D, double>::value) { return NPY_DOUBLE; }
        else if constexpr (std::is_same<D, std::complex<float>>::value) { return NPY_CFLOAT; }
        else if constexpr (std::is_same<D, std::complex<double>>::value) { return NPY_CDOUBLE; }
        else if constexpr (std::is_integral<D>::value) {
            return sizeof(D) == 1 ? (std::is_signed<D>::value ? NPY_INT8 : NPY_UINT8)
                 : sizeof(D) == 2 ? (std::is_signed<D>::value ? NPY_INT16 : NPY_UINT16)
                 : sizeof(D) == 4 ? (std::is_signed<D>::value ? NPY_INT32 : NPY_UINT32)
                                  : (std::is_signed<D>::value ? NPY_INT64 : NPY_UINT64);
        } else { static_assert(always_false<T>::value, "no numpy type"); }
    }
}

class dtype : public object {
public:
    dtype(handle h, stolen_t) : object(h, stolen_t{}) {}
    dtype(handle h, borrowed_t) : object(h, borrowed_t{}) {}
    template<class T> static dtype of() {
        return {reinterpret_cast<PyObject*>(PyArray_DescrFromType(detail::npy_type<T>())), stolen_t{}};
    }
};

class array : public object {
public:
    array() = default;
    SHIM_PYOBJECT(array, PyArray_Check)
    PyArrayObject* get() const { return reinterpret_cast<PyArrayObject*>(m_ptr); }
    ssize_t ndim() const { return PyArray_NDIM(get()); }
    ssize_t size() const { return PyArray_SIZE(get()); }
    ssize_t shape(int i) const { return PyArray_DIM(get(), i); }
    ssize_t const* shape() const { return PyArray_DIMS(get()); }
    ssize_t const* strides() const { return PyArray_STRIDES(get()); }
    static array ensure(handle h) {
        auto const p = PyArray_FromAny(h.ptr(), nullptr, 0, 0, NPY_ARRAY_ENSUREARRAY, nullptr);
        if (!p) { PyErr_Clear(); return {}; }
        return {p, stolen_t{}};
    }
};

template<class T> class array_t : public array {
public:
    array_t() = default;
    array_t(handle h, stolen_t) : array(h, stolen_t{}) {}
    array_t(handle h, borrowed_t) : array(h, borrowed_t{}) {}
    array_t(ssize_t n, T const* data) {
        npy_intp dims[] = {n};
        m_ptr = PyArray_SimpleNew(1, dims, detail::npy_type<T>());
        if (!m_ptr) { throw error_already_set(); }
        std::copy(data, data + n, static_cast<T*>(PyArray_DATA(get())));
    }
    T const* data() const { return static_cast<T const*>(PyArray_DATA(get())); }
    static bool check_(handle h) {
        return PyArray_Check(h.ptr())
               && PyArray_EquivTypes(PyArray_DESCR(reinterpret_cast<PyArrayObject*>(h.ptr())),
                                     reinterpret_cast<PyArray_Descr*>(dtype::of<T>().ptr()));
    }
    static array_t ensure(handle h) {
        auto const p = PyArray_FromAny(
            h.ptr(), reinterpret_cast<PyArray_Descr*>(dtype::of<T>().release().ptr()), 0, 0,
            NPY_ARRAY_ENSUREARRAY | NPY_ARRAY_FORCECAST, nullptr);
        if (!p) { PyErr_Clear(); return {}; }
        return {p, stolen_t{}};
    }
};

}
