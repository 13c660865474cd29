#define SHIM_NUMPY_INIT
#include "pybind11.h"

namespace pybind11 {

namespace detail {
    internals_t& internals() {
        static auto* const i = new internals_t;
        return *i;
    }
}

void shim_import_numpy() {
    if (PyArray_ImportNumPyAPI() < 0) { throw error_already_set(); }
}

}
