// std::function for the stand-in, see pybind11.h
#pragma once
#include "pybind11.h"

namespace pybind11 { namespace detail {

template<class R, class... A> struct type_caster<std::function<R(A...)>> {
    using Type = std::function<R(A...)>;

    /// The Python callable may be copied and destroyed by code which does not hold the GIL
    struct callable {
        object f;
        explicit callable(object f) : f(std::move(f)) {}
        callable(callable const& o) { gil_scoped_acquire guard; f = o.f; }
        ~callable() { gil_scoped_acquire guard; object kill(std::move(f)); }
        R operator()(A... args) const {
            gil_scoped_acquire guard;
            object result = f(std::forward<A>(args)...);
            if constexpr (!std::is_void<R>::value) { return result.template cast<R>(); }
        }
    };

    bool load(handle src, bool convert) {
        if (src.is_none()) { return convert; }
        if (!PyCallable_Check(src.ptr())) { return false; }
        value = callable(object(src, borrowed_t{}));
        return true;
    }
    static handle cast(Type const& src, return_value_policy, handle) {
        if (!src) { return none().release(); }
        auto const all = new overloads;
        all->push_back(make_record<R>("function", src, false, return_value_policy::automatic,
                                      static_cast<std::tuple<A...>*>(nullptr)));
        return make_function(all).release();
    }
    PYBIND11_TYPE_CASTER(Type, _("callable"))
};

}}
