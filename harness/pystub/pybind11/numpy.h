#pragma once
#include "pybind11.h"
namespace pybind11 {
template <class T> struct array_t {
    std::vector<T> v;
    array_t(std::vector<T> const& x) : v(x) { }
    array_t(size_t n, T const* p) : v(p, p + n) { }
};
}
