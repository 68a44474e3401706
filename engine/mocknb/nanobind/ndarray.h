#pragma once
#include "nanobind.h"
namespace nanobind {
struct vnb_nd { void *data_; int64_t ndim_; int64_t shape_[10]; };
template <class... Args>
struct ndarray {
    void *data_; int64_t ndim_; int64_t shape_[10];
    void *data() const { return data_; }
    size_t ndim() const { return (size_t)ndim_; }
    size_t shape(size_t i) const { return (size_t)shape_[i]; }
    size_t size() const { size_t r = 1; for (int64_t i = 0; i < ndim_; i++) r *= shape_[i]; return r; }
};
}  // namespace nanobind
