// Stand-in for pybind11: just enough for the interface file of /repo to be compiled with any number type.
#pragma once
#include <complex>
#include <cstdint>
#include <cstdio>
#include <limits>
#include <stdexcept>
#include <string>
#include <utility>
#include <vector>
namespace pybind11 {
struct buffer_info { void* ptr = nullptr; std::vector<long> shape; std::vector<long> strides; long size = 0; long ndim = 0; };
template <typename T> struct array_t {
  T* p = nullptr; long n = 0;
  buffer_info request(bool = false) const { buffer_info b; b.ptr = (void*)p; b.size = n; return b; }
  T* mutable_data() { return p; }
  const T* data() const { return p; }
  long size() const { return n; }
};
struct object {
  object attr(const char*) const { return *this; }
  template <typename T> T cast() const { return T(); }
};
struct module_ {
  template <typename... A> module_& def(A&&...) { return *this; }
};
struct arg { arg(const char*) {} };
} // namespace pybind11
#define PYBIND11_MODULE(name, m) static void vx_init_##name(pybind11::module_& m)
