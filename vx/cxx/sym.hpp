// A number type that records the operations applied to it.
#pragma once
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <string>
#include <vector>
struct node { const char* op; int a, b; double c; };
inline std::vector<node>& nodes() { static std::vector<node> v; return v; }
struct sym {
  int id;
  static int put(const char* op, int a, int b, double c) { nodes().push_back({op, a, b, c}); return (int)nodes().size() - 1; }
  sym() : id(-1) {}
  sym(double c) : id(put("const", 0, 0, c)) {}
  sym(int c) : id(put("const", 0, 0, c)) {}
  static sym raw(int i) { sym s; s.id = i; return s; }
  sym& operator+=(const sym& o);
  sym& operator-=(const sym& o);
  sym& operator*=(const sym& o);
  sym& operator/=(const sym& o);
};
#define VX_BIN(op, name)                                                                                   \
  inline sym operator op(const sym& x, const sym& y) { return sym::raw(sym::put(name, x.id, y.id, 0)); }   \
  inline sym operator op(const sym& x, double y) { return x op sym(y); }                                   \
  inline sym operator op(double x, const sym& y) { return sym(x) op y; }                                   \
  inline sym operator op(const sym& x, int y) { return x op sym(y); }                                      \
  inline sym operator op(int x, const sym& y) { return sym(x) op y; }                                      \
  inline sym& sym::operator op##=(const sym& o) { *this = *this op o; return *this; }
VX_BIN(+, "+") VX_BIN(-, "-") VX_BIN(*, "*") VX_BIN(/, "/")
inline sym operator-(const sym& x) { return sym(0.0) - x; }
inline sym operator+(const sym& x) { return x; }
#define VX_UN(f) inline sym f(const sym& x) { return sym::raw(sym::put(#f, x.id, 0, 0)); }
VX_UN(exp) VX_UN(log) VX_UN(sqrt) VX_UN(fabs)
inline sym abs(const sym& x) { return fabs(x); }
#define VX_FN2(f)                                                                                  \
  inline sym f(const sym& x, const sym& y) { return sym::raw(sym::put(#f, x.id, y.id, 0)); }       \
  inline sym f(const sym& x, double y) { return f(x, sym(y)); }                                    \
  inline sym f(double x, const sym& y) { return f(sym(x), y); }
VX_FN2(pow) VX_FN2(fmax) VX_FN2(fmin)
namespace std { using ::exp; using ::log; using ::sqrt; using ::pow; using ::fmax; using ::fmin; using ::fabs; }
