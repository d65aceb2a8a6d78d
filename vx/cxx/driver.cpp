#include "pybind11/pybind11.h"
#include "sym.hpp"
#include "interface.cpp"
#include <cstring>
#include <vector>
// usage: driver <what> <ints...>: runs the entry point on arrays of inputs and prints the operations recorded.
using A = pybind11::array_t<sym>;
static int counter = 0;
static std::vector<std::vector<sym>*> store;
static A make(const char* tag, long n) {
  auto* v = new std::vector<sym>(n);
  for (long i = 0; i < n; i++) (*v)[i] = sym::raw(sym::put(tag, (int)i, 0, 0));
  store.push_back(v);
  A a; a.p = v->data(); a.n = n; return a;
}
static void out(const char* tag, const A& a) {
  for (long i = 0; i < a.n; i++) printf("out %s %ld %d\n", tag, i, a.p[i].id);
}
int main(int argc, char** argv) {
  std::vector<int> n;
  for (int i = 2; i < argc; i++) n.push_back(atoi(argv[i]));
  std::vector<std::pair<const char*, A>> outs;
  if (!strcmp(argv[1], "pointwise2")) {
    long s = 4L * n[0] * n[1] * n[2];
    A q = make("in:q", s), f1 = make("in:f1", s), f2 = make("in:f2", s);
    pointwise_eulercartesian_2d<sym>(q, f1, f2, n[0], n[1], n[2]);
    outs = {{"f1", f1}, {"f2", f2}, {"q", q}};
  } else if (!strcmp(argv[1], "riemann2")) {
    long s = 4L * n[0] * n[1] * 2 * n[2];
    A q1 = make("in:q1", s), q2 = make("in:q2", s), f1 = make("in:f1", s), f2 = make("in:f2", s);
    riemann_eulercartesian_ausm_2d<sym>(q1, q2, f1, f2, n[0], n[1], n[2]);
    outs = {{"f1", f1}, {"f2", f2}, {"q1", q1}, {"q2", q2}};
  } else if (!strcmp(argv[1], "forcing3")) {
    long s = (long)n[0] * n[1] * n[2] * n[3];
    A q = make("in:q", 5 * s), p = make("in:p", s), g = make("in:g", s), h = make("in:h", 9 * s), c = make("in:c", 27 * s), f = make("in:f", 5 * s);
    forcing_euler_cubesphere_3d<sym, sym>(q, p, g, h, c, f, n[0], n[1], n[2], n[3], 0);
    outs = {{"f", f}, {"q", q}};
  } else return 2;
  auto& v = nodes();
  for (size_t i = 0; i < v.size(); i++) printf("%zu %s %d %d %.17g\n", i, v[i].op, v[i].a, v[i].b, v[i].c);
  for (auto& o : outs) out(o.first, o.second);
  return 0;
}
