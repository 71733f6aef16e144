// the Python module: one root per name it exposes
#include <string>
#include <pybind11/pybind11.h>
#ifdef SA_SPEC
#include "common.hpp"
#include "../spec/ref_py.hpp"
#else
#include "pybind11/pyvotess.cpp"
#include "common.hpp"
#endif
using D = votess::dnn<int>;
using Row = std::remove_cv_t<decltype(std::declval<D&>()[0])>;
template <> struct pybind11::sa_borrows<Row> { static constexpr bool value = true; };
using pybind11::sa_call;
static inline void sel(sa_call& c) { c.found = 0; c.safe = 0; c.ri = 0; c.rf = 0; c.rp = nullptr; }
static inline void go(sa_call& c, const char* cls, const char* fun, long argc) { pybind11::module_ m(c, cls, fun, argc); sa_py_module(m); }
template <typename R> static inline int geti(R& r) { return r.template get<int>(); }
static inline votess::vtargref& look(votess::vtargs& a, const std::string& k) { return a[k]; }
struct Out { long found, safe, ri; };
static inline void out(sa_call& c, Out* o) { o->found = c.found; o->safe = c.safe; o->ri = c.ri; }

U void u_py_dev_cpu(Out* o) { sa_call c; alignas(16) char b[256]; c.buf = b; sel(c); go(c, "device", "cpu", 0); out(c, o); }
U void u_py_dev_gpu(Out* o) { sa_call c; alignas(16) char b[256]; c.buf = b; sel(c); go(c, "device", "gpu", 0); out(c, o); }

U void u_py_ref_int(votess::vtargref& r, Out* o) { sa_call c; alignas(16) char b[256]; c.buf = b; sel(c); c.self = &r; go(c, "vtargref", "__int__", 0); out(c, o); }
U void u_py_ref_bool(votess::vtargref& r, Out* o) { sa_call c; alignas(16) char b[256]; c.buf = b; sel(c); c.self = &r; go(c, "vtargref", "__bool__", 0); out(c, o); }
U void u_py_ref_float(votess::vtargref& r, Out* o, double* v) { sa_call c; alignas(16) char b[256]; c.buf = b; sel(c); c.self = &r; go(c, "vtargref", "__float__", 0); out(c, o); *v = c.rf; }
U void u_py_ref_str(votess::vtargref& r, Out* o, std::string* v) { sa_call c; alignas(16) char b[256]; c.buf = b; sel(c); c.self = &r; go(c, "vtargref", "__str__", 0); out(c, o); *v = c.rs; }

static inline void put(votess::vtargs& a, unsigned long k, int v) { a[std::string(std::string::raw(), k)] = v; }
// what is read through the object follows later changes of the parameter
U void u_py_args_get(votess::vtargs& a, unsigned long key, Out* o, int* v, int w, int* v2) {
  sa_call c; alignas(16) char b[256]; c.buf = b; sel(c); c.self = &a; c.o[0] = key; go(c, "vtargs", "__getitem__", 1); out(c, o);
  if (c.found) { *v = geti(*(votess::vtargref*)c.rp); put(a, key, w); *v2 = geti(*(votess::vtargref*)c.rp); }
}
U void u_py_args_set(votess::vtargs& a, unsigned long key, unsigned long value, Out* o) {
  sa_call c; alignas(16) char b[256]; c.buf = b; sel(c); c.self = &a; c.o[0] = key; c.o[1] = value; go(c, "vtargs", "__setitem__", 2); out(c, o);
}
U void u_py_args_new(Out* o, const std::string& key, int* v) {
  sa_call c; alignas(16) char b[256]; c.buf = b; sel(c); go(c, "vtargs", "__init__", 0); out(c, o);
  if (c.found) *v = geti(look(*(votess::vtargs*)c.buf, key));
}

U void u_py_row_get(VI& l, VI& f, int row, unsigned long i, Out* o) {
  D d(l, f); Row r(d[row]);
  sa_call c; alignas(16) char b[256]; c.buf = b; sel(c); c.self = &r; c.o[0] = i; go(c, "Proxy", "__getitem__", 1); out(c, o);
}
U void u_py_row_size(VI& l, VI& f, int row, Out* o) {
  D d(l, f); Row r(d[row]);
  sa_call c; alignas(16) char b[256]; c.buf = b; sel(c); c.self = &r; go(c, "Proxy", "size", 0); out(c, o);
}
U void u_py_dnn_new0(Out* o, long* n) {
  sa_call c; alignas(16) char b[256]; c.buf = b; sel(c); go(c, "dnn", "__init__", 0); out(c, o);
  if (c.found) *n = ((D*)c.buf)->size();
}
U void u_py_dnn_new2(VI& l, VI& f, Out* o, long* n, int row, int j, int* v) {
  sa_call c; alignas(16) char b[256]; c.buf = b; sel(c); c.p[0] = &l; c.p[1] = &f; go(c, "dnn", "__init__", 2); out(c, o);
  if (c.found) { *n = ((D*)c.buf)->size(); *v = (*(D*)c.buf)[row][j]; }
}
U void u_py_dnn_size(VI& l, VI& f, Out* o) { D d(l, f); sa_call c; alignas(16) char b[256]; c.buf = b; sel(c); c.self = &d; go(c, "dnn", "size", 0); out(c, o); }
U void u_py_dnn_get(VI& l, VI& f, unsigned long i, int j, Out* o, long* n, int* v) {
  D d(l, f);
  sa_call c; alignas(16) char b[256]; c.buf = b; sel(c); c.self = &d; c.o[0] = i; go(c, "dnn", "__getitem__", 1); out(c, o);
  if (c.found) { *n = ((Row*)c.buf)->size(); *v = (*(Row*)c.buf)[j]; }
}
U void u_py_dnn_print(VI& l, VI& f, Out* o) { D d(l, f); sa_call c; alignas(16) char b[256]; c.buf = b; sel(c); c.self = &d; go(c, "dnn", "print", 0); out(c, o); }
U void u_py_dnn_save(VI& l, VI& f, unsigned long name, Out* o) { D d(l, f); sa_call c; alignas(16) char b[256]; c.buf = b; sel(c); c.self = &d; c.o[0] = name; go(c, "dnn", "savetxt", 1); out(c, o); }

U void u_py_tess3(V3& x, votess::vtargs& a, unsigned long dev, Out* o, std::string* names, VI& list, VI& offs) {
  sa_call c; alignas(16) char b[256]; c.buf = b; sel(c); c.p[0] = &x; c.p[1] = &a; c.o[2] = dev; go(c, "", "tesellate", 3); out(c, o); *names = c.names;
  if (c.found) rows(*(D*)c.buf, list, offs);
}
U void u_py_tess2(V3& x, votess::vtargs& a, Out* o, VI& list, VI& offs) {
  sa_call c; alignas(16) char b[256]; c.buf = b; sel(c); c.p[0] = &x; c.p[1] = &a; go(c, "", "tesellate", 2); out(c, o);
  if (c.found) rows(*(D*)c.buf, list, offs);
}
