// how parameters are stored and converted
#define SA_CONV 1
#include <string>
#include <sstream>
#include <stdexcept>
#include <unordered_map>
#include "common.hpp"
#include <string>
// a new parameter set: what is stored under a key, or the error
U void u_par_default(const std::string& key, std::string& out) {
  votess::vtargs a;
  out = a[key].template get<std::string>();
}
U void u_par_const(const votess::vtargs& a, const std::string& key, std::string& out) {
  out = a[key].template get<std::string>();
}
// setting a parameter leaves the others alone
template <typename T> static inline void set_get(const std::string& k1, const std::string& k2, const T& v, std::string& out) {
  votess::vtargs a;
  a[k1] = v;
  out = a[k2].template get<std::string>();
}
U void u_par_set_int(const std::string& k1, const std::string& k2, int v, std::string& out) { set_get(k1, k2, v, out); }
U void u_par_set_bool(const std::string& k1, const std::string& k2, bool v, std::string& out) { set_get(k1, k2, v, out); }
U void u_par_set_float(const std::string& k1, const std::string& k2, float v, std::string& out) { set_get(k1, k2, v, out); }
U void u_par_set_text(const std::string& k1, const std::string& k2, const std::string& v, std::string& out) { set_get(k1, k2, v, out); }
// conversion of a stored text
U void u_get_int(const votess::vtargref& r, int* o) { *o = r.template get<int>(); }
U void u_get_bool(const votess::vtargref& r, bool* o) { *o = r.template get<bool>(); }
U void u_get_float(const votess::vtargref& r, float* o) { *o = r.template get<float>(); }
U void u_get_text(const votess::vtargref& r, std::string* o) { *o = r.template get<std::string>(); }
U void u_conv_int(const votess::vtargref& r, int* o) { *o = r; }
U void u_conv_bool(const votess::vtargref& r, bool* o) { const bool b = r; *o = b; }
U void u_conv_size(const votess::vtargref& r, size_t* o) { const size_t b = r; *o = b; }
// a copy is independent of the original
U void u_par_copy(votess::vtargs& a, const std::string& key, int v, std::string& out, std::string& out2) {
  votess::vtargs b(a);
  b[key] = v;
  out = a[key].template get<std::string>();
  out2 = b[key].template get<std::string>();
}
