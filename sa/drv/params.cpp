#include "common.hpp"
U void u_args_xyzset(const votess::vtargs& a, long* o) {
  o[0] = a.get_xyzset().grid_resolution;
}
U void u_args_knn(const votess::vtargs& a, long* o) {
  auto x = a.get_knn();
  o[0] = x.k;
  o[1] = x.grid_resolution;
}
U void u_args_cc(const votess::vtargs& a, long* o) {
  auto x = a.get_cc();
  o[0] = x.k;
  o[1] = x.p_maxsize;
  o[2] = x.t_maxsize;
}
U void u_pack(int a, int b, int c, long* o) {
  args::xyzset x(a);
  args::knn y(a, b);
  args::cc z(a, b, c);
  o[0] = x.grid_resolution;
  o[1] = y.k;
  o[2] = y.grid_resolution;
  o[3] = z.k;
  o[4] = z.p_maxsize;
  o[5] = z.t_maxsize;
}
