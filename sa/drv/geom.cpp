#include "common.hpp"
U void u_intersect(Tf* d, Tf a1, Tf b1, Tf c1, Tf d1, Tf a2, Tf b2, Tf c2,
                   Tf d2, Tf a3, Tf b3, Tf c3, Tf d3) {
  planes::intersect<Tf>(d[0], d[1], d[2], d[3], a1, b1, c1, d1, a2, b2, c2, d2,
                        a3, b3, c3, d3);
}
U Tf u_dot(Tf a1, Tf b1, Tf c1, Tf d1, Tf a2, Tf b2, Tf c2, Tf d2) {
  return planes::dot<Tf>(a1, b1, c1, d1, a2, b2, c2, d2);
}
U void u_bisect(Tf* d, Tf x1, Tf y1, Tf z1, Tf x2, Tf y2, Tf z2) {
  planes::bisect<Tf>(d[0], d[1], d[2], d[3], x1, y1, z1, x2, y2, z2);
}
U Tf u_sr_update(Tf x1, Tf y1, Tf z1, Tf x2, Tf y2, Tf z2, Tf r) {
  return sr::update<Tf>(x1, y1, z1, x2, y2, z2, r);
}
U bool u_sr_reached(Tf x1, Tf y1, Tf z1, Tf x2, Tf y2, Tf z2, Tf r) {
  return sr::is_reached<Tf>(x1, y1, z1, x2, y2, z2, r);
}
U Tf u_distance(Tf x1, Tf y1, Tf z1, Tf x2, Tf y2, Tf z2) {
  return xyzset::get_distance<Tf>(x1, y1, z1, x2, y2, z2);
}
U Tf u_square(Tf x) { return utils::square<Tf>(x); }
U Tf u_fmin3(Tf a, Tf b, Tf c) { return utils::bmin<Tf>(a, b, c); }
U Tf u_fmax3(Tf a, Tf b, Tf c) { return utils::bmax<Tf>(a, b, c); }
U int u_imin(int a, int b) { return utils::bmin<int>(a, b); }
U int u_imax(int a, int b) { return utils::bmax<int>(a, b); }
U Tf u_cube(Tf x) { return utils::cube<Tf>(x); }
U Tf u_bfmod(Tf x, Tf y) { return utils::bfmod<Tf>(x, y); }
U void u_iswap(Ti& a, Ti& b) { utils::swap<Ti>(a, b); }
