#include "common.hpp"
U void u_grid_sort(VI& id, VI& offset, V3& xyzset, int gr) {
  if (gr < 1) return;      // a grid has cells
  auto r = xyzset::sort<Ti, Tf>(xyzset, args::xyzset(gr));
  id = r.first;
  offset = r.second;
}
U bool u_validate_xyzset(const V3& xyzset) {
  return xyzset::validate_xyzset<Tf>(xyzset);
}
U bool u_validate_id(const VI& id) { return xyzset::validate_id<Ti>(id); }
U bool u_validate_sort(const V3& xyzset, const VI& id, Ti gr) {
  if (gr < 1) return false;
  return xyzset::validate_sort<Ti, Tf>(xyzset, id, gr);
}
