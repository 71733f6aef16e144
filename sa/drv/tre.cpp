#include "common.hpp"
using VV = std::vector<VI>;
U void u_re(const V3& p, VI& id, const VI& off, VV& rows,
           std::vector<cc::state>& st, votess::vtargs& a) {
  same_size(id, p);
  same_size(rows, p);
  same_size(st, p);
  votess::__cpu__recompute<Ti, Tf, Tu>(p, id, off, p, rows, st, a);
}
