#include "common.hpp"
using VV = std::vector<VI>;
U void u_cpu(const V3& p, VI& id, const VI& off, VV& rows,
           std::vector<cc::state>& st, const votess::vtargs& a) {
  same_size(id, p);
  same_size(rows, p);
  same_size(st, p);
  votess::__cpu__tesellate<Ti, Tf, Tu>(p, id, off, p, rows, st, a);
}
