#include "common.hpp"
using D = votess::dnn<int>;
// rows that exist
#define IN(d, r) if (r < 0 || (size_t)r >= d.size()) return 0;
U size_t u_dnn_default(void) { D d; return d.size(); }
U size_t u_dnn_size_copy(VI& l, VI& o) { D d(l, o); return d.size(); }
U size_t u_dnn_size_move(VI& l, VI& o) {
  const D d(std::move(l), std::move(o));
  return d.size();
}
U int u_dnn_at(VI& l, VI& o, int row, size_t i) { D d(l, o); IN(d, row) return d[row][i]; }
U int u_dnn_at_move(VI& l, VI& o, int row, size_t i) {
  D d(std::move(l), std::move(o));
  IN(d, row)
  return d[row][i];
}
U int u_dnn_cat(VI& l, VI& o, int row, size_t i) {
  const D d(l, o);
  IN(d, row)
  return d[row][i];
}
U int u_dnn_set(VI& l, VI& o, int row, size_t i, int v, int row2, size_t i2) {
  D d(l, o);
  IN(d, row) IN(d, row2)
  d[row][i] = v;
  return d[row2][i2];
}
U size_t u_dnn_row(VI& l, VI& o, int row) { D d(l, o); IN(d, row) return d[row].size(); }
U size_t u_dnn_crow(VI& l, VI& o, int row) {
  const D d(l, o);
  IN(d, row)
  return d[row].size();
}
U void u_dnn_print(VI& l, VI& o) { D d(l, o); d.print(); }
U void u_dnn_save(VI& l, VI& o, const std::string& f) {
  D d(l, o);
  d.savetxt(f);
}
