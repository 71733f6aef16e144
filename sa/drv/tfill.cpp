#include "common.hpp"
using VV = std::vector<VI>;
U void u_fill(VV& rows, const VI& indices, size_t n, const VI& knn, const votess::vtargs& a) {
  votess::tmpnn_fill<Ti>(rows, indices, n, knn, a);
}
U void u_getdnn(VV& nn, VI& list, VI& offs) {
  auto d = votess::tmpnn_getdnn<Ti>(nn);
  rows(d, list, offs);
}
