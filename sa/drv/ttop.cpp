#include "common.hpp"
U void u_top_cpu(VI& list, VI& offs, V3& xyzset, votess::vtargs& a) {
  auto d = votess::tesellate<Ti, Tf>(xyzset, a, votess::device::cpu);
  rows(d, list, offs);
}
U void u_top_gpu(VI& list, VI& offs, V3& xyzset, votess::vtargs& a) {
  auto d = votess::tesellate<Ti, Tf>(xyzset, a, votess::device::gpu);
  rows(d, list, offs);
}
