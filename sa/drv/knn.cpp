#include "common.hpp"
U void u_knn_cpu(Ti i, Ti index, const V3& xyzset, Ti xyzsize, const VI& id,
                 const VI& offset, VI& heap_id,
                 VF& heap_pq, int k, int gr) {
  knni::compute<Ti, Tf>(i, index, xyzset, xyzsize, id, offset, xyzset, xyzsize,
                        heap_id, heap_pq, args::knn(k, gr));
}
U void u_knn_row(Ti i, Ti index, const RO<Tf>& xyzset, Ti xyzsize,
                 const RO<Ti>& id, const RO<Ti>& offset, const RW<Ti>& heap_id, const RW<Tf>& heap_pq,
                 int k, int gr) {
  knni::compute<Ti, Tf>(i, index, xyzset, xyzsize, id, offset, xyzset, xyzsize,
                        heap_id, heap_pq, args::knn(k, gr));
}
U void u_knn_gpu(Ti i, Ti index, const RO<Tf>& xyzset, Ti xyzsize,
                 const RO<Ti>& id, const RO<Ti>& offset, const RW<Ti>& heap_id, const RW<Tf>& heap_pq,
                 Ti hoffs, int k, int gr) {
  knni::compute<Ti, Tf>(i, index, xyzset, xyzsize, id, offset, xyzset, xyzsize,
                        heap_id, heap_pq, hoffs, args::knn(k, gr));
}
