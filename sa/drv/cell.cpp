#include "common.hpp"
U void u_cci_cpu(Ti i, Ti index, std::vector<cc::state>& states, Tf* P, Tu* T,
                 Tu* dR, VI& knn, VI& dknn, const V3& xyzset, Ti xyzsize,
                 int k, int pm, int tm) {
  cci::compute<Ti, Tf, Tu>(i, index, states, P, T, dR, knn, dknn, xyzset,
                           xyzsize, xyzset, xyzsize, args::cc(k, pm, tm));
}
U void u_cci_gpu(Ti i, Ti l_i, Ti index, const RW<cc::state>& states,
                 const RW<Tf>& P, const RW<Tu>& T,
                 const sycl::local_accessor<Tu, 1>& dR, const RW<Ti>& knn,
                 Ti cells, const RW<Ti>& dknn, const RO<Tf>& xyzset,
                 Ti xyzsize, int k, int pm, int tm) {
  cci::compute<Ti, Tf, Tu>(i, l_i, index, states, P, T, dR, knn, cells, dknn,
                           xyzset, xyzsize, xyzset, cells,
                           args::cc(k, pm, tm));
}
