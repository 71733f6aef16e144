#include "common.hpp"
U int u_bnd_cpu(Tu* cycle, Ti dr_offs, Ti dr_size, short& head, Tu* R,
                Ti r_offs, Ti r_size) {
  return boundary::compute<Ti, Tu>(cycle, dr_offs, dr_size, head, R, r_offs,
                                   r_size);
}
U int u_bnd_gpu(const sycl::local_accessor<Tu, 1>& cycle, Ti dr_offs,
                Ti dr_size, short& head, const RW<Tu>& R, Ti r_offs,
                Ti r_size) {
  return boundary::compute<Ti, Tu>(cycle, dr_offs, dr_size, head, R, r_offs,
                                   r_size);
}
