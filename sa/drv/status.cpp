#include "common.hpp"
U bool u_st_get(cc::state& s, cc::status b) { return s.get(b); }
U void u_st_true(cc::state& s, cc::status b) { s.set_true(b); }
U void u_st_false(cc::state& s, cc::status b) { s.set_false(b); }
U void u_st_reset(cc::state& s) { s.reset(); }
U void u_st_ctor(cc::state* s) { new (s) cc::state(); }
// every named flag, set in a fresh state and read back
U int u_st_names(int which) {
  cc::state s;
  switch (which) {
    case 0: s.set_true(cc::security_radius_reached); break;
    case 1: s.set_true(cc::error_infinite_boundary); break;
    case 2: s.set_true(cc::error_nonvalid_vertices); break;
    case 3: s.set_true(cc::error_nonvalid_neighbor); break;
    case 4: s.set_true(cc::error_p_overflow); break;
    case 5: s.set_true(cc::error_t_overflow); break;
    case 6: s.set_true(cc::error_occurred); break;
  }
  return s.get(cc::security_radius_reached) |
         s.get(cc::error_infinite_boundary) << 1 |
         s.get(cc::error_nonvalid_vertices) << 2 |
         s.get(cc::error_nonvalid_neighbor) << 3 |
         s.get(cc::error_p_overflow) << 4 | s.get(cc::error_t_overflow) << 5 |
         s.get(cc::error_occurred) << 6;
}
U void u_vs_ctor(boundary::vstatus* s) { new (s) boundary::vstatus(); }
U int u_vs_get(boundary::vstatus& s, int b) { return s.get(b); }
U void u_vs_true(boundary::vstatus& s, int b) { s.set_true(b); }
U uint8_t u_vs_n(boundary::vstatus& s) { return s.get_nshared_edges(); }
U uint8_t u_vs_pos(boundary::vstatus& s) { return s.get_shared_position(); }
