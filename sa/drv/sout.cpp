#include "common.hpp"
U void u_out(votess::dnn<Ti>* out, V3& xyzset, votess::vtargs& a, int dev) {
  new (out) votess::dnn<Ti>(votess::tesellate<Ti, Tf>(xyzset, a, (votess::device)dev));
}
