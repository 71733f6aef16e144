// Analysis driver, never linked, never run.  Each u_* function is a root the
// analyser reads after inlining; it fixes the roles of the arguments.  The same
// roots are read once over the repository's headers and once over the
// reference model (SA_SPEC).
#ifdef SA_SPEC
#include "../spec/ref.hpp"
#else
#include <votess.hpp>
#endif
#include <cstdint>
#include <new>
#ifndef SA_TF
#define SA_TF float
#endif
using Ti = int;
using Tf = SA_TF;
using Tu = uint8_t;
using V3 = std::vector<std::array<Tf, 3>>;
using VI = std::vector<Ti>;
using VF = std::vector<Tf>;
template <typename T> using RW = device_accessor_readwrite_t<T>;
template <typename T> using RO = device_accessor_read_t<T>;
#define U extern "C" __attribute__((used))
// the caller hands over vectors of one length (the analysis model keeps a vector's length in its first word)
template <typename A, typename B> static inline void same_size(A& a, const B& b) { *(size_t*)&a = b.size(); }
template <typename D> static inline void rows(D& d, VI& list, VI& offs) {
  list.clear();
  offs.clear();
  offs.push_back(0);
  for (size_t i = 0; i < d.size(); i++) {
    const size_t n = d[i].size();
    for (size_t j = 0; j < n; j++) list.push_back(d[i][j]);
    offs.push_back((int)list.size());
  }
}
