#include "common.hpp"
U void u_swap_cpu(VI& id, VF& pq, size_t h0, size_t a, size_t b) {
  heap::swap<Ti, Tf>(id, pq, h0, a, b);
}
U void u_heapify_cpu(VI& id, VF& pq, size_t h0, size_t s, size_t at) {
  heap::maxheapify<Ti, Tf>(id, pq, h0, s, at);
}
U void u_sort_cpu(VI& id, VF& pq, size_t h0, size_t k) {
  heap::sort<Ti, Tf>(id, pq, h0, k);
}
U void u_swap_row(const RW<Ti>& id, const RW<Tf>& pq, size_t h0, size_t a,
                  size_t b) {
  heap::swap<Ti, Tf>(id, pq, h0, a, b);
}
U void u_heapify_row(const RW<Ti>& id, const RW<Tf>& pq, size_t h0, size_t s,
                     size_t at) {
  heap::maxheapify<Ti, Tf>(id, pq, h0, s, at);
}
U void u_sort_row(const RW<Ti>& id, const RW<Tf>& pq, size_t h0, size_t k) {
  heap::sort<Ti, Tf>(id, pq, h0, k);
}
U void u_swap_gpu(const RW<Ti>& id, const RW<Tf>& pq, int s, int i, int a,
                  int b) {
  heap::swap<Ti, Tf>(id, pq, s, i, a, b);
}
U void u_heapify_gpu(const RW<Ti>& id, const RW<Tf>& pq, int s, int i, int k,
                     int at) {
  heap::maxheapify<Ti, Tf>(id, pq, s, i, k, at);
}
U void u_sort_gpu(const RW<Ti>& id, const RW<Tf>& pq, int s, int i, int k) {
  heap::sort<Ti, Tf>(id, pq, s, i, k);
}
