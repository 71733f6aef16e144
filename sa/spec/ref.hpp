// Reference model of votess: what every unit has to compute, written once for
// all memory layouts.  Only read by the static analyser; never linked or run.
// Host and device overloads are instances of the same templates with different
// layout maps, so agreeing with the reference is also agreeing with each other.
#pragma once
#include <algorithm>
#include <array>
#include <cmath>
#include <cstdint>
#include <fstream>
#include <iomanip>
#include <iostream>
#include <limits>
#include <memory>
#include <sstream>
#include <string>
#include <thread>
#include <vector>
#include <CL/sycl.hpp>

template <typename T> using device_accessor_write_t =
    sycl::accessor<T, 1, sycl::access::mode::write, sycl::access::target::device>;
template <typename T> using device_accessor_read_t =
    const sycl::accessor<T, 1, sycl::access::mode::read, sycl::access::target::device>;
template <typename T> using device_accessor_readwrite_t =
    sycl::accessor<T, 1, sycl::access::mode::read_write, sycl::access::target::device>;

namespace utils {
template <typename T> T square(T x) { return x * x; }
template <typename T> T cube(T x) { return x * x * x; }
template <typename T> T bfmod(T x, T y) { return x - y * std::trunc(x / y); }
template <typename T> void swap(T& a, T& b) { const T t = a; a = b; b = t; }
template <typename T> T bmin(T a, T b) { return b < a ? b : a; }
template <typename T> T bmax(T a, T b) { return a < b ? b : a; }
template <typename T> T bmin(T a, T b, T c) { return bmin(bmin(a, b), c); }
template <typename T> T bmax(T a, T b, T c) { return bmax(bmax(a, b), c); }
}

// ---- geometry ---------------------------------------------------------------
namespace planes {
// the common point of three planes by Cramer's rule; the origin if there is none
template <typename F>
void intersect(F& x, F& y, F& z, F& w, F a1, F b1, F c1, F d1, F a2, F b2, F c2,
               F d2, F a3, F b3, F c3, F d3) {
  auto det = [](F p, F q, F r, F s, F t, F u, F v, F m, F n) {
    return p * (t * n - u * m) - q * (s * n - u * v) + r * (s * m - t * v);
  };
  const F D = det(a1, b1, c1, a2, b2, c2, a3, b3, c3);
  const F nx = -det(d1, b1, c1, d2, b2, c2, d3, b3, c3);
  const F ny = -det(a1, d1, c1, a2, d2, c2, a3, d3, c3);
  const F nz = -det(a1, b1, d1, a2, b2, d2, a3, b3, d3);
  x = D == 0 ? F(0) : nx / D;
  y = D == 0 ? F(0) : ny / D;
  z = D == 0 ? F(0) : nz / D;
  w = 1;
}
template <typename F>
F dot(F a1, F b1, F c1, F d1, F a2, F b2, F c2, F d2) {
  return a1 * a2 + b1 * b2 + c1 * c2 + d1 * d2;
}
// the plane halfway between the points, its normal pointing to the first
template <typename F>
void bisect(F& a, F& b, F& c, F& d, F x1, F y1, F z1, F x2, F y2, F z2) {
  a = x1 - x2;
  b = y1 - y2;
  c = z1 - z2;
  d = -(a * (x1 + x2) + b * (y1 + y2) + c * (z1 + z2)) / 2;
}
}
namespace xyzset {
template <typename F>
F get_distance(F p0, F p1, F p2, F q0, F q1, F q2) {
  return (p0 - q0) * (p0 - q0) + (p1 - q1) * (p1 - q1) + (p2 - q2) * (p2 - q2);
}
}
namespace sr {
template <typename F> F update(F x1, F y1, F z1, F x2, F y2, F z2, F r) {
  const F d = xyzset::get_distance<F>(x1, y1, z1, x2, y2, z2);
  return r < d ? d : r;
}
template <typename F> bool is_reached(F x1, F y1, F z1, F x2, F y2, F z2, F r) {
  return xyzset::get_distance<F>(x1, y1, z1, x2, y2, z2) > 4 * r;
}
}

// ---- status -----------------------------------------------------------------
namespace cc {
enum status : signed char {
  security_radius_reached, error_infinite_boundary, error_nonvalid_vertices,
  error_nonvalid_neighbor, error_p_overflow, error_t_overflow, error_occurred,
  k_undefined = -32
};
struct state {
  uint8_t byte;
  state() : byte(0) {}
  bool get(status s) const { return (byte >> s) & 1; }
  void set_true(status s) { byte = byte | (1 << s); }
  void set_false(status s) { byte = byte & ~(1 << s); }
  void reset() { byte = 0; }
};
}

// ---- boundary ---------------------------------------------------------------
namespace boundary {
enum bstatus : unsigned char { success, unreachable, undefined = 0xff };
struct vstatus {
  uint8_t byte;
  vstatus() : byte(0) {}
  uint8_t get(int b) { return (byte >> b) & 1; }
  void set_true(int b) { byte = byte | (1 << b); }
  uint8_t get_nshared_edges() const {
    if (byte > 7) return 0;
    return (byte & 1) + ((byte >> 1) & 1) + ((byte >> 2) & 1);
  }
  // one shared edge: its position; two: the position of the first of the pair
  uint8_t get_shared_position() const {
    const bool a = byte == 1 || byte == 6, b = byte == 2 || byte == 5,
               c = byte == 4 || byte == 3;
    return a ? 0 : b ? 1 : c ? 2 : 255;
  }
};
namespace ref {
// R(j,e): e-th plane of removed triangle j.  next(v): successor of v on the cycle.
template <typename Ti, typename Tu, typename N, typename TR>
bstatus compute(N next, Ti dr_size, short& head, TR R, Ti r_size) {
  next(R(0, 0)) = R(0, 1);
  next(R(0, 1)) = R(0, 2);
  head = R(0, 2);
  next(head) = R(0, 0);

  Ti last = r_size;  // triangles from here on did not touch the cycle
  auto defer = [&](Ti j) {
    last--;
    for (int e = 0; e < 3; e++) {
      const Tu x = R(j, e), y = R(last, e);
      R(j, e) = y;
      R(last, e) = x;
    }
  };
  for (Ti j = 1; j < r_size; j++) {
    // which edges of triangle j occur, reversed, on the cycle
    vstatus shared;
    const Tu first = head;
    for (uint8_t e = 0; e < 3; e++) {
      uint8_t at = next(first);
      Ti steps = 0;
      while (true) {
        head = at;
        if (Tu(head) == R(j, (e + 1) % 3) && next(head) == R(j, e)) shared.set_true(e);
        if (at == first) break;
        at = next(at);
        if (steps > r_size) return unreachable;
        steps++;
      }
    }
    if (j == last) return unreachable;

    const int n = shared.get_nshared_edges();
    if (n == 0) {
      defer(j);
      j--;
      continue;
    }
    const int s = shared.get_shared_position();
    const Tu* t0 = &R(j, s % 3); const Tu* t1 = &R(j, (s + 1) % 3);
    const Tu* t2 = &R(j, (s + 2) % 3);
    const Tu old0 = next(*t0), old1 = next(*t1), old2 = next(*t2), old00 = next(old0);
    if (n == 1) {
      next(*t1) = *t2;
      next(*t2) = *t0;
      head = *t2;
    } else if (n == 2) {
      next(next(*t0)) = undefined;
      next(*t0) = *t1;
      head = *t0;
    }
    auto twice = [&] {  // some vertex is entered twice: the cycle is pinched
      for (Ti a = 0; a < dr_size; a++) {
        if (next(a) == undefined) continue;
        for (Ti b = a + 1; b < dr_size; b++)
          if (next(b) != undefined && next(a) == next(b)) return true;
      }
      return false;
    };
    if (twice()) {
      next(*t0) = old0;
      next(*t1) = old1;
      next(*t2) = old2;
      next(old0) = old00;
      defer(j);
      j--;
    } else {
      last = r_size;
    }
  }
  return success;
}
}
template <typename Ti, typename Tu>
bstatus compute(Tu* cycle, const Ti o, const Ti n, short& head, Tu* R, const Ti r, const Ti m) {
  return ref::compute<Ti, Tu>([=](Ti v) -> Tu& { return cycle[o + v]; }, n, head,
                              [=](Ti j, int e) -> Tu& { return R[r + j * 3 + e]; }, m);
}
template <typename Ti, typename Tu>
bstatus compute(const sycl::local_accessor<Tu, 1>& cycle, const Ti o, const Ti n,
                short& head, const device_accessor_readwrite_t<Tu>& R,
                const Ti r, const Ti m) {
  return ref::compute<Ti, Tu>([&](Ti v) -> Tu& { return cycle[o + v]; }, n, head,
                              [&](Ti j, int e) -> Tu& { return R[r + j * 3 + e]; }, m);
}
}

// ---- heap -------------------------------------------------------------------
namespace heap {
namespace ref {
template <typename I, typename Q, typename N>
void swap(I id, Q pq, N a, N b) {
  const auto x = id(a), y = id(b);
  const auto p = pq(a), q = pq(b);
  id(a) = y; id(b) = x;
  pq(a) = q; pq(b) = p;
}
template <typename I, typename Q, typename N>
void sift(I id, Q pq, N n, N at) {
  while (true) {
    const N l = 2 * at + 1, r = 2 * at + 2;
    N top = at;
    if (l < n && pq(top) < pq(l)) top = l;
    if (r < n && pq(top) < pq(r)) top = r;
    if (top == at) return;
    swap(id, pq, at, top);
    at = top;
  }
}
template <typename N, typename I, typename Q, typename C>
void sort(I id, Q pq, C n) {
  for (int i = n / 2 - 1; i >= 0; i--) sift<I, Q, N>(id, pq, n, i);
  for (int i = n - 1; i >= 0; i--) {
    swap<I, Q, N>(id, pq, 0, i);
    sift<I, Q, N>(id, pq, i, 0);
  }
}
}
#define ROWMAP(C) [&](size_t j) -> C& 
template <typename Ti, typename Tf>
void swap(std::vector<Ti>& id, std::vector<Tf>& pq, const size_t h, const size_t a, const size_t b) {
  ref::swap([&](size_t j) -> Ti& { return id[h + j]; }, [&](size_t j) -> Tf& { return pq[h + j]; }, a, b);
}
template <typename Ti, typename Tf>
void maxheapify(std::vector<Ti>& id, std::vector<Tf>& pq, const size_t h, const size_t n, size_t at) {
  ref::sift([&](size_t j) -> Ti& { return id[h + j]; }, [&](size_t j) -> Tf& { return pq[h + j]; }, n, at);
}
template <typename Ti, typename Tf>
void sort(std::vector<Ti>& id, std::vector<Tf>& pq, const size_t h, const size_t n) {
  ref::sort<size_t>([&](size_t j) -> Ti& { return id[h + j]; }, [&](size_t j) -> Tf& { return pq[h + j]; }, n);
}
template <typename Ti, typename Tf>
void swap(const device_accessor_readwrite_t<Ti>& id, const device_accessor_readwrite_t<Tf>& pq,
          const size_t h, const size_t a, const size_t b) {
  ref::swap([&](size_t j) -> Ti& { return id[h + j]; }, [&](size_t j) -> Tf& { return pq[h + j]; }, a, b);
}
template <typename Ti, typename Tf>
void maxheapify(const device_accessor_readwrite_t<Ti>& id, const device_accessor_readwrite_t<Tf>& pq,
                const size_t h, const size_t n, size_t at) {
  ref::sift([&](size_t j) -> Ti& { return id[h + j]; }, [&](size_t j) -> Tf& { return pq[h + j]; }, n, at);
}
template <typename Ti, typename Tf>
void sort(const device_accessor_readwrite_t<Ti>& id, const device_accessor_readwrite_t<Tf>& pq,
          const size_t h, const size_t n) {
  ref::sort<size_t>([&](size_t j) -> Ti& { return id[h + j]; }, [&](size_t j) -> Tf& { return pq[h + j]; }, n);
}
template <typename Ti, typename Tf>
void swap(const device_accessor_readwrite_t<Ti>& id, const device_accessor_readwrite_t<Tf>& pq,
          const int s, const int i, const int a, const int b) {
  ref::swap([&](int j) -> Ti& { return id[s * j + i]; }, [&](int j) -> Tf& { return pq[s * j + i]; }, a, b);
}
template <typename Ti, typename Tf>
void maxheapify(const device_accessor_readwrite_t<Ti>& id, const device_accessor_readwrite_t<Tf>& pq,
                const int s, const int i, const int n, int at) {
  ref::sift([&](int j) -> Ti& { return id[s * j + i]; }, [&](int j) -> Tf& { return pq[s * j + i]; }, n, at);
}
template <typename Ti, typename Tf>
void sort(const device_accessor_readwrite_t<Ti>& id, const device_accessor_readwrite_t<Tf>& pq,
          const int s, const int i, const int n) {
  ref::sort<int>([&](int j) -> Ti& { return id[s * j + i]; }, [&](int j) -> Tf& { return pq[s * j + i]; }, n);
}
}

// ---- parameters -------------------------------------------------------------
namespace args {
struct xyzset { int grid_resolution; xyzset(int a) : grid_resolution(a) {} };
struct knn { int k, grid_resolution; knn(int a, int b) : k(a), grid_resolution(b) {} };
struct cc { int k, p_maxsize, t_maxsize; cc(int a, int b, int c) : k(a), p_maxsize(b), t_maxsize(c) {} };
}
namespace votess {
#ifdef SA_CONV
// the analyser passes the values /repo defines
#ifndef ARGS_DEFAULT_K
#define ARGS_DEFAULT_K 64
#endif
#ifndef ARGS_DEFAULT_CPU_NTHREADS
#define ARGS_DEFAULT_CPU_NTHREADS 0
#endif
#ifndef ARGS_DEFAULT_GPU_NDWORKSIZE
#define ARGS_DEFAULT_GPU_NDWORKSIZE 1
#endif
#ifndef ARGS_DEFAULT_CHUNKSIZE
#define ARGS_DEFAULT_CHUNKSIZE 8196
#endif
#ifndef ARGS_DEFAULT_USE_CHUNKING
#define ARGS_DEFAULT_USE_CHUNKING false
#endif
#ifndef ARGS_DEFAULT_USE_RECOMPUTE
#define ARGS_DEFAULT_USE_RECOMPUTE false
#endif
#ifndef ARGS_DEFAULT_GRID_RESOLUTION
#define ARGS_DEFAULT_GRID_RESOLUTION 16
#endif
#ifndef ARGS_DEFAULT_P_MAXSIZE
#define ARGS_DEFAULT_P_MAXSIZE 32
#endif
#ifndef ARGS_DEFAULT_T_MAXSIZE
#define ARGS_DEFAULT_T_MAXSIZE 32
#endif
class vtargref {
  std::string s;
 public:
  template <typename T> vtargref& operator=(const T& v) {
    std::ostringstream o;
    o << v;
    s = o.str();
    return *this;
  }
  template <typename T> T get() const {
    std::istringstream in(s);
    T v;
    if (!(in >> v)) throw std::invalid_argument("value");
    if (!in.eof() && !(in >> std::ws).eof()) throw std::invalid_argument("value");
    return v;
  }
  template <typename T> operator T() const { return get<T>(); }
};
class vtargs {
  std::unordered_map<std::string, vtargref> m;
 public:
  vtargs() {
    m["k"] = ARGS_DEFAULT_K;
    m["cpu_nthreads"] = ARGS_DEFAULT_CPU_NTHREADS;
    m["gpu_ndsize"] = ARGS_DEFAULT_GPU_NDWORKSIZE;
    m["chunksize"] = ARGS_DEFAULT_CHUNKSIZE;
    m["use_chunking"] = ARGS_DEFAULT_USE_CHUNKING;
    m["use_recompute"] = ARGS_DEFAULT_USE_RECOMPUTE;
    m["knn_grid_resolution"] = ARGS_DEFAULT_GRID_RESOLUTION;
    m["cc_p_maxsize"] = ARGS_DEFAULT_P_MAXSIZE;
    m["cc_t_maxsize"] = ARGS_DEFAULT_T_MAXSIZE;
    m["dev_suppress_stdout"] = true;
  }
  vtargref& operator[](const std::string& k) { return m.at(k); }
  const vtargref& operator[](const std::string& k) const { return m.at(k); }
  args::xyzset get_xyzset() const { return {(*this)["knn_grid_resolution"].get<int>()}; }
  args::knn get_knn() const { return {(*this)["k"].get<int>(), (*this)["knn_grid_resolution"].get<int>()}; }
  args::cc get_cc() const { return {(*this)["k"].get<int>(), (*this)["cc_p_maxsize"].get<int>(), (*this)["cc_t_maxsize"].get<int>()}; }
};
#else
class vtargref {
  std::string s;
 public:
  template <typename T> vtargref& operator=(const T&);
  template <typename T> operator T() const;
  template <typename T> T get() const;
};
class vtargs {
  long h;
 public:
  vtargs();
  vtargs(const vtargs&);
  ~vtargs();
  vtargref& operator[](const std::string&);
  const vtargref& operator[](const std::string&) const;
  args::xyzset get_xyzset() const { return {(*this)["knn_grid_resolution"].get<int>()}; }
  args::knn get_knn() const { return {(*this)["k"].get<int>(), (*this)["knn_grid_resolution"].get<int>()}; }
  args::cc get_cc() const {
    return {(*this)["k"].get<int>(), (*this)["cc_p_maxsize"].get<int>(), (*this)["cc_t_maxsize"].get<int>()};
  }
};
#endif
}

// ---- kNN --------------------------------------------------------------------
namespace knni {
namespace ref {
// Q(c): query point; X(p,c): point p; offer(p,d): keep p if nearer than the
// farthest kept; far(): distance of the farthest kept
template <typename Ti, typename Tf, typename G, typename TQ, typename TX, typename OF, typename OFF, typename FAR>
void search(const Ti index, const Ti cell, const int gr, TQ Q, TX X, OFF off, OF offer, FAR far) {
  const Tf gl = 1.0f / gr;
  const Tf q0 = Q(0), q1 = Q(1), q2 = Q(2);
  const G cx = cell % gr, cy = cell / gr % gr, cz = cell / (gr * gr);
  // distance to the nearest face of the home cell
  auto face = [gl](Tf x) {
    const Tf d = std::fmod(x, gl);
    return d <= gl / 2 ? d : gl - d;
  };
  Tf margin = face(q0);
  margin = std::min(margin, face(q1));
  margin = std::min(margin, face(q2));

  for (int r = 0; r < gr; r++) {
    const G z0 = std::max(cz - r, 0), z1 = std::min(cz + r, gr - 1);
    const G y0 = std::max(cy - r, 0), y1 = std::min(cy + r, gr - 1);
    const G x0 = std::max(cx - r, 0), x1 = std::min(cx + r, gr - 1);
    for (G z = z0; z <= z1; z++)
      for (G y = y0; y <= y1; y++)
        for (G x = x0; x <= x1; x++) {
          const bool inner = std::abs(x - cx) < r && std::abs(y - cy) < r && std::abs(z - cz) < r;
          if (inner) continue;  // belongs to an earlier shell
          const int c = (z * gr + y) * gr + x;
          for (Ti p = off(c); p < off(c + 1); p++) {
            if (p == index) continue;
            offer(p, xyzset::get_distance<Tf>(X(p, 0), X(p, 1), X(p, 2), q0, q1, q2));
          }
        }
    const Tf reach = gl * r + margin;
    if (far() < reach * reach) break;
  }
}
}
template <typename Ti, typename Tf>
void compute(const Ti i, const Ti index, const std::vector<std::array<Tf, 3>>& xyzset, const Ti,
             const std::vector<Ti>& id, const std::vector<Ti>& offset,
             const std::vector<std::array<Tf, 3>>& refset, const Ti, std::vector<Ti>& hid,
             std::vector<Tf>& hpq, const args::knn& a) {
  const int k = a.k;
  const Ti h = k * i;
  ref::search<Ti, Tf, int>(index, id[index], a.grid_resolution, [&](int c) { return refset[index][c]; },
      [&](Ti p, int c) { return xyzset[p][c]; }, [&](int c) { return offset[c]; },
      [&](Ti p, Tf d) {
        if (d < hpq[h]) {
          hid[h] = p;
          hpq[h] = d;
          heap::maxheapify<Ti, Tf>(hid, hpq, h, k, 0);
        }
      },
      [&] { return hpq[h]; });
  heap::sort<Ti, Tf>(hid, hpq, h, k);
}
template <typename Ti, typename Tf>
void compute(const Ti i, const Ti index, const device_accessor_read_t<Tf>& xyzset, const Ti n,
             const device_accessor_read_t<Ti>& id, const device_accessor_read_t<Ti>& offset,
             const device_accessor_read_t<Tf>& refset, const Ti m, const device_accessor_readwrite_t<Ti>& hid,
             const device_accessor_readwrite_t<Tf>& hpq, const args::knn& a) {
  const int k = a.k;
  const Ti h = k * i;
  ref::search<Ti, Tf, int>(index, id[index], a.grid_resolution, [&](int c) { return refset[m * c + index]; },
      [&](Ti p, int c) { return xyzset[n * c + p]; }, [&](int c) { return offset[c]; },
      [&](Ti p, Tf d) {
        const bool nearer = d < hpq[h];
        if (nearer) {
          hid[h] = p;
          hpq[h] = d;
        }
#if SA_ALT & 1
        if (nearer) heap::maxheapify<Ti, Tf>(hid, hpq, h, k, 0);
#else
        heap::maxheapify<Ti, Tf>(hid, hpq, h, nearer ? k : 0, 0);
#endif
      },
      [&] { return hpq[h]; });
  heap::sort<Ti, Tf>(hid, hpq, h, k);
}
template <typename Ti, typename Tf>
void compute(const Ti i, const Ti index, const device_accessor_read_t<Tf>& xyzset, const Ti n,
             const device_accessor_read_t<Ti>& id, const device_accessor_read_t<Ti>& offset,
             const device_accessor_read_t<Tf>& refset, const Ti m, const device_accessor_readwrite_t<Ti>& hid,
             const device_accessor_readwrite_t<Tf>& hpq, const Ti s, const args::knn& a) {
  const int k = a.k;
#if SA_ALT & 4
  using G = int;
#else
  using G = uint16_t;
#endif
  ref::search<Ti, Tf, G>(index, id[index], a.grid_resolution, [&](int c) { return refset[m * c + index]; },
      [&](Ti p, int c) { return xyzset[n * c + p]; }, [&](int c) { return offset[c]; },
      [&](Ti p, Tf d) {
        const bool nearer = d < hpq[i];
        if (nearer) {
          hid[i] = p;
          hpq[i] = d;
        }
#if SA_ALT & 1
        if (nearer) heap::maxheapify<Ti, Tf>(hid, hpq, s, i, k, 0);
#else
        heap::maxheapify<Ti, Tf>(hid, hpq, s, i, nearer ? k : 0, 0);
#endif
      },
      [&] { return hpq[i]; });
  heap::sort<Ti, Tf>(hid, hpq, s, i, k);
}
}

// ---- convex cell ------------------------------------------------------------
namespace cci {
namespace ref {
// P(j,c): plane j; T(j,e): vertex j as three planes; link(j): boundary table;
// cand(j), slot(j): candidate j and the plane it contributed
template <typename Ti, typename Tf, typename Tu, typename TP, typename TT, typename TL, typename TB,
          typename TC, typename TS, typename TX>
void cell(cc::state& st, const Ti k, const unsigned short pmax, const unsigned short tmax,
          const Tf px, const Tf py, const Tf pz, TX X, TP P, TT T, TL link, TB bnd, TC cand, TS slot) {
  if (pmax < 6) { st.set_true(cc::error_p_overflow); return; }
  if (tmax < 8) { st.set_true(cc::error_t_overflow); return; }
  // unit cube: planes x>=0, x<=1, y>=0, y<=1, z>=0, z<=1 and its eight corners
  static const Tf cube[6][4] = {{1, 0, 0, 0}, {-1, 0, 0, 1}, {0, 1, 0, 0}, {0, -1, 0, 1}, {0, 0, 1, 0}, {0, 0, -1, 1}};
  static const Tu corner[8][3] = {{2, 5, 0}, {5, 3, 0}, {1, 5, 2}, {5, 1, 3}, {4, 2, 0}, {4, 0, 3}, {2, 4, 1}, {4, 3, 1}};
  for (Ti j = 0; j < 6; j++)
    for (int c = 0; c < 4; c++) P(j, c) = cube[j][c];
  for (Ti j = 0; j < 8; j++)
    for (int e = 0; e < 3; e++) T(j, e) = corner[j][e];
  unsigned short np = 6, nt = 8;

  for (Ti n = 0; n < k; n++) {
    const Ti q = cand(n);
    if (q == cc::k_undefined) break;
    const Tf qx = X(q, 0), qy = X(q, 1), qz = X(q, 2);
    Tf b[4];
    planes::bisect<Tf>(b[0], b[1], b[2], b[3], qx, qy, qz, px, py, pz);
    unsigned short nr = 0;
    Tf radius = 0;
    for (short t = 0; t < nt; t++) {
      Tf v[4];
      const int i0 = T(t, 0), i1 = T(t, 1), i2 = T(t, 2);
      planes::intersect<Tf>(v[0], v[1], v[2], v[3], P(i0, 0), P(i0, 1), P(i0, 2), P(i0, 3), P(i1, 0), P(i1, 1),
                            P(i1, 2), P(i1, 3), P(i2, 0), P(i2, 1), P(i2, 2), P(i2, 3));
      radius = sr::update<Tf>(px, py, pz, v[0], v[1], v[2], radius);
      if (planes::dot<Tf>(v[0], v[1], v[2], v[3], b[0], b[1], b[2], b[3]) > 0) {
        nt--;
        nr++;
        for (int e = 0; e < 3; e++) {
          const Tu x = T(t, e), y = T(nt, e);
          T(t, e) = y;
          T(nt, e) = x;
        }
        t--;
      }
    }
    if (nr > 0) {
      if (np >= pmax || np >= 0xff) { st.set_true(cc::error_p_overflow); return; }
      for (int c = 0; c < 4; c++) P(np, c) = b[c];
      slot(n) = np;
      np++;
      for (Ti j = 0; j < pmax; j++) link(j) = 0xff;
      short head = -1;
      if (bnd(head, nt, nr) == boundary::unreachable) {
        st.set_true(cc::error_infinite_boundary);
        st.set_true(cc::error_occurred);
        return;
      }
      const short first = head;
      while (true) {
        if (nt >= tmax) { st.set_true(cc::error_t_overflow); return; }
        const short from = head;
        const Tu to = link(from);
        head = to;
        T(nt, 0) = from;
        T(nt, 1) = to;
        T(nt, 2) = np - 1;
        nt++;
        if (head == first) break;
      }
    }
    st.set_false(cc::error_occurred);
    st.set_false(cc::error_nonvalid_neighbor);
    if (sr::is_reached<Tf>(px, py, pz, qx, qy, qz, radius)) {
      st.set_true(cc::security_radius_reached);
      break;
    }
  }
  // candidates whose plane supports no vertex are dropped
  for (Ti d = 0; d < k; d++) {
    bool unused = true;
    for (Ti t = 0; t < nt; t++) {
      const Ti s = slot(d);
      if (T(t, 0) == s || T(t, 1) == s || T(t, 2) == s) unused = false;
#if SA_ALT & 2
      if (!unused) break;
#endif
    }
    if (unused) cand(d) = cc::k_undefined;
  }
  Ti kept = 0;
  for (Ti d = 0; d < k; d++) {
    const Ti c = cand(d);
    if (c == cc::k_undefined) continue;
    cand(kept) = c;
    kept++;
  }
  for (Ti d = kept; d < k; d++) cand(d) = cc::k_undefined;
}
}
template <typename Ti, typename Tf, typename Tu>
void compute(const Ti i, const Ti index, std::vector<cc::state>& states, Tf* P, Tu* T, Tu* dR,
             std::vector<Ti>& knn, std::vector<Ti>& dknn, const std::vector<std::array<Tf, 3>>& xyzset,
             const Ti, const std::vector<std::array<Tf, 3>>& refset, const Ti, const args::cc& a) {
  const unsigned short pm = a.p_maxsize, tm = a.t_maxsize;
  const Ti k = a.k;
  ref::cell<Ti, Tf, Tu>(states[index], k, pm, tm, refset[index][0], refset[index][1], refset[index][2],
      [&](Ti q, int c) { return xyzset[q][c]; },
      [&](int j, int c) -> Tf& { return P[4 * (pm * i + j) + c]; },
      [&](int j, int e) -> Tu& { return T[3 * (tm * i + j) + e]; },
      [&](int j) -> Tu& { return dR[pm * i + j]; },
      [&](short& head, int from, int n) {
        return boundary::compute<Ti, Tu>(dR, pm * i, pm, head, T, 3 * (tm * i + from), n);
      },
      [&](Ti j) -> Ti& { return knn[k * i + j]; }, [&](Ti j) -> Ti& { return dknn[k * i + j]; });
}
template <typename Ti, typename Tf, typename Tu>
void compute(const Ti i, const Ti l, const Ti index, const device_accessor_readwrite_t<cc::state>& states,
             const device_accessor_readwrite_t<Tf>& P, const device_accessor_readwrite_t<Tu>& T,
             const sycl::local_accessor<Tu, 1>& dR, const device_accessor_readwrite_t<Ti>& knn, const Ti s,
             const device_accessor_readwrite_t<Ti>& dknn, const device_accessor_read_t<Tf>& xyzset, const Ti n,
             const device_accessor_read_t<Tf>& refset, const Ti m, const args::cc& a) {
  const unsigned short pm = a.p_maxsize, tm = a.t_maxsize;
  const Ti k = a.k;
  ref::cell<Ti, Tf, Tu>(states[index], k, pm, tm, xyzset[index], xyzset[n + index], xyzset[2 * n + index],
      [&](Ti q, int c) { return xyzset[n * c + q]; },
      [&](int j, int c) -> Tf& { return P[m * (4 * j + c) + i]; },
      [&](int j, int e) -> Tu& { return T[3 * (tm * i + j) + e]; },
      [&](int j) -> Tu& { return dR[pm * l + j]; },
      [&](short& head, int from, int cnt) {
        return boundary::compute<Ti, Tu>(dR, pm * l, pm, head, T, 3 * (tm * i + from), cnt);
      },
      [&](Ti j) -> Ti& { return knn[s * j + i]; }, [&](Ti j) -> Ti& { return dknn[s * j + i]; });
}
}
#include "ref_top.hpp"
