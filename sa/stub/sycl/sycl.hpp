// Analysis model of the part of SYCL 2020 that votess uses.  It is only read by
// the static analyser: device kernels become plain functions of their item, so
// that the data flow of device code is visible in the same IR as host code.
// Nothing that includes this file is ever linked or run.
#ifndef SA_SYCL_MODEL
#define SA_SYCL_MODEL
#include <algorithm>
#include <array>
#include <cassert>
#include <chrono>
#include <cmath>
#include <cstddef>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fstream>
#include <functional>
#include <iostream>
#include <iterator>
#include <limits>
#include <map>
#include <memory>
#include <mutex>
#include <numeric>
#include <optional>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <tuple>
#include <type_traits>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <variant>
#include <vector>
#include <atomic>
#include <thread>

extern "C" {
void* __sa_buffer(size_t bytes);
void __sa_queue_wait(void* q);
void __sa_queue_ctor(void* q);
void __sa_local(void* cgh, size_t bytes);
bool __sa_no_device(int type);
const char* __sa_info(int);
unsigned long __sa_infon(int);
}

namespace sycl {
inline namespace _V1 {

template <int D = 1> struct range {
  size_t n;
  range(size_t n) : n(n) {}
  size_t operator[](int) const { return n; }
  size_t size() const { return n; }
  size_t get(int) const { return n; }
};
template <int D = 1> struct id {
  size_t i;
  id(size_t i) : i(i) {}
  size_t operator[](int) const { return i; }
  size_t get(int) const { return i; }
  operator size_t() const { return i; }
};
template <int D = 1> struct item {
  size_t i;
  item(size_t i) : i(i) {}
  size_t operator[](int) const { return i; }
  size_t get_id(int) const { return i; }
  size_t get_linear_id() const { return i; }
  operator size_t() const { return i; }
};
template <int D = 1> struct nd_range {
  size_t g, l;
  nd_range(range<D> g, range<D> l) : g(g.n), l(l.n) {}
};
template <int D = 1> struct group { void dummy() {} };
template <int D = 1> struct nd_item {
  size_t g, l;
  nd_item(size_t g, size_t l) : g(g), l(l) {}
  size_t get_global_linear_id() const { return g; }
  size_t get_local_linear_id() const { return l; }
  size_t get_global_id(int) const { return g; }
  size_t get_local_id(int) const { return l; }
};

namespace access {
enum class mode { read = 1024, write = 1025, read_write = 1026 };
enum class target { device = 2014, host_task = 2021 };
enum class placeholder { false_t, true_t };
} // namespace access
using access_mode = access::mode;
using target = access::target;

struct property_list {};
namespace property { struct no_init {}; }
struct no_init_t { operator property::no_init() const { return {}; } };
inline constexpr no_init_t no_init{};
struct read_only_t {};
struct write_only_t {};
struct read_write_t {};
inline constexpr read_only_t read_only{};
inline constexpr write_only_t write_only{};
inline constexpr read_write_t read_write{};

class handler;


template <typename T> struct host_view {
  T* p; size_t n;
  T* begin() const { return p; }
  T* end() const { return p + n; }
  const T* cbegin() const { return p; }
  const T* cend() const { return p + n; }
  T& operator[](size_t i) const { return p[i]; }
  size_t size() const { return n; }
};

template <typename T, int D = 1> class buffer {
 public:
  T* p; size_t n;
  explicit buffer(range<D> r) : p((T*)__sa_buffer(sizeof(T) * r.n)), n(r.n) {}
  buffer(T* q, range<D> r) : p(q), n(r.n) {}
  buffer(const T* q, range<D> r) : p((T*)__sa_buffer(sizeof(T) * r.n)), n(r.n) { std::copy(q, q + r.n, p); }   // never written back
  size_t size() const { return n; }
  range<D> get_range() const { return range<D>(n); }
  template <typename... A> host_view<T> get_host_access(A...) { return {p, n}; }
};

template <typename T, int D = 1, access::mode M = access::mode::read_write,
          access::target Tg = access::target::device,
          access::placeholder P = access::placeholder::false_t>
class accessor {
 public:
  T* p; size_t n;
  using ref = std::conditional_t<M == access::mode::read, const T&, T&>;
  template <typename... A>
  accessor(buffer<std::remove_const_t<T>, D>& b, handler&, A...) : p(b.p), n(b.n) {}
  ref operator[](size_t i) const { return p[i]; }
  size_t size() const { return n; }
};
template <typename T, int D> accessor(buffer<T, D>&, handler&)
    -> accessor<T, D, access::mode::read_write>;
template <typename T, int D> accessor(buffer<T, D>&, handler&, read_only_t)
    -> accessor<T, D, access::mode::read>;
template <typename T, int D, typename A> accessor(buffer<T, D>&, handler&, read_only_t, A)
    -> accessor<T, D, access::mode::read>;
template <typename T, int D> accessor(buffer<T, D>&, handler&, write_only_t)
    -> accessor<T, D, access::mode::write>;
template <typename T, int D, typename A> accessor(buffer<T, D>&, handler&, write_only_t, A)
    -> accessor<T, D, access::mode::write>;
template <typename T, int D> accessor(buffer<T, D>&, handler&, read_write_t)
    -> accessor<T, D, access::mode::read_write>;
template <typename T, int D, typename A> accessor(buffer<T, D>&, handler&, read_write_t, A)
    -> accessor<T, D, access::mode::read_write>;

template <typename T, int D = 1> class local_accessor {
 public:
  T* p; size_t n;
  local_accessor(range<D> r, handler& h) : p((T*)__sa_buffer(sizeof(T) * r.n)), n(r.n) {}
  T& operator[](size_t i) const { return p[i]; }
};

class handler {
 public:
  template <typename N = void, int D, typename F> void parallel_for(range<D> r, F f) {
    for (size_t i = 0; i < r.n; i++) f(id<1>(i));
  }
  template <typename N = void, typename F> void parallel_for(size_t n, F f) {
    for (size_t i = 0; i < n; i++) f(id<1>(i));
  }
  template <typename N = void, int D, typename F> void parallel_for(nd_range<D> r, F f) {
    for (size_t i = 0; i < r.g; i++) f(nd_item<1>(i, i % r.l));
  }
  template <typename N = void, typename F> void single_task(F f) { f(); }
  template <typename T, int D> void fill(accessor<T, D> a, T v) {
    for (size_t i = 0; i < a.n; i++) a[i] = v;
  }
};

namespace info {
enum class device_type { cpu, gpu, all, accelerator };
namespace device {
struct name { using t = std::string; static std::string get() { return __sa_info(0); } };
struct vendor { static std::string get() { return __sa_info(1); } };
struct version { static std::string get() { return __sa_info(2); } };
struct driver_version { static std::string get() { return __sa_info(3); } };
struct max_work_group_size { static size_t get() { return __sa_infon(0); } };
struct preferred_vector_width_double { static uint32_t get() { return __sa_infon(1); } };
struct max_compute_units { static uint32_t get() { return __sa_infon(2); } };
struct max_mem_alloc_size { static uint64_t get() { return __sa_infon(3); } };
struct global_mem_size { static uint64_t get() { return __sa_infon(4); } };
struct local_mem_size { static uint64_t get() { return __sa_infon(5); } };
} // namespace device
} // namespace info

class device;
struct device_list {
  info::device_type t;
  bool empty() const { return __sa_no_device((int)t); }
  size_t size() const { return __sa_no_device((int)t) ? 0 : 1; }
};
class device {
 public:
  template <typename I> auto get_info() const { return I::get(); }
  bool is_cpu() const { return __sa_infon(6); }
  bool is_gpu() const { return __sa_infon(7); }
  static device_list get_devices(info::device_type t = info::device_type::all) { return {t}; }
};
struct exception : std::exception {};
inline constexpr int gpu_selector_v = 1, cpu_selector_v = 2, default_selector_v = 0;
class event { public: void wait() {} };
class queue {
 public:
  int q;
  queue() { __sa_queue_ctor(this); }
  template <typename S> explicit queue(S) { __sa_queue_ctor(this); }
  template <typename F> event submit(F f) { handler h; f(h); return {}; }
  void wait() { __sa_queue_wait(this); }
  void wait_and_throw() { __sa_queue_wait(this); }
  device get_device() const { return {}; }
};

template <typename T> T fmod(T x, T y) { return std::fmod(x, y); }
template <typename T> T trunc(T x) { return std::trunc(x); }
template <typename T> T floor(T x) { return std::floor(x); }
template <typename T> T fabs(T x) { return std::fabs(x); }
template <typename T> T sqrt(T x) { return std::sqrt(x); }
template <typename T> T fmin(T x, T y) { return x < y ? x : y; }
template <typename T> T fmax(T x, T y) { return x > y ? x : y; }
template <typename T> T min(T x, T y) { return x < y ? x : y; }
template <typename T> T max(T x, T y) { return x > y ? x : y; }
template <typename T> T clamp(T x, T a, T b) { return min(max(x, a), b); }

} // namespace _V1
} // namespace sycl
namespace cl { namespace sycl = ::sycl; }
#endif
