// Reference model, second part: grid, result container and the tessellation.
#pragma once
// ---- grid -------------------------------------------------------------------
namespace xyzset {
template <typename T1, typename T2> T1 axis(T2 x, T2 gl, T1 gr) {
  T1 c = static_cast<T1>(std::floor(x / gl));
  if (c > gr - 1) c = gr - 1;
  if (c < 0) c = 0;
  return c;
}
template <typename T1, typename T2> T1 cell_of(const std::array<T2, 3>& p, T1 gr) {
  const T2 gl = 1.0f / gr;
  return axis<T1>(p[0], gl, gr) + gr * (axis<T1>(p[1], gl, gr) + gr * axis<T1>(p[2], gl, gr));
}
// stable counting sort by byte of the cell id, least significant byte first
template <typename T1, typename T2>
const std::pair<std::vector<T1>, std::vector<T1>>
sort(std::vector<std::array<T2, 3>>& pts, const args::xyzset& a) {
  const int gr = a.grid_resolution;
  const size_t n = pts.size();
  std::vector<T1> id(n);
  for (size_t i = 0; i < n; i++) id[i] = cell_of<T1, T2>(pts[i], gr);
  std::vector<T1> id2(n);
  std::vector<std::array<T2, 3>> pts2(n);
  for (int shift = 0; shift < int(sizeof(T1)) * 8; shift += 8) {
    size_t count[256] = {0};
    for (size_t i = 0; i < n; i++) count[(id[i] >> shift) & 255]++;
    for (int b = 1; b < 256; b++) count[b] += count[b - 1];
    for (int i = n - 1; i >= 0; i--) {
      const size_t to = --count[(id[i] >> shift) & 255];
      id2[to] = id[i];
      pts2[to] = pts[i];
    }
    for (size_t i = 0; i < n; i++) id[i] = id2[i];
    for (size_t i = 0; i < n; i++) pts[i] = pts2[i];
  }
  std::vector<T1> offset(T1(gr * gr * gr) + 1, 0);
  for (size_t i = 0; i < n; i++) offset[id[i] + 1]++;
  T1 sum = 0;
  for (size_t c = 0; c < offset.size(); c++) {
    sum += offset[c];
    offset[c] = sum;
  }
  offset[offset.size() - 1] = n;
  return {id, offset};
}
template <typename T2> bool validate_xyzset(const std::vector<std::array<T2, 3>>& p) {
  for (size_t i = 0; i < p.size(); i++)
    for (int c = 0; c < 3; c++)
      if (!(p[i][c] > 0 && p[i][c] < 1)) return false;
  return true;
}
template <typename T1> bool validate_id(const std::vector<T1>& id) {
  for (size_t i = 1; i < id.size(); i++)
    if (id[i] < id[i - 1]) return false;
  return true;
}
template <typename T1, typename T2>
bool validate_sort(const std::vector<std::array<T2, 3>>& p, const std::vector<T1>& id, const T1 gr) {
  for (size_t i = 0; i < p.size(); i++)
    if (cell_of<T1, T2>(p[i], gr) != id[i]) return false;
  return true;
}
}

namespace votess {
enum device { cpu, gpu };

// ---- result container ---------------------------------------------------------
template <typename Ti> class dnn {
 public:
  std::vector<Ti> list, offs;
  struct row {
    dnn& d;
    size_t i;
    Ti& operator[](size_t j) const { return d.list[d.offs[i] + j]; }
    size_t size() const {
      const size_t e = i == d.offs.size() - 1 ? d.list.size() : d.offs[i + 1];
      return e - d.offs[i];
    }
  };
  dnn() {}
  dnn(std::vector<Ti>& l, std::vector<Ti>& o) : list(l), offs(o) {}
  dnn(std::vector<Ti>&& l, std::vector<Ti>&& o) : list(std::move(l)), offs(std::move(o)) {}
  row operator[](int i) const { return {const_cast<dnn&>(*this), size_t(i)}; }
  size_t size() const { return offs.size() == 0 ? 0 : offs.size() - 1; }
  void print() const {
    if (size() == 0) { std::cout << "{}\n"; return; }
    std::cout << "{\n  {";
    for (size_t r = 0; r < size(); r++) {
      if (r != 0) std::cout << "}\n  {";
      for (Ti i = offs[r]; i < offs[r + 1]; i++) std::cout << list[i] << ", ";
    }
    std::cout << "}\n}\n";
  }
  void savetxt(const std::string& fname) const {
    std::ofstream fp(fname);
    if (!fp) { std::cerr << "Failed to open file: " << fname << "\n"; return; }
    for (size_t r = 0; r < size(); r++) {
      for (Ti i = offs[r]; i < offs[r + 1]; i++) fp << list[i] << " ";
      fp << "\n";
    }
    fp.close();
  }
};
}
static void print_device(const sycl::queue& queue);

// ---- tessellation -------------------------------------------------------------
namespace votess {
// the neighbours of a cell: its slots up to the first unused one
template <typename Ti>
static void tmpnn_fill(std::vector<std::vector<Ti>>& rows, const std::vector<Ti>& indices, const size_t n,
                       const std::vector<Ti>& knn, const vtargs& args) {
  for (size_t i = 0; i < n; i++) {
    const int k = args["k"].template get<int>();
    std::vector<Ti>& row = rows[indices[i]];
    size_t m = 0;
    for (int j = 0; j < k && knn[k * i + j] != cc::k_undefined; j++) m++;
#if !(SA_ALT & 2)      // every entry up to m is written below
    row.clear();
#endif
    row.resize(m);
    for (size_t j = 0; j < m; j++) {
#if !(SA_ALT & 1)
      if (knn[k * i + j] == cc::k_undefined) continue;
#endif
      row[j] = knn[k * i + j];
    }
  }
}
template <typename Ti> static dnn<Ti> tmpnn_getdnn(std::vector<std::vector<Ti>>& rows) {
  const Ti n = rows.size();
  std::vector<Ti> list, offs(n + 1);
  offs[0] = 0;
  for (Ti i = 0; i < n; i++) {
    for (size_t j = 0; j < rows[i].size(); j++) {
      const Ti x = rows[i][j];
      if (x == cc::k_undefined) break;
      list.push_back(x);
      offs[i + 1]++;
    }
    rows[i].clear();
  }
  for (Ti i = 1; i < n + 1; i++) offs[i] += offs[i - 1];
  return dnn<Ti>(std::move(list), std::move(offs));
}
namespace ref {
// every cell of [0, sub) by exactly one of the workers
template <typename Ti, typename Tf>
void parallel(const size_t nthreads, std::vector<Ti>& hid, std::vector<Ti>& slot, std::vector<Tf>& pq,
              std::vector<Tf>& P, std::vector<uint8_t>& T, std::vector<uint8_t>& dR, std::vector<Ti>& indices,
              const std::vector<std::array<Tf, 3>>& pts, Ti n, const std::vector<std::array<Tf, 3>>& ref, Ti sub,
              const std::vector<Ti>& id, const std::vector<Ti>& offset, std::vector<cc::state>& states,
              const vtargs& args) {
  const size_t each = sub / nthreads;
  const args::knn ak = args.get_knn();
  const args::cc ac = args.get_cc();
  std::vector<std::thread> threads(nthreads);
  for (size_t t = 0; t < nthreads; t++) {
    const size_t from = t * each;
    const size_t to = t != nthreads - 1 ? from + each : sub;
    threads[t] = std::thread([&, from, to] {
      for (size_t i = from; i < to; i++) {
        knni::compute<Ti, Tf>(i, indices[i], pts, n, id, offset, ref, sub, hid, pq, ak);
        cci::compute<Ti, Tf, uint8_t>(i, indices[i], states, P.data(), T.data(), dR.data(), hid, slot, pts, n, ref,
                                      sub, ac);
      }
    });
  }
  for (size_t t = 0; t < threads.size(); t++) threads[t].join();
}
inline size_t workers(const vtargs& args) {
  const size_t n = args["cpu_nthreads"].get<size_t>();
  if (n != 0) return n;
  const unsigned h = std::thread::hardware_concurrency();
  return h < 1 ? 1 : h;
}
}
template <typename Ti, typename Tf, typename Tu>
static void __cpu__tesellate(const std::vector<std::array<Tf, 3>>& pts, const std::vector<Ti>& id,
                             const std::vector<Ti>& offset, const std::vector<std::array<Tf, 3>>& ref,
                             std::vector<std::vector<Ti>>& rows, std::vector<cc::state>& states, const vtargs& args) {
  const Ti n = pts.size();
  const Ti m = ref.size();
  const size_t nthreads = ref::workers(args);
  const int chunk = args["use_chunking"].get<bool>() ? args["chunksize"].get<int>() : m + 1;
  const bool split = chunk > 0 && chunk < m;
  const int runs = split ? m / chunk + 1 : 1;
  Ti sub = split ? chunk : m;
  std::cout << "nthread = " << nthreads << "\nchunksize = " << chunk << "\nnruns = " << runs << "\n";
  const int k = args["k"].get<int>();
  const int pm = args["cc_p_maxsize"].get<int>();
  const int tm = args["cc_t_maxsize"].get<int>();
  std::vector<Ti> indices(sub);
  std::vector<Ti> hid(sub * k);
  std::vector<Tf> pq(sub * k);
  std::vector<Ti> slot(sub * k);
  std::vector<Tf> P(sub * pm * 4);
  std::vector<Tu> T(sub * tm * 3);
  std::vector<Tu> dR(sub * pm);
  for (int run = 0; run < runs; run++) {
    for (size_t i = 0; i < slot.size(); i++) slot[i] = cc::k_undefined;
    for (size_t i = 0; i < hid.size(); i++) hid[i] = cc::k_undefined;
    for (size_t i = 0; i < pq.size(); i++) pq[i] = std::numeric_limits<Tf>::infinity();
    const size_t from = run * chunk;
    const size_t to = run == runs - 1 ? m : from + chunk;
    sub = to - from;
    for (Ti i = 0; i < sub; i++) indices[i] = from + i;
    ref::parallel<Ti, Tf>(nthreads, hid, slot, pq, P, T, dR, indices, pts, n, ref, sub, id, offset, states, args);
    tmpnn_fill<Ti>(rows, indices, sub, hid, args);
  }
}
template <typename Ti, typename Tf, typename Tu>
static void __cpu__recompute(const std::vector<std::array<Tf, 3>>& pts, const std::vector<Ti>& id,
                             const std::vector<Ti>& offset, const std::vector<std::array<Tf, 3>>& ref,
                             std::vector<std::vector<Ti>>& rows, std::vector<cc::state>& states, vtargs args) {
  const Ti n = pts.size();
  const Ti m = ref.size();
  const size_t nthreads = ref::workers(args);
  Ti sub = 0;
  for (size_t i = 0; i < states.size(); i++)
    if (!states[i].get(cc::security_radius_reached)) sub++;
  std::vector<Ti> indices(m);
  {
    Ti cur = 0;
    for (Ti i = 0; i < m; i++)
      if (!states[i].get(cc::security_radius_reached)) indices[cur++] = i;
  }
  indices.resize(sub);
  int k = args["k"].get<int>();
  int pm = args["cc_p_maxsize"].get<int>();
  int tm = args["cc_t_maxsize"].get<int>();
  std::vector<Ti> hid(sub * k, cc::k_undefined);
  std::vector<Tf> pq(sub * k, std::numeric_limits<Tf>::infinity());
  std::vector<Ti> slot(sub * k, cc::k_undefined);
  std::vector<Tf> P(sub * pm * 4);
  std::vector<Tu> T(sub * tm * 3);
  std::vector<Tu> dR(sub * pm);
  while (true) {
    bool p_over = false, t_over = false;
    Ti cur = 0;
    for (Ti i = 0; i < sub; i++) {
      const Ti at = indices[i];
      if (!states[at].get(cc::security_radius_reached)) indices[cur++] = at;
      if (states[at].get(cc::error_p_overflow)) p_over = true;
      if (states[at].get(cc::error_t_overflow)) t_over = true;
    }
    sub = cur;
    for (Ti i = 0; i < sub; i++) states[indices[i]].reset();
    if (sub <= 0 || m <= 1) return;
    k = k * 2 > m - 1 ? m - 1 : k * 2;
    if (p_over) pm *= 2;
    if (t_over) tm *= 2;
    args["k"] = k;
    args["cc_p_maxsize"] = pm;
    args["cc_t_maxsize"] = tm;
    hid.assign(sub * k, cc::k_undefined);
    pq.assign(sub * k, std::numeric_limits<Tf>::infinity());
    slot.assign(sub * k, cc::k_undefined);
    P.assign(sub * pm * 4, 0);
    T.assign(sub * tm * 3, 0);
    dR.assign(sub * pm, 0);
    ref::parallel<Ti, Tf>(nthreads, hid, slot, pq, P, T, dR, indices, pts, n, ref, sub, id, offset, states, args);
    tmpnn_fill<Ti>(rows, indices, sub, hid, args);
    bool retry = k < m - 1;
    for (Ti i = 0; i < sub; i++) {
      const cc::state& s = states[indices[i]];
      if (s.get(cc::error_p_overflow) && pm < 0xff) retry = true;
      if (s.get(cc::error_t_overflow) && tm < 0x7fff) retry = true;
    }
    if (!retry) return;
  }
}
template <typename Ti, typename Tf, typename Tu>
static void __gpu__tesellate(const std::vector<std::array<Tf, 3>>& pts, const std::vector<Ti>& id,
                             const std::vector<Ti>& offset, const std::vector<std::array<Tf, 3>>& ref,
                             std::vector<std::vector<Ti>>& rows, std::vector<cc::state>& states, const vtargs& args) {
  const int k = args["k"].get<int>();
  const int pm = args["cc_p_maxsize"].get<int>();
  const int tm = args["cc_t_maxsize"].get<int>();
  const Ti n = pts.size();
  const Ti m = ref.size();
  int nd = args["gpu_ndsize"].get<int>();
  if (nd <= 0) nd = 1;
  const int chunk = args["use_chunking"].get<bool>() ? args["chunksize"].get<int>() : m + 1;
  const bool split = chunk > 0 && chunk < m;
  const int runs = split ? m / chunk + 1 : 1;
  Ti sub = split ? chunk : m;
  std::vector<Tf> soa(3 * n);
  for (int i = 0; i < n; i++) {
    soa[i] = pts[i][0];
    soa[n + i] = pts[i][1];
    soa[2 * n + i] = pts[i][2];
  }
  sycl::queue queue;
  ::print_device(queue);
  using R = sycl::range<1>;
  sycl::buffer<Ti, 1> bind{R(sub)}, bhid{R(sub * k)}, bslot{R(sub * k)};
  sycl::buffer<Tf, 1> bpts(soa.data(), R(soa.size())), bpq{R(sub * k)}, bP{R(sub * pm * 4)};
  sycl::buffer<Ti, 1> boff(offset.data(), R(offset.size())), bid(id.data(), R(id.size()));
  const cc::state* cleared = states.data();
  sycl::buffer<cc::state, 1> bst(cleared, R(n));
  sycl::buffer<uint8_t, 1> bT{R(sub * tm * 3)};
  for (int run = 0; run < runs; run++) {
    std::cout << "[chunking] run : " << run << "/" << runs << "\n";
    const size_t from = run * chunk;
    const size_t to = run == runs - 1 ? m : from + chunk;
    sub = to - from;
    for (size_t i = 0; i < bhid.size(); i++) bhid.p[i] = cc::k_undefined;
    for (size_t i = 0; i < bpq.size(); i++) bpq.p[i] = 128.0f;
    for (size_t i = 0; i < bslot.size(); i++) bslot.p[i] = cc::k_undefined;
    for (size_t i = 0; i < bind.size(); i++) bind.p[i] = from + i;
    const args::cc ac = args.get_cc();
    const args::knn ak = args.get_knn();
    sycl::handler cgh;
    auto aind = sycl::accessor(bind, cgh, sycl::read_only);
    auto apts = sycl::accessor(bpts, cgh, sycl::read_only);
    auto aoff = sycl::accessor(boff, cgh, sycl::read_only);
    auto aid = sycl::accessor(bid, cgh, sycl::read_only);
    auto ahid = sycl::accessor(bhid, cgh, sycl::read_write);
    auto apq = sycl::accessor(bpq, cgh, sycl::read_write);
    auto aslot = sycl::accessor(bslot, cgh, sycl::read_write);
    auto aP = sycl::accessor(bP, cgh, sycl::read_write);
    auto aT = sycl::accessor(bT, cgh, sycl::read_write);
    auto ast = sycl::accessor(bst, cgh, sycl::read_write);
    sycl::local_accessor<uint8_t, 1> adR(R(nd * pm), cgh);
    for (size_t g = 0; g < size_t(sub); g++) {
      knni::compute<Ti, Tf>(g, aind[g], apts, n, aid, aoff, apts, n, ahid, apq, sub, ak);
      cci::compute<Ti, Tf, uint8_t>(g, g % nd, aind[g], ast, aP, aT, adR, ahid, sub, aslot, apts, n, apts, sub, ac);
    }
    std::vector<Ti> indices(bind.p, bind.p + bind.n);
    states = std::vector<cc::state>(bst.p, bst.p + bst.n);
    std::vector<Ti> raw(bhid.p, bhid.p + bhid.n), knn(raw.size());
    for (int i = 0; i < sub; i++)
      for (int j = 0; j < k; j++) knn[k * i + j] = raw[sub * j + i];
    tmpnn_fill<Ti>(rows, indices, sub, knn, args);
  }
}
template <typename Ti, typename Tf>
dnn<Ti> tesellate(std::vector<std::array<Tf, 3>>& pts, vtargs args, device dev) {
  const auto [id, offset] = xyzset::sort<Ti, Tf>(pts, args.get_xyzset());
  if (!xyzset::validate_xyzset<Tf>(pts)) std::cerr << "oops1\n";
  if (!xyzset::validate_id<Ti>(id)) std::cerr << "oops2\n";
  std::vector<std::vector<Ti>> rows(pts.size());
  std::vector<cc::state> states(pts.size());
  bool use_gpu = false;
  if (dev == gpu) {
    use_gpu = !sycl::device::get_devices(sycl::info::device_type::gpu).empty();
    if (!use_gpu)
      std::cerr << "\033[1m\033[93mWarning: No GPU device found. Running CPU as fallback\033[0m\n";
  }
  if (use_gpu) __gpu__tesellate<Ti, Tf, uint8_t>(pts, id, offset, pts, rows, states, args);
  else __cpu__tesellate<Ti, Tf, uint8_t>(pts, id, offset, pts, rows, states, args);
  if (args["use_recompute"].get<bool>()) __cpu__recompute<Ti, Tf, uint8_t>(pts, id, offset, pts, rows, states, args);
  int n[7] = {0, 0, 0, 0, 0, 0, 0};
  for (size_t i = 0; i < states.size(); i++) {
    const cc::state s = states[i];
    if (!s.get(cc::security_radius_reached)) n[0]++;
    if (s.get(cc::error_p_overflow)) n[1]++;
    if (s.get(cc::error_t_overflow)) n[2]++;
    if (s.get(cc::error_infinite_boundary)) n[3]++;
    if (s.get(cc::error_nonvalid_vertices)) n[4]++;
    if (s.get(cc::error_nonvalid_neighbor)) n[5]++;
    if (s.get(cc::error_occurred)) n[6]++;
  }
  std::cout << "[fail] sradius : " << n[0] << "\n       p overflow: " << n[1] << "\n       t overflow: " << n[2]
            << "\n       inf boundary: " << n[3] << "\n       nvalid vertice: " << n[4]
            << "\n       nvalid neighbor: " << n[5] << "\n       nerrors : " << n[6] << "\n\n";
  return tmpnn_getdnn<Ti>(rows);
}
}
