// Congruence of value graphs by partition refinement (Alpern-Wegman-Zadeck)
// with random interpretation (Gulwani-Necula) as the hash of a node.
// Input: value graphs written by sa/peg.py.  No program under analysis runs
// here: a loop body is read once, as an equation over arbitrary loop symbols.
#include <algorithm>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <fstream>
#include <iostream>
#include <map>
#include <pthread.h>
#include <set>
#include <sstream>
#include <string>
#include <unordered_map>
#include <vector>
using namespace std;
typedef uint64_t u64; typedef int64_t i64; typedef __int128 i128; typedef unsigned __int128 u128;
static const u64 P = (1ull << 61) - 1;
static inline u64 mix(u64 h) { h = (h ^ (h >> 30)) * 0xbf58476d1ce4e5b9ull; h = (h ^ (h >> 27)) * 0x94d049bb133111ebull; return h ^ (h >> 31); }
static inline u64 comb(u64 a, u64 b) { return mix(a * 0x9e3779b97f4a7c15ull + b + 0x1234567); }
static inline u64 mulp(u64 a, u64 b) { u128 r = (u128)a * b; u64 x = (u64)(r & P) + (u64)(r >> 61); x = (x & P) + (x >> 61); return x >= P ? x - P : x; }
static inline u64 addp(u64 a, u64 b) { u64 x = a + b; return x >= P ? x - P : x; }
static inline u64 subp(u64 a, u64 b) { return a >= b ? a - b : a + P - b; }
static u64 powp(u64 a, u64 e) { u64 r = 1; for (; e; e >>= 1, a = mulp(a, a)) if (e & 1) r = mulp(r, a); return r; }
static inline u64 invp(u64 a) { return powp(a, P - 2); }
static inline u64 resi(i64 v) { i128 r = (i128)v % (i128)P; if (r < 0) r += P; return (u64)r; }
static const u64 PINF = P + 11, NINF = P + 12, FNAN = P + 13;

typedef __float128 R_;
struct Mem;
struct V { u64 x = 0; R_ d = 0; Mem* m = nullptr; bool bot = false; };
static inline V VI(i64 v) { V r; r.x = (u64)v; return r; }
static inline V VB() { V r; r.bot = true; r.x = 0xb07b07b07ull; return r; }
static R_ ldexpq_(R_ v, int e) { for (; e > 0; e--) v *= 2; for (; e < 0; e++) v /= 2; return v; }
static V VFd(u64 res, R_ d) { V r; r.x = res; r.d = d; return r; }
static V VFq(i64 n, i64 den) { return VFd(den == 1 ? resi(n) : mulp(resi(n), invp(resi(den))), (R_)n / den); }
static V finf(double d) { if (std::isnan(d)) return VFd(FNAN, d); return VFd(d > 0 ? PINF : NINF, d); }
static inline i64 wrapb(i64 v, int b) { if (b == 1) return v & 1; if (b >= 64) return v; u64 m = (1ull << b) - 1; u64 u = (u64)v & m; return (u >> (b - 1)) ? (i64)(u | ~m) : (i64)u; }

struct Key { u64 pre; i64 last; bool operator<(const Key& o) const { return pre != o.pre ? pre < o.pre : last < o.last; } bool operator==(const Key& o) const { return pre == o.pre && last == o.last; } };
struct Ent { Key k; V v; char tc; int bits; };
struct Info;
struct Mem { u64 tok; u64 name; u64 id; Info* inf; vector<Ent> d; bool zero = false; };
struct Info { bool copy; Mem* m; Mem* src; V val; i64 vst; Key lo; i64 step, cnt; Key slo; i64 sstep; char tc; int bits; };

enum K { CI, CF, BIN, FBIN, NOT, SEL, CMP, FCMP, CAST, FN, LD, ST, M0, ARG, UNDEF, HASH, MU, ETA, CALL, MCALL, RFILL, RCOPY, TUP, OUT, TAB, PCMP, BV, ANY, SUM, GST, RGEN };
struct Node { K k; int op = 0; char tc = 'i'; int b1 = 0, b2 = 0; u64 h = 0; i64 iv = 0; V cv; int hint = -1; int nd = 0; vector<int> a; vector<pair<i64, V>> tab; u64 deps = 0; };
struct MuT { int node, loop; char tc; int bits; int init, next, step; };
struct Loop { int parent, depth, entry, exit, limit, pure; };
struct Prog { vector<Node> n; vector<MuT> mu; vector<Loop> lp; vector<int> obs; vector<int> order; vector<char> need; };
struct Hint { vector<pair<i64, i64>> r; };

static vector<Prog> G; static vector<Hint> hints; static vector<i64> pool, tpool; static vector<V> fpool;
static map<u64, vector<pair<i64, int>>> mhint;    // memory name -> (key or INT64_MIN, hint)
static bool genq = false; static const i64 LIM = 160;     // arrays given by iteration are written out
static set<u64> mono;    // tables of row offsets: they start at 0 and never decrease
static bool exactq = false;      // quantifiers over many iterations are unknown instead of sampled
static bool freeit = false;      // iteration numbers beyond the limit of a loop, too
static vector<u64> seeds; static u64 gseed = 1; static int TRIES = 40;
static vector<vector<char>> inv; static vector<vector<char>> nostep; static vector<pair<int, int>> lpair, mpair; static vector<char> mneg; static set<int> mneg_s; static vector<vector<u64>> mc, lc;

enum { O_ADD, O_SUB, O_MUL, O_AND, O_OR, O_XOR, O_SHL, O_LSHR, O_ASHR, O_SDIV, O_SREM, O_UDIV, O_UREM };
static int opcode(const string& s) { static const char* n[] = {"add","sub","mul","and","or","xor","shl","lshr","ashr","sdiv","srem","udiv","urem"}; for (int i = 0; i < 13; i++) if (s == n[i]) return i; fprintf(stderr, "op %s\n", s.c_str()); exit(3); }
enum { F_ADD, F_SUB, F_MUL, F_DIV, F_REM };
enum { P_EQ, P_SLT, P_ULT };
enum { C_SEXT, C_ZEXT, C_TRUNC, C_SITOFP, C_UITOFP, C_FPTOSI };
enum { N_FLOOR, N_CEIL, N_TRUNC, N_FABS, N_FMIN, N_FMAX, N_FMOD, N_OTHER };

struct Slot { u64 key; V v; };
struct Ev {
  int gi, vi; u64 seed; const Prog* g;
  vector<Slot> tab; size_t used = 0; vector<u64> usedk; deque<Mem> arena; deque<Info> infos;
  unordered_map<u64, int> chosen; u64 steps = 0;
  Ev() { tab.assign(1 << 16, Slot{0, V()}); }
  void start(int v) { vi = v; seed = seeds[v]; if (used) { for (auto& s : tab) s.key = 0; used = 0; } arena.clear(); infos.clear(); chosen.clear(); steps = 0; }
  void prog(int i) { gi = i; g = &G[i]; }
  V* find(u64 k) { size_t m = tab.size() - 1, i = k & m; while (tab[i].key) { if (tab[i].key == k) return &tab[i].v; i = (i + 1) & m; } return nullptr; }
  void put(u64 k, const V& v) {
    if (used * 2 > tab.size()) { vector<Slot> o; o.swap(tab); tab.assign(o.size() * 4, Slot{0, V()}); used = 0; for (auto& s : o) if (s.key) put(s.key, s.v); }
    size_t m = tab.size() - 1, i = k & m; while (tab[i].key) i = (i + 1) & m; tab[i].key = k; tab[i].v = v; used++;
  }
  // ---- draws
  u64 H(u64 key) { return mix(comb(comb(key, seed), gseed)); }
  // in some valuations one constant the code compares with is near many iteration numbers and integers
  i64 focus() { if ((seed / 9) % 3 != 1 || pool.empty()) return 0; i64 f = pool[mix(seed ^ 0xf0c5) % pool.size()]; return f > 2 && f < 70000 ? f : 0; }
  i64 dint(u64 h) {
    int m = seed % 9; u64 r = h >> 8;
    if (i64 f = (h >> 50) % 4 == 0 ? focus() : 0) return f * ((r >> 23) % 3 ? 1 : 2 + (i64)((r >> 29) % 3)) + (i64)((r >> 7) % 12) - 1;
    if (m == 6 || m == 7) m = h % 7;
    switch (m) {
      case 0: case 1: return r % 3;
      case 2: case 3: return r % 8;
      case 4: return !pool.empty() && (r & 3) ? pool[(r >> 3) % pool.size()] + (i64)((r >> 40) % 4 == 0 ? 1 : (r >> 40) % 8 == 1 ? -1 : 0) : (i64)(r % 5);
      case 5: return r % 40;
      case 8: return (r & 3) ? (r >> 2) % 3 : (r >> 2) % 400;
    }
    return r % 20;
  }
  // valuations at other scales: all leaves, or about half of them
  V dfloat(u64 h) {
    V v = dfloat0(h); u64 m = (seed / 63) % 5;
    if (v.x >= P) return v;
    if (m == 3 || (m == 4 && (h >> 3 & 1))) {
      int q = 1 + (int)((seed / 315) % (m == 3 ? 32 : 24)); bool up = (seed / 10080) % 8 == 7;
      u64 z = powp(2, q);
      return up ? VFd(mulp(v.x, z), ldexpq_(v.d, q)) : VFd(mulp(v.x, invp(z)), ldexpq_(v.d, -q));
    }
    return v;
  }
  V dfloat0(u64 h) {
    u64 r = h >> 8;
    if (!fpool.empty() && seed % 8 == 5 && (h & 6)) {
      V c = fpool[r % fpool.size()]; int e = (int)((r >> 20) % 5) - 2;
      if (c.x >= P || !e) return c;
      // a little to either side
      if (e == 2 || e == -2) return VFd(mulp(c.x, mulp(e > 0 ? 9 : 7, invp(8))), c.d * (e > 0 ? 9 : 7) / 8);
      u64 z = invp(1ull << 20); return VFd(e > 0 ? addp(c.x, z) : subp(c.x, z), c.d + (R_)e / (1 << 20));
    }
    switch (seed % 7) {
      case 0: return VFq(r % 3, 2);
      case 1: return VFq((i64)(r % 3) - 1, 1);
      case 2: return VFq(r % 15 + 1, 16);
      case 3: return VFq((i64)(r % 33) - 16, 8);
      case 4: return VFq(r % 2, 1);
      case 5: return VFq(r % 1000 + 1, 1001);
    }
    return VFq((i64)(r % 5) - 1, 4);
  }
  V draw(char tc, int bits, u64 key, int hint = -1) {
    u64 h = H(key);
    if (tc == 'f') return dfloat(h);
    if (tc == 'm') return V(memv(key, 0));
    if (tc != 'i') { V r; r.x = h; return r; }
    if (bits == 1 && hint < 0) return VI(h & 1);
    if (hint >= 0) { auto& R = hints[hint].r; auto& q = R[(h >> 5) % R.size()]; return VI(wrapb(q.first + (i64)((h >> 17) % (u64)(q.second - q.first + 1)), bits)); }
    if (hint == -1 && bits == 64 && !tpool.empty() && (h >> 11 & 1)) return VI(tpool[(h >> 30 & 1 ? mix(seed ^ 0x7e) : h >> 12) % tpool.size()]);   // a text the program mentions
    if (hint == -3) return VI((i64)(h >> 2));                 // identities: all different
    i64 v = dint(h);
    if (bits == 32 && (v > (1 << 28) || v < -(1 << 28))) v %= 40;     // stored integers stay clear of overflow
    if (v < 0 && bits == 64 && hint != -2) v = -v;      // sizes, positions and counts of the index space
    return VI(wrapb(v, bits));
  }
  V memv(u64 tok, u64 name, Info* inf = nullptr) { arena.push_back(Mem()); Mem& m = arena.back(); m.tok = tok; m.name = name; m.inf = inf; m.id = mix(tok ^ 0x77); V r; r.x = m.id; r.m = &m; return r; }
  u64 eid(const Ent& e) { return comb(comb(e.k.pre, (u64)e.k.last), e.v.x); }
  V load(Mem* M, Key key, char tc, int bits, int hint = -1) {
    for (int it = 0; it < 80; it++) {
      auto p = lower_bound(M->d.begin(), M->d.end(), key, [](const Ent& e, const Key& k) { return e.k < k; });
      if (p != M->d.end() && p->k == key) {
        if (p->v.bot) return p->v;
        if (p->tc == tc && p->bits == bits) return p->v;
        if (p->tc == 'f' && tc == 'f') return p->v;
        if (p->tc == 'i' && tc == 'i') return VI(wrapb((i64)p->v.x, bits));
        return draw(tc, bits, comb(comb(0xc71, p->v.x), p->tc));
      }
      Info* f = M->inf; if (!f) break;
      if (key.pre == f->lo.pre) {
        i64 df = key.last - f->lo.last;
        if (f->step && df % f->step == 0) {
          i64 r = df / f->step;
          if (r >= 0 && r < f->cnt) {
            if (!f->copy) {
              if (f->val.bot) return f->val;
              if (tc == 'i' && f->tc == 'i') return VI(wrapb((i64)f->val.x + (f->vst ? f->vst * r : 0), bits));
              if (tc == f->tc) return f->val;
              return draw(tc, bits, comb(comb(0xc72, f->val.x), f->tc));
            }
            M = f->src; key = Key{f->slo.pre, f->slo.last + f->sstep * r}; continue;
          }
        }
      }
      M = f->m;
    }
    if (M->zero) return tc == 'f' ? VFd(0, 0) : VI(0);
    if (tc == 'i' && M->name && mono.count(M->name) && key.last >= 0 && key.last < (1 << 20)) { i64 c = H(comb(0x30f5, M->name)) % 6, at = key.last / 4; return VI(at * c + (at ? (i64)(H(comb(comb(0x30f6, M->tok), (u64)at)) % (u64)(c + 1)) : 0)); }
    if (tc == 'i' && M->name) { auto q = mhint.find(M->name); if (q != mhint.end()) for (auto& e : q->second) if (e.first == key.last || e.first == INT64_MIN) { hint = e.second; break; } }
    return draw(tc, bits, comb(comb(comb(comb(0x1d, M->tok), key.pre), (u64)key.last), tc == 'f'), hint);
  }
  // a range write hides what was written to the same range before
  V under(V m, const Key& k, i64 step, i64 cnt) {
    while (m.m->inf) {
      Info* f = m.m->inf;
      if (!(f->lo == k) || f->step != step || f->cnt > cnt) break;
      bool hid = true;
      for (auto& e : m.m->d) { i64 df = e.k.last - k.last; if (e.k.pre != k.pre || !step || df % step || df / step < 0 || df / step >= cnt) hid = false; }
      if (!hid) break;
      V r; r.m = f->m; r.x = f->m->id; m = r;
    }
    return m;
  }
  V store(Mem* M, Key key, const V& val, char tc, int bits) {
    arena.push_back(*M); Mem* n = &arena.back();
    auto p = lower_bound(n->d.begin(), n->d.end(), key, [](const Ent& e, const Key& k) { return e.k < k; });
    if (p != n->d.end() && p->k == key) { n->id -= eid(*p); n->d.erase(p); }
    V b = load(n, key, tc, bits);
    if (b.x != val.x || b.bot != val.bot) {
      Ent e{key, val, tc, bits};
      p = lower_bound(n->d.begin(), n->d.end(), key, [](const Ent& e, const Key& k) { return e.k < k; });
      n->d.insert(p, e); n->id += eid(e);
    }
    V r; r.x = n->id; r.m = n; return r;
  }
  // ---- contexts: chosen state of loops, as (loop, index)
  struct Ctx { const Ctx* up; int loop; i64 t; };
  u64 ckey(int n, const Ctx* c) {
    u64 d = g->n[n].deps; u64 k = comb(n + 1, gi + 0x51);
    if (!c) return k | 1;
    // order independent
    u64 s = 0; for (; c; c = c->up) if (d >> c->loop & 1) s += mix(((u64)c->loop << 48 ^ (u64)(c->t + 7)) * 0x9e3779b97f4a7c15ull + 99);
    return (k + s * 3) | 1;
  }
  i64 state(int loop, const Ctx* c) { for (; c; c = c->up) if (c->loop == loop) return c->t; return 0; }
  V ev(int n, const Ctx* c) {
    const Node& d = g->n[n];
    if (d.k == CI || d.k == CF || d.k == HASH) return d.cv;
    u64 k = ckey(n, c);
    if (V* p = find(k)) return *p;
    if (++steps > 4000000) return VB();
    V r = comp(n, d, c);
    put(k, r); return r;
  }
  bool keys(const Node& d, size_t from, size_t n, const Ctx* c, Key& out, V& bad) {
    u64 pre = 0x99;
    for (size_t i = 0; i + 1 < n; i++) { V q = ev(d.a[from + i], c); if (q.bot) { bad = q; return false; } pre = comb(pre, q.x); }
    V q = ev(d.a[from + n - 1], c); if (q.bot) { bad = q; return false; }
    out.pre = n > 1 ? pre : 0; out.last = (i64)q.x; return true;
  }
  // number of the iteration in state j of a loop; a counted loop makes at most limit iterations
  bool iterno(int loop, int j, const Ctx* c, i64& r) {
    r = iters(loop, j);
    int lm = g->lp[loop].limit; if (lm < 0 || freeit) return true;
    V l = ev(lm, c); if (l.bot) return false;
    i64 n = (i64)l.x; if (n < 0) return true;
    if (j > 0 && (H(comb(0x17e3, lc[gi][loop])) + j) % 4 == 0) r = n;
    else if (r > n) r = n < (1ll << 40) ? r % (n + 1) : r;
    return true;
  }
  i64 iters(int loop, int j) {
    u64 h = H(comb(comb(0x17e2, lc[gi][loop]), (u64)(i64)j));
    u64 s = seed;
    i64 r = s % 3 == 0 ? h % 3 : s % 3 == 1 ? h % 6 : h % 24;
    if (i64 f = (h >> 44) % 3 == 0 ? focus() : 0) return f + (i64)((h >> 20) % 6) - 1;
    if (j > 18) { int q = j % 4; return q == 0 ? (h >> 9) % 60 : q == 1 ? (h >> 9) % 300 : q == 2 ? (h >> 9) % 1200 : (h >> 9) % 12; }
    return r + (j > 0 ? j / 6 : 0) * (1 + (j * 7) % 5);
  }
  int choose(int loop, const Ctx* c) {
    int ex = g->lp[loop].exit;
    u64 k = comb(ckey(ex, c), 0x5e1ec7 + loop);
    auto it = chosen.find(k); if (it != chosen.end()) return it->second;
    int res = -1;
    for (int t = 1; t < TRIES; t++) { Ctx q{c, loop, t}; V e = ev(ex, &q); if (!e.bot && e.x == 1) { res = t; break; } }
    chosen[k] = res; return res;
  }
  static i64 fl(const V& a, int mode, bool& ok) {
    ok = true;
    if (a.x >= P || !(std::fabs((double)a.d) < 4e18)) { ok = false; return 0; }
    i64 q = (i64)a.d;                     // truncated
    for (i64 z = q - 1; z <= q + 1; z++) if (resi(z) == a.x) return z;
    if (mode == 2) return q;
    if (mode == 0) return (R_)q > a.d ? q - 1 : q;
    return (R_)q < a.d ? q + 1 : q;
  }
  static bool flt(const V& a, const V& b) { return a.x == b.x ? false : a.d < b.d; }
  V comp(int n, const Node& d, const Ctx* c) {
    switch (d.k) {
      case CI: case CF: case HASH: return d.cv;
      case BIN: {
        V a = ev(d.a[0], c);
        if (d.b1 == 1 && !a.bot) { if (d.op == O_AND && !a.x) return a; if (d.op == O_OR && a.x) return a; }
        V b = ev(d.a[1], c);
        if (a.bot || b.bot) {
          if (d.b1 == 1 && !b.bot) { if (d.op == O_AND && !b.x) return b; if (d.op == O_OR && b.x) return b; }
          return VB();
        }
        i64 x = (i64)a.x, y = (i64)b.x; u64 m = d.b1 >= 64 ? ~0ull : (1ull << d.b1) - 1; i64 r = 0;
        switch (d.op) {
          case O_ADD: r = (i64)((u64)x + (u64)y); break;
          case O_SUB: r = (i64)((u64)x - (u64)y); break;
          case O_MUL: r = (i64)((u64)x * (u64)y); break;
          case O_AND: r = x & y; break; case O_OR: r = x | y; break; case O_XOR: r = x ^ y; break;
          case O_SHL: r = y >= 0 && y < d.b1 ? (i64)((u64)x << y) : 0; break;
          case O_LSHR: r = y >= 0 && y < d.b1 ? (i64)(((u64)x & m) >> y) : 0; break;
          case O_ASHR: r = y >= 0 && y < d.b1 ? x >> y : 0; break;
          case O_SDIV: case O_SREM:
            if (!y) return draw('i', d.b1, comb(comb(comb(0x0b, d.op), a.x), b.x));
            if (y == -1) r = d.op == O_SDIV ? (i64)(0 - (u64)x) : 0; else r = d.op == O_SDIV ? x / y : x % y; break;
          case O_UDIV: case O_UREM: { u64 p = (u64)x & m, q = (u64)y & m;
            if (!q) return draw('i', d.b1, comb(comb(comb(0x0b, d.op), a.x), b.x));
            r = (i64)(d.op == O_UDIV ? p / q : p % q); break; }
        }
        return VI(wrapb(r, d.b1));
      }
      case FBIN: {
        V a = ev(d.a[0], c), b = ev(d.a[1], c); if (a.bot || b.bot) return VB();
        if (a.x >= P || b.x >= P) {
          double p = a.d, q = b.d, r = d.op == F_ADD ? p + q : d.op == F_SUB ? p - q : d.op == F_MUL ? p * q : d.op == F_DIV ? p / q : NAN;
          return std::isfinite(r) ? VFd(0, 0) : finf(r);
        }
        switch (d.op) {
          case F_ADD: { u64 r = addp(a.x, b.x); return VFd(r, r ? a.d + b.d : 0); }
          case F_SUB: { u64 r = subp(a.x, b.x); return VFd(r, r ? a.d - b.d : 0); }
          case F_MUL: { u64 r = mulp(a.x, b.x); return VFd(r, r ? a.d * b.d : 0); }
          case F_DIV: if (b.x) return VFd(mulp(a.x, invp(b.x)), a.d / b.d);
        }
        return draw('f', 0, comb(comb(comb(0x0f, d.op), a.x), b.x));
      }
      case NOT: { V a = ev(d.a[0], c); if (a.bot) return a; return VI(1 - (i64)a.x); }
      case SEL: { V q = ev(d.a[0], c); if (q.bot) { V a = ev(d.a[1], c), b = ev(d.a[2], c); return !a.bot && !b.bot && a.x == b.x ? a : VB(); } return ev(d.a[q.x ? 1 : 2], c); }
      case CMP: {
        V a = ev(d.a[0], c), b = ev(d.a[1], c); if (a.bot || b.bot) return VB();
        if (d.op == P_EQ) return VI(a.x == b.x);
        if (d.op == P_SLT) return VI((i64)a.x < (i64)b.x);
        u64 m = d.b1 >= 64 ? ~0ull : (1ull << d.b1) - 1; return VI((a.x & m) < (b.x & m));
      }
      case FCMP: { V a = ev(d.a[0], c), b = ev(d.a[1], c); if (a.bot || b.bot) return VB(); return VI(d.op == P_EQ ? a.x == b.x : flt(a, b)); }
      case CAST: {
        V a = ev(d.a[0], c); if (a.bot) return a; i64 v = (i64)a.x; u64 m = d.b1 >= 64 ? ~0ull : (1ull << d.b1) - 1;
        switch (d.op) {
          case C_SEXT: return VI(d.b1 == 1 ? wrapb(-v, d.b2) : wrapb(v, d.b2));
          case C_ZEXT: return VI(wrapb((i64)((u64)v & m), d.b2));
          case C_TRUNC: return VI(wrapb(v, d.b2));
          case C_SITOFP: return VFq(d.b1 == 1 ? -v : v, 1);
          case C_UITOFP: return VFq((i64)((u64)v & m), 1);
          case C_FPTOSI: { bool ok; i64 r = fl(a, 2, ok); return ok ? VI(wrapb(r, d.b2)) : draw('i', d.b2, comb(0xf51, a.x)); }
        }
        return VB();
      }
      case FN: {
        vector<V> a; for (int y : d.a) { a.push_back(ev(y, c)); if (a.back().bot) return VB(); }
        bool ok = true;
        switch (d.op) {
          case N_FLOOR: { i64 r = fl(a[0], 0, ok); if (ok) return VFq(r, 1); return a[0]; }
          case N_CEIL: { i64 r = fl(a[0], 1, ok); if (ok) return VFq(r, 1); return a[0]; }
          case N_TRUNC: { i64 r = fl(a[0], 2, ok); if (ok) return VFq(r, 1); return a[0]; }
          case N_FABS: if (a[0].x >= P) return finf(std::fabs((double)a[0].d)); return a[0].d < 0 ? VFd(subp(0, a[0].x), -a[0].d) : a[0];
          case N_FMIN: return flt(a[1], a[0]) ? a[1] : a[0];
          case N_FMAX: return flt(a[0], a[1]) ? a[1] : a[0];
          case N_FMOD: if (a[0].x < P && a[1].x && a[1].x < P) {
            V q = VFd(mulp(a[0].x, invp(a[1].x)), a[0].d / a[1].d); i64 t = fl(q, 2, ok);
            if (ok) { u64 r = subp(a[0].x, mulp(a[1].x, resi(t))); return VFd(r, r ? a[0].d - a[1].d * t : 0); } }
        }
        u64 h = d.h; for (auto& q : a) h = comb(h, q.x);
        return draw(d.tc, d.b1, h);
      }
      case LD: { V m = ev(d.a[0], c); if (m.bot) return m; Key k; V bad; if (!keys(d, 1, d.a.size() - 1, c, k, bad)) return bad; if (!m.m) return VB(); return load(m.m, k, d.tc, d.b1, d.hint); }
      case ST: { V m = ev(d.a[0], c); if (m.bot) return m; Key k; V bad; if (!keys(d, 2, d.a.size() - 2, c, k, bad)) return bad; V v = ev(d.a[1], c); if (!m.m) return VB(); return store(m.m, k, v, d.tc, d.b1); }
      case M0: { V r = memv(comb(0x30, d.h), d.h); r.m->zero = d.op == 1; return r; }
      case ARG: return draw(d.tc, d.b1, comb(0xa6, d.h), d.hint);
      case UNDEF: return draw(d.tc, d.b1, 0xdef);
      case MU: {
        const MuT& mu = g->mu[d.op];
        if (inv[gi][d.op]) return ev(mu.init, c);
        int st = (int)state(mu.loop, c);
        if (mu.step >= 0 && !(nostep.size() && nostep[gi][d.op])) {
          V i0 = ev(mu.init, c), s = ev(mu.step, c); if (i0.bot || s.bot) return VB();
          i64 it; if (!iterno(mu.loop, st, c, it)) return VB();
          if (mu.tc == 'i') return VI(wrapb((i64)(i0.x + s.x * (u64)it), mu.bits));
          return VFd(addp(i0.x, mulp(s.x, resi(it))), i0.d + s.d * it);
        }
        { i64 it; if (!iterno(mu.loop, st, c, it)) return VB(); if (!it) return ev(mu.init, c); }      // before the first iteration
        u64 key = comb(comb(0x3333, mc[gi][d.op]), (u64)(i64)st);
        if (mu.tc == 'm') return memv(key, 0);
        V r_ = draw(mu.tc, mu.bits, key);
        if (mneg.size() && gi == 0 && mneg[d.op]) { r_.x = !(r_.x & 1); return r_; }
        if (mneg.size() && gi == 1 && mu.tc == 'i' && mu.bits == 8 && mneg_s.count(d.op)) r_.x &= 1;
        return r_;
      }
      case ETA: { int t = choose(d.op, c); if (t < 0) return VB(); Ctx q{c, d.op, t}; return ev(d.a[0], &q); }
      case BV: return VI(state(d.op, c));
      // something holds in some iteration; the sum over the iterations. Of many iterations a few, chosen by their number only.
      case ANY: case SUM: {
        V nv = ev(d.a[0], c); if (nv.bot) return nv;
        i64 n = (i64)nv.x, full = exactq ? 40 : 10, m = n <= full ? n : 10; u64 s = 0; bool bot = false;
        if (exactq && n > full) return VB();
        for (i64 j = 0; j < m; j++) {
          i64 it = n <= full ? j : j == 0 ? 0 : j == 1 ? n - 1 : (i64)(H(comb(comb(0xa17, (u64)n), (u64)j)) % (u64)n);
          Ctx q{c, d.op, it}; V x = ev(d.a[1], &q);
          if (x.bot) { bot = true; continue; }
          if (d.k == ANY) { if (x.x & 1) return VI(1); } else s += x.x;
        }
        if (bot) return VB();
        return d.k == ANY ? VI(0) : VI(wrapb((i64)s, d.b1));
      }
      case CALL: case MCALL: case TUP: {
        u64 h = d.h; for (int y : d.a) { V q = ev(y, c); if (q.bot) return VB(); h = comb(h, q.x); }
        if (d.k == MCALL) return memv(h, d.h);
        if (d.k == TUP) { V r; r.x = h; return r; }
        return draw(d.tc, d.b1, h, d.hint);
      }
      case GST: return VI(0);
      // array given by iteration: exact when there are few, unknown otherwise
      case RGEN: {
        V m = ev(d.a[0], c), cnt = ev(d.a[1], c); if (m.bot || cnt.bot) return VB();
        i64 n_ = (i64)cnt.x; if (n_ > LIM) return VB();
        V r = m;
        for (i64 j = 0; j < n_; j++) {
          Ctx q{c, d.op, j};
          for (size_t i = 2; i < d.a.size(); i++) {
            const Node& s = g->n[d.a[i]]; V w = ev(s.a[0], &q); if (w.bot) return VB(); if (!w.x) continue;
            V v = ev(s.a[1], &q); Key k; V bad; if (v.bot || !keys(s, 2, s.a.size() - 2, &q, k, bad)) return VB();
            r = store(r.m, k, v, s.tc, s.b1);
          }
        }
        return r;
      }
      case RFILL: {
        V m = ev(d.a[0], c), cnt = ev(d.a[3], c); if (m.bot || cnt.bot) return VB();
        if ((i64)cnt.x <= 0) return m;
        V val = ev(d.a[1], c), vst = ev(d.a[2], c), st = ev(d.a[4], c); Key k; V bad;
        if (val.bot || vst.bot || st.bot || !keys(d, 5, d.a.size() - 5, c, k, bad)) return VB();
        i64 n_ = (i64)cnt.x, s = (i64)st.x;
        if (s < 0) { k.last += s * (n_ - 1); s = -s; if (d.tc == 'i' && vst.x) { val.x = (u64)wrapb((i64)(val.x + vst.x * (u64)(n_ - 1)), d.b1); vst.x = (u64)(-(i64)vst.x); } }
        if (genq && n_ > LIM) return VB();
        if (n_ <= (genq ? LIM : 24)) { V r = m; for (i64 q = 0; q < n_; q++) { V x = d.tc == 'i' && vst.x ? VI(wrapb((i64)(val.x + vst.x * (u64)q), d.b1)) : val; r = store(r.m, Key{k.pre, k.last + s * q}, x, d.tc, d.b1); } return r; }
        m = under(m, k, s, n_);
        u64 h = 0xf111; for (u64 q : {m.x, val.x, vst.x, k.pre, (u64)k.last, (u64)s, (u64)n_}) h = comb(h, q);
        infos.push_back(Info{false, m.m, nullptr, val, (i64)vst.x, k, s, n_, Key{0, 0}, 0, d.tc, d.b1});
        return memv(h, 0, &infos.back());
      }
      case RCOPY: {
        V m = ev(d.a[0], c), cnt = ev(d.a[2], c); if (m.bot || cnt.bot) return VB();
        if ((i64)cnt.x <= 0) return m;
        V ms = ev(d.a[1], c), ds = ev(d.a[3], c), ss = ev(d.a[4], c); Key dk, sk; V bad;
        if (ms.bot || ds.bot || ss.bot || !keys(d, 5, d.nd, c, dk, bad) || !keys(d, 5 + d.nd, d.a.size() - 5 - d.nd, c, sk, bad)) return VB();
        i64 n_ = (i64)cnt.x;
        if ((i64)ds.x < 0 && m.x != ms.x) { dk.last += (i64)ds.x * (n_ - 1); sk.last += (i64)ss.x * (n_ - 1); ds.x = (u64)(-(i64)ds.x); ss.x = (u64)(-(i64)ss.x); }
        if (genq && n_ > LIM) return VB();
        if (n_ <= (genq ? LIM : 24)) {
          vector<V> xs; for (i64 q = 0; q < n_; q++) xs.push_back(load(ms.m, Key{sk.pre, sk.last + (i64)ss.x * q}, d.tc, d.b1));
          V r = m; for (i64 q = 0; q < n_; q++) r = store(r.m, Key{dk.pre, dk.last + (i64)ds.x * q}, xs[q], d.tc, d.b1);
          return r;
        }
        m = under(m, dk, (i64)ds.x, n_);
        u64 h = 0xc0b1; for (u64 q : {m.x, ms.x, sk.pre, (u64)sk.last, ss.x, dk.pre, (u64)dk.last, ds.x, (u64)n_}) h = comb(h, q);
        infos.push_back(Info{true, m.m, ms.m, V(), 0, dk, (i64)ds.x, n_, sk, (i64)ss.x, d.tc, d.b1});
        return memv(h, 0, &infos.back());
      }
      case OUT: { V m = ev(d.a[0], c), it = ev(d.a[1], c); if (m.bot || it.bot) return VB(); return memv(comb(comb(0x0007, m.x), it.x), 0); }
      case TAB: { V o = ev(d.a[0], c); if (o.bot) return o; for (auto& e : d.tab) if (e.first == (i64)o.x) return e.second; return draw(d.tc, d.b1, comb(0x7ab, o.x)); }
      case PCMP: { V a = ev(d.a[0], c), b = ev(d.a[1], c); if (a.bot || b.bot) return VB(); if (d.op == 0) return VI(a.x == b.x); if (d.op == 1) return VI(a.x != b.x); return draw('i', 1, comb(comb(comb(0x9c, d.op), a.x), b.x)); }
    }
    return VB();
  }
};

// ---- dependence on loop symbols
static void deps() {
  for (size_t gi = 0; gi < G.size(); gi++) {
    Prog& g = G[gi];
    vector<char> st(g.n.size(), 0);
    struct F { int n; size_t i; };
    auto kids = [&](int n) {
      const Node& d = g.n[n]; vector<int> k;
      if (d.k == MU) { const MuT& m = g.mu[d.op]; if (inv[gi][d.op]) k.push_back(m.init); else { k.push_back(m.init); if (m.step >= 0 && !(nostep.size() && nostep[gi][d.op])) k.push_back(m.step); if (g.lp[m.loop].limit >= 0) k.push_back(g.lp[m.loop].limit); } }
      else { k = d.a; if (d.k == ETA) k.push_back(g.lp[d.op].exit); }
      return k;
    };
    for (size_t r = 0; r < g.n.size(); r++) {
      if (st[r]) continue;
      vector<pair<int, vector<int>>> s; s.push_back({(int)r, kids(r)}); st[r] = 1;
      vector<size_t> ix{0};
      while (!s.empty()) {
        if (ix.back() < s.back().second.size()) {
          int y = s.back().second[ix.back()++];
          if (!st[y]) { st[y] = 1; s.push_back({y, kids(y)}); ix.push_back(0); }
          continue;
        }
        int n = s.back().first; u64 m = 0;
        for (int y : s.back().second) m |= g.n[y].deps;
        Node& d = g.n[n];
        if (d.k == MU && !inv[gi][d.op]) m |= 1ull << g.mu[d.op].loop;
        if (d.k == ETA || d.k == ANY || d.k == SUM || d.k == RGEN) m &= ~(1ull << d.op);
        if (d.k == BV) m |= 1ull << d.op;
        d.deps = m; st[n] = 2; s.pop_back(); ix.pop_back();
      }
    }
  }
}

struct Res {
  // per program: sums of contributions
  vector<vector<u64>> entry, exit, init, next; vector<vector<u64>> changed; vector<vector<int>> act, stay, lbot, mbot;
  vector<vector<int>> pl, pm;   // per pair: compared/different at entry, exit; at init, next
  vector<vector<u64>> obs; vector<vector<int>> obot; vector<int> odiff; vector<vector<int>> osample; vector<int> ocmp;
  void setup() {
    for (auto& g : G) {
      size_t L = g.lp.size(), M = g.mu.size();
      entry.push_back(vector<u64>(L)); exit.push_back(vector<u64>(L)); act.push_back(vector<int>(L)); stay.push_back(vector<int>(L)); lbot.push_back(vector<int>(L));
      init.push_back(vector<u64>(M)); next.push_back(vector<u64>(M)); changed.push_back(vector<u64>(M)); mbot.push_back(vector<int>(M));
      obs.push_back(vector<u64>(g.obs.size())); obot.push_back(vector<int>(g.obs.size()));
    }
    pl.assign(lpair.size(), vector<int>(4)); pm.assign(mpair.size(), vector<int>(4));
    size_t o = G[0].obs.size(); odiff.assign(o, 0); osample.resize(o); ocmp.assign(o, 0);
  }
  template <class T> static void addv(vector<vector<T>>& a, const vector<vector<T>>& b) { for (size_t i = 0; i < a.size(); i++) for (size_t j = 0; j < a[i].size(); j++) a[i][j] += b[i][j]; }
  void add(const Res& r) {
    addv(entry, r.entry); addv(exit, r.exit); addv(init, r.init); addv(next, r.next); addv(changed, r.changed); addv(act, r.act); addv(stay, r.stay); addv(lbot, r.lbot); addv(mbot, r.mbot); addv(obs, r.obs); addv(obot, r.obot); addv(pl, r.pl); addv(pm, r.pm);
    for (size_t i = 0; i < odiff.size(); i++) { odiff[i] += r.odiff[i]; ocmp[i] += r.ocmp[i]; for (int s : r.osample[i]) if (osample[i].size() < 6) osample[i].push_back(s); }
  }
};
static bool withobs = false;
// a loop is entered when its preheader is reached and it makes an iteration
static V entered(Ev& e, const Prog& g, int l) {
  V q = e.ev(g.lp[l].entry, nullptr);
  if (q.bot || !(q.x & 1) || g.lp[l].limit < 0 || !g.lp[l].pure) return q;
  V n = e.ev(g.lp[l].limit, nullptr); if (n.bot) return n;
  return VI(n.x != 0);
}
static void run_v(Ev& e, int v, Res& R) {
  e.start(v);
  u64 tagv = mix(seeds[v] + 0x5eed);
  vector<vector<V>> ov(G.size()), en_(G.size()), ex_(G.size()), in_(G.size()), nx_(G.size()); vector<vector<char>> mk_(G.size());
  for (size_t gi = 0; gi < G.size(); gi++) {
    e.prog(gi); e.steps = 0; const Prog& g = G[gi];
    size_t L = g.lp.size();
    vector<char> mk(L, 2); vector<V> ex(L);
    auto mask = [&](auto&& self, int l) -> char {
      if (mk[l] != 2) return mk[l];
      char p = g.lp[l].parent >= 0 ? self(self, g.lp[l].parent) : 1;
      if (!p) return mk[l] = 0;
      V q = entered(e, g, l);
      R.entry[gi][l] += comb(tagv, q.x + q.bot * 77);
      if (q.bot) { R.lbot[gi][l]++; return mk[l] = 0; }
      return mk[l] = q.x & 1;
    };
    for (size_t l = 0; l < L; l++) if (mask(mask, l)) {
      ex[l] = e.ev(g.lp[l].exit, nullptr);
      R.act[gi][l]++; R.exit[gi][l] += comb(tagv, ex[l].x + ex[l].bot * 77);
      if (ex[l].bot) R.lbot[gi][l]++; else if (!ex[l].x) R.stay[gi][l]++;
    }
    for (size_t m = 0; m < g.mu.size(); m++) {
      const MuT& mu = g.mu[m];
      if (mu.step >= 0 || !mk[mu.loop]) continue;
      V i0 = e.ev(mu.init, nullptr);
      R.init[gi][m] += comb(tagv, i0.x + i0.bot * 77);
      if (ex[mu.loop].bot || ex[mu.loop].x) continue;
      V nx = e.ev(mu.next, nullptr);
      R.next[gi][m] += comb(tagv, nx.x + nx.bot * 77);
      if (nx.bot) R.mbot[gi][m]++;
      if (!nx.bot && !i0.bot && nx.x != i0.x) R.changed[gi][m]++;
      if (nx.bot != i0.bot) R.changed[gi][m]++;
    }
    if (!lpair.empty() || !mpair.empty()) {
      mk_[gi] = mk; ex_[gi] = ex; en_[gi].resize(L); in_[gi].resize(g.mu.size()); nx_[gi].resize(g.mu.size());
      for (size_t l = 0; l < L; l++) if (g.lp[l].parent < 0 || mk[g.lp[l].parent]) en_[gi][l] = entered(e, g, l);
      for (size_t m = 0; m < g.mu.size(); m++) if (mk[g.mu[m].loop]) { in_[gi][m] = e.ev(g.mu[m].init, nullptr); nx_[gi][m] = e.ev(g.mu[m].next, nullptr); }
    }
    if (withobs) for (size_t o = 0; o < g.obs.size(); o++) {
      V q = e.ev(g.obs[o], nullptr); ov[gi].push_back(q);
      R.obs[gi][o] += comb(tagv, q.x + q.bot * 77); R.obot[gi][o] += q.bot;
    }
  }
  for (size_t q = 0; q < lpair.size(); q++) {
    int i = lpair[q].first, j = lpair[q].second, pi = G[0].lp[i].parent, pj = G[1].lp[j].parent;
    if ((pi >= 0 && !mk_[0][pi]) || (pj >= 0 && !mk_[1][pj])) continue;
    V a = en_[0][i], b = en_[1][j];
    if (!a.bot && !b.bot) { R.pl[q][0]++; if (a.x != b.x) R.pl[q][1]++; }
    if (!mk_[0][i] || !mk_[1][j]) continue;
    a = ex_[0][i]; b = ex_[1][j];
    if (!a.bot && !b.bot) { R.pl[q][2]++; if (a.x != b.x) R.pl[q][3]++; }
  }
  for (size_t q = 0; q < mpair.size(); q++) {
    int i = mpair[q].first, j = mpair[q].second, li = G[0].mu[i].loop, lj = G[1].mu[j].loop;
    if (!mk_[0][li] || !mk_[1][lj]) continue;
    bool ng = mneg.size() && mneg[i];
    V a = in_[0][i], b = in_[1][j];
    auto df = [&](const V& a, const V& b) { return ng ? ((a.x ^ b.x) & 1) == 0 : a.x != b.x; };
    if (!a.bot && !b.bot) { R.pm[q][0]++; if (df(a, b)) R.pm[q][1]++; }
    if (ex_[0][li].bot || ex_[1][lj].bot || ex_[0][li].x || ex_[1][lj].x) continue;
    a = nx_[0][i]; b = nx_[1][j];
    if (!a.bot && !b.bot) { R.pm[q][2]++; if (df(a, b)) R.pm[q][3]++; }
  }
  if (withobs && G.size() == 2) for (size_t o = 0; o < G[0].obs.size(); o++) {
    V &a = ov[0][o], &b = ov[1][o];
    if (a.bot || b.bot) continue;
    R.ocmp[o]++;
    if (a.x != b.x) { R.odiff[o]++; if (R.osample[o].size() < 6) R.osample[o].push_back(v); }
  }
}
struct Job { int lo, hi; Res r; };
static void* worker(void* p) { Job* j = (Job*)p; Ev e; for (int v = j->lo; v < j->hi; v++) run_v(e, v, j->r); return nullptr; }
// ---- choice of valuations: half as they come, half so that every loop of the
// reference is entered, and stays in, often enough
struct SJob { int lo, hi; vector<u64>* cand; vector<vector<u64>> bits; };
static void* sworker(void* p) {
  SJob* j = (SJob*)p; Ev e; const Prog& g = G.back();
  for (int v = j->lo; v < j->hi; v++) {
    e.start(0); e.vi = v; e.seed = (*j->cand)[v]; e.prog((int)G.size() - 1);
    u64 act = 0, stay = 0; size_t L = g.lp.size(); vector<char> mk(L, 2);
    auto mask = [&](auto&& self, int l) -> char {
      if (mk[l] != 2) return mk[l];
      if (g.lp[l].parent >= 0 && !self(self, g.lp[l].parent)) return mk[l] = 0;
      V q = entered(e, g, l); return mk[l] = !q.bot && (q.x & 1);
    };
    for (size_t l = 0; l < L; l++) if (mask(mask, l)) { act |= 1ull << l; V x = e.ev(g.lp[l].exit, nullptr); if (!x.bot && !x.x) stay |= 1ull << l; }
    j->bits.push_back({act, stay});
  }
  return nullptr;
}
static int NT = 8; static int NSEL = 0; static u64 SBASE = 0;
static void select_seeds(u64 salt) {
  size_t L = G.back().lp.size(); int N = (int)seeds.size();
  if (!L || !NSEL) return;
  vector<u64> cand; for (int i = 0; i < NSEL * N; i++) cand.push_back(i);
  (void)salt;
  int M = cand.size(); deque<SJob> js; vector<pthread_t> ts(NT);
  pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 1ull << 30);
  for (int i = 0; i < NT; i++) js.push_back(SJob{(int)((long)M * i / NT), (int)((long)M * (i + 1) / NT), &cand, {}});
  for (int i = 0; i < NT; i++) if (pthread_create(&ts[i], &at, sworker, &js[i])) { perror("thread"); exit(3); }
  vector<vector<u64>> b; for (int i = 0; i < NT; i++) { pthread_join(ts[i], nullptr); for (auto& x : js[i].bits) b.push_back(x); }
  vector<int> cnt(2 * L, 0); vector<char> used(M, 0); vector<u64> out; vector<size_t> cur(2 * L, 0);
  auto take = [&](int i) { used[i] = 1; out.push_back(cand[i]); for (size_t q = 0; q < 2 * L; q++) if (b[i][q / L] >> (q % L) & 1) cnt[q]++; };
  for (int i = 0; i < N / 2; i++) take(i);
  while ((int)out.size() < N) {
    vector<int> o(2 * L); for (size_t q = 0; q < 2 * L; q++) o[q] = q;
    sort(o.begin(), o.end(), [&](int x, int y) { return cnt[x] < cnt[y]; });
    bool done = false;
    for (int q : o) { while (cur[q] < (size_t)M && (used[cur[q]] || !(b[cur[q]][q / L] >> (q % L) & 1))) cur[q]++; if (cur[q] < (size_t)M) { take((int)cur[q]); done = true; break; } }
    if (!done) { for (int i = 0; i < M && (int)out.size() < N; i++) if (!used[i]) take(i); break; }
  }
  seeds = out;
}

static Res sweep() {
  Res R; R.setup();
  int N = seeds.size(), nt = min(NT, max(1, N / 4));
  deque<Job> js; vector<pthread_t> ts(nt);
  pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 1ull << 30);
  for (int i = 0; i < nt; i++) { js.push_back(Job{N * i / nt, N * (i + 1) / nt, Res()}); js.back().r.setup(); }
  for (int i = 0; i < nt; i++) if (pthread_create(&ts[i], &at, worker, &js[i])) { perror("thread"); exit(3); }
  for (int i = 0; i < nt; i++) { pthread_join(ts[i], nullptr); R.add(js[i].r); }
  return R;
}

template <class S> static int renum(vector<vector<u64>>& cls, const vector<vector<S>>& sig, u64 salt, const vector<vector<char>>* skip) {
  set<u64> old; for (size_t i = 0; i < cls.size(); i++) for (size_t j = 0; j < cls[i].size(); j++) if (!skip || !(*skip)[i][j]) old.insert(cls[i][j]);
  map<S, pair<int, int>> rep;
  for (int gi = (int)G.size() - 1; gi >= 0; gi--) for (size_t j = 0; j < cls[gi].size(); j++) if (!skip || !(*skip)[gi][j]) rep.emplace(sig[gi][j], make_pair(gi, (int)j));
  for (size_t i = 0; i < cls.size(); i++) for (size_t j = 0; j < cls[i].size(); j++) if (!skip || !(*skip)[i][j]) { auto r = rep[sig[i][j]]; cls[i][j] = comb(salt, ((u64)r.first << 40) | (u64)r.second); }
  return (int)rep.size() - (int)old.size();
}

int main(int argc, char** argv) {
  ios::sync_with_stdio(false);
  ifstream in(argv[1]); string w;
  int N = 400; string mode = "solve"; int limit = 60; 
  vector<vector<string>> force;
  while (in >> w) {
    if (w == "N") in >> N; else if (w == "seed") in >> gseed; else if (w == "tries") in >> TRIES; else if (w == "threads") in >> NT; else if (w == "select") in >> NSEL;
    else if (w == "seeds") { int n; in >> n; seeds.resize(n); for (auto& s : seeds) in >> s; }
    else if (w == "pool") { int n; in >> n; pool.resize(n); for (auto& s : pool) in >> s; }
    else if (w == "tpool") { int n; in >> n; tpool.resize(n); for (auto& s : tpool) in >> s; }
    else if (w == "fpool") { int n; in >> n; while (n--) { u64 a; double b; in >> a >> b; fpool.push_back(VFd(a, b)); } }
    else if (w == "hint") { int n; in >> n; Hint h; while (n--) { i64 a, b; in >> a >> b; h.r.push_back({a, b}); } hints.push_back(h); }
    else if (w == "mono") { u64 h; in >> h; mono.insert(h); }
    else if (w == "mhint") { u64 h; i64 k; int id; in >> h >> k >> id; mhint[h].push_back({k, id}); }
    else if (w == "mode") in >> mode; else if (w == "freeit") freeit = true; else if (w == "exactq") exactq = true;
    else if (w == "limit") in >> limit;
    else if (w == "prog") {
      G.emplace_back(); Prog& g = G.back();
      int nn; in >> nn; g.n.resize(nn);
      for (int i = 0; i < nn; i++) {
        Node& d = g.n[i]; string k; in >> k; int na;
        auto args = [&](int c) { d.a.resize(c); for (auto& x : d.a) in >> x; };
        if (k == "ci") { d.k = CI; in >> d.iv; d.cv = VI(d.iv); }
        else if (k == "cf") { d.k = CF; u64 a; double b; in >> a >> b; d.cv = VFd(a, b); }
        else if (k == "inf") { d.k = CF; int s; in >> s; d.cv = finf(s > 0 ? INFINITY : s < 0 ? -INFINITY : NAN); }
        else if (k == "bin") { d.k = BIN; string o; in >> o >> d.b1; d.op = opcode(o); args(2); }
        else if (k == "fbin") { d.k = FBIN; in >> d.op; args(2); }
        else if (k == "not") { d.k = NOT; args(1); }
        else if (k == "sel") { d.k = SEL; args(3); }
        else if (k == "cmp") { d.k = CMP; in >> d.op >> d.b1; args(2); }
        else if (k == "fcmp") { d.k = FCMP; in >> d.op; args(2); }
        else if (k == "cast") { d.k = CAST; in >> d.op >> d.b1 >> d.b2; args(1); }
        else if (k == "fn") { d.k = FN; in >> d.op >> d.h >> d.tc >> d.b1 >> na; args(na); }
        else if (k == "ld") { d.k = LD; in >> d.tc >> d.b1 >> d.hint >> na; args(na); }
        else if (k == "st") { d.k = ST; in >> d.tc >> d.b1 >> na; args(na); }
        else if (k == "m0") { d.k = M0; in >> d.h; }
        else if (k == "mz") { d.k = M0; d.h = 0; d.op = 1; }
        else if (k == "arg") { d.k = ARG; in >> d.h >> d.tc >> d.b1 >> d.hint; }
        else if (k == "undef") { d.k = UNDEF; in >> d.tc >> d.b1; }
        else if (k == "hash") { d.k = HASH; in >> d.h; d.cv.x = d.h; }
        else if (k == "mu") { d.k = MU; in >> d.op; }
        else if (k == "eta") { d.k = ETA; in >> d.op; args(1); }
        else if (k == "bv") { d.k = BV; in >> d.op; if (d.op > 63) return 3; }
        else if (k == "any") { d.k = ANY; in >> d.op; args(2); }
        else if (k == "sum") { d.k = SUM; in >> d.op >> d.b1; args(2); }
        else if (k == "call") { d.k = CALL; in >> d.h >> d.tc >> d.b1 >> d.hint >> na; args(na); }
        else if (k == "mcall") { d.k = MCALL; in >> d.h >> na; args(na); }
        else if (k == "gst") { d.k = GST; in >> d.tc >> d.b1 >> na; args(na); }
        else if (k == "rgen") { d.k = RGEN; genq = true; in >> d.op >> na; args(na); if (d.op > 63) return 3; }
        else if (k == "rfill") { d.k = RFILL; in >> d.tc >> d.b1 >> na; args(na); }
        else if (k == "rcopy") { d.k = RCOPY; in >> d.tc >> d.b1 >> d.nd >> na; args(na); }
        else if (k == "tup") { d.k = TUP; in >> d.h >> na; args(na); }
        else if (k == "out") { d.k = OUT; args(2); }
        else if (k == "tab") { d.k = TAB; in >> d.tc >> d.b1 >> na; while (na--) { i64 o, a; double b; in >> o >> a >> b; d.tab.push_back({o, d.tc == 'f' ? VFd(a, b) : VI(a)}); } args(1); }
        else if (k == "pcmp") { d.k = PCMP; in >> d.op; args(2); }
        else { fprintf(stderr, "kind %s\n", k.c_str()); return 3; }
      }
      int nm, nl, no;
      in >> nl; if (nl > 63) { fprintf(stderr, "loops\n"); return 3; }
      for (int i = 0; i < nl; i++) { Loop l; in >> l.parent >> l.depth >> l.entry >> l.exit >> l.limit >> l.pure; g.lp.push_back(l); }
      in >> nm; for (int i = 0; i < nm; i++) { MuT m; in >> m.node >> m.loop >> m.tc >> m.bits >> m.init >> m.next >> m.step; g.mu.push_back(m); }
      in >> no; g.obs.resize(no); for (auto& o : g.obs) in >> o;
    }
    else if (w == "force") { // gi kind idx class inv
      int gi, idx, iv; char kind; u64 c; in >> gi >> kind >> idx >> c >> iv;
      if (mc.empty()) { for (auto& g : G) { mc.push_back(vector<u64>(g.mu.size())); lc.push_back(vector<u64>(g.lp.size())); inv.push_back(vector<char>(g.mu.size(), 0)); } }
      if (nostep.empty()) for (auto& g : G) nostep.push_back(vector<char>(g.mu.size(), 0));
      if (kind == 'n') nostep[gi][idx] = 1;
      else if (kind == 'm') { mc[gi][idx] = c; inv[gi][idx] = iv; } else lc[gi][idx] = c;
    }
    else if (w == "pairl") { int i, j; in >> i >> j; lpair.push_back({i, j}); }
    else if (w == "pairm") { int i, j, ng; in >> i >> j >> ng; mpair.push_back({i, j}); if (mneg.empty()) mneg.assign(G[0].mu.size(), 0); mneg[i] = ng; if (ng) mneg_s.insert(j); }
    else { fprintf(stderr, "word %s\n", w.c_str()); return 3; }
  }
  if (mode != "solve" && mc.empty()) for (auto& g : G) { mc.push_back(vector<u64>(g.mu.size())); lc.push_back(vector<u64>(g.lp.size())); inv.push_back(vector<char>(g.mu.size(), 0)); }
  if (seeds.empty()) for (int i = 0; i < N; i++) seeds.push_back(i);
  FILE* o = stdout; fprintf(o, "{");
  auto dump = [&](const char* nm, const vector<vector<u64>>& a) { fprintf(o, "\"%s\":[", nm); for (size_t i = 0; i < a.size(); i++) { fprintf(o, "%s[", i ? "," : ""); for (size_t j = 0; j < a[i].size(); j++) fprintf(o, "%s%llu", j ? "," : "", (unsigned long long)a[i][j]); fprintf(o, "]"); } fprintf(o, "],"); };
  auto dumpi = [&](const char* nm, const auto& a) { fprintf(o, "\"%s\":[", nm); for (size_t i = 0; i < a.size(); i++) { fprintf(o, "%s[", i ? "," : ""); for (size_t j = 0; j < a[i].size(); j++) fprintf(o, "%s%d", j ? "," : "", (int)a[i][j]); fprintf(o, "]"); } fprintf(o, "],"); };
  int rounds = 0; bool fix = false;
  if (mode == "solve") {
    for (auto& g : G) {
      vector<char> iv; vector<u64> c, l;
      for (auto& m : g.mu) { iv.push_back(m.step < 0); c.push_back(comb(0x777, (u64)m.tc * 256 + m.bits)); }
      for (auto& q : g.lp) l.push_back(comb(0x778, q.depth));
      inv.push_back(iv); mc.push_back(c); lc.push_back(l);
    }
    fprintf(o, "\"history\":[");
    deps(); select_seeds(0); int again = 1;
    for (; rounds < limit; rounds++) {
      deps();
      Res R = sweep();
      vector<vector<vector<u64>>> ls, ms; vector<vector<char>> skip = inv;
      for (size_t gi = 0; gi < G.size(); gi++) {
        ls.emplace_back(); ms.emplace_back();
        for (size_t l = 0; l < G[gi].lp.size(); l++) { int p = G[gi].lp[l].parent; ls[gi].push_back({lc[gi][l], p >= 0 ? lc[gi][p] : 0, R.entry[gi][l], R.exit[gi][l]}); }
        for (size_t m = 0; m < G[gi].mu.size(); m++) {
          if (G[gi].mu[m].step >= 0) { skip[gi][m] = 1; ms[gi].push_back({}); continue; }
          ms[gi].push_back({mc[gi][m], lc[gi][G[gi].mu[m].loop], R.init[gi][m], R.next[gi][m]});
        }
      }
      int ch = renum(lc, ls, 0x10, nullptr); ch += renum(mc, ms, 0x20, &skip);
      for (size_t gi = 0; gi < G.size(); gi++) for (size_t m = 0; m < G[gi].mu.size(); m++) if (inv[gi][m] && R.changed[gi][m]) { inv[gi][m] = 0; mc[gi][m] = comb(0x777, (u64)G[gi].mu[m].tc * 256 + G[gi].mu[m].bits); ch++; }
      fprintf(o, "%s{", rounds ? "," : ""); dump("lc", lc); dump("mc", mc); dumpi("inv", inv); fprintf(o, "\"ch\":%d}", ch);
      // at the fixed point the loop symbols have settled: choose again and go on
      if (!ch && NSEL && again-- > 0 && !G.back().lp.empty()) { deps(); select_seeds(1); continue; }
      if (!ch) { fix = true; rounds++; break; }
    }
    fprintf(o, "],");
  }
  deps(); if (mode != "solve") select_seeds(2); withobs = true; Res R = sweep();
  fprintf(o, "\"rounds\":%d,\"fix\":%s,\"N\":%d,", rounds, fix ? "true" : "false", (int)seeds.size());
  dump("lc", lc); dump("mc", mc); dumpi("inv", inv); dump("entry", R.entry); dump("exit", R.exit); dump("init", R.init); dump("next", R.next);
  dumpi("act", R.act); dumpi("stay", R.stay); dumpi("lbot", R.lbot); dumpi("mbot", R.mbot); dumpi("obot", R.obot); dumpi("osample", R.osample); dumpi("pl", R.pl); dumpi("pm", R.pm);
  fprintf(o, "\"odiff\":["); for (size_t i = 0; i < R.odiff.size(); i++) fprintf(o, "%s%d", i ? "," : "", R.odiff[i]); fprintf(o, "],");
  fprintf(o, "\"ocmp\":["); for (size_t i = 0; i < R.ocmp.size(); i++) fprintf(o, "%s%d", i ? "," : "", R.ocmp[i]); fprintf(o, "]}\n");
  return 0;
}
