// Stand-in for TensorToolkit (qlten; not part of this repository and not installed): tensors are symbolic terms.
// A tensor is a linear combination of tensor networks whose nodes are uninterpreted tensors ("atoms"), so every statement about a
// network holds for all values of the atoms.  Networks are kept in a normal form that knows: isometries coming from SVD/QR, the defining
// equations Q R = t and U S V = t (for untruncated decompositions), basis vectors, direct-sum embeddings and index fusion.
// Index directions, index identity and charges are tracked; contracting unequal indexes, or tensors whose data were released, is an error.
#ifndef VERIF_DIAG_QLTEN_H
#define VERIF_DIAG_QLTEN_H
#include <algorithm>
#include <array>
#include <cassert>
#include <cmath>
#include <complex>
#include <cstddef>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <initializer_list>
#include <iomanip>
#include <iostream>
#include <iterator>
#include <map>
#include <memory>
#include <numeric>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <unordered_map>
#include <vector>
#include "sx.h"
#ifdef WITH_MPI
#include "mpistub.h"
#endif
namespace qlten {
using QLTEN_Double = double;
using QLTEN_Complex = std::complex<double>;
const double kDoubleEpsilon = 1.0E-15;
inline double CalcConj(double d) { return d; }
inline QLTEN_Complex CalcConj(QLTEN_Complex z) { return std::conj(z); }
inline double abs(double d) { return std::fabs(d); }
inline double abs(QLTEN_Complex z) { return std::abs(z); }
enum TenIndexDirType { NDIR, IN, OUT };
struct U1QNVal { int v; explicit U1QNVal(int x = 0) : v(x) {} };
struct QNCard { std::string name; int v; QNCard(const std::string& n, const U1QNVal& x) : name(n), v(x.v) {} };
template <int M> struct QNn {
  int v[M ? M : 1] = {};
  QNn() {}
  QNn(const std::vector<QNCard>& c) { assert(c.size() == M); for (size_t i = 0; i < c.size(); ++i) v[i] = c[i].v; }
  QNn(std::initializer_list<QNCard> c) { size_t i = 0; for (auto& x : c) v[i++] = x.v; }
  bool operator==(const QNn& o) const { for (int i = 0; i < M; ++i) if (v[i] != o.v[i]) return false; return true; }
  bool operator!=(const QNn& o) const { return !(*this == o); }
  QNn operator-() const { QNn r; for (int i = 0; i < M; ++i) r.v[i] = -v[i]; return r; }
  QNn& operator+=(const QNn& o) { for (int i = 0; i < M; ++i) v[i] += o.v[i]; return *this; }
  QNn operator+(const QNn& o) const { QNn r = *this; r += o; return r; }
  QNn operator-(const QNn& o) const { return *this + (-o); }
  static QNn Zero() { return QNn(); }
  size_t Hash() const { uint64_t h = 1469598103934665603ULL; for (int x : v) h = (h ^ (uint64_t)(int64_t)x) * 1099511628211ULL; return h; }
};
const std::string kQLTenFileSuffix = "qlten";
struct IndentPrinter { size_t n; explicit IndentPrinter(size_t i) : n(i) {} };
inline std::ostream& operator<<(std::ostream& o, const IndentPrinter&) { return o; }
enum class ExecutorStatus { INITED, EXEING, FINISH };
class Executor { ExecutorStatus st = ExecutorStatus::INITED; public: virtual ~Executor() = default; virtual void Execute() = 0; ExecutorStatus GetStatus() const { return st; } void SetStatus(ExecutorStatus s) { st = s; } };
struct Timer { Timer(const std::string& = "") {} double Elapsed() { return 0; } double PrintElapsed(size_t = 0) { return 0; } void Restart() {} void ClearAndRestart() {} void Suspend() {} };
namespace special_qn { using U1QN = QNn<1>; using U1U1QN = QNn<2>; using TrivialRepQN = QNn<0>; }
namespace hp_numeric {
static const int tensor_manipulation_num_threads = 1;
inline int GetTensorManipulationThreads() { return 1; }
inline void SetTensorManipulationThreads(int) {}
template <class E, class S> void VectorScale(E* x, size_t n, S s) { for (size_t i = 0; i < n; ++i) x[i] *= s; }
template <class E, class S> void VectorAddTo(const E* x, size_t n, E* y, S s) { for (size_t i = 0; i < n; ++i) y[i] += s * x[i]; }
template <class E> double Vector2Norm(const E* x, size_t n) { double r = 0; for (size_t i = 0; i < n; ++i) r += std::norm(x[i]); return std::sqrt(r); }
}
// the listed finding, if any, that a fusion of legs of different directions stands for
namespace diag { inline const char*& known() { static const char* k = nullptr; return k; } }
namespace diag {
typedef uint64_t u64;
inline u64 mix(u64 h, u64 x) { h ^= x + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdULL; h ^= h >> 32; return h; }
inline u64 hs(const char* s) { u64 h = 1469598103934665603ULL; for (; *s; ++s) h = (h ^ (u64)(unsigned char)*s) * 1099511628211ULL; return h; }
inline u64 bits(double d) { u64 u; if (d == 0) d = 0; memcpy(&u, &d, 8); return u; }
inline u64 cbits(double d) { return bits(d); }
inline u64 cbits(QLTEN_Complex z) { return mix(bits(z.real()), bits(z.imag())); }
// a positive number standing for an uninterpreted real scalar; few bits, so short sums and products are exact
inline double number(u64 h) { return 1.0 + double((h * 0x9e3779b97f4a7c15ULL) >> 44) / 1048576.0; }
enum Kind { PLAIN, Qf, Rf, Uf, Sf, Vf, EMB, COMB, BASIS, SCALAR, PROJ };
struct Info { Kind kind = PLAIN; u64 group = 0; int part = 0, nl = 0; std::vector<std::vector<int>> iso; bool exact = false; };
inline std::map<u64, Info>& infos() { static std::map<u64, Info> m; return m; }
inline const Info& info(u64 n) { static const Info none; auto it = infos().find(n); return it == infos().end() ? none : it->second; }
inline std::map<u64, double>& norms() { static std::map<u64, double> m; return m; }   // what a scalar stands for the inverse of
struct Atom { u64 nm; bool cj; std::vector<int> w; };
struct Net { std::vector<Atom> at; std::vector<int> open; std::vector<size_t> wd = {1}; };  // wire 0: any leg of dimension one
typedef std::vector<u64> Code;
struct End { int a, l; };  // a = -1: open slot l
inline int wire(Net& n, size_t dim) { if (dim == 1) return 0; n.wd.push_back(dim); return (int)n.wd.size() - 1; }
inline void unify(Net& n, int x, int y, double& f) {
  if (x == 0 || y == 0) { if (x != y) sx_fail("internal: wires of different dimension joined"); return; }
  if (x == y) { f *= double(n.wd[x]); return; }
  for (auto& a : n.at) for (auto& w : a.w) if (w == y) w = x;
  for (auto& w : n.open) if (w == y) w = x;
}
inline void erase2(Net& n, size_t i, size_t j) { if (i < j) std::swap(i, j); n.at.erase(n.at.begin() + i); n.at.erase(n.at.begin() + j); }
// one local rule; 0: none applies, 1: applied, -1: the network is zero
inline int step(Net& n, double& f) {
  for (size_t i = 0; i < n.at.size(); ++i) {
    const Info& I = info(n.at[i].nm);
    if (I.kind == PLAIN || I.kind == SCALAR || I.kind == Sf || I.kind == PROJ) continue;
    for (size_t j = 0; j < n.at.size(); ++j) if (j != i) {
      Atom &A = n.at[i], &B = n.at[j];
      if (I.kind == BASIS) {
        const Info& J = info(B.nm); if (J.kind != BASIS || A.w[0] == 0 || A.w[0] != B.w[0]) continue;
        if (A.nm != B.nm) return -1; erase2(n, i, j); return 1;
      }
      if (I.kind == EMB) {
        const Info& J = info(B.nm); if (J.kind != EMB || J.group != I.group || A.cj == B.cj || A.w[1] != B.w[1]) continue;
        if (J.part != I.part) return -1;
        int x = A.w[0], y = B.w[0]; erase2(n, i, j); unify(n, x, y, f); return 1;
      }
      if (A.nm != B.nm || A.cj == B.cj) continue;
      for (auto& m : I.iso) {
        bool all = true; for (int l : m) all = all && A.w[l] == B.w[l]; if (!all) continue;
        std::vector<int> x = A.w, y = B.w; for (int l : m) x[l] = y[l] = -1; erase2(n, i, j);
        for (size_t l = 0; l < x.size(); ++l) if (x[l] >= 0) { unify(n, x[l], y[l], f); int keep = x[l], gone = y[l]; if (keep && keep != gone) for (size_t k = l + 1; k < x.size(); ++k) { if (x[k] == gone) x[k] = keep; if (y[k] == gone) y[k] = keep; } }
        return 1;
      }
    }
  }
  return 0;
}
// t with its own legs; the legs that both copies share are given the same fresh names (negative)
struct Copy { bool cj; std::vector<int> legs; };
struct Sub { u64 group = 0; std::vector<size_t> del; std::vector<Copy> copies; };
// factors of an (untruncated) decomposition that stand next to each other: Q R = t, U S V = t, R+ R = t+ t, V+ S S V = t+ t, U S S U+ = t t+
inline Sub joined(const Net& n) {
  auto cat = [](std::vector<int> a, const std::vector<int>& b) { a.insert(a.end(), b.begin(), b.end()); return a; };
  auto left = [&](size_t i) { return std::vector<int>(n.at[i].w.begin(), n.at[i].w.end() - 1); };
  auto right = [&](size_t i) { return std::vector<int>(n.at[i].w.begin() + 1, n.at[i].w.end()); };
  auto fresh = [](int k) { std::vector<int> r; for (int i = 0; i < k; ++i) r.push_back(-1 - i); return r; };
  for (size_t i = 0; i < n.at.size(); ++i) {
    const Info& I = info(n.at[i].nm); if (!I.exact) continue; const Atom& A = n.at[i];
    for (size_t j = 0; j < n.at.size(); ++j) if (j != i) {
      const Info& J = info(n.at[j].nm); if (J.group != I.group || !J.exact) continue; const Atom& B = n.at[j];
      if (I.kind == Qf && J.kind == Rf && A.cj == B.cj && A.w.back() == B.w[0]) return {I.group, {i, j}, {{A.cj, cat(left(i), right(j))}}};
      if (I.kind == Rf && J.kind == Rf && !A.cj && B.cj && A.w[0] == B.w[0]) return {I.group, {i, j}, {{false, cat(fresh(I.nl), right(i))}, {true, cat(fresh(I.nl), right(j))}}};
      for (size_t k = 0; k < n.at.size(); ++k) if (k != i && k != j) {
        const Atom& S = n.at[k]; if (info(S.nm).kind != Sf || info(S.nm).group != I.group) continue;
        if (I.kind == Uf && J.kind == Vf && A.cj == B.cj) { for (int o = 0; o < 2; ++o) if (A.w.back() == S.w[o] && B.w[0] == S.w[1 - o]) return {I.group, {i, j, k}, {{A.cj, cat(left(i), right(j))}}}; }
        if ((I.kind != Uf && I.kind != Vf) || I.kind != J.kind || A.cj || !B.cj) continue;
        for (size_t l = 0; l < n.at.size(); ++l) if (l != i && l != j && l != k) {
          const Atom& Z = n.at[l]; if (Z.nm != S.nm) continue; int ba = I.kind == Uf ? A.w.back() : A.w[0], bb = I.kind == Uf ? B.w.back() : B.w[0];
          for (int o = 0; o < 4; ++o) if (ba == S.w[o & 1] && bb == Z.w[o >> 1] && S.w[1 - (o & 1)] == Z.w[1 - (o >> 1)]) {
            if (I.kind == Vf) return {I.group, {i, j, k, l}, {{false, cat(fresh(I.nl), right(i))}, {true, cat(fresh(I.nl), right(j))}}};
            return {I.group, {i, j, k, l}, {{false, cat(left(i), fresh(I.part))}, {true, cat(left(j), fresh(I.part))}}};
          }
        }
      }
    }
  }
  return {};
}
// canonical code
struct Coder {
  const Net& n; std::vector<std::vector<End>> ends; std::vector<int> num; int cnt = 0;
  explicit Coder(const Net& m) : n(m), ends(m.wd.size()), num(m.at.size(), -1) {
    for (size_t a = 0; a < n.at.size(); ++a) for (size_t l = 0; l < n.at[a].w.size(); ++l) if (n.at[a].w[l]) ends[n.at[a].w[l]].push_back({(int)a, (int)l});
    for (size_t s = 0; s < n.open.size(); ++s) if (n.open[s]) ends[n.open[s]].push_back({-1, (int)s});
    for (size_t w = 1; w < ends.size(); ++w) if (ends[w].size() != 0 && ends[w].size() != 2) sx_fail("internal: a wire without two ends");
  }
  End other(int w, int a, int l) { auto& e = ends[w]; return e[0].a == a && e[0].l == l ? e[1] : e[0]; }
  void node(const End& e, Code& c, std::vector<int>& q) {
    if (e.a < 0) { c.push_back(2); c.push_back(e.l); return; }
    if (num[e.a] < 0) { num[e.a] = cnt++; q.push_back(e.a); c.push_back(4 + (n.at[e.a].cj ? 1 : 0)); c.push_back(n.at[e.a].nm); } else { c.push_back(3); c.push_back(num[e.a]); }
    c.push_back(e.l);
  }
  void flood(std::vector<int>& q, Code& c) { for (size_t h = 0; h < q.size(); ++h) { int a = q[h]; for (size_t l = 0; l < n.at[a].w.size(); ++l) { int w = n.at[a].w[l]; if (!w) c.push_back(0); else node(other(w, a, l), c, q); } } }
  Code code() {
    Code c; std::vector<int> q;
    for (size_t s = 0; s < n.open.size(); ++s) { int w = n.open[s]; if (!w) { c.push_back(0); continue; } node(other(w, -1, s), c, q); flood(q, c); q.clear(); }
    std::vector<Code> closed; std::vector<int> base = num; int cb = cnt;
    for (size_t a = 0; a < n.at.size(); ++a) if (base[a] < 0) {
      num = base; cnt = 0; std::vector<int> comp; Code t; node({(int)a, -1}, t, comp); flood(comp, t); Code best = t;
      for (size_t k = 1; k < comp.size(); ++k) { for (int x : comp) num[x] = -1; cnt = 0; std::vector<int> p; Code u; node({comp[k], -1}, u, p); flood(p, u); if (u < best) best = u; }
      for (int x : comp) base[x] = 0; closed.push_back(best);
    }
    (void)cb; std::sort(closed.begin(), closed.end()); for (auto& k : closed) { c.push_back(1); c.insert(c.end(), k.begin(), k.end()); }
    return c;
  }
};
inline Code code(const Net& n) { return Coder(n).code(); }
inline u64 hcode(const Code& c) { u64 h = 77; for (u64 x : c) h = mix(h, x); return h; }
template <class E> struct Term { Net n; E c; Code k; };
template <class E> using Terms = std::vector<Term<E>>;
template <class E> std::map<u64, Terms<E>>& originals() { static std::map<u64, Terms<E>> m; return m; }
inline Net conj(Net n) { for (auto& a : n.at) { Kind k = info(a.nm).kind; if (k != BASIS && k != SCALAR && k != Sf && k != PROJ) a.cj = !a.cj; } return n; }
// append b to a; wires of b are shifted by the returned amount (0 stays 0)
inline int append(Net& a, const Net& b) { int sh = (int)a.wd.size() - 1; for (size_t i = 1; i < b.wd.size(); ++i) a.wd.push_back(b.wd[i]); for (auto x : b.at) { for (auto& w : x.w) if (w) w += sh; a.at.push_back(x); } return sh; }
// one isometry applied to what it was split from: Q+ t = R, U+ t = S V, t V+ = U S
template <class E> bool fold(Net& n, E& c) {
  for (size_t i = 0; i < n.at.size(); ++i) {
    const Info I = info(n.at[i].nm); if (!I.exact || (I.kind != Qf && I.kind != Uf && I.kind != Vf)) continue;
    auto it = originals<E>().find(I.group); if (it == originals<E>().end() || it->second.size() != 1) continue; const E tc = it->second[0].c; const Net& t = it->second[0].n; if (t.at.empty()) continue;
    const Atom A = n.at[i]; bool cj = !A.cj; int nl = I.nl, lo = I.kind == Vf ? nl : 0, hi = I.kind == Vf ? (int)t.open.size() : nl, sh = I.kind == Vf ? 1 - nl : 0;
    std::vector<std::vector<End>> en(n.wd.size()), et(t.wd.size());
    for (size_t a = 0; a < n.at.size(); ++a) for (size_t l = 0; l < n.at[a].w.size(); ++l) en[n.at[a].w[l]].push_back({(int)a, (int)l});
    for (size_t x = 0; x < n.open.size(); ++x) en[n.open[x]].push_back({-1, (int)x});
    for (size_t a = 0; a < t.at.size(); ++a) for (size_t l = 0; l < t.at[a].w.size(); ++l) et[t.at[a].w[l]].push_back({(int)a, (int)l});
    for (size_t x = 0; x < t.open.size(); ++x) et[t.open[x]].push_back({-1, (int)x});
    auto oth = [](std::vector<std::vector<End>>& e, int w, int a, int l) { End p = e[w][0]; return p.a == a && p.l == l ? e[w][1] : p; };
    std::vector<int> img(t.at.size(), -1), q; bool ok = true, any = false;
    auto bind = [&](End a, End b) { if (a.a < 0 || b.a < 0 || a.l != b.l || (size_t)b.a == i) return false; if (img[a.a] >= 0) return img[a.a] == b.a; for (int v : img) if (v == b.a) return false; const Atom &P = t.at[a.a], &R = n.at[b.a]; Kind k = info(P.nm).kind; bool pc = k == BASIS || k == SCALAR || k == Sf || k == PROJ ? P.cj : P.cj != cj; if (P.nm != R.nm || pc != R.cj) return false; img[a.a] = b.a; q.push_back(a.a); return true; };
    for (int k = lo; k < hi && ok; ++k) { int wt = t.open[k], wn = A.w[k + sh]; if ((wt == 0) != (wn == 0)) ok = false; else if (wt) { any = true; ok = bind(oth(et, wt, -1, k), oth(en, wn, (int)i, k + sh)); } }
    for (size_t h = 0; h < q.size() && ok; ++h) for (size_t l = 0; l < t.at[q[h]].w.size() && ok; ++l) {
      int wt = t.at[q[h]].w[l], wn = n.at[img[q[h]]].w[l]; if ((wt == 0) != (wn == 0)) { ok = false; break; } if (!wt) continue; End a = oth(et, wt, q[h], (int)l), b = oth(en, wn, img[q[h]], (int)l);
      if (a.a < 0) { if (a.l >= lo && a.l < hi) ok = (size_t)b.a == i && b.a >= 0 && b.l == a.l + sh; else ok = b.a < 0 || (size_t)b.a != i; } else ok = bind(a, b);
    }
    if (!ok || !any) continue; for (int v : img) if (v < 0) ok = false; if (!ok) continue;
    // wires of the other side
    std::vector<int> rest; for (int k = 0; k < (int)t.open.size(); ++k) if (k < lo || k >= hi) { int wt = t.open[k]; if (!wt) { rest.push_back(0); continue; } End e = oth(et, wt, -1, k); if (e.a < 0) { ok = false; break; } rest.push_back(n.at[img[e.a]].w[e.l]); } if (!ok) continue;
    Kind kind = I.kind; u64 g = I.group; std::vector<size_t> del(img.begin(), img.end()); del.push_back(i); std::sort(del.rbegin(), del.rend()); for (size_t x : del) n.at.erase(n.at.begin() + x);
    if (kind == Qf) { Atom R{mix(g, 2), cj, rest}; R.w.insert(R.w.begin(), A.w.back()); n.at.push_back(R); }
    else if (kind == Uf) { int w = wire(n, n.wd[A.w.back()]); n.at.push_back({mix(g, 2), false, {A.w.back(), w}}); Atom V{mix(g, 3), cj, rest}; V.w.insert(V.w.begin(), w); n.at.push_back(V); }
    else { int w = wire(n, n.wd[A.w[0]]); n.at.push_back({mix(g, 2), false, {w, A.w[0]}}); Atom U{mix(g, 1), cj, rest}; U.w.push_back(w); n.at.push_back(U); }
    c = c * (cj ? tc : CalcConj(tc)); return true;  // tc has modulus one
  }
  return false;
}
template <class E> void reduce(Net n, E c, Terms<E>& out) {
  for (;;) {
    double f = 1; int r = step(n, f); if (f != 1) c = c * E(f);
    if (r < 0) return; if (r > 0) continue;
    if (fold<E>(n, c)) continue;
    Sub j = joined(n); if (j.copies.empty()) break;
    auto it = originals<E>().find(j.group); if (it == originals<E>().end()) break;
    Net base = n; std::vector<size_t> d = j.del; std::sort(d.rbegin(), d.rend()); for (size_t x : d) base.at.erase(base.at.begin() + x);
    std::vector<std::pair<Net, E>> cur(1, {base, c}); std::vector<int> names;   // names[-1 - x]: wire of the shared leg x
    for (size_t k = 0; k < j.copies.size(); ++k) {
      std::vector<std::pair<Net, E>> nxt;
      for (auto& b : cur) for (auto& t : it->second) {
        Net m = b.first; Net src = j.copies[k].cj ? conj(t.n) : t.n; double g = 1;
        std::vector<int> lg = j.copies[k].legs;
        for (size_t i = 0; i < lg.size(); ++i) if (lg[i] < 0) { // shared legs live in temporary open slots between the two copies
          if (k == 0) { int w = wire(m, src.wd[src.open[i]]); m.open.push_back(w); lg[i] = w; } else lg[i] = m.open[b.first.open.size() - (size_t)std::count_if(lg.begin() + i, lg.end(), [](int x) { return x < 0; })]; }
        int sh = append(m, src); std::vector<int> so = src.open; for (auto& w : so) if (w) w += sh;
        for (size_t i = 0; i < so.size(); ++i) { int x = lg[i], y = so[i]; if ((x == 0) != (y == 0)) sx_fail("internal: legs of a decomposition"); unify(m, x, y, g); if (x && x != y) for (size_t q = i + 1; q < so.size(); ++q) { if (lg[q] == y) lg[q] = x; if (so[q] == y) so[q] = x; } }
        if (k == 1) { size_t cnt = 0; for (int x : j.copies[k].legs) cnt += x < 0; m.open.resize(m.open.size() - cnt); }
        nxt.push_back({m, b.second * E(g) * (j.copies[k].cj ? CalcConj(t.c) : t.c)});
      }
      cur.swap(nxt);
    }
    for (auto& x : cur) reduce<E>(x.first, x.second, out);
    return;
  }
  Code k = code(n); for (auto& t : out) if (t.k == k) { t.c = t.c + c; return; }
  out.push_back({n, c, k});
}
template <class E> void tidy(Terms<E>& t) { Terms<E> r; for (auto& x : t) if (!(x.c == E(0))) r.push_back(x); std::sort(r.begin(), r.end(), [](const Term<E>& a, const Term<E>& b) { return a.k < b.k; }); t.swap(r); }
template <class E> u64 hterms(const Terms<E>& t) { u64 h = 5; for (auto& x : t) h = mix(mix(h, hcode(x.k)), cbits(x.c)); return h; }
inline u64& counter() { static u64 c = 0; return c; }
}
using diag::u64;
template <typename Q> struct QNSector {
  Q qn; size_t d;
  QNSector(const Q& q = Q(), size_t n = 0) : qn(q), d(n) {}
  const Q& GetQn() const { return qn; }
  size_t dim() const { return d; }
  size_t GetDegeneracy() const { return d; }
  bool operator==(const QNSector& o) const { return qn == o.qn && d == o.d; }
};
template <typename Q> using QNSectorVec = std::vector<QNSector<Q>>;
template <typename Q> u64 hqn(const Q& q) { u64 h = 3; for (int x : q.v) h = diag::mix(h, (u64)(int64_t)x); return h; }
template <typename Q> struct Index {
  std::vector<QNSector<Q>> s; TenIndexDirType dir = NDIR; u64 id = 0;
  Index() {}
  Index(const std::vector<QNSector<Q>>& v, TenIndexDirType t) : s(v), dir(t) { id = diag::hs("sectors"); for (auto& x : s) id = diag::mix(diag::mix(id, hqn(x.qn)), x.d); }
  Index(const std::vector<QNSector<Q>>& v, TenIndexDirType t, u64 name) : s(v), dir(t), id(name) {}
  size_t dim() const { size_t n = 0; for (auto& x : s) n += x.d; return n; }
  const QNSector<Q>& GetQNSct(size_t i) const { return s.at(i); }
  size_t GetQNSctNum() const { return s.size(); }
  const QNSector<Q>& GetQNSctFromActualCoor(size_t c) const { for (auto& x : s) { if (c < x.d) return x; c -= x.d; } sx_fail("coordinate outside an index"); return s[0]; }
  TenIndexDirType GetDir() const { return dir; }
  const std::vector<QNSector<Q>>& GetQNScts() const { return s; }
  bool operator==(const Index& o) const { return dir == o.dir && id == o.id; }
  bool operator!=(const Index& o) const { return !(*this == o); }
};
template <typename Q> Index<Q> InverseIndex(const Index<Q>& i) { Index<Q> r = i; r.dir = i.dir == IN ? OUT : i.dir == OUT ? IN : NDIR; return r; }
struct QNSctsOffsetInfo { size_t i, j, offset; };
template <typename Q> Index<Q> FuseTwoIndexAndRecordInfo(const Index<Q>& a, const Index<Q>& b, std::vector<QNSctsOffsetInfo>&);
template <typename Q> using IndexVec = std::vector<Index<Q>>;
using ShapeT = std::vector<size_t>;
using CoorsT = std::vector<size_t>;
template <typename E, typename Q> struct QLTensor;
template <typename E, typename Q> struct BlockData {
  void Clear(); void Allocate(bool = false) {}
#ifdef WITH_MPI
  void MPI_Send(const MPI_Comm&, int dest, int tag) const; MPI_Status MPI_Recv(const MPI_Comm&, int src, int tag);
#endif
};
template <typename E, typename Q> struct QLTensor : BlockData<E, Q> {
  typedef diag::Terms<E> TS; typedef BlockData<E, Q> Data;
  std::vector<Index<Q>> ix; mutable TS tm; Q dv; bool def = true, cleared = false; mutable std::map<std::vector<size_t>, E> el; mutable bool pending = false;
  QLTensor() {}
  QLTensor(const std::vector<Index<Q>>& v) : ix(v), def(false) {}
  QLTensor(std::initializer_list<Index<Q>> v) : QLTensor(std::vector<Index<Q>>(v)) {}
  static constexpr bool IsFermionic() { return false; }
  Data& GetBlkSparDataTen() { return *this; }
  const Data& GetBlkSparDataTen() const { return *this; }
#ifdef WITH_MPI
  void MPI_Bcast(int root, const MPI_Comm& comm); void MPI_Send(int dest, int tag, const MPI_Comm& comm) const { mpi::send(*this, "whole tensor", dest, tag, comm); } MPI_Status MPI_Recv(int src, int tag, const MPI_Comm& comm) { if (!def) sx_fail("a tensor that is in use receives another one"); return mpi::recv(*this, "whole tensor", src, tag, comm); }
#endif
  void ok() const { if (def) sx_fail("an empty (default) tensor is used"); if (cleared) sx_fail("a tensor is used after its data were released"); }
  // turn assigned elements into terms
  void mat() const {
    if (!pending) return; pending = false;
    std::vector<size_t> big; for (size_t i = 0; i < ix.size(); ++i) if (ix[i].dim() > 1) big.push_back(i);
    for (auto it = el.begin(); it != el.end();) if (it->second == E(0)) it = el.erase(it); else ++it;
    if (big.size() == 2 && ix[big[0]].dim() == ix[big[1]].dim() && el.size() == ix[big[0]].dim()) {
      bool d = true; for (auto& x : el) d = d && x.first[big[0]] == x.first[big[1]] && x.second == el.begin()->second;
      if (d) { diag::Net n; n.open.assign(ix.size(), 0); int w = diag::wire(n, ix[big[0]].dim()); n.open[big[0]] = n.open[big[1]] = w; diag::reduce<E>(n, el.begin()->second, tm); diag::tidy(tm); el.clear(); return; }
    }
    for (auto& x : el) {
      diag::Net n; n.open.assign(ix.size(), 0);
      for (size_t b : big) { u64 nm = diag::mix(diag::mix(diag::hs("basis"), ix[b].id), x.first[b]); diag::infos()[nm].kind = diag::BASIS; int w = diag::wire(n, ix[b].dim()); n.open[b] = w; n.at.push_back({nm, false, {w}}); }
      diag::reduce<E>(n, x.second, tm);
    }
    diag::tidy(tm); el.clear();
  }
  const TS& terms() const { ok(); mat(); return tm; }
  struct Ref {
    QLTensor& t; std::vector<size_t> c;
    Ref& operator=(const E v) { t.SetElem(c, v); return *this; }
    Ref& operator=(const Ref& r) { t.SetElem(c, r.t.GetElem(r.c)); return *this; }
    operator E() const { return t.GetElem(c); }
  };
  Ref operator()(const std::vector<size_t>& c) { return Ref{*this, c}; }
  Ref operator()(std::initializer_list<size_t> c) { return Ref{*this, std::vector<size_t>(c)}; }
  Ref operator()() { return Ref{*this, {}}; }
  template <typename... I> Ref operator()(size_t i, I... r) { return Ref{*this, std::vector<size_t>{i, (size_t)r...}}; }
  E operator()() const { return GetElem({}); }
  E operator()(const std::vector<size_t>& c) const { return GetElem(c); }
  template <typename... I> E operator()(size_t i, I... r) const { return GetElem(std::vector<size_t>{i, (size_t)r...}); }
  void chk(const std::vector<size_t>& c) const { ok(); if (c.size() != ix.size()) sx_fail("tensor accessed with the wrong number of coordinates"); for (size_t i = 0; i < c.size(); ++i) if (c[i] >= ix[i].dim()) sx_fail("tensor coordinate out of range"); }
  E GetElem(const std::vector<size_t>& c) const {
    chk(c); if (pending) { auto it = el.find(c); return it == el.end() ? E(0) : it->second; }
    // a value of an uninterpreted tensor
    E r = E(0); for (auto& t : tm) {
      bool one = true, sv = t.n.at.size() == 1 && diag::info(t.n.at[0].nm).kind == diag::Sf; for (auto& i : ix) one = one && i.dim() == 1;
      if (one) { diag::Code k(t.k.begin() + ix.size(), t.k.end()); r = r + t.c * (k.empty() ? E(1) : E(diag::number(diag::hcode(k)))); }
      else if (sv && c[0] != c[1]) continue;
      else r = r + t.c * E(diag::number(diag::mix(diag::hcode(t.k), c.empty() ? 0 : c[0])));
    }
    return r;
  }
  void SetElem(const std::vector<size_t>& c, const E v) { chk(c); if (!pending) { if (!tm.empty()) sx_fail("internal: element of a computed tensor assigned"); pending = true; } el[c] = v; if (!(v == E(0))) { Q r; for (size_t i = 0; i < c.size(); ++i) { auto& q = ix[i].GetQNSctFromActualCoor(c[i]).qn; r += ix[i].dir == OUT ? q : -q; } dv = r; } }
  size_t Rank() const { return ix.size(); }
  size_t GetRank() const { return ix.size(); }
  size_t size() const { size_t n = 1; for (auto& i : ix) n *= i.dim(); return n; }
  bool IsDefault() const { return def; }
  bool IsScalar() const { return !def && ix.empty(); }
  const std::vector<Index<Q>>& GetIndexes() const { return ix; }
  const Index<Q>& GetIndex(size_t i) const { return ix.at(i); }
  ShapeT GetShape() const { ShapeT r; for (auto& i : ix) r.push_back(i.dim()); return r; }
  Q Div() const { return dv; }
  size_t GetRawDataMemUsage() const { return size() * sizeof(E); }
  void Show(size_t = 0) const {}
  void ConciseShow(size_t = 0) const {}
  // a fresh uninterpreted tensor
  static QLTensor atom(const std::vector<Index<Q>>& v, u64 nm, const Q& div = Q()) {
    QLTensor t(v); t.dv = div; diag::Net n; diag::Atom a{nm, false, {}}; for (auto& i : v) { int w = diag::wire(n, i.dim()); a.w.push_back(w); n.open.push_back(w); } n.at.push_back(a); diag::reduce<E>(n, E(1), t.tm); return t;
  }
  void Random(const Q& div) { if (def) sx_fail("an empty (default) tensor is used"); *this = atom(ix, diag::mix(diag::hs("random"), ++diag::counter()), div); }
  void Fill(const Q& div, const E) { Random(div); }
  void Transpose(const std::vector<size_t>& p) {
    ok(); mat(); if (p.size() != ix.size()) sx_fail("transposition of the wrong rank"); std::vector<bool> seen(p.size()); for (size_t x : p) { if (x >= p.size() || seen[x]) sx_fail("not a permutation"); seen[x] = true; }
    auto o = ix; for (size_t i = 0; i < p.size(); ++i) ix[i] = o[p[i]];
    TS r; for (auto& t : tm) { diag::Net n = t.n; for (size_t i = 0; i < p.size(); ++i) n.open[i] = t.n.open[p[i]]; r.push_back({n, t.c, diag::code(n)}); } tm.swap(r); diag::tidy(tm);
  }
  void TransposeInPlace(const std::vector<size_t>& p) { Transpose(p); }
  void Dag() { ok(); mat(); for (auto& i : ix) i = InverseIndex(i); dv = -dv; TS r; for (auto& t : tm) { diag::Net n = diag::conj(t.n); r.push_back({n, CalcConj(t.c), diag::code(n)}); } tm.swap(r); diag::tidy(tm); }
  bool operator==(const QLTensor& o) const { if (def != o.def) return false; if (def) return true; return ix == o.ix && same(o); }
  bool operator!=(const QLTensor& o) const { return !(*this == o); }
  bool same(const QLTensor& o) const { auto &a = terms(), &b = o.terms(); if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); ++i) if (a[i].k != b[i].k || !(a[i].c == b[i].c)) return false; return true; }
  QLTensor& operator+=(const QLTensor& o) { if (def) return *this = o; if (o.def) return *this; if (!(ix == o.ix)) sx_fail("tensors with different indexes added"); terms(); bool z = tm.empty(); for (auto& t : o.terms()) diag::reduce<E>(t.n, t.c, tm); diag::tidy(tm); if (z) dv = o.dv; return *this; }
  QLTensor operator+(const QLTensor& o) const { QLTensor r = *this; r += o; return r; }
  QLTensor& operator*=(const E s) { terms(); for (auto& t : tm) t.c = t.c * s; diag::tidy(tm); return *this; }
  QLTensor operator*(const E s) const { QLTensor r = *this; r *= s; return r; }
  QLTensor operator-() const { return *this * E(-1); }
  void MultiplyByScalar(const E s) { *this *= s; }
  // split off positive scalars: *this = scal * rest
  QLTensor stripped(double& c, std::vector<diag::Atom>& scal) const {
    QLTensor r = *this; r.terms(); c = 1; if (r.tm.size() != 1) return r; auto& t = r.tm[0];
    for (size_t i = t.n.at.size(); i-- > 0;) if (diag::info(t.n.at[i].nm).kind == diag::SCALAR) { scal.push_back(t.n.at[i]); t.n.at.erase(t.n.at.begin() + i); }
    c = std::abs(t.c); t.c = t.c / E(c); t.k = diag::code(t.n); return r;
  }
  void times(double c, const std::vector<diag::Atom>& scal) { for (auto& t : tm) { t.c = t.c * E(c); for (auto& s : scal) t.n.at.push_back(s); t.k = diag::code(t.n); } diag::tidy(tm); }
  double Get2Norm() const { return diag::number(diag::mix(diag::hs("norm"), diag::hterms(terms()))); }
  double GetQuasi2Norm() const { return Get2Norm(); }
  double Normalize() {
    double v = Get2Norm(), c; std::vector<diag::Atom> sc; QLTensor r = stripped(c, sc); u64 nm = diag::mix(diag::hs("1/norm"), diag::hterms(r.tm)); diag::infos()[nm].kind = diag::SCALAR; diag::norms()[nm] = v; std::vector<diag::Atom> one; one.push_back(diag::Atom{nm, false, {}}); r.times(1, one); *this = r; return v;
  }
  double QuasiNormalize() { return Normalize(); }
  void FuseIndex(size_t i, size_t j);
  void ElementWiseInv(double = 0) { sx_fail("not part of this stand-in"); }
  void ElementWiseSquareRoot() { sx_fail("not part of this stand-in"); }
  void ActFermionPOps() { sx_fail("fermion parity applied to a bosonic tensor"); }
  static std::vector<QLTensor>& disk() { static std::vector<QLTensor> d; return d; }
  void StreamWrite(std::ostream& o) const { terms(); disk().push_back(*this); u64 h[2] = {0x51544e4554ULL, disk().size() - 1}; o.write((const char*)h, 16); }
  void StreamRead(std::istream& i) { u64 h[2] = {0, 0}; i.read((char*)h, 16); if (i.fail() || h[0] != 0x51544e4554ULL || h[1] >= disk().size()) { i.setstate(std::ios_base::failbit); sx_fail("a tensor is read from a file that does not hold one"); return; } *this = disk()[h[1]]; }
};
template <typename E, typename Q> void BlockData<E, Q>::Clear() { static_cast<QLTensor<E, Q>*>(this)->cleared = true; }
template <typename E, typename Q> QLTensor<E, Q> operator*(const E s, const QLTensor<E, Q>& t) { return t * s; }
template <typename E, typename Q> Q Div(const QLTensor<E, Q>& t) { return t.Div(); }
template <typename E, typename Q> QLTensor<E, Q> Dag(const QLTensor<E, Q>& t) { QLTensor<E, Q> r = t; r.Dag(); return r; }
template <typename Q> QLTensor<QLTEN_Complex, Q> ToComplex(const QLTensor<double, Q>& t) { QLTensor<QLTEN_Complex, Q> r; if (t.def) return r; r = QLTensor<QLTEN_Complex, Q>(t.ix); r.dv = t.dv; for (auto& x : t.terms()) { r.tm.push_back({x.n, QLTEN_Complex(x.c), x.k}); } return r; }
template <typename E, typename Q> std::ostream& operator<<(std::ostream& o, const QLTensor<E, Q>& t) { t.StreamWrite(o); return o; }
template <typename E, typename Q> std::istream& operator>>(std::istream& i, QLTensor<E, Q>& t) { t.StreamRead(i); return i; }
namespace diag {
template <class A, class B> struct Mix { typedef QLTEN_Complex type; };
template <> struct Mix<double, double> { typedef double type; };
// contraction of given axes, the result's legs in the given order (leg of a: i, leg of b: rank(a)+i)
template <class A, class B, class C, class Q> void contract(const QLTensor<A, Q>& a, const std::vector<size_t>& xa, const QLTensor<B, Q>& b, const std::vector<size_t>& xb, const std::vector<size_t>& order, QLTensor<C, Q>& c) {
  if (xa.size() != xb.size()) sx_fail("contraction of different numbers of indexes");
  auto &ta = a.terms(); auto &tb = b.terms();
  for (size_t i = 0; i < xa.size(); ++i) if (xa[i] >= a.ix.size() || xb[i] >= b.ix.size() || a.ix[xa[i]] != InverseIndex(b.ix[xb[i]])) sx_fail("contraction of indexes that do not belong together");
  QLTensor<C, Q> r; r.def = false; r.dv = a.dv + b.dv; for (size_t o : order) r.ix.push_back(o < a.ix.size() ? a.ix[o] : b.ix[o - a.ix.size()]);
  for (auto& x : ta) for (auto& y : tb) {
    Net n = x.n; int sh = append(n, y.n); n.open.clear(); double f = 1; std::vector<int> oa = x.n.open, ob = y.n.open; for (auto& w : ob) if (w) w += sh;
    for (size_t i = 0; i < xa.size(); ++i) { int p = oa[xa[i]], q = ob[xb[i]]; unify(n, p, q, f); if (p && p != q) { for (auto& w : oa) if (w == q) w = p; for (auto& w : ob) if (w == q) w = p; } }
    for (size_t o : order) n.open.push_back(o < oa.size() ? oa[o] : ob[o - oa.size()]);
    reduce<C>(n, C(x.c) * C(y.c) * C(f), r.tm);
  }
  tidy(r.tm); c = std::move(r);
}
template <class V> std::vector<size_t> rest(size_t n, const V& used, size_t off) { std::vector<size_t> r; for (size_t i = 0; i < n; ++i) if (std::find(used.begin(), used.end(), i) == used.end()) r.push_back(i + off); return r; }
}
template <class A, class B, class C, class Q> void Contract(const QLTensor<A, Q>* a, const std::vector<size_t>& xa, const QLTensor<B, Q>* b, const std::vector<size_t>& xb, QLTensor<C, Q>* c) {
  auto o = diag::rest(a->ix.size(), xa, 0), p = diag::rest(b->ix.size(), xb, a->ix.size()); o.insert(o.end(), p.begin(), p.end()); diag::contract(*a, xa, *b, xb, o, *c);
}
template <class A, class B, class C, class Q> void Contract(const QLTensor<A, Q>* a, const QLTensor<B, Q>* b, const std::vector<std::vector<size_t>>& x, QLTensor<C, Q>* c) { Contract(a, x.at(0), b, x.at(1), c); }
// n cyclically consecutive axes starting at sa (sb); the remaining legs keep their cyclic order
template <class E, class Q, bool aTail = true, bool bHead = true> void Contract(const QLTensor<E, Q>& a, const QLTensor<E, Q>& b, size_t sa, size_t sb, size_t k, QLTensor<E, Q>& c) {
  size_t na = a.ix.size(), nb = b.ix.size(); std::vector<size_t> xa, xb, o; for (size_t i = 0; i < k; ++i) { xa.push_back((sa + i) % na); xb.push_back((sb + i) % nb); }
  for (size_t i = k; i < na; ++i) o.push_back((sa + i) % na); for (size_t i = k; i < nb; ++i) o.push_back(na + (sb + i) % nb);
  diag::contract(a, xa, b, xb, o, c);
}
template <class E, class Q> void LinearCombine(const std::vector<E>& k, const std::vector<QLTensor<E, Q>*>& t, const E beta, QLTensor<E, Q>* r) {
  if (k.size() != t.size()) sx_fail("linear combination of unequal lists"); QLTensor<E, Q> s; if (!(beta == E(0))) { s = *r; s *= beta; } else if (!t.empty()) { s = QLTensor<E, Q>(t[0]->ix); s.dv = t[0]->dv; } else s = *r * E(0);
  for (size_t i = 0; i < t.size(); ++i) s += *t[i] * k[i]; *r = s;
}
template <class E, class Q> void LinearCombine(const size_t n, const E* k, const std::vector<QLTensor<E, Q>*>& t, const E beta, QLTensor<E, Q>* r) { if (t.size() < n) sx_fail("linear combination of too few tensors"); LinearCombine(std::vector<E>(k, k + n), std::vector<QLTensor<E, Q>*>(t.begin(), t.begin() + n), beta, r); }
namespace diag { inline bool& fine() { static bool f = false; return f; } }   // bonds consist of two sectors
namespace diag { inline int& charges() { static int c = 0; return c; } }       // charges of new bonds: 0 all that of the left part, 1 every bond its own, 2 alternating
namespace diag {
template <class Q> std::vector<QNSector<Q>> mergeQn(const std::vector<QNSector<Q>>& v) { std::vector<QNSector<Q>> r; for (auto& x : v) { bool f = false; for (auto& y : r) if (y.qn == x.qn) { y.d += x.d; f = true; break; } if (!f) r.push_back(x); } return r; }
}
namespace diag {
// which dimension a truncated decomposition keeps; harnesses may choose
inline size_t (*&pick())(size_t lo, size_t hi, double trunc) { static size_t (*f)(size_t, size_t, double) = nullptr; return f; }
template <class E, class Q> struct Split {
  std::vector<Index<Q>> l, r; size_t bound = 0; u64 grp = 0; double c = 1; std::vector<Atom> sc; QLTensor<E, Q> core;
  Split(const QLTensor<E, Q>& t, size_t ld, const char* what, u64 extra) {
    t.terms(); if (ld == 0 || ld >= t.ix.size()) sx_fail("decomposition without left or right indexes");
    size_t a = 1, b = 1; for (size_t i = 0; i < t.ix.size(); ++i) { (i < ld ? l : r).push_back(t.ix[i]); (i < ld ? a : b) *= t.ix[i].dim(); } bound = std::min(a, b);
    core = t.stripped(c, sc); grp = mix(mix(mix(hs(what), hterms(core.tm)), ld), extra); for (auto& i : t.ix) grp = mix(mix(grp, i.id), i.dir);
    if (core.tm.empty()) sx_fail("decomposition of a zero tensor");
    originals<E>()[grp] = core.tm;
  }
  Index<Q> bond(size_t D, TenIndexDirType d, Q q) { if (charges()) q = Q({QNCard("Sz", U1QNVal(charges() == 1 ? 1 + int(grp % 9973) : int(grp % 2)))}); std::vector<QNSector<Q>> v; if (fine() && D > 1) { v.push_back(QNSector<Q>(q, D / 2)); v.push_back(QNSector<Q>(q, D - D / 2)); } else v.push_back(QNSector<Q>(q, D)); return Index<Q>(v, d, mix(mix(grp, hs("bond")), D)); }
  void reg(u64 nm, Kind k, std::vector<std::vector<int>> iso, bool exact) { Info& i = infos()[nm]; i.kind = k; i.group = grp; i.iso = iso; i.exact = exact; i.nl = (int)l.size(); i.part = (int)r.size(); }
};
inline std::vector<int> upto(int a, int b) { std::vector<int> r; for (; a < b; ++a) r.push_back(a); return r; }
}
// a harness may look at what is decomposed
namespace diag { template <class E, class Q> std::function<void(const QLTensor<E, Q>&, size_t)>& onSvd() { static std::function<void(const QLTensor<E, Q>&, size_t)> f; return f; } }
// the factors of the latest singular value decomposition
namespace diag { template <class E, class Q> std::pair<QLTensor<E, Q>, QLTensor<E, Q>>& last() { static std::pair<QLTensor<E, Q>, QLTensor<E, Q>> l; return l; } template <class Q> QLTensor<double, Q>& lastS() { static QLTensor<double, Q> l; return l; } }
template <class E, class Q> void SVD(const QLTensor<E, Q>* t, size_t ld, const Q& lq, double trunc, size_t Dmin, size_t Dmax, QLTensor<E, Q>* u, QLTensor<double, Q>* s, QLTensor<E, Q>* v, double* err, size_t* Dout) {
  using namespace diag; if (Dmax == 0 || Dmin > Dmax) sx_fail("singular value decomposition asked for an impossible number of states");
  QLTensor<E, Q> T = *t; if (onSvd<E, Q>()) onSvd<E, Q>()(T, ld); size_t b; { Split<E, Q> p(T, ld, "svd", 0); b = p.bound; }
  size_t D = std::min(Dmax, b); bool exact = trunc <= 1e-15 && Dmax >= b; if (!exact && pick()) { D = pick()(std::min(Dmin, b), std::min(Dmax, b), trunc); if (D == 0 || D > std::min(Dmax, b)) sx_fail("internal: pick"); }
  Split<E, Q> p(T, ld, "svd", mix(D, exact)); u64 U = mix(p.grp, 1), S = mix(p.grp, 2), V = mix(p.grp, 3); int nl = p.l.size(), nr = p.r.size();
  p.reg(U, Uf, {upto(0, nl)}, exact); p.reg(S, Sf, {}, exact); p.reg(V, Vf, {upto(1, nr + 1)}, exact);
  Q bq = lq; for (auto& i : p.l) (void)i;
  Index<Q> o = p.bond(D, OUT, bq), in = InverseIndex(o); auto ul = p.l; ul.push_back(o); auto vr = p.r; vr.insert(vr.begin(), in);
  *u = QLTensor<E, Q>::atom(ul, U, lq); *v = QLTensor<E, Q>::atom(vr, V, T.dv - lq); *s = QLTensor<double, Q>::atom({in, o}, S); s->times(p.c, p.sc);
  if (err) *err = exact ? 0.0 : 1.0 / 1024; if (Dout) *Dout = D;
  last<E, Q>() = {*u, *v}; lastS<Q>() = *s;
}
template <class E, class Q> void QR(const QLTensor<E, Q>* t, size_t ld, const Q& lq, QLTensor<E, Q>* q, QLTensor<E, Q>* r) {
  using namespace diag; QLTensor<E, Q> T = *t; Split<E, Q> p(T, ld, "qr", 0); u64 A = mix(p.grp, 1), B = mix(p.grp, 2); p.reg(A, Qf, {upto(0, p.l.size())}, true); p.reg(B, Rf, {}, true);
  Index<Q> o = p.bond(p.bound, OUT, lq), in = InverseIndex(o); auto ul = p.l; ul.push_back(o); auto vr = p.r; vr.insert(vr.begin(), in);
  *q = QLTensor<E, Q>::atom(ul, A, lq); *r = QLTensor<E, Q>::atom(vr, B, T.dv - lq); r->times(p.c, p.sc);
}
// {a, b, fused}; the same pair of spaces always gives the same fused space
template <class E, class Q> QLTensor<E, Q> IndexCombine(const Index<Q>& a, const Index<Q>& b, TenIndexDirType d = OUT) {
  using namespace diag; bool rb = a.dir == b.dir, rc = a.dir == d; u64 nm = mix(mix(mix(mix(hs("fuse"), a.id), b.id), rb), rc);
  std::vector<QNSector<Q>> s; for (auto& x : a.s) for (auto& y : b.s) { Q q = rb ? x.qn + y.qn : x.qn - y.qn; s.push_back(QNSector<Q>(rc ? -q : q, x.d * y.d)); }
  if (charges()) s = mergeQn(s);
  Index<Q> c = s.size() == 1 && s[0].d == 1 ? Index<Q>(s, d) : Index<Q>(s, d, mix(nm, hs("index"))); Info& i = infos()[nm]; i.kind = COMB; i.iso = {{0, 1}, {2}};
  QLTensor<E, Q> t = QLTensor<E, Q>::atom({a, b, c}, nm); if (a.dir == IN) for (auto& x : t.tm) { x.n = conj(x.n); x.k = code(x.n); } return t;
}
template <class E, class Q> void QLTensor<E, Q>::FuseIndex(size_t i, size_t j) {
  if (i >= ix.size() || j >= ix.size() || i == j) sx_fail("index fusion of missing indexes"); if (ix[i].dir != ix[j].dir) { if (diag::known()) { sx_known(diag::known()); sx_assume(false); } sx_fail("index fusion of different directions"); }
  QLTensor c = IndexCombine<E, Q>(InverseIndex(ix[i]), InverseIndex(ix[j]), ix[i].dir), r; std::vector<size_t> x = {0, 1}, y = {i, j}; Contract(&c, x, this, y, &r); *this = r;
}
// the index that fusion of these two gives
template <typename Q> Index<Q> FuseTwoIndexAndRecordInfo(const Index<Q>& a, const Index<Q>& b, std::vector<QNSctsOffsetInfo>&) { if (a.dir != b.dir) sx_fail("index fusion of different directions"); return IndexCombine<double, Q>(InverseIndex(a), InverseIndex(b), a.dir).GetIndex(2); }
// the index that a direct sum gives
template <typename Q> Index<Q> ExpandIndexMCAndRecordInfo(const Index<Q>& a, const Index<Q>& b, std::map<size_t, int>&) { if (a.dir != b.dir) sx_fail("direct sum of indexes of different directions"); auto s = a.s; s.insert(s.end(), b.s.begin(), b.s.end()); if (diag::charges()) s = diag::mergeQn(s); return Index<Q>(s, a.dir, diag::mix(diag::mix(diag::hs("sum"), a.id), b.id)); }
namespace diag {
template <class E, class Q> QLTensor<E, Q> embed(const QLTensor<E, Q>& t, const std::vector<size_t>& axes, const std::vector<Index<Q>>& big, const std::vector<u64>& grp, int part) {
  QLTensor<E, Q> r = t; r.terms();
  for (size_t k = 0; k < axes.size(); ++k) {
    size_t x = axes[k]; u64 nm = mix(grp[k], 10 + part); Info& i = infos()[nm]; i.kind = EMB; i.group = grp[k]; i.part = part;
    QLTensor<E, Q> e = QLTensor<E, Q>::atom({InverseIndex(r.ix[x]), big[k]}, nm); if (big[k].dir == IN) for (auto& y : e.tm) { y.n = conj(y.n); y.k = code(y.n); }
    std::vector<size_t> o; for (size_t l = 0; l < r.ix.size(); ++l) o.push_back(l == x ? r.ix.size() + 1 : l); QLTensor<E, Q> q; contract(r, {x}, e, {0}, o, q); r = q;
  }
  return r;
}
}
// direct sum along the given axes
template <class E, class Q> void Expand(const QLTensor<E, Q>* a, const QLTensor<E, Q>* b, const std::vector<size_t>& axes, QLTensor<E, Q>* c) {
  using namespace diag; a->ok(); b->ok(); if (a->ix.size() != b->ix.size()) sx_fail("direct sum of tensors of different rank"); std::vector<Index<Q>> big; std::vector<u64> grp;
  for (size_t i = 0; i < a->ix.size(); ++i) if (std::find(axes.begin(), axes.end(), i) == axes.end() && a->ix[i] != b->ix[i]) sx_fail("direct sum of tensors whose other indexes differ");
  for (size_t x : axes) { auto &p = a->ix.at(x), &q = b->ix.at(x); if (p.dir != q.dir) sx_fail("direct sum of indexes of different directions"); auto s = p.s; s.insert(s.end(), q.s.begin(), q.s.end()); if (charges()) s = mergeQn(s); u64 g = mix(mix(hs("sum"), p.id), q.id); grp.push_back(g); big.push_back(Index<Q>(s, p.dir, g)); }
  QLTensor<E, Q> r = embed(*a, axes, big, grp, 1), t = embed(*b, axes, big, grp, 2); Q d = a->terms().empty() ? b->dv : a->dv; r += t; r.dv = d; *c = r;
}
template <class E, class Q> void ExpandMC(const QLTensor<E, Q>* a, const QLTensor<E, Q>* b, const std::vector<size_t>& axes, QLTensor<E, Q>* c) { Expand(a, b, axes, c); }
template <class E, class Q> void ExpandQNBlocks(const QLTensor<E, Q>* a, const QLTensor<E, Q>* b, const std::vector<size_t>& axes, QLTensor<E, Q>* c) { Expand(a, b, axes, c); }
#ifdef WITH_MPI
// the part of a contraction that belongs to one sector of one leg of a
namespace diag {
template <class E, class Q> QLTensor<E, Q> sectorOf(const QLTensor<E, Q>& t, size_t leg, size_t k) {
  const Index<Q>& i = t.ix.at(leg); if (k >= i.s.size()) sx_fail("a sector that does not exist is worked on"); QLTensor<E, Q> r = t; r.terms(); if (i.s.size() == 1) return r;
  u64 nm = mix(mix(mix(hs("sector"), i.id), k), i.s.size()); Info& f = infos()[nm]; f.kind = PROJ; f.group = i.id; f.part = (int)k; f.nl = (int)i.s.size();
  for (auto& x : r.tm) { int w = wire(x.n, i.dim()), o = x.n.open[leg]; x.n.open[leg] = w; x.n.at.push_back(Atom{nm, false, {o, w}}); x.k = code(x.n); } tidy(r.tm); return r;
}
// sums over all sectors of a leg are the whole
template <class E> void mergeSectors(Terms<E>& t) {
  for (size_t i = 0; i < t.size(); ++i) for (size_t p = 0; p < t[i].n.at.size(); ++p) {
    Info I = info(t[i].n.at[p].nm); if (I.kind != PROJ) continue; std::vector<size_t> mates;
    auto with = [&](const Net& n, size_t at, int k) { Net m = n; u64 nm = mix(mix(mix(hs("sector"), I.group), (u64)k), (u64)I.nl); Info& f = infos()[nm]; f.kind = PROJ; f.group = I.group; f.part = k; f.nl = I.nl; m.at[at].nm = nm; return code(m); };
    for (int k = 0; k < I.nl; ++k) { Code c = with(t[i].n, p, k); for (size_t j = 0; j < t.size(); ++j) if (t[j].k == c && t[j].c == t[i].c) { mates.push_back(j); break; } }
    if (mates.size() != (size_t)I.nl) continue;
    Net m = t[i].n; E c = t[i].c; int x = m.at[p].w[0], y = m.at[p].w[1]; m.at.erase(m.at.begin() + p); double f = 1; unify(m, x, y, f); std::sort(mates.rbegin(), mates.rend()); for (size_t j : mates) t.erase(t.begin() + j); Terms<E> s; reduce<E>(m, c * E(f), s); for (auto& q : s) { bool add = false; for (auto& z : t) if (z.k == q.k) { z.c = z.c + q.c; add = true; break; } if (!add) t.push_back(q); } tidy(t); i = (size_t)-1; break;
  }
}
}
template <class E, class Q> struct TensorContraction1SectorExecutor {
  const QLTensor<E, Q>*a, *b; QLTensor<E, Q>* c; size_t leg, k; std::vector<std::vector<size_t>> ax;
  TensorContraction1SectorExecutor(const QLTensor<E, Q>* x, size_t l, size_t s, const QLTensor<E, Q>* y, const std::vector<std::vector<size_t>>& z, QLTensor<E, Q>* r) : a(x), b(y), c(r), leg(l), k(s), ax(z) {}
  void SetSelectedQNSect(size_t s) { k = s; }
  void Execute() { if (std::find(ax.at(0).begin(), ax[0].end(), leg) != ax[0].end()) sx_fail("a contracted leg is split"); QLTensor<E, Q> p = diag::sectorOf(*a, leg, k); Contract(&p, ax[0], b, ax.at(1), c); }
};
template <class E, class Q> void CollectiveLinearCombine(const std::vector<QLTensor<E, Q>>& v, QLTensor<E, Q>& r) {
  if (v.empty()) sx_fail("a sum of no tensors"); QLTensor<E, Q> s = v[0]; for (size_t i = 1; i < v.size(); ++i) s += v[i]; s.terms(); diag::mergeSectors(s.tm); r = s;
}
template <typename E, typename Q> void QLTensor<E, Q>::MPI_Bcast(int root, const MPI_Comm& comm) { mpi::bcast(root, comm, *this, "tensor"); }
template <typename E, typename Q> void MPI_Bcast(QLTensor<E, Q>& t, int root, const MPI_Comm& comm) { t.MPI_Bcast(root, comm); }
template <typename E, typename Q> void BlockData<E, Q>::MPI_Send(const MPI_Comm& comm, int dest, int tag) const { auto& t = *static_cast<const QLTensor<E, Q>*>(this); t.ok(); mpi::send(t, "tensor", dest, tag, comm); }
template <typename E, typename Q> MPI_Status BlockData<E, Q>::MPI_Recv(const MPI_Comm& comm, int src, int tag) { auto& t = *static_cast<QLTensor<E, Q>*>(this); QLTensor<E, Q> n; auto st = mpi::recv(n, "tensor", src, tag, comm); if (t.def || !(t.ix == n.ix)) sx_fail("block data are received into a tensor with other indexes"); t.tm = n.tm; t.el = n.el; t.pending = n.pending; t.cleared = false; t.dv = n.dv; return st; }
template <class E, class Q> void MPISVDMaster(const QLTensor<E, Q>* t, size_t ld, const Q& lq, double trunc, size_t Dmin, size_t Dmax, QLTensor<E, Q>* u, QLTensor<double, Q>* s, QLTensor<E, Q>* v, double* err, size_t* Dout, const MPI_Comm& comm) { mpi::together("svd", comm); SVD(t, ld, lq, trunc, Dmin, Dmax, u, s, v, err, Dout); mpi::together("svd done", comm); }
template <class E> void MPISVDSlave(const MPI_Comm& comm) { mpi::together("svd", comm); mpi::together("svd done", comm); }
#endif
}
#endif
