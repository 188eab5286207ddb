// Stand-in for TensorToolkit (qlten, not part of this repository and not installed): dense tensors with quantum-number bookkeeping.
// The element type is a template parameter, so elements may be symbolic.  Only what MPOGenerator, SiteVec and the model operators use.
#ifndef VERIF_STUB_QLTEN_H
#define VERIF_STUB_QLTEN_H
#include <cmath>
#include <complex>
#include <array>
#include <cstddef>
#include <functional>
#include <iomanip>
#include <iterator>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <unordered_map>
#include <cstring>
#include <cstdint>
#include <cstdlib>
#include <cassert>
#include <initializer_list>
#include <iostream>
#include <fstream>
#include <numeric>
#include <algorithm>
#include <stdexcept>
#include <string>
#include <vector>
#include "sx.h"
namespace qlten {
using QLTEN_Double = double;
using QLTEN_Complex = std::complex<double>;
const double kDoubleEpsilon = 1.0E-15;
inline double CalcConj(double d) { return d; }
inline long CalcConj(long d) { return d; }
inline QLTEN_Complex CalcConj(QLTEN_Complex z) { return std::conj(z); }
inline double abs(double d) { return std::fabs(d); }
inline long abs(long d) { return d < 0 ? -d : d; }
inline double abs(QLTEN_Complex z) { return std::abs(z); }
enum TenIndexDirType { NDIR, IN, OUT };
struct U1QNVal { int v; explicit U1QNVal(int x = 0) : v(x) {} };
struct QNCard { std::string name; int v; QNCard(const std::string& n, const U1QNVal& x) : name(n), v(x.v) {} };
template <int M> struct QNn {  // M conserved charges
  int v[M ? M : 1] = {};
  QNn() {}
  QNn(const std::vector<QNCard>& c) { assert(c.size() == M); for (size_t i = 0; i < c.size(); ++i) v[i] = c[i].v; }
  QNn(std::initializer_list<QNCard> c) { size_t i = 0; for (auto& x : c) v[i++] = x.v; }
  bool operator==(const QNn& o) const { for (int i = 0; i < M; ++i) if (v[i] != o.v[i]) return false; return true; }
  bool operator!=(const QNn& o) const { return !(*this == o); }
  QNn operator-() const { QNn r; for (int i = 0; i < M; ++i) r.v[i] = -v[i]; return r; }
  QNn& operator+=(const QNn& o) { for (int i = 0; i < M; ++i) v[i] += o.v[i]; return *this; }
  QNn operator+(const QNn& o) const { QNn r = *this; r += o; return r; }
  QNn operator-(const QNn& o) const { return *this + (-o); }
};
const std::string kQLTenFileSuffix = "qlten";
struct IndentPrinter { size_t n; explicit IndentPrinter(size_t i) : n(i) {} };
inline std::ostream& operator<<(std::ostream& o, const IndentPrinter&) { return o; }
struct Timer { Timer(const std::string& = "") {} double Elapsed() { return 0; } double PrintElapsed(size_t = 0) { return 0; } void Restart() {} void Suspend() {} };
namespace special_qn { using U1QN = QNn<1>; using U1U1QN = QNn<2>; using TrivialRepQN = QNn<0>; }
template <typename Q> struct QNSector {
  Q qn; size_t d;
  QNSector(const Q& q = Q(), size_t n = 0) : qn(q), d(n) {}
  const Q& GetQn() const { return qn; }
  size_t dim() const { return d; }
  size_t GetDegeneracy() const { return d; }
  bool operator==(const QNSector& o) const { return qn == o.qn && d == o.d; }
};
template <typename Q> using QNSectorVec = std::vector<QNSector<Q>>;
template <typename Q> struct Index {
  std::vector<QNSector<Q>> s; TenIndexDirType dir = NDIR;
  Index() {}
  Index(const std::vector<QNSector<Q>>& v, TenIndexDirType t) : s(v), dir(t) {}
  size_t dim() const { size_t n = 0; for (auto& x : s) n += x.d; return n; }
  const QNSector<Q>& GetQNSct(size_t i) const { return s.at(i); }
  size_t GetQNSctNum() const { return s.size(); }
  const QNSector<Q>& GetQNSctFromActualCoor(size_t c) const { for (auto& x : s) { if (c < x.d) return x; c -= x.d; } sx_fail("coordinate outside an index"); return s[0]; }
  TenIndexDirType GetDir() const { return dir; }
  bool operator==(const Index& o) const { return dir == o.dir && s == o.s; }
  bool operator!=(const Index& o) const { return !(*this == o); }
};
template <typename Q> Index<Q> InverseIndex(const Index<Q>& i) { Index<Q> r = i; r.dir = i.dir == IN ? OUT : i.dir == OUT ? IN : NDIR; return r; }
template <typename Q> using IndexVec = std::vector<Index<Q>>;
using ShapeT = std::vector<size_t>;
using CoorsT = std::vector<size_t>;
template <typename E, typename Q> struct QLTensor {
  std::vector<Index<Q>> ix; std::vector<E> a; bool def = true;
  QLTensor() {}
  QLTensor(const std::vector<Index<Q>>& v) : ix(v), def(false) { size_t n = 1; for (auto& i : v) n *= i.dim(); a.assign(n, E(0)); }
  QLTensor(std::initializer_list<Index<Q>> v) : QLTensor(std::vector<Index<Q>>(v)) {}
  size_t off(const std::vector<size_t>& c) const { if (c.size() != ix.size()) sx_fail("tensor accessed with the wrong number of coordinates"); size_t o = 0; for (size_t i = 0; i < c.size(); ++i) { if (c[i] >= ix[i].dim()) sx_fail("tensor coordinate out of range"); o = o * ix[i].dim() + c[i]; } return o; }
  struct Ref {
    QLTensor& t; std::vector<size_t> c;
    Ref& operator=(const E v) { t.SetElem(c, v); return *this; }
    Ref& operator=(const Ref& r) { t.SetElem(c, r.t.GetElem(r.c)); return *this; }
    operator E() const { return t.GetElem(c); }
  };
  Ref operator()(const std::vector<size_t>& c) { return Ref{*this, c}; }
  Ref operator()(std::initializer_list<size_t> c) { return Ref{*this, std::vector<size_t>(c)}; }
  template <typename... I> Ref operator()(size_t i, I... r) { return Ref{*this, std::vector<size_t>{i, (size_t)r...}}; }
  E operator()(const std::vector<size_t>& c) const { return GetElem(c); }
  E GetElem(const std::vector<size_t>& c) const { return a[off(c)]; }
  void SetElem(const std::vector<size_t>& c, const E v) { a[off(c)] = v; }
  size_t Rank() const { return ix.size(); }
  size_t GetRank() const { return ix.size(); }
  size_t size() const { return a.size(); }
  bool IsDefault() const { return def; }
  const std::vector<Index<Q>>& GetIndexes() const { return ix; }
  const Index<Q>& GetIndex(size_t i) const { return ix.at(i); }
  ShapeT GetShape() const { ShapeT r; for (auto& i : ix) r.push_back(i.dim()); return r; }
  std::vector<size_t> coor(size_t o) const { std::vector<size_t> c(ix.size()); for (size_t i = ix.size(); i-- > 0;) { c[i] = o % ix[i].dim(); o /= ix[i].dim(); } return c; }
  Q elemDiv(size_t o) const { Q r; auto c = coor(o); for (size_t i = 0; i < c.size(); ++i) { auto& q = ix[i].GetQNSctFromActualCoor(c[i]).qn; r += ix[i].dir == OUT ? q : -q; } return r; }
  bool hasDiv() const { bool f = false; Q r; for (size_t i = 0; i < a.size(); ++i) if (!(a[i] == E(0))) { Q q = elemDiv(i); if (!f) { r = q; f = true; } else if (q != r) return false; } return true; }
  Q Div() const { for (size_t i = 0; i < a.size(); ++i) if (!(a[i] == E(0))) return elemDiv(i); return Q(); }
  E GetFirstNonZeroElement() const { for (auto& x : a) if (!(x == E(0))) return x; return E(0); }
  bool operator==(const QLTensor& o) const { if (def != o.def || ix != o.ix) return false; for (size_t i = 0; i < a.size(); ++i) if (!(a[i] == o.a[i])) return false; return true; }
  bool operator!=(const QLTensor& o) const { return !(*this == o); }
  QLTensor& operator+=(const QLTensor& o) { if (def) return *this = o; if (o.def) return *this; if (!(ix == o.ix)) sx_fail("tensors with different indexes added"); for (size_t i = 0; i < a.size(); ++i) a[i] = a[i] + o.a[i]; return *this; }
  QLTensor operator+(const QLTensor& o) const { QLTensor r = *this; r += o; return r; }
  QLTensor& operator*=(const E s) { for (auto& x : a) x = x * s; return *this; }
  QLTensor operator*(const E s) const { QLTensor r = *this; r *= s; return r; }
  QLTensor operator-() const { return *this * E(-1); }
  size_t GetRawDataMemUsage() const { return a.size() * sizeof(E); }
};
template <typename E, typename Q> QLTensor<E, Q> operator*(const E s, const QLTensor<E, Q>& t) { return t * s; }
template <typename E, typename Q> Q Div(const QLTensor<E, Q>& t) { return t.Div(); }
template <typename E, typename Q> std::ostream& operator<<(std::ostream& o, const QLTensor<E, Q>&) { return o; }
template <typename E, typename Q> std::istream& operator>>(std::istream& o, QLTensor<E, Q>&) { return o; }
template <typename E, typename Q, typename R> void SVD(const QLTensor<E, Q>*, size_t, const Q&, double, size_t, size_t, QLTensor<E, Q>*, R*, QLTensor<E, Q>*, double*, size_t*) { sx_fail("SVD is not part of this stand-in"); }
}
#endif
