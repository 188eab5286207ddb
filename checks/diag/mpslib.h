// helpers shared by the tensor-network harnesses: arbitrary MPS/MPO, whole-chain contraction
#pragma once
#include <cstddef>
#include <vector>
#include <string>
#include "sx.h"
#include "qlten/qlten.h"
#include "qlmps/consts.h"
#include "qlmps/site_vec.h"
#include "qlmps/one_dim_tn/mps/finite_mps/finite_mps.h"
using namespace qlmps; using namespace qlten;
#ifdef CPLX
typedef QLTEN_Complex E;
#else
typedef double E;
#endif
typedef special_qn::U1QN Q; typedef QLTensor<E, Q> T; typedef QLTensor<double, Q> TD; typedef Index<Q> I; typedef FiniteMPS<E, Q> Mps; typedef SiteVec<E, Q> Sites;
typedef std::vector<size_t> VS;
static size_t N;
inline Q qn(int v) { return Q({QNCard("Sz", U1QNVal(v))}); }
inline I phys(size_t = 0) { return I({QNSector<Q>(qn(1), 1), QNSector<Q>(qn(-1), 1)}, OUT); }
inline u64 nameOf(const char* s, size_t i) { return diag::mix(diag::hs(s), i); }
inline I bond(const char* s, size_t i, size_t d, TenIndexDirType dir = OUT) { return d == 1 ? I({QNSector<Q>(Q(), 1)}, dir) : I({QNSector<Q>(Q(), d)}, dir, nameOf(s, i)); }
// an arbitrary MPS with bond dimensions dim(i); bond i is left of site i
template <class F> T mpsTen(const char* s, size_t i, F dim) { return T::atom({bond(s, i, dim(i), IN), phys(i), bond(s, i + 1, dim(i + 1))}, nameOf(s, i + 1000)); }
inline size_t full(size_t i) { size_t l = 1, r = 1; for (size_t k = 0; k < i && k < 4; ++k) l *= 2; for (size_t k = i; k < N && k < i + 4; ++k) r *= 2; return std::min(l, r); }
inline size_t two(size_t i) { return i == 0 || i == N ? 1 : 2; }
inline size_t one(size_t) { return 1; }
inline void setMps(Mps& m, const char* s, size_t (*dim)(size_t)) { for (size_t i = 0; i < N; ++i) { m.alloc(i); m[i] = mpsTen(s, i, dim); } }
// legs: left end, all physical legs, right end
template <class A> T chain(const A& m, size_t from, size_t to) { T r = m[from]; for (size_t i = from + 1; i < to; ++i) { T q; std::vector<size_t> x = {r.Rank() - 1}, y = {0}; Contract(&r, x, &m[i], y, &q); r = q; } return r; }
inline T state(const Mps& m) { return chain(m, 0, m.size()); }
// does the tensor times its adjoint over all legs but one give the identity?
inline bool isometry(const T& t, size_t leg) {
  T d = Dag(t), r; std::vector<size_t> x; for (size_t i = 0; i < t.Rank(); ++i) if (i != leg) x.push_back(i); Contract(&t, x, &d, x, &r);
  T id({t.GetIndex(leg), InverseIndex(t.GetIndex(leg))}); for (size_t i = 0; i < t.GetIndex(leg).dim(); ++i) id({i, i}) = E(1); return r.same(id);
}
// equal up to positive factors
inline bool sameDirection(const T& a, const T& b) { double c, d; std::vector<diag::Atom> s; return a.stripped(c, s).same(b.stripped(d, s)); }
inline bool indexesFit(const Mps& m) { for (size_t i = 0; i + 1 < m.size(); ++i) if (m[i].Rank() != 3 || m[i].GetIndex(2) != InverseIndex(m[i + 1].GetIndex(0))) return false; return true; }
inline void checkFlags(const Mps& m) {
  for (size_t i = 0; i < m.size(); ++i) { auto f = m.GetTenCanoType(i); if (f == MPSTenCanoType::LEFT) { sx_assert(isometry(m[i], 2), "a tensor is flagged left-canonical but is not"); sx_reach("left canonical"); } if (f == MPSTenCanoType::RIGHT) { sx_assert(isometry(m[i], 0), "a tensor is flagged right-canonical but is not"); sx_reach("right canonical"); } }
  int c = m.GetCenter(); if (c != kUncentralizedCenterIdx) { sx_assert(c >= 0 && c < (int)m.size(), "the centre lies outside the chain"); for (int i = 0; i < (int)m.size(); ++i) if (i != c) sx_assert(isometry(m[i], i < c ? 2 : 0), "the MPS claims a centre but is not in canonical form around it"); sx_reach("centralised"); }
}
inline T flat(const T& t) { return t; }
inline bool close(double a, double b) { double d = a - b; return (d < 0 ? -d : d) <= 1e-9 * (1 + (a < 0 ? -a : a)); }
inline bool close(QLTEN_Complex a, QLTEN_Complex b) { return close(a.real(), b.real()) && close(a.imag(), b.imag()); }
inline size_t pickN(const char* n, size_t lo, size_t hi) { return sx_concretize(sx_range(n, lo, hi)); }
// results files
inline double numAt(const std::string& s, size_t& p) { const char* b = s.c_str() + p; char* e; double v = strtod(b, &e); if (e == b) sx_fail("the results file lacks a number"); p += e - b; return v; }
inline void lit(const std::string& s, size_t& p, const char* w) { while (p < s.size() && isspace((unsigned char)s[p])) ++p; for (; *w; ++w, ++p) if (p >= s.size() || s[p] != *w) sx_fail("the results file is not the documented list"); while (p < s.size() && isspace((unsigned char)s[p])) ++p; }
inline bool near(double a, double b) { double d = a - b; return (d < 0 ? -d : d) <= 1e-10 * (a < 0 ? -a : a); }
inline void val(const std::string& s, size_t& p, double a) { sx_assert(near(numAt(s, p), a), "the results file has a wrong value"); }
inline void val(const std::string& s, size_t& p, QLTEN_Complex a) { lit(s, p, "["); val(s, p, a.real()); lit(s, p, ","); double v = numAt(s, p); sx_assert(v - a.imag() < 1e-9 && a.imag() - v < 1e-9, "the results file has a wrong value"); lit(s, p, "]"); }
