// C13: the MPO tensors (and the matrix-representation MPO) produced by MPOGenerator contract to exactly the sum of the added terms.
// API: 0 generic AddTerm (any site order), 1 physical + insertion operators (uniform string, tail string), 2 the same with explicit insertion sites, 3 one/two-body shorthand,
// 4 all pairs of sites in three charge channels (several bond states per charge sector): which pairs and in which order is symbolic, coefficients are distinct.
#include <cstddef>
#include <vector>
#include "sx.h"
#ifdef DENSE_DOUBLE
typedef double E;
#else
typedef long E;
#endif
#include "qlten/qlten.h"
#include "qlmps/site_vec.h"
#include "qlmps/one_dim_tn/mpo/mpogen/mpogen.h"
using namespace qlmps; using namespace qlten;
typedef special_qn::U1QN Q; typedef QLTensor<E, Q> T; typedef Index<Q> I;
typedef std::vector<size_t> VS;
static size_t N; static std::vector<I> sites;
static int d0, d1;
static I siteIndex(int d) { std::vector<QNSector<Q>> s; for (int i = 0; i < d; ++i) s.push_back(QNSector<Q>(Q({QNCard("Sz", U1QNVal(d - 1 - 2 * i))}), 1)); return I(s, OUT); }
// operators on one site: diagonal ones (several, one a negated copy), raising, lowering
static T op(size_t s, int k) {
  I o = sites[s]; T t({InverseIndex(o), o}); size_t d = o.dim();
  if (k == 1) for (size_t i = 0; i + 1 < d; ++i) t(i, i + 1) = E(i + 1);
  else if (k == 2) for (size_t i = 0; i + 1 < d; ++i) t(i + 1, i) = E(i + 1);
  else if (k == 0) for (size_t i = 0; i < d; ++i) t(i, i) = E(1 + (long)i * (i ? -3 : 1));
  else if (k == 3) for (size_t i = 0; i < d; ++i) t(i, i) = E(-1 + (long)i * (i ? 3 : 1));   // = -op 0
  else if (k == 4) for (size_t i = 0; i < d; ++i) t(i, i) = E(i % 2 ? -1 : 1);  // parity string
  else for (size_t i = 0; i < d; ++i) t(i, i) = E(1);  // identity
  return t;
}
static int charge(int k) { return k == 1 ? 1 : k == 2 ? -1 : 0; }
struct Term { E c; std::vector<T> o; };  // one operator per site
static std::vector<Term> terms;
static size_t dimTot;
static std::vector<size_t> digits(size_t x) { std::vector<size_t> r(N); for (size_t i = N; i-- > 0;) { r[i] = x % sites[i].dim(); x /= sites[i].dim(); } return r; }
static E want(const std::vector<size_t>& a, const std::vector<size_t>& b) { E r = E(0); for (auto& t : terms) { E x = E(1); for (size_t s = 0; s < N; ++s) x = x * t.o[s].GetElem({a[s], b[s]}); if (!(x == E(0))) r = r + t.c * x; } return r; }
static bool contractFrom(const MPO<T>& m, size_t s, const std::vector<E>& v, std::vector<size_t>& a, std::vector<size_t>& b) {
  if (s == N) return v[0] == want(a, b);
  bool ok = true; const T& t = m[s]; auto sh = t.GetShape();
  for (a[s] = 0; a[s] < sh[1]; ++a[s]) for (b[s] = 0; b[s] < sh[2]; ++b[s]) {
    std::vector<E> w(sh[3], E(0));
    for (size_t l = 0; l < sh[0]; ++l) { const E* p = &t.a[((l * sh[1] + a[s]) * sh[2] + b[s]) * sh[3]]; for (size_t r = 0; r < sh[3]; ++r) w[r] = w[r] + v[l] * p[r]; }
    ok = ok & contractFrom(m, s + 1, w, a, b);
  }
  return ok;
}
static bool contractsTo(const MPO<T>& m) { std::vector<size_t> a(N), b(N); return contractFrom(m, 0, std::vector<E>(1, E(1)), a, b); }
static bool shapesOK(const MPO<T>& m) {
  if (m.size() != N) return false;
  for (size_t s = 0; s < N; ++s) {
    const T& t = m[s]; if (t.Rank() != 4) return false;
    if (t.GetIndex(0).GetDir() != IN || t.GetIndex(3).GetDir() != OUT || t.GetIndex(1) != InverseIndex(sites[s]) || t.GetIndex(2) != sites[s]) return false;
    if (s + 1 < N && t.GetIndex(3) != InverseIndex(m[s + 1].GetIndex(0))) return false;
    if (!t.hasDiv() || t.Div() != Q()) return false;
  }
  return m.front().GetIndex(0).dim() == 1 && m.back().GetIndex(3).dim() == 1;
}
static bool contractsTo(const MatReprMPO<T>& m) {
  bool ok = m.size() == N; if (!ok) return false;
  for (size_t s = 0; s + 1 < N; ++s) if (m[s].cols != m[s + 1].rows) return false;
  if (m[0].rows != 1 || m[N - 1].cols != 1) return false;
  for (size_t x = 0; x < dimTot; ++x) for (size_t y = 0; y < dimTot; ++y) {
    auto a = digits(x), b = digits(y); std::vector<E> v(1, E(1));
    for (size_t s = 0; s < N; ++s) { std::vector<E> w(m[s].cols, E(0)); for (size_t l = 0; l < m[s].rows; ++l) for (size_t r = 0; r < m[s].cols; ++r) if (!m[s].IsNull(l, r)) { const T& t = m[s](l, r); E e = t.GetElem({a[s], b[s]}); w[r] = w[r] + v[l] * e; } v = w; }
    ok = ok & (v[0] == want(a, b));
  }
  return ok;
}
static E coefficient() {
#ifdef DENSE_DOUBLE
  static const double pal[] = {1.0, -0.5, 1.0 / 1048576 / 1024, 0.0, -1.0, 3.0}; return pal[sx_concretize(sx_range("coef", 0, sx_param("COEFS", 5)))];
#else
  return (long)sx_range("coef", -8, 8);
#endif
}
extern "C" void sx_main() {
  N = sx_param("N", 3); const int K = sx_param("K", 2), api = sx_param("API", 0), what = sx_param("WHAT", 7), OPS = sx_param("OPS", 3), W = sx_param("W", N), T3 = sx_param("BODIES", 2); d0 = sx_param("D0", 2), d1 = sx_param("D1", 2);
  for (size_t i = 0; i < N; ++i) sites.push_back(siteIndex(i % 2 ? d1 : d0));
  dimTot = 1; for (auto& s : sites) dimTot *= s.dim();
  SiteVec<E, Q> sv(sites); MPOGenerator<E, Q> gen(sv);
  bool nonzero = false; int maxop = -1;
  if (api == 4) {
    struct Cand { size_t i, j; int a, b; }; std::vector<Cand> all, sel; for (size_t i = 0; i < N; ++i) for (size_t j = i + 1; j < N; ++j) { all.push_back({i, j, 0, 0}); all.push_back({i, j, 1, 2}); all.push_back({i, j, 2, 1}); }
    if (sx_param("SUBSETS", 0)) { for (auto& c : all) if (sx_bool("term")) sel.push_back(c); } else sel = all;
    sx_assume(!sel.empty()); size_t rot = sx_concretize(sx_range("first", 0, sx_param("ROT", (int)sel.size()) - 1)); sx_assume(rot < sel.size()); if (sx_param("REV", 1) && sx_bool("reversed")) std::reverse(sel.begin(), sel.end());
    for (size_t k = 0; k < sel.size(); ++k) { auto& c = sel[(k + rot) % sel.size()]; Term t; t.c = E(2 * k + 3); for (size_t s = 0; s < N; ++s) t.o.push_back(op(s, 9)); t.o[c.i] = op(c.i, c.a); t.o[c.j] = op(c.j, c.b); gen.AddTerm(t.c, {t.o[c.i], t.o[c.j]}, {c.i, c.j}); terms.push_back(t); }
    nonzero = true;
  } else for (int k = 0; k < K; ++k) {
    Term t; t.c = coefficient(); for (size_t s = 0; s < N; ++s) t.o.push_back(op(s, 9));
    // support
    std::vector<size_t> pos; std::vector<int> kind; unsigned used = 0; int q = 0;
    int n = api == 1 || api == 2 ? 2 + (T3 > 2 && sx_bool("third")) : 1 + (int)sx_concretize(sx_range("bodies", 0, T3 - 1));
    for (int i = 0; i < n; ++i) {
      size_t p = sx_concretize(sx_range("site", 0, N - 1)); sx_assume(!(used >> p & 1)); used |= 1u << p;
      if (api == 1 || api == 2) sx_assume(pos.empty() || pos.back() < p);
      if (i == 1 && api == 3) sx_assume(p != 0);
      int o = sx_concretize(sx_range("op", 0, OPS)); q += charge(o);
      pos.push_back(p); kind.push_back(o); t.o[p] = op(p, o);
    }
    sx_assume(q == 0);
    size_t lo = *std::min_element(pos.begin(), pos.end()), hi = *std::max_element(pos.begin(), pos.end()); sx_assume(hi - lo < (size_t)W);
    std::vector<T> ops; for (int i = 0; i < n; ++i) ops.push_back(op(pos[i], kind[i]));
    if (d0 != d1 && api) sx_assume(0);
    if (api == 0) gen.AddTerm(t.c, ops, pos);
    else if (api == 1) {
      bool tail = sx_bool("tail"); std::vector<T> inst; for (int i = 0; i < n - 1 + (tail ? 1 : 0); ++i) inst.push_back(op(0, i % 2 ? 0 : 4));
      for (size_t i = 0; i < inst.size(); ++i) for (size_t j = pos[i] + 1; j < (i + 1 < pos.size() ? pos[i + 1] : N); ++j) t.o[j] = inst[i];
      gen.AddTerm(t.c, ops, pos, inst); if (tail) sx_reach("tail string");
    } else if (api == 2) {
      std::vector<T> inst; std::vector<VS> sets; bool tail = sx_bool("tail"); for (int i = 0; i < n - 1 + (tail ? 1 : 0); ++i) { inst.push_back(op(0, i % 2 ? 0 : 4)); sets.push_back(VS()); }
      for (size_t j = 0; j < N; ++j) if (!(used >> j & 1)) { size_t w = sx_concretize(sx_range("inst", 0, inst.size())); if (w) { sets[w - 1].push_back(j); t.o[j] = inst[w - 1]; } }
      gen.AddTerm(t.c, ops, pos, inst, sets);
    } else {
      int form = n == 1 ? 0 : (int)sx_concretize(sx_range("form", 0, 2));
      if (n == 1) gen.AddTerm(t.c, ops[0], pos[0]);
      else if (form == 0) gen.AddTerm(t.c, ops[0], pos[0], ops[1], pos[1]);
      else if (form == 1) { sx_assume(pos[0] < pos[1]); T f = op(0, 4); for (size_t j = pos[0] + 1; j < pos[1]; ++j) t.o[j] = f; gen.AddTerm(t.c, ops[0], pos[0], ops[1], pos[1], f); sx_reach("string"); }
      else { T f = op(0, 4); VS at; for (size_t j = 0; j < N; ++j) if (!(used >> j & 1) && sx_bool("inst")) { at.push_back(j); t.o[j] = f; } sx_assume(!at.empty()); gen.AddTerm(t.c, ops[0], pos[0], ops[1], pos[1], f, at); sx_reach("explicit string"); }
    }
    nonzero = nonzero || !(t.c == E(0)); terms.push_back(t);
  }
  sx_assume(nonzero);
  if (what & 1) { MPO<T> m = gen.Gen(true); sx_assert(shapesOK(m), "indexes of the generated MPO tensors do not fit together"); sx_assert(contractsTo(m), "the generated MPO is not the sum of the added terms"); for (size_t i = 0; i + 1 < N; ++i) sx_observe("dim", m[i].GetIndex(3).dim()); sx_reach("compressed"); }
  if (what & 2) { MPO<T> m = gen.Gen(false); sx_assert(shapesOK(m), "indexes of the uncompressed MPO tensors do not fit together"); sx_assert(contractsTo(m), "the uncompressed MPO is not the sum of the added terms"); sx_reach("uncompressed"); }
  if (what & 4) { MatReprMPO<T> m = gen.GenMatReprMPO(); sx_assert(contractsTo(m), "the matrix representation is not the sum of the added terms"); sx_reach("matrix representation"); }
}
