// C06/C07: taking common coefficients out of an operator, a row or a column is exact; row and column compression keep the product of the two
// neighbouring matrices.  Bounds: target R x C with at most COEFLINES lines that carry coefficients, neighbour P x R (rows) or C x P (columns), up to S summands per element, op labels 1..O, coef labels 0..L.
#include "sx.h"
#include <vector>
#include "qlmps/one_dim_tn/mpo/mpogen/symb_alg/coef_op_alg.h"
struct Mono { long x, y, nnz, sum, sq; }; // operator labels left/right, coefficient product (label 0 is the number 1)
typedef std::vector<Mono> Poly;
static void times(const OpRepr &l, const OpRepr &r, Poly &out) {
  auto lo = l.GetOpLabelList(), ro = r.GetOpLabelList(); auto lc = l.GetCoefReprList(), rc = r.GetCoefReprList();
  for (size_t i = 0; i < lo.size(); ++i) for (size_t j = 0; j < ro.size(); ++j) for (long a : lc[i].GetCoefLabelList()) for (long b : rc[j].GetCoefLabelList())
    out.push_back({lo[i], ro[j], (long)(a != 0) + (long)(b != 0), a + b, a * a + b * b});
}
static Poly scaled(const CoefRepr &c, const OpRepr &r) { Poly out; auto ro = r.GetOpLabelList(); auto rc = r.GetCoefReprList(); for (size_t j = 0; j < ro.size(); ++j) for (long a : c.GetCoefLabelList()) for (long b : rc[j].GetCoefLabelList()) out.push_back({0, ro[j], (long)(a != 0) + (long)(b != 0), a + b, a * a + b * b}); return out; }
static Poly plain(const OpRepr &r) { return scaled(CoefRepr(0L), r); }
static int meq(const Mono &a, const Mono &b) { return (int)(a.x == b.x) & (int)(a.y == b.y) & (int)(a.nnz == b.nnz) & (int)(a.sum == b.sum) & (int)(a.sq == b.sq); }
static int samePoly(const Poly &a, const Poly &b) { if (a.size() != b.size()) return 0; int ok = 1; for (const Mono &t : a) { long x = 0, y = 0; for (const Mono &u : a) x += meq(t, u); for (const Mono &u : b) y += meq(t, u); ok &= (int)(x == y); } return ok; }
static long O, L; static size_t S;
static bool allId; // every coefficient drawn since the flag was set is the identity (forced when idOnly)
static OpRepr draw(bool idOnly, long base, size_t mx) { size_t n = sx_concretize(sx_range("summands", 0, (long)mx)); std::vector<CoefRepr> c; std::vector<BasisOpLabel> o; long last = 0;
  for (size_t i = 0; i < n; ++i) { long l = sx_range("op", 1, O); sx_assume(l > last); last = l; o.push_back(base + l); c.push_back(CoefRepr(idOnly ? 0L : sx_range("coef", 0, L))); } return OpRepr(c, o); }
static SparOpReprMat drawMat(size_t r, size_t c, size_t mx) { SparOpReprMat m(r, c); for (size_t i = 0; i < r; ++i) for (size_t j = 0; j < c; ++j) m.SetElem(i, j, draw(false, 0, mx)); return m; }
static Poly prod(const SparOpReprMat &a, const SparOpReprMat &b, size_t i, size_t j) { Poly p; for (size_t k = 0; k < a.cols; ++k) times(a(i, k), b(k, j), p); return p; }
static void separate() {
  OpRepr a = draw(false, 0, S); if (sx_param("MULTI", 1)) { OpRepr b = draw(false, 0, S); a += b; } Poly before = plain(a);
  auto cb = SeparateCoefAndBase(a); sx_assert(samePoly(scaled(cb.first, cb.second), before), "coefficient times base gives the operator back"); sx_assert(samePoly(plain(a), before), "the operator itself is unchanged"); sx_assert(GetOpReprCoef(a) == cb.first, "GetOpReprCoef returns that coefficient");
  if (cb.first != kIdCoefRepr && a != kNullOpRepr) sx_reach("a coefficient came out"); if (cb.second.GetOpLabelList().size() > 1) sx_reach("multi-term operator");
}
static void divisor(bool row) {
  const size_t R = sx_param("R", 2), C = sx_param("C", 3); SparOpReprMat m = row ? drawMat(R, C, S) : drawMat(C, R, S), b = m; size_t k = sx_concretize(sx_range("index", 0, (long)R - 1));
  CoefRepr c = row ? m.TryCatchRowCommonDivisorCoef(k) : m.TryCatchColCommonDivisorCoef(k); sx_assert(m == b, "looking for a common coefficient changes nothing");
  int empty = 1, bad = 0; for (size_t j = 0; j < C; ++j) { const OpRepr &e = row ? b(k, j) : b(j, k); if (e != kNullOpRepr) empty = 0; }
  if (c == kNullCoefRepr) { sx_assert(empty, "no coefficient is reported for empty lines only"); sx_reach("empty line"); return; }
  if (c == kIdCoefRepr) return;
  if (row) m.RemoveRowCoef(k); else m.RemoveColCoef(k);
  for (size_t i = 0; i < m.rows; ++i) for (size_t j = 0; j < m.cols; ++j) { bool line = (row ? i : j) == k; if (line) bad |= !samePoly(scaled(c, m(i, j)), plain(b(i, j))); else bad |= !(m(i, j) == b(i, j)); }
  sx_assert(!bad, "the common coefficient times what remains of the line is the line"); sx_reach("common coefficient");
}
// FORM 0: compress, 1: delinearize only
static void compress(bool row, bool delinOnly) {
  const size_t R = sx_param("R", 3), C = sx_param("C", 2), P = sx_param("P", 1); // R: shared index
  SparOpReprMat t = row ? SparOpReprMat(R, C) : SparOpReprMat(C, R), f = row ? SparOpReprMat(P, R) : SparOpReprMat(R, P);
  const long CL = sx_param("COEFLINES", (long)R); long cl = 0; // at most CL lines of the target carry coefficients
  for (size_t k = 0; k < R; ++k) { // documented restriction: for every shared index one of the two sides carries no coefficient
    bool tgtId = cl >= CL || sx_concretize(sx_range("target_plain", 0, 1)); cl += !tgtId;
    for (size_t j = 0; j < C; ++j) { OpRepr e = draw(tgtId, 0, S); if (row) t.SetElem(k, j, e); else t.SetElem(j, k, e); }
    for (size_t j = 0; j < P; ++j) { CoefRepr c(tgtId ? sx_range("neighbour_coef", 0, L) : 0L); OpRepr e(c, 100 + (long)(k * P + j)); if (sx_param("HOLES", 0) && !sx_bool("neighbour_present")) continue; if (row) f.SetElem(j, k, e); else f.SetElem(k, j, e); }
  }
  std::vector<Poly> before; for (size_t i = 0; i < (row ? P : C); ++i) for (size_t j = 0; j < (row ? C : P); ++j) before.push_back(row ? prod(f, t, i, j) : prod(t, f, i, j));
  if (row) { if (delinOnly) SparOpReprMatRowDelinearize(t, f); else SparOpReprMatRowCompresser(t, f); } else { if (delinOnly) SparOpReprMatColDelinearize(t, f); else SparOpReprMatColCompresser(t, f); }
  size_t shared = row ? t.rows : t.cols;
  sx_assert(shared == (row ? f.cols : f.rows) && shared >= 1 && shared <= R, "the shared dimension agrees on both sides and does not grow"); sx_assert((row ? t.cols : t.rows) == C && (row ? f.rows : f.cols) == P, "the outer dimensions stay");
  size_t q = 0; int ok = 1; for (size_t i = 0; i < (row ? P : C); ++i) for (size_t j = 0; j < (row ? C : P); ++j) ok &= samePoly(before[q++], row ? prod(f, t, i, j) : prod(t, f, i, j));
  sx_assert(ok, "the product of the two matrices is unchanged"); sx_observe("dim", shared);
  if (shared + 1 < R) sx_reach("two lines removed"); if (shared < R) sx_reach("a line removed"); else sx_reach("nothing removed");
}
static void sorting(bool row) {
  const size_t R = sx_param("R", 3), C = sx_param("C", 2); SparOpReprMat m = row ? drawMat(R, C, S) : drawMat(C, R, S), b = m; std::vector<size_t> p = row ? m.SortRows() : m.SortCols(); sx_assert(p.size() == R, "one index per line");
  std::vector<int> seen(R, 0); size_t last = 0; for (size_t k = 0; k < R; ++k) { sx_assert(p[k] < R && !seen[p[k]], "the returned order is a permutation"); seen[p[k]] = 1; size_t n = 0; for (size_t j = 0; j < C; ++j) { const OpRepr &x = row ? m(k, j) : m(j, k), &y = row ? b(p[k], j) : b(j, p[k]); sx_assert(x == y, "line k of the sorted matrix is line order[k] of the original"); n += x != kNullOpRepr; } sx_assert(n >= last, "lines are ordered by their number of elements"); last = n; }
  sx_reach("sorted");
}
extern "C" void sx_main() { O = sx_param("O", 2); L = sx_param("L", 2); S = sx_param("S", 1);
  switch (sx_param("MODE", 0)) { case 0: separate(); break; case 1: divisor(true); break; case 2: divisor(false); break; case 3: compress(true, false); break; case 4: compress(false, false); break; case 5: compress(true, true); break; case 6: compress(false, true); break; case 7: sorting(true); break; default: sorting(false); } }
