// C05: the sparse matrix is indistinguishable from a dense matrix under any history of public operations.
// Bounds: start shape R x C (each 1..MAXR / 1..MAXC), F initial writes, K operations; element values 0..V (0 is the null element).
// MODE 1: two matrices with different histories compare equal exactly when their elements agree.
#include "sx.h"
#include <vector>
#include "qlmps/one_dim_tn/mpo/mpogen/symb_alg/sparse_mat.h"
typedef std::vector<std::vector<long>> D;
static int same(const SparMat<long> &m, const D &d, size_t R, size_t C) {
  int ok = (int)(m.rows == R) & (int)(m.cols == C); if (!ok) return 0;
  for (size_t i = 0; i < R; ++i) { std::vector<long> row = m.GetRow(i); if (row.size() != C) return 0; for (size_t j = 0; j < C; ++j) { ok &= (int)(m(i, j) == d[i][j]) & (int)(row[j] == d[i][j]); ok &= (int)(m.IsNull(i, j) == (d[i][j] == 0)); } }
  for (size_t j = 0; j < C; ++j) { std::vector<long> col = m.GetCol(j); if (col.size() != R) return 0; for (size_t i = 0; i < R; ++i) ok &= (int)(col[i] == d[i][j]); }
  return ok;
}
static std::vector<size_t> perm(size_t n) { std::vector<size_t> p; for (size_t i = 0; i < n; ++i) { size_t x = sx_range("perm", 0, n - 1); for (size_t y : p) sx_assume(x != y); p.push_back(sx_concretize(x)); } return p; }
static void edits(SparMat<long> &m, D &d, size_t &R, size_t &C, size_t F, size_t K, long V) {
  for (size_t f = 0; f < F; ++f) { size_t i = sx_concretize(sx_range("r", 0, R - 1)), j = sx_concretize(sx_range("c", 0, C - 1)); long v = sx_range("v", 1, V); m.SetElem(i, j, v); d[i][j] = v; }
  for (size_t k = 0; k < K; ++k) { int op = (int)sx_concretize(sx_range("op", 0, 3));
    if (op == 0) { size_t i = sx_concretize(sx_range("r", 0, R - 1)), j = sx_concretize(sx_range("c", 0, C - 1)); long v = sx_range("v", 0, V); m.SetElem(i, j, v); d[i][j] = v; }
    else if (op == 1) { if (R < 2) sx_kill(); size_t i = sx_concretize(sx_range("r", 0, R - 1)); m.RemoveRow(i); d.erase(d.begin() + i); --R; }
    else if (op == 2) { if (C < 2) sx_kill(); size_t j = sx_concretize(sx_range("c", 0, C - 1)); m.RemoveCol(j); for (auto &r : d) r.erase(r.begin() + j); --C; }
    else { std::vector<size_t> p; for (size_t i = R; i-- > 0;) p.push_back(i); m.TransposeRows(p); D n; for (size_t i = 0; i < R; ++i) n.push_back(d[p[i]]); d = n; } }
}
static void pair() {
  const size_t MR = sx_param("MAXR", 2), MC = sx_param("MAXC", 2), F = sx_param("F", 2), K = sx_param("K", 1); const long V = sx_param("V", 2);
  size_t R = MR, C = MC, R2 = MR, C2 = MC; SparMat<long> m(R, C), n(R2, C2); D d(R, std::vector<long>(C, 0)), e = d;
  edits(m, d, R, C, F, K, V); edits(n, e, R2, C2, F, K, V);
  int eq = (int)(R == R2) & (int)(C == C2); if (eq) for (size_t i = 0; i < R; ++i) for (size_t j = 0; j < C; ++j) eq &= (int)(d[i][j] == e[i][j]);
  bool a = m == n, b = n == m; sx_assert((int)a == eq && (int)b == eq, "matrices compare equal exactly when shape and elements agree, whatever their histories");
  sx_assert(m == m, "a matrix equals itself"); SparMat<long> &alias = m; m = alias; sx_assert(same(m, d, R, C), "self-assignment changes nothing"); m = n; sx_assert(same(m, e, R2, C2) && same(n, e, R2, C2), "assignment copies shape and elements");
  if (eq) sx_reach("equal"); else sx_reach("different");
}
extern "C" void sx_main() {
  if (sx_param("MODE", 0) == 1) { pair(); return; }
  const size_t MR = sx_param("MAXR", 3), MC = sx_param("MAXC", 3), F = sx_param("F", 3), K = sx_param("K", 2); const long V = sx_param("V", 3);
  size_t R = sx_concretize(sx_range("rows", 1, MR)), C = sx_concretize(sx_range("cols", 1, MC));
  if (sx_param("FIX", 0)) sx_assume(R == MR && C == MC);
  SparMat<long> m(R, C); D d(R, std::vector<long>(C, 0)); D zero = d;
  sx_assert(same(m, d, R, C), "a fresh matrix is all null");
  if (sx_param("FULL", 0)) { m.Reserve(R * C); for (size_t i = 0; i < R; ++i) for (size_t j = 0; j < C; ++j) { bool put = sx_bool("present"); if (put) { long v = sx_range("v", 1, V); m.SetElem(i, j, v); d[i][j] = v; } } }
  else for (size_t f = 0; f < F; ++f) { size_t i = sx_concretize(sx_range("r", 0, R - 1)), j = sx_concretize(sx_range("c", 0, C - 1)); long v = sx_range("v", 1, V); m.SetElem(i, j, v); d[i][j] = v; }
  for (size_t k = 0; k < K; ++k) {
    int op = (int)sx_concretize(sx_range("op", 0, 7));
    if (op == 0) { size_t i = sx_concretize(sx_range("r", 0, R - 1)), j = sx_concretize(sx_range("c", 0, C - 1)); long v = sx_range("v", 0, V); m.SetElem(i, j, v); d[i][j] = v; sx_reach("set"); }
    else if (op == 1) { if (R < 2) { m.RemoveRow(0); sx_assert(m.rows == 0, "removing the only row leaves an empty matrix"); return; } size_t i = sx_concretize(sx_range("r", 0, R - 1)); m.RemoveRow(i); d.erase(d.begin() + i); --R; sx_reach("remove row"); }
    else if (op == 2) { if (C < 2) { m.RemoveCol(0); sx_assert(m.cols == 0, "removing the only column leaves an empty matrix"); return; } size_t j = sx_concretize(sx_range("c", 0, C - 1)); m.RemoveCol(j); for (auto &r : d) r.erase(r.begin() + j); --C; sx_reach("remove column"); }
    else if (op == 3) { size_t a = sx_concretize(sx_range("r", 0, R - 1)), b = sx_concretize(sx_range("r2", 0, R - 1)); m.SwapTwoRows(a, b); auto t = d[a]; d[a] = d[b]; d[b] = t; sx_reach("swap rows"); }
    else if (op == 4) { size_t a = sx_concretize(sx_range("c", 0, C - 1)), b = sx_concretize(sx_range("c2", 0, C - 1)); m.SwapTwoCols(a, b); for (auto &r : d) { long t = r[a]; r[a] = r[b]; r[b] = t; } sx_reach("swap columns"); }
    else if (op == 5) { auto p = perm(R); m.TransposeRows(p); D n; for (size_t i = 0; i < R; ++i) n.push_back(d[p[i]]); d = n; sx_reach("permute rows"); }
    else if (op == 6) { auto p = perm(C); m.TransposeCols(p); D n = d; for (size_t i = 0; i < R; ++i) for (size_t j = 0; j < C; ++j) n[i][j] = d[i][p[j]]; d = n; sx_reach("permute columns"); }
    else { // copies are independent of the original
      SparMat<long> c(m), e; e = m; size_t i = sx_concretize(sx_range("r", 0, R - 1)), j = sx_concretize(sx_range("c", 0, C - 1)); long v = sx_range("v", 1, V); c.SetElem(i, j, v); D dc = d; dc[i][j] = v;
      sx_assert(same(c, dc, R, C), "a copy holds the original's elements"); sx_assert(same(m, d, R, C) && same(e, d, R, C), "writing to a copy leaves the original alone");
      bool q = c == m; sx_assert((int)q == (int)(d[i][j] == v), "matrices compare equal exactly when all elements agree"); m = c; d = dc; sx_reach("copy");
    }
    sx_assert(same(m, d, R, C), "after the operation the matrix agrees with the dense matrix");
  }
  if (R > 1 && C > 1) { SparMat<long> t(R, C - 1), u(R - 1, C), w(R, C); sx_assert(!(m == t) && !(m == u), "matrices of different shapes differ"); for (size_t i = R; i-- > 0;) for (size_t j = C; j-- > 0;) if (d[i][j]) w.SetElem(i, j, d[i][j]); sx_assert(w == m && m == w, "equality ignores how the matrix was built"); sx_reach("shapes"); }
}
