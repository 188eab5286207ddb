// C01/C02/C03: an FSM built from arbitrary terms represents exactly the sum of those terms, before and after compression.
// Bounds (parameters): N sites, K terms, support up to W sites, op labels 0..OPS, coefficient labels 0..COEFS (0 = identity).
#include "lib/mpo_oracle.h"
extern "C" void sx_main() {
  const size_t N = sx_param("N", 3), K = sx_param("K", 2), W = sx_param("W", N); const long OPS = sx_param("OPS", 2), COEFS = sx_param("COEFS", 2);
  const int mode = (int)sx_param("MODE", 3), idsym = (int)sx_param("IDS", 0), rg = (int)sx_param("RG", 0);
  std::vector<long> ids; OpReprVec idops;
  for (size_t i = 0; i < N; ++i) { long id = idsym ? sx_range("id", 0, OPS) : 0; ids.push_back(id); idops.push_back(OpRepr(id)); }
  FSM fsm = idsym ? FSM(N, idops) : FSM(N);
  std::vector<Term> terms; long maxop = 0, maxcoef = 0;
  for (size_t k = 0; k < K; ++k) {
    Term t; t.head = sx_concretize(sx_range("head", 0, (long)N - 1)); t.tail = sx_concretize(sx_range("tail", 0, (long)N - 1)); sx_assume(t.head <= t.tail && t.tail - t.head < W);
    t.coef = sx_range("coef", 0, COEFS); OpReprVec ops;
    if (rg) { sx_assume(t.coef <= maxcoef + 1); maxcoef = t.coef > maxcoef ? t.coef : maxcoef; }
    for (size_t s = t.head; s <= t.tail; ++s) { long l = sx_range("op", 0, OPS); if (rg) { sx_assume(l <= maxop + 1); maxop = l > maxop ? l : maxop; } t.ops.push_back(l); ops.push_back(s == t.head ? OpRepr(CoefRepr(t.coef), l) : OpRepr(l)); }
    fsm.AddPath(t.head, t.tail, ops); terms.push_back(t);
  }
  if (mode & 1) {
    SparOpReprMatVec m = fsm.GenMatRepr();
    sx_assert(m.size() == N && chainShapeOK(m), "uncompressed matrices do not chain from one row to one column");
    sx_assert(sameOperator(m, terms, ids), "uncompressed matrix product is not the sum of the added terms");
    sx_reach("uncompressed");
  }
  if (mode & 2) {
    SparOpReprMatVec m = fsm.GenMatRepr(), c = fsm.GenCompressedMatRepr();
    sx_assert(c.size() == N && chainShapeOK(c), "compressed matrices do not chain from one row to one column");
    bool grew = false, shrunk = false; for (size_t i = 0; i + 1 < N; ++i) { grew = grew || c[i].cols > m[i].cols; shrunk = shrunk || c[i].cols < m[i].cols; sx_observe("dim", c[i].cols); }
    sx_assert(!grew, "compression increased a bond dimension");
    sx_assert(sameOperator(c, terms, ids), "compressed matrix product is not the sum of the added terms");
    sx_reach("compressed"); if (shrunk) sx_reach("a bond dimension shrank");
  }
}
