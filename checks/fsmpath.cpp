// C12: every added term is one path of the state machine, and generating matrices leaves the machine as it was (terms may be added afterwards).
// Bounds: N sites, K terms, op labels 0..OPS, coefficient labels 0..COEFS.
#include "lib/mpo_oracle.h"
static int samePath(const FSMPath &a, const FSMPath &b) { if (a.fsm_nodes.size() != b.fsm_nodes.size() || a.op_reprs.size() != b.op_reprs.size()) return 0; int ok = 1; for (size_t i = 0; i < a.fsm_nodes.size(); ++i) ok &= (int)(a.fsm_nodes[i] == b.fsm_nodes[i]); for (size_t i = 0; i < a.op_reprs.size(); ++i) ok &= (int)(a.op_reprs[i] == b.op_reprs[i]); return ok; }
static int sameMats(const SparOpReprMatVec &a, const SparOpReprMatVec &b) { if (a.size() != b.size()) return 0; int ok = 1; for (size_t s = 0; s < a.size(); ++s) { if (a[s].rows != b[s].rows || a[s].cols != b[s].cols) return 0; for (size_t i = 0; i < a[s].rows; ++i) for (size_t j = 0; j < a[s].cols; ++j) ok &= (int)(a[s](i, j) == b[s](i, j)); } return ok; }
extern "C" void sx_main() {
  const size_t N = sx_param("N", 4), K = sx_param("K", 3); const long OPS = sx_param("OPS", 2), COEFS = sx_param("COEFS", 2); const int mode = (int)sx_param("MODE", 0);
  std::vector<long> ids; OpReprVec idops; for (size_t i = 0; i < N; ++i) { long id = mode == 0 ? sx_range("id", 0, OPS) : 0; ids.push_back(id); idops.push_back(OpRepr(id)); }
  FSM fsm(N, idops); sx_assert(fsm.phys_size() == N && fsm.fsm_size() == N + 1 && fsm.GetFSMPaths().empty(), "a new machine has no paths");
  std::vector<Term> terms; size_t when = mode ? sx_concretize(sx_range("generate_after", 1, (long)K - 1)) : K; SparOpReprMatVec g, c;
  for (size_t k = 0; k < K; ++k) {
    Term t; t.head = sx_concretize(sx_range("head", 0, (long)N - 1)); t.tail = sx_concretize(sx_range("tail", (long)t.head, (long)N - 1)); t.coef = sx_range("coef", 0, COEFS); OpReprVec ops;
    for (size_t s = t.head; s <= t.tail; ++s) { long l = sx_range("op", 0, OPS); t.ops.push_back(l); ops.push_back(s == t.head ? OpRepr(CoefRepr(t.coef), l) : OpRepr(l)); }
    FSMPathVec before = fsm.GetFSMPaths(); fsm.AddPath(t.head, t.tail, ops); terms.push_back(t); FSMPathVec after = fsm.GetFSMPaths();
    sx_assert(after.size() == k + 1, "adding a term adds one path"); int ok = 1; for (size_t i = 0; i < k; ++i) ok &= samePath(before[i], after[i]); sx_assert(ok, "earlier paths stay");
    const FSMPath &p = after[k]; sx_assert(p.fsm_nodes.size() == N + 1 && p.op_reprs.size() == N, "a path has a node at every cut and an operator on every site");
    for (size_t i = 0; i <= N; ++i) { sx_assert(p.Node(i).fsm_site_idx == i, "node i belongs to cut i"); long st = p.Node(i).Stat();
      if (i <= t.head) sx_assert(st == kFSMReadyStatIdx, "the path is in the ready state up to its first site"); else if (i > t.tail) sx_assert(st == kFSMFinalStatIdx, "the path is in the final state after its last site");
      else { sx_assert(st != kFSMReadyStatIdx && st != kFSMFinalStatIdx, "inside its support the path is in a state of its own"); for (size_t j = 0; j < k; ++j) sx_assert(after[j].Node(i).Stat() != st, "no two terms share an intermediate state"); sx_reach("intermediate state"); } }
    for (size_t s = 0; s < N; ++s) { OpRepr w = s < t.head || s > t.tail ? OpRepr(ids[s]) : ops[s - t.head]; sx_assert(p.Opr(s) == w, "the path carries the term's operators, and the identity elsewhere"); }
    if (mode && k + 1 == when) { g = fsm.GenMatRepr(); c = fsm.GenCompressedMatRepr(); FSMPathVec now = fsm.GetFSMPaths(); int same = (int)(now.size() == after.size()); for (size_t i = 0; i < now.size() && i < after.size(); ++i) same &= samePath(now[i], after[i]); sx_assert(same, "generating matrices leaves the paths alone");
      sx_assert(sameMats(g, fsm.GenMatRepr()) && sameMats(c, fsm.GenCompressedMatRepr()), "generating twice gives the same matrices"); sx_reach("generated"); }
  }
  if (mode) { SparOpReprMatVec m = fsm.GenMatRepr(), z = fsm.GenCompressedMatRepr(); sx_assert(sameOperator(m, terms, ids) && sameOperator(z, terms, ids), "terms added after a generation are part of the next one"); FSM copy(fsm), other(N); other = fsm; sx_assert(sameMats(copy.GenMatRepr(), m) && sameMats(other.GenCompressedMatRepr(), z), "a copied machine generates the same matrices"); sx_reach("added after generation"); }
}
