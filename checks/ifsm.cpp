// C24: the automaton of an infinite chain represents every added term and all its translations by whole unit cells.
// MODE 0: histories of additions, 1: nodes.  Bounds: unit cell U, K terms of up to LEN sites, window of CELLS unit cells, op labels 0..OPS, coefficient labels 0..COEFS.
#include "lib/mpo_oracle.h"
#include <map>
#include <algorithm>
#include "qlmps/one_dim_tn/mpo/mpogen/ifsm.h"
struct Inf { size_t head; std::vector<long> ops, cf; size_t len() const { return ops.size(); } };
static std::vector<long> ids; static size_t U;
static bool lastsAs(const Inf &a, const Inf &b) { // the same word up to leading identities, ending at the same site: the automaton refuses it
  if ((a.head + a.len()) % U != (b.head + b.len()) % U) return false;
  const Inf &l = a.len() < b.len() ? b : a, &s = a.len() < b.len() ? a : b; size_t d = l.len() - s.len(); int same = 1;
  for (size_t i = 0; i < l.len(); ++i) { long o = i < d ? ids[(l.head + i) % U] : s.ops[i - d], c = i < d ? 0 : s.cf[i - d]; same &= (int)(l.ops[i] == o) & (int)(l.cf[i] == c); }
  return same; }
static bool represents(const SparOpReprMatVec &m, const std::vector<Inf> &ts, size_t cells) {
  size_t S = cells * U; std::vector<long> wids; for (size_t s = 0; s < S; ++s) wids.push_back(ids[s % U]); std::vector<Term> want;
  for (Inf t : ts) { while (t.len() > 1 && t.ops[0] == ids[t.head % U] && t.cf[0] == 0) { ++t.head; t.ops.erase(t.ops.begin()); t.cf.erase(t.cf.begin()); } // a leading identity on an infinite chain
   for (size_t h = t.head % U; h + t.len() <= S; h += U) { Term w; w.head = h; w.tail = h + t.len() - 1; w.ops = t.ops; w.coef = 0; for (long c : t.cf) w.coef += c; want.push_back(w); } }
  SparOpReprMatVec chain; for (size_t s = 0; s < S; ++s) chain.push_back(m[s % U]);
  size_t fin = chain.back().cols - 1; SparOpReprMat last(chain.back().rows, 1); for (size_t r = 0; r < last.rows; ++r) { OpRepr e = chain.back()(r, fin); if (!e.GetOpLabelList().empty()) last.SetElem(r, 0, e); } chain.back() = last;
  return sameOperator(chain, want, wids); }
static void history() {
  const size_t K = sx_param("K", 2), LEN = sx_param("LEN", 3), CELLS = sx_param("CELLS", 2); const long OPS = sx_param("OPS", 1), COEFS = sx_param("COEFS", 1); U = sx_param("U", 2);
  std::vector<OpRepr> idops; for (size_t i = 0; i < U; ++i) { ids.push_back(sx_param("IDS", 0) ? sx_range("id", 0, OPS) : 0); idops.push_back(OpRepr(ids[i])); }
  iFSM fsm(U, idops); sx_assert(fsm.unit_cell_length() == U && fsm.fsm_size() == U && fsm.GetFSMPaths().empty(), "a new automaton has the given length and no paths");
  std::vector<Inf> ts;
  for (size_t k = 0; k < K; ++k) {
    Inf t; t.head = sx_concretize(sx_range("head", 0, (long)(k ? U : 3 * U) - 1)); size_t len = sx_concretize(sx_range("length", 1, (long)LEN)), at = len > 1 && sx_concretize(sx_range("coefficient_on_the_last", 0, 1)) ? len - 1 : 0; OpReprVec ops;
    for (size_t i = 0; i < len; ++i) { t.ops.push_back(sx_range("op", 0, OPS)); t.cf.push_back(i == at ? sx_range("coef", 0, COEFS) : 0); ops.push_back(i == at ? OpRepr(CoefRepr(t.cf[i]), t.ops[i]) : OpRepr(t.ops[i])); }
    for (auto &o : ts) sx_assume(!lastsAs(t, o));
    FSMPathVec before = fsm.GetFSMPaths(); fsm.AddPath(t.head, ops); FSMPathVec after = fsm.GetFSMPaths(); ts.push_back(t);
    sx_assert(after.size() == k + 1 && before.size() == k, "adding a term adds one path"); const FSMPath &p = after[k];
    sx_assert(p.fsm_nodes.size() == len + 1 && p.op_reprs.size() == len, "the path is as long as the term"); for (size_t i = 0; i < len; ++i) sx_assert(p.Opr(i) == ops[i], "the path carries the operators of the term");
    for (size_t i = 0; i <= len; ++i) sx_assert(p.Node(i).Site() == (t.head + i) % U, "every node of the path lies at its site of the unit cell");
    sx_assert(p.Node(0).Stat() == kFSMReadyStatIdx && p.Node(len).Stat() == kFSMFinalStatIdx, "the path leads from the ready to the final state"); for (size_t i = 1; i < len; ++i) sx_assert(p.Node(i).Stat() != kFSMFinalStatIdx, "the path reaches the final state before its end");
    if (k) for (size_t i = 1; i < len; ++i) if (i < before[0].fsm_nodes.size() - 1 && p.Node(i) == before[0].Node(i) && p.Node(i).Stat() != kFSMReadyStatIdx) sx_reach("shared beginning"); if (len > U) sx_reach("longer than the unit cell"); if (len == 1) sx_reach("one site"); if (t.head >= U) sx_reach("begins in a later cell");
  }
  SparOpReprMatVec m = fsm.GenMatRepr(); sx_assert(m.size() == U, "one matrix per site of the unit cell"); for (size_t i = 0; i < U; ++i) sx_assert(m[i].cols == m[(i + 1) % U].rows, "the matrices of the unit cell do not fit together around it");
  sx_assert(represents(m, ts, CELLS), "the repeated unit cell is not the sum of the terms and their translations");
  if (sx_param("COMP", 0)) { SparOpReprMatVec c = fsm.GenCompressedMatRepr(); for (size_t i = 0; i < U; ++i) sx_assert(c[i].cols == c[(i + 1) % U].rows, "the compressed matrices of the unit cell do not fit together around it"); sx_assert(represents(c, ts, CELLS), "the compressed unit cell is not the sum of the terms and their translations"); }
}
static void nodes() {
  size_t s[3]; long t[3]; std::vector<FSMNode> n; for (int i = 0; i < 3; ++i) { s[i] = (size_t)sx_range("site", 0, 1000000); t[i] = sx_range("state", -1, 1000000); FSMNode x(s[i], t[i]); if (i == 1) { FSMNode y(0, 0); y = x; x = y; } if (i == 2) { x = FSMNode(0, 0); x.SetSite(s[i]); x.SetStat(t[i]); } n.push_back(x); }
  for (int i = 0; i < 3; ++i) { sx_assert(n[i].Site() == s[i] && n[i].Stat() == t[i], "a node tells another site or state than it was given");
    for (int j = 0; j < 3; ++j) { int less = (int)(s[i] < s[j]) | ((int)(s[i] == s[j]) & (int)(t[i] < t[j])), eq = (int)(s[i] == s[j]) & (int)(t[i] == t[j]); sx_assert((n[i] < n[j]) == (bool)less, "nodes are not ordered by site and state"); sx_assert((n[i] == n[j]) == (bool)eq, "nodes are equal when site and state are"); sx_assert((n[j] > n[i]) == (bool)less, "greater is not the reverse of less"); } }
  sx_reach("compared");
}
extern "C" void sx_main() { if (sx_param("MODE", 0)) nodes(); else history(); }
