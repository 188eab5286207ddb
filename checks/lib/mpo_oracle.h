// Oracle shared by the FSM/MPO harnesses: expands a chain of symbolic matrices into its formal sum of operator strings and compares it, as a
// multiset, with the sum of the terms that were added.  Coefficient label 0 is the number 1.  Only public accessors of the library are used.
#pragma once
#include "sx.h"
#include <vector>
#include "qlmps/one_dim_tn/mpo/mpogen/fsm.h"
struct Mono { std::vector<long> ops; long nnz; long sum; long sumsq; };  // nnz / sum / sumsq: number, sum and sum of squares of the non-identity coefficient labels
struct Term { size_t head, tail; long coef; std::vector<long> ops; };
static inline bool expandFrom(const SparOpReprMatVec &m, size_t site, size_t row, Mono cur, std::vector<Mono> &out, size_t limit) {
  if (site == m.size()) { out.push_back(cur); return out.size() <= limit; }
  for (size_t c = 0; c < m[site].cols; ++c) {
    const OpRepr &e = m[site](row, c);
    std::vector<long> ls = e.GetOpLabelList(); std::vector<CoefRepr> cs = e.GetCoefReprList();
    for (size_t k = 0; k < ls.size(); ++k) {
      std::vector<CNumberLabel> cl = cs[k].GetCoefLabelList();
      for (size_t q = 0; q < cl.size(); ++q) {
        Mono nx = cur; nx.ops.push_back(ls[k]); nx.nnz += (long)(cl[q] != 0); nx.sum += cl[q]; nx.sumsq += cl[q] * cl[q];
        if (!expandFrom(m, site + 1, c, nx, out, limit)) return false;
      }
    }
  }
  return true;
}
// 1 when the chain of matrices is well formed: adjacent shapes match, first has one row, last one column
static inline bool chainShapeOK(const SparOpReprMatVec &m) {
  if (m.empty() || m.front().rows != 1 || m.back().cols != 1) return false;
  for (size_t i = 0; i + 1 < m.size(); ++i) if (m[i].cols != m[i + 1].rows || m[i].cols == 0) return false;
  return true;
}
static inline long opAt(const Term &t, size_t site, const std::vector<long> &ids) { return site < t.head || site > t.tail ? ids[site] : t.ops[site - t.head]; }
static inline int monoIsTerm(const Mono &m, const Term &t, const std::vector<long> &ids) {
  int ok = (int)(m.nnz == (long)(t.coef != 0)) & (int)(m.sum == t.coef) & (int)(m.sumsq == t.coef * t.coef);
  for (size_t s = 0; s < ids.size(); ++s) ok &= (int)(m.ops[s] == opAt(t, s, ids));
  return ok;
}
static inline int termEq(const Term &a, const Term &b, const std::vector<long> &ids) {
  int ok = (int)(a.coef == b.coef);
  for (size_t s = 0; s < ids.size(); ++s) ok &= (int)(opAt(a, s, ids) == opAt(b, s, ids));
  return ok;
}
// multiset equality between the expansion of `m` and `terms`
static inline int sameOperator(const SparOpReprMatVec &m, const std::vector<Term> &terms, const std::vector<long> &ids) {
  std::vector<Mono> out; Mono z; z.nnz = z.sum = z.sumsq = 0;
  if (!expandFrom(m, 0, 0, z, out, terms.size() + 2) || out.size() != terms.size()) return 0;
  int ok = 1;
  for (size_t i = 0; i < terms.size(); ++i) {
    long want = 0, got = 0;
    for (size_t j = 0; j < terms.size(); ++j) want += termEq(terms[i], terms[j], ids);
    for (size_t j = 0; j < out.size(); ++j) got += monoIsTerm(out[j], terms[i], ids);
    ok &= (int)(want == got);
  }
  return ok;
}
