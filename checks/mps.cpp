// C15: histories of canonicalisation, centring, reversal and writing keep the state; flags are truthful.  Tensors are uninterpreted.
// MODE: 0 histories, 1 truncation, 2 entanglement entropy, 3 product states, 4 inner product and sum, 5 dump and load
#include "diag/mpslib.h"
#include "qlmps/one_dim_tn/mps/finite_mps/finite_mps_init.h"
#include "qlmps/one_dim_tn/mps/finite_mps/finite_mps_ops.h"
struct SvdLog { T in; TD s; };
static T flip(const T& t) { std::vector<size_t> p; for (size_t i = t.Rank(); i-- > 0;) p.push_back(i); T r = t; r.Transpose(p); return r; }
static void histories() {
  Sites sv(N, phys()); Mps m(sv); setMps(m, "A", full); T want = state(m); int L = sx_param("L", 3);
  for (int k = 0; k < L; ++k) {
    size_t op = pickN("op", 0, sx_param("OPS", 6)), x = 0; if (op != 5) x = pickN("site", 0, N - 1);
    if (op == 0) { m.Centralize(x); sx_assert(m.GetCenter() == (int)x, "Centralize does not put the centre where it was asked to"); }
    else if (op == 1) { sx_assume(x + 1 < N); m.LeftCanonicalize(x); for (size_t i = 0; i <= x; ++i) sx_assert(m.GetTenCanoType(i) == MPSTenCanoType::LEFT, "LeftCanonicalize leaves a tensor uncanonicalised"); }
    else if (op == 2) { sx_assume(x > 0); m.RightCanonicalize(x); for (size_t i = x; i < N; ++i) sx_assert(m.GetTenCanoType(i) == MPSTenCanoType::RIGHT, "RightCanonicalize leaves a tensor uncanonicalised"); }
    else if (op == 3) { sx_assume(x + 1 < N); m.LeftCanonicalizeTen(x); }
    else if (op == 4) { sx_assume(x > 0); m.RightCanonicalizeTen(x, sx_bool("svd")); }
    else if (op == 5) { m.Reverse(); want = flip(want); sx_reach("reversed"); }
    else { // the user replaces a tensor
      T t = T::atom(m[x].GetIndexes(), nameOf("B", k), Q()); if (sx_bool("pointer")) { delete m(x); m(x) = new T(t); } else m[x] = t; want = state(m); }
    sx_assert(indexesFit(m), "neighbouring tensors no longer fit together"); sx_assert(state(m).same(want), "the state changed"); checkFlags(m);
    if (sx_bool("copy")) { Mps c(m); m.Centralize(0); sx_assert(state(c).same(want), "a copy shares tensors with the original"); checkFlags(c); m = c; }
  }
}
static void truncation() {
  Sites sv(N, phys()); Mps m(sv); setMps(m, "A", full); T want = state(m); if (sx_bool("canonical")) m.Centralize(pickN("centre", 0, N - 1));
  bool exact = sx_bool("exact"); size_t Dmax = exact ? 64 : pickN("Dmax", 1, 2); double err = exact ? 0.0 : sx_bool("error") ? 1e-3 : 0.0; TruncateMPS(m, err, 1, Dmax);
  sx_assert(indexesFit(m), "neighbouring tensors no longer fit together"); checkFlags(m);
  for (size_t i = 0; i + 1 < N; ++i) { sx_assert(isometry(m[i], 2), "truncation leaves a tensor that is not left-canonical"); sx_assert(m[i].GetIndex(2).dim() <= Dmax, "a bond is larger than the requested maximum"); }
  if (exact) { sx_assert(sameDirection(state(m), want), "truncation without discarded states changed the state"); sx_reach("exact"); } else sx_reach("truncated");
}
static void entropy() {
  Sites sv(N, phys()); Mps m(sv); setMps(m, "A", full); T want = state(m); size_t n_order = pickN("order", 1, 3); if (sx_bool("canonical")) m.Centralize(pickN("centre", 0, N - 1));
  std::vector<double> ee = m.GetEntanglementEntropy(n_order); sx_assert(ee.size() == N - 1, "one entropy per bond expected"); T st = state(m); sx_assert(sameDirection(st, want), "measuring the entropy changed the state"); { double c; std::vector<diag::Atom> sc; st.stripped(c, sc); sx_assert(!sc.empty() || c != 1, "the entropies are those of a state that is not normalised"); }
  checkFlags(m); for (size_t i = 1; i < N; ++i) sx_assert(isometry(m[i], 0), "after the measurement the tensors right of the first are right-canonical");
  const Mps& f = m;
  for (size_t i = N - 1; i >= 1; --i) {
    // the right part is isometric (checked above); the left part must be an isometry times the singular values
    T X = chain(f, 0, i), D, rho; std::vector<size_t> x;
    D = Dag(X); x.clear(); for (size_t k = 0; k <= i; ++k) x.push_back(k); Contract(&X, x, &D, x, &rho); const auto& t = rho.terms(); bool two = t.size() == 1; TD s({rho.GetIndex(0), rho.GetIndex(1)}); int S = 0; u64 nm = 0; diag::Net n; std::map<u64, int> sc;
    if (two) { for (auto& q : t[0].n.at) { auto k = diag::info(q.nm).kind; if (k == diag::Sf) { if (S++ == 0) nm = q.nm; else two = two && nm == q.nm; } else if (k == diag::SCALAR) ++sc[q.nm]; else two = false; } two = two && S == 2; }
    if (!two) sx_fail("the left part of a cut is not an isometry times the singular values");
    s = TD::atom(s.GetIndexes(), nm); std::vector<diag::Atom> half; for (auto& q : sc) for (int k = 0; k < q.second / 2; ++k) half.push_back(diag::Atom{q.first, false, {}}); s.times(std::sqrt(std::abs(t[0].c)), half);
    double sum = 0; for (size_t k = 0; k < s.GetShape()[0]; ++k) { double p = s(k, k) * s(k, k); sum += n_order == 1 ? -p * std::log(p) : std::pow(p, (double)n_order); }
    double e = n_order == 1 ? sum : std::log(sum) / (1.0 - (double)n_order); if (close(ee[i - 1], e)) sx_reach("entropy"); else sx_fail("the entropy of a bond is not the Renyi entropy of its squared singular values");
  }
}
static void product() {
  Sites sv(N, phys()); Mps w(sv); Mps& mm = w; const Mps& m = w; bool dirty = sx_bool("dirty"); if (dirty) setMps(mm, "A", full); VS lab; int div = 0; for (size_t i = 0; i < N; ++i) { lab.push_back(pickN("state", 0, 1)); div += lab[i] ? -1 : 1; }
  size_t which = pickN("kind", 0, 2);
  if (which < 2) {
    if (which == 0) DirectStateInitMps(mm, lab); else DirectStateInitZeroDivMps(mm, lab);
    T st = state(m), e; bool ok = st.Rank() == N + 2; std::vector<I> ix; ix.push_back(st.GetIndex(0)); VS c; c.push_back(0); for (size_t i = 0; i < N; ++i) { ix.push_back(phys()); c.push_back(lab[i]); } ix.push_back(st.GetIndex(N + 1)); c.push_back(0);
    T p(ix); p(c) = E(1); sx_assert(ok && st.same(p), "the initial state is not the requested product state"); sx_reach("product");
    Q tot; for (size_t i = 0; i < N; ++i) tot += m[i].Div(); sx_assert(tot == qn(div) || (which && tot == Q()), "wrong total charge");
    if (which) { bool rest = true; for (size_t i = 0; i + 1 < N; ++i) rest = rest && m[i].Div() == Q(); sx_assert(rest, "a tensor before the last carries charge"); if (m[N - 1].Div() != Q()) { sx_assert(m[N - 1].Div() == qn(div), "the last tensor carries a wrong charge"); sx_known("zerodiv-last-flux"); } } sx_assert(m.GetCenter() == 0, "the state is not centred on the first site");
  } else {
    std::vector<VS> set(1, lab); if (sx_bool("two")) { VS l2 = lab; std::swap(l2[0], l2[N - 1]); set.push_back(l2); } ExtendDirectRandomInitMps(mm, set, pickN("enlarge", 1, 2)); Q tot; for (size_t i = 0; i < N; ++i) tot += m[i].Div(); sx_assert(tot == qn(div), "wrong total charge"); sx_assert(m.GetCenter() == kUncentralizedCenterIdx || m.GetCenter() == 0, "wrong centre"); sx_reach("random");
  }
  sx_assert(indexesFit(m), "neighbouring tensors do not fit together"); checkFlags(m);
}
static E overlap(const T& a, const T& b) { T d = Dag(b), r; std::vector<size_t> x; for (size_t i = 0; i < a.Rank(); ++i) x.push_back(i); Contract(&a, x, &d, x, &r); return r(); }
static void algebra() {
  Sites sv(N, phys()); Mps a(sv), b(sv), c(sv); setMps(a, "A", full); setMps(b, "B", two);
  if (sx_bool("canonical")) { a.Centralize(0); b.Centralize(0); }
  T sa = state(a), sb = state(b); if (!(a[0].GetIndex(0) == b[0].GetIndex(0))) sx_fail("different outer indexes");
  sx_assert(FiniteMPSInnerProd(a, b) == overlap(sa, sb), "the inner product is not the overlap of the states"); sx_reach("inner product");
  FiniteMPSAdd(a, b, c); sx_assert(indexesFit(c), "neighbouring tensors of the sum do not fit together"); T sum = sa + sb; sx_assert(state(c).same(sum), "the sum of two MPS is not the sum of the states"); sx_assert(state(a).same(sa) && state(b).same(sb), "the summands changed"); sx_reach("sum"); checkFlags(c);
}
static void dump() {
  Sites sv(N, phys()); Mps a(sv), b(sv); setMps(a, "A", full); setMps(b, "B", full); T sa = state(a); bool rel = sx_bool("release"), other = sx_bool("other"), twice = sx_bool("twice");
  std::string dir = other ? "elsewhere" : kMpsPath; if (twice) { b.Dump(dir, false); } if (other) a.Dump(dir, rel); else a.Dump(kMpsPath, rel);
  if (rel) { for (size_t i = 0; i < N; ++i) sx_assert(a(i) == nullptr || static_cast<const Mps&>(a)(i) == nullptr, "released tensors are still there"); } else sx_assert(state(a).same(sa), "writing changed the state");
  Mps c(sv); if (sx_bool("dirty")) setMps(c, "C", full); c.Load(dir); sx_assert(state(c).same(sa), "what is read back is not what was written"); checkFlags(c); sx_reach("loaded");
}
extern "C" void sx_main() { N = sx_param("N", 3); int m = sx_param("MODE", 0); if (sx_param("NSYM", 0)) N = pickN("sites", 2, N); m == 0 ? histories() : m == 1 ? truncation() : m == 2 ? entropy() : m == 3 ? product() : m == 4 ? algebra() : dump(); }
