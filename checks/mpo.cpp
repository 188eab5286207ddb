// C21: arithmetic of finite matrix product operators
// MODE: 0 histories of operations, 1 truncation, 2 variational product and square, 3 exponential
#define USE_MKL
#include "diag/sweeplib.h"
#include "qlmps/one_dim_tn/mpo/finite_mpo/finite_mpo.h"
#include "qlmps/one_dim_tn/mpo/finite_mpo/finite_mpo_utility.h"
#include "qlmps/one_dim_tn/mpo/finite_mpo/exp_finite_mpo.h"
#include "qlmps/algorithm/vmps/vmps_init.h"
#include "qlmps/algorithm/vmps/two_site_update_finite_vmps_impl.h"
typedef FiniteMPO<E, Q> FMpo;
static I tri(TenIndexDirType d) { return I({QNSector<Q>(Q(), 1)}, d); }
static T opTen(const char* s, size_t i, size_t D) { auto b = [&](size_t k, TenIndexDirType d) { return k == 0 || k == N || D == 1 ? tri(d) : bond(s, k, D, d); }; return T::atom({b(i, IN), InverseIndex(phys()), phys(), b(i + 1, OUT)}, nameOf(s, i + 2000)); }
static FMpo fresh(const char* s, size_t D) { FMpo m(N); for (size_t i = 0; i < N; ++i) { m(i) = new T(opTen(s, i, D)); } return m; }
static T at(const FMpo& m, size_t i) { return m[i]; }
static T closeEnds(T r) { T l({InverseIndex(r.GetIndex(0))}), e({InverseIndex(r.GetIndex(r.Rank() - 1))}); l({0}) = 1; e({0}) = 1; r = ct(l, {0}, r, {0}); return ct(r, {r.Rank() - 1}, e, {0}); }
static T chainO(const FMpo& m) { T r = at(m, 0); for (size_t i = 1; i < N; ++i) r = ct(r, {r.Rank() - 1}, at(m, i), {0}); return closeEnds(r); }   // in0, out0, in1, out1, ..
static T times(const T& a, const T& b) { // a b: a acts after b
  std::vector<size_t> x, y, o; for (size_t i = 0; i < N; ++i) { x.push_back(2 * i); y.push_back(2 * i + 1); } T r = ct(a, x, b, y); for (size_t i = 0; i < N; ++i) { o.push_back(N + i); o.push_back(i); } r.Transpose(o); return r; }
static bool sameOp(const T& a, const T& b) { // up to legs of dimension one and the rounding of the coefficients
  auto &p = a.terms(), &q = b.terms(); if (p.size() != q.size()) return false;
  for (size_t i = 0; i < p.size(); ++i) { if (!close(p[i].c, q[i].c)) return false; diag::Net m = p[i].n, n = q[i].n; auto strip = [](diag::Net& z) { std::vector<int> o; for (int w : z.open) if (w) o.push_back(w); z.open = o; }; strip(m); strip(n); if (diag::code(m) != diag::code(n)) return false; }
  return true; }
static T sum(const T& a, const T& b) { T r = a; T c = b; c.ix = r.ix; r += c; return r; }
static double traceOf(T a) { for (size_t i = 0; i < N; ++i) { T id({InverseIndex(a.GetIndex(0)), InverseIndex(a.GetIndex(1))}); for (size_t k = 0; k < 2; ++k) id({k, k}) = 1; a = ct(a, {0, 1}, id, {0, 1}); } return a(); }
static void fit(const FMpo& m) { for (size_t i = 0; i < N; ++i) { T t = at(m, i); sx_assert(t.Rank() == 4 && t.GetIndex(1) == InverseIndex(phys()) && t.GetIndex(2) == phys(), "a tensor of the operator has wrong local indexes"); if (i) sx_assert(at(m, i - 1).GetIndex(3) == InverseIndex(t.GetIndex(0)), "neighbouring tensors of the operator do not fit together"); else sx_assert(t.GetIndex(0) == tri(IN), "the operator does not start with a trivial bond"); } sx_assert(at(m, N - 1).GetIndex(3) == tri(OUT), "the operator does not end with a trivial bond"); }
static void flags(const FMpo& m) {
  for (size_t i = 0; i < N; ++i) { auto f = m.GetTenCanoType(i); if (f == MPSTenCanoType::LEFT) { sx_assert(isometry(at(m, i), 3), "a tensor is flagged left-canonical but is not"); sx_reach("left canonical"); } if (f == MPSTenCanoType::RIGHT) { sx_assert(isometry(at(m, i), 0), "a tensor is flagged right-canonical but is not"); sx_reach("right canonical"); } }
  int c = m.GetCenter(); if (c == kUncentralizedCenterIdx) return; sx_assert(c >= 0 && c < (int)N, "the centre lies outside the chain"); for (int i = 0; i < (int)N; ++i) if (i != c) sx_assert(isometry(at(m, i), i < c ? 3 : 0), "the operator claims a centre but is not in canonical form around it"); sx_reach("centralised");
}
static void histories() {
  FMpo m = fresh("A", 2); T want = chainO(m); int L = sx_param("L", 2);
  for (int k = 0; k < L; ++k) {
    size_t op = pickN("op", 0, 8), x = 0; if (op < 3 || op == 6) x = pickN("site", 0, N - 1);
    if (op == 0) { m.Centralize(x); sx_assert(m.GetCenter() == (int)x, "Centralize does not put the centre where it was asked to"); }
    else if (op == 1) { sx_assume(x + 1 < N); m.LeftCanonicalize(x); for (size_t i = 0; i <= x; ++i) sx_assert(m.GetTenCanoType(i) == MPSTenCanoType::LEFT, "LeftCanonicalize leaves a tensor uncanonicalised"); }
    else if (op == 2) { sx_assume(x > 0); m.RightCanonicalize(x); for (size_t i = x; i < N; ++i) sx_assert(m.GetTenCanoType(i) == MPSTenCanoType::RIGHT, "RightCanonicalize leaves a tensor uncanonicalised"); }
    else if (op == 3) { if (pickN("how", 0, 1)) m *= -0.5; else m.Scale(-0.5); want *= -0.5; sx_reach("scaled"); }
    else if (op == 4) { FMpo b = fresh(k ? "C" : "B", 2); want = sum(want, chainO(b)); if (pickN("how", 0, 1)) { FMpo r = m + b; m = r; } else m += b; sx_reach("sum"); }
    else if (op == 5) { FMpo b = fresh(k ? "C" : "B", 2), r(N); if (pickN("used", 0, 1)) r = fresh("old", 1); bool left = pickN("left", 0, 1); T w = left ? times(chainO(b), want) : times(want, chainO(b)); if (left) MpoProduct(b, m, r); else MpoProduct(m, b, r); T g = chainO(r); sx_assert(sameOp(g, w), "the product of two operators is wrong"); m = std::move(r); want = g; sx_reach("product"); }
    else if (op == 6) { T t = T::atom(at(m, x).GetIndexes(), nameOf("U", k)); if (pickN("how", 0, 1)) { delete m(x); m(x) = new T(t); } else m[x] = t; want = chainO(m); }
    else if (op == 7) { m.Dump("ops"); FMpo r(N); sx_assert(!r.Load("nowhere"), "loading from a missing directory succeeds"); sx_assert(r.Load("ops") && r.GetCenter() == m.GetCenter(), "the stored operator has another centre"); m = std::move(r); sx_reach("loaded"); }
    else { size_t D = 1; for (size_t i = 0; i + 1 < N; ++i) D = std::max(D, at(m, i).GetShape()[3]); const FMpo& c = m; sx_assert(c.GetMaxBondDim() == D, "the largest bond dimension is wrong"); FMpo t(m); sx_assert(close(t.Trace(), traceOf(want)), "the trace of the operator is wrong"); FMpo id = GenerateIdentityMPO(m); FMpo p(N); MpoProduct(id, m, p); sx_assert(sameOp(chainO(p), want), "the identity operator is not the identity"); fit(id); sx_reach("trace"); }
    fit(m); sx_assert(sameOp(chainO(m), want), "the operator changed"); flags(m);
  }
}
static size_t LO, HI; static double TR; static size_t keep(size_t lo, size_t hi, double tr) { sx_assert(tr == TR && lo <= LO && hi <= HI, "a decomposition does not use the requested truncation"); sx_reach("truncated"); static int n, pat; if (n++ == 0) pat = (int)pickN("kept", 0, 3); return lo + std::min<size_t>(pat >> (n & 1) & 1, hi - lo); }
static void truncate() {
  FMpo m = fresh("A", sx_param("D", 3)); if (pickN("prepared", 0, 1)) m.Centralize(pickN("site", 0, N - 1)); T want = chainO(m); bool ex = pickN("exact", 0, 1); LO = 1; HI = ex ? 64 : pickN("Dmax", 1, 3); TR = ex ? 0 : 0.01; diag::pick() = &keep;
  m.Truncate(TR, LO, HI); fit(m); flags(m); for (size_t i = 1; i < N; ++i) { sx_assert(at(m, i).GetShape()[0] <= HI, "a bond exceeds the requested dimension"); sx_assert(isometry(at(m, i), 0), "a tensor is not right-canonical after truncation"); } if (ex) { sx_assert(sameOp(chainO(m), want), "an exact truncation changes the operator"); sx_reach("exact"); }
}
static T project(const FMpo& o, const FMpo& a, const FMpo& b, size_t l) { // everything but sites l, l+1 of the output, contracted with the adjoint of the output
  auto edge3 = [&](bool left) { size_t k = left ? 0 : N - 1, x = left ? 0 : 3; T t({at(o, k == 0 ? 0 : k).IsDefault() ? at(a, k).GetIndex(x) : at(o, k).GetIndex(x), InverseIndex(at(a, k).GetIndex(x)), InverseIndex(at(b, k).GetIndex(x))}); t({0, 0, 0}) = 1; return t; };
  T L = edge3(true), R = edge3(false);
  for (size_t i = 0; i < l; ++i) { T x = ct(ct(L, {1}, at(a, i), {0}), {1, 2}, at(b, i), {0, 2}); x = ct(x, {0, 3, 1}, Dag(at(o, i)), {0, 1, 2}); x.Transpose({2, 0, 1}); L = x; }   // after a: o, b, a.in, a.out, a.r ; after b: o, a.out, a.r, b.in, b.r
  for (size_t i = N; i-- > l + 2;) { T x = ct(ct(R, {1}, at(a, i), {3}), {1, 3}, at(b, i), {3, 2}); x = ct(x, {0, 4, 2}, Dag(at(o, i)), {3, 1, 2}); x.Transpose({2, 0, 1}); R = x; }   // after a: o, b, a.l, a.in, a.out ; after b: o, a.l, a.out, b.l, b.in
  auto local = [&](size_t i) { T x = ct(at(a, i), {1}, at(b, i), {2}); return x; };   // a.l, a.out, a.r, b.l, b.in, b.r
  T x = ct(L, {1, 2}, local(l), {0, 3}); x = ct(x, {2, 4}, local(l + 1), {0, 3}); x = ct(x, {4, 6}, R, {1, 2}); x.Transpose({0, 2, 1, 4, 3, 5}); return x;   // o, out, ar, in, br -> o, out, in, out', ar', in', br'
}
static void variational() {
  bool sq = pickN("square", 0, 1), ex = sx_param("TRUNC", 0) == 0, old = pickN("initial", 0, 1); FMpo a = fresh("A", 2), b = sq ? a : fresh("B", 2), o(N); if (old) o = fresh("O", 2); if (old && sq) { o.Centralize(pickN("site", 0, N - 1)); o.Dump("start"); }
  LO = 1; HI = ex ? 64 : 2; TR = ex ? 0 : 0.01; if (!ex) diag::pick() = &keep; size_t sweeps = pickN("sweeps", 1, sx_param("SWEEPS", 2)); double tol = pickN("converged", 0, 1) ? 1e9 : 0; FMpo* cur = sq ? nullptr : &o; std::vector<size_t> seen; T last; size_t lastL = N;
  std::vector<T> now; bool running = true;
  diag::onSvd<E, Q>() = [&](const T& t, size_t ld) {
    if (!running || t.Rank() != 6) return; sx_assert(ld == 3, "the two-site operator is split at the wrong place");
    if (!cur) { now.push_back(t); return; }   // inside Square the output is not reachable
    size_t l = N; T w; for (size_t i = 0; i + 2 <= N && l == N; ++i) { if (at(*cur, i).IsDefault() != at(*cur, i + 1).IsDefault()) continue; bool skip = false; for (size_t k = 0; k < N; ++k) if (k != i && k != i + 1 && at(*cur, k).IsDefault()) skip = true; if (skip) continue; if (t.ix != std::vector<I>{t.ix[0], InverseIndex(phys()), phys(), InverseIndex(phys()), phys(), t.ix[5]}) continue; w = project(*cur, a, b, i); if (w.ix == t.ix && w.same(t)) l = i; }
    sx_assert(l < N, "the two-site operator is not the projection of the product onto the present output"); for (size_t k = 0; k < N; ++k) if (k != l && k != l + 1) sx_assert(isometry(at(*cur, k), k < l ? 3 : 0), "the output is not canonical around the updated sites"); seen.push_back(l); last = t; lastL = l; };
  size_t run = tol > 0 ? std::min<size_t>(sweeps, 2) : sweeps;
  if (!sq) {
    MpoProduct(a, b, o, LO, HI, TR, sweeps, tol, "tmp", bool(pickN("info", 0, 1))); running = false; std::vector<size_t> n(N, 0); for (size_t l : seen) ++n[l]; for (size_t l = 0; l + 1 < N; ++l) sx_assert(n[l] >= run, "a bond is not updated in every sweep"); sx_assert(seen.size() == run * 2 * (N - 2), "the number of sweeps is wrong");
    fit(o); flags(o); sx_assert(o.GetCenter() == 1, "the centre is not at site 1"); for (size_t i = 1; i < N; ++i) sx_assert(at(o, i).GetShape()[0] <= HI, "a bond exceeds the requested dimension");
    if (ex) { T r = last; for (size_t i = lastL; i-- > 0;) r = ct(at(o, i), {3}, r, {0}); for (size_t i = lastL + 2; i < N; ++i) r = ct(r, {r.Rank() - 1}, at(o, i), {0}); sx_assert(sameOp(chainO(o), closeEnds(r)), "the result is not the last projection"); } sx_reach("product");
  } else { // the same through the member function
    FMpo c(N); if (old) c.Load("start"); FMpo d = a; MpoVOptimizeParams p(old ? "start" : "nothing", LO, HI, TR, sweeps, tol, "tmp"); double v = 0; bool nrm = pickN("normalise", 0, 1); if (nrm) v = d.SquareAndNormlize(p); else d.Square(p);
    std::vector<T> got = now; now.clear(); MpoProduct(a, a, c, LO, HI, TR, sweeps, tol, "tmp2"); running = false; if (ex) { bool k = got.size() == now.size(); for (size_t i = 0; k && i < got.size(); ++i) k = got[i].same(now[i]); sx_assert(k, "squaring is not the product with itself"); } fit(d); sx_assert(d.GetCenter() == 1, "the centre is not at site 1"); flags(d);
    if (ex) { if (nrm) { sx_assert(v == at(c, 1).Get2Norm(), "the norm of the square is wrong"); c(1)->Normalize(); } sx_assert(sameOp(chainO(d), chainO(c)), "the square is not the product with itself"); } sx_reach("square");
  }
  diag::onSvd<E, Q>() = nullptr;
}
static void exponential() {
  FMpo h = fresh("H", 2); T H = chainO(h), one, term; { FMpo id = GenerateIdentityMPO(h); one = chainO(id); term = one; } size_t order = pickN("order", 1, sx_param("ORDER", 4)); bool stop = pickN("converged", 0, 1); double tau = pickN("sign", 0, 1) ? -0.5 : 0.25;
  T want = one; for (size_t n = 1; n < order; ++n) { term = times(term, H); term *= -tau; term *= 1.0 / double(n); want = sum(want, term); if (stop && n % 2 == 0) break; }
  auto r = ExpFiniteMPO(h, tau, order, stop ? 1e9 : 0.0, 0.0, 1, 10000, 2, 0.0, "hn", "tmp"); sx_assert(sameOp(chainO(h), H), "the Hamiltonian changed"); FMpo d = r.second; fit(d);
  sx_assert(isometry(at(d, N - 1), 0), "the result is not canonical around site 0"); bool nm = false; T bare = chainO(d); bare.terms(); for (auto& t : bare.tm) { std::vector<diag::Atom> k; for (auto& a : t.n.at) if (diag::info(a.nm).kind != diag::SCALAR) k.push_back(a); else nm = true; t.n.at = k; t.k = diag::code(t.n); } diag::tidy(bare.tm);
  sx_assert(nm, "the result is not normalised"); sx_assert(sameOp(bare, want), "the result is not the Taylor series of the exponential"); sx_reach(order > 2 ? "series" : "short series");
}
extern "C" void sx_main() { int mode = sx_param("MODE", 0); N = pickN("sites", mode == 2 ? 3 : 2, sx_param("N", 3)); if (mode == 0) histories(); else if (mode == 1) truncate(); else if (mode == 2) variational(); else exponential(); }
