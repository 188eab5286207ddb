// C14: site bases, operator tables and coupling helpers of the built-in models against second quantisation.
// MODEL: 0 spin-1/2, 1 t-J, 2 Hubbard.  TASK: 0 operator tables, 1 hopping, 2 Heisenberg coupling.  All symmetry choices are paths.
#include <cstddef>
#include <vector>
#include "sx.h"
#include "qlten/qlten.h"
#include "qlmps/site_vec.h"
#include "qlmps/one_dim_tn/mpo/mpogen/mpogen.h"
#include "qlmps/model_relevant/sites/model_site_base.h"
#include "qlmps/model_relevant/operators/operators_all.h"
using namespace qlmps; using namespace qlten; using special_qn::U1QN; using special_qn::U1U1QN; using special_qn::TrivialRepQN;
typedef std::vector<size_t> VS;
// local states: bit 0 = up electron, bit 1 = down electron
struct Basis { std::vector<int> st; int pos(int s) const { for (size_t i = 0; i < st.size(); ++i) if (st[i] == s) return i; return -1; } };
struct Site { template <class S> static Basis of(const S& s, std::true_type, std::true_type) { Basis b; b.st.assign(4, -1); b.st[s.double_occupancy] = 3; b.st[s.spin_up] = 1; b.st[s.spin_down] = 2; b.st[s.empty] = 0; return b; } };
static bool distinct(const Basis& b) { for (size_t i = 0; i < b.st.size(); ++i) { if (b.st[i] < 0) return false; for (size_t j = 0; j < i; ++j) if (b.st[i] == b.st[j]) return false; } return true; }
template <class Q> static Basis basis(const sites::HubbardSite<Q>& s) { Basis b; b.st.assign(4, -1); size_t p[4] = {s.empty, s.spin_up, s.spin_down, s.double_occupancy}; for (int i = 0; i < 4; ++i) if (p[i] < 4) b.st[p[i]] = i; return b; }
template <class Q> static Basis basis(const sites::tJSite<Q>& s) { Basis b; b.st.assign(3, -1); size_t p[3] = {s.empty, s.spin_up, s.spin_down}; for (int i = 0; i < 3; ++i) if (p[i] < 3) b.st[p[i]] = i; return b; }
template <class Q> static Basis basis(const sites::SpinOneHalfSite<Q>& s) { Basis b; b.st.assign(2, -1); size_t p[2] = {s.spin_up, s.spin_down}; for (int i = 0; i < 2; ++i) if (p[i] < 2) b.st[p[i]] = i + 1; return b; }
static int charges(const U1QN& q, int st) { int sz = (st & 1) - (st >> 1); return q == U1QN({QNCard("Sz", U1QNVal(sz))}); }
static int charges(const U1U1QN& q, int st) { int n = (st & 1) + (st >> 1), sz = (st & 1) - (st >> 1); return q == U1U1QN({QNCard("N", U1QNVal(n)), QNCard("Sz", U1QNVal(sz))}); }
static int charges(const TrivialRepQN&, int) { return 1; }
template <class Q> static void checkSite(const Index<Q>& out, const Index<Q>& in, const Basis& b) {
  sx_assert(distinct(b), "the basis states of a site are not distinct positions"); sx_assert(out.GetDir() == OUT && in == InverseIndex(out), "the site's in- and out-going indexes do not match"); sx_assert(out.dim() == b.st.size(), "wrong dimension of a site");
  bool ok = true; for (size_t i = 0; i < b.st.size(); ++i) ok = ok && charges(out.GetQNSctFromActualCoor(i).GetQn(), b.st[i]); sx_assert(ok, "a basis state sits in the wrong charge sector");
}
// <row|O|col> given as a function of the local states
template <class T, class F> static void checkOp(const T& t, const Basis& b, const char* name, F f) {
  sx_debug(name, 0); bool ok = t.Rank() == 2; if (ok) for (size_t c = 0; c < b.st.size(); ++c) for (size_t r = 0; r < b.st.size(); ++r) ok = ok && t.GetElem({c, r}) == f(b.st[r], b.st[c]);
  if (!ok) sx_fail(name); sx_assert(t.hasDiv(), "an operator mixes charge sectors"); sx_reach("operator");
}
static double up(int s) { return s & 1; }
static double dn(int s) { return s >> 1; }
static double eq(int a, int b) { return a == b; }
static int par(int s) { return s == 1 || s == 2 ? -1 : 1; }
static double sp(int r, int c) { return r == 1 && c == 2; }
static double sm(int r, int c) { return r == 2 && c == 1; }
static double szv(int r, int c) { return eq(r, c) * 0.5 * (up(c) - dn(c)); }
template <class O> static void spinOps(const O& o, const Basis& b) { checkOp(o.sz, b, "sz is wrong", szv); checkOp(o.sp, b, "sp is wrong", sp); checkOp(o.sm, b, "sm is wrong", sm); checkOp(o.id, b, "id is wrong", eq); }
static double bc(int r, int c, int m) { return !(c & m) && r == (c | m); }   // hard-core creation of mode m
static double ba(int r, int c, int m) { return bc(c, r, m); }
template <class O> static void fermionOps(const O& o, const Basis& b) {
  checkOp(o.f, b, "f is wrong", [](int r, int c) { return eq(r, c) * par(c); });
  checkOp(o.bupc, b, "bupc is wrong", [](int r, int c) { return bc(r, c, 1); }); checkOp(o.bupa, b, "bupa is wrong", [](int r, int c) { return ba(r, c, 1); });
  checkOp(o.bdnc, b, "bdnc is wrong", [](int r, int c) { return bc(r, c, 2); }); checkOp(o.bdna, b, "bdna is wrong", [](int r, int c) { return ba(r, c, 2); });
  checkOp(o.nf, b, "nf is wrong", [](int r, int c) { return eq(r, c) * (up(c) + dn(c)); }); checkOp(o.nup, b, "nup is wrong", [](int r, int c) { return eq(r, c) * up(c); }); checkOp(o.ndn, b, "ndn is wrong", [](int r, int c) { return eq(r, c) * dn(c); });
}
template <class O> static void hubbardOps(const O& o, const Basis& b) {
  spinOps(o, b); fermionOps(o, b);
  checkOp(o.bupcF, b, "bupcF is wrong", [](int r, int c) { return bc(r, c, 1) * par(c); }); checkOp(o.bupaF, b, "bupaF is wrong", [](int r, int c) { return ba(r, c, 1) * par(c); });
  checkOp(o.Fbdnc, b, "Fbdnc is wrong", [](int r, int c) { return par(r) * bc(r, c, 2); }); checkOp(o.Fbdna, b, "Fbdna is wrong", [](int r, int c) { return par(r) * ba(r, c, 2); });
  checkOp(o.cupccdnc, b, "cupccdnc is wrong", [](int r, int c) { return double(r == 3 && c == 0); }); checkOp(o.cdnacupa, b, "cdnacupa is wrong", [](int r, int c) { return double(r == 0 && c == 3); });
  checkOp(o.cupccdna, b, "cupccdna is wrong", sp); checkOp(o.cdnccupa, b, "cdnccupa is wrong", sm);
  auto nn = [](int r, int c) { return eq(r, c) * up(c) * dn(c); }; checkOp(o.nupndn, b, "nupndn is wrong", nn); checkOp(o.Uterm, b, "Uterm is wrong", nn);
  checkOp(o.nfsquare, b, "nfsquare is wrong", [](int r, int c) { double n = up(c) + dn(c); return eq(r, c) * n * n; });
}
template <class O> static void tjOps(const O& o, const Basis& b) {
  spinOps(o, b); fermionOps(o, b);
  checkOp(o.bdnc_multi_bupa, b, "bdnc_multi_bupa is not down-creation times up-annihilation", sm); checkOp(o.bupc_multi_bdna, b, "bupc_multi_bdna is not up-creation times down-annihilation", sp);
}
static double sxr(int r, int c) { return 0.5 * (sp(r, c) + sm(r, c)); }
static QLTEN_Complex syc(int r, int c) { return QLTEN_Complex(0, -0.5) * sp(r, c) + QLTEN_Complex(0, 0.5) * sm(r, c); }
// ---- many-body oracle: modes ordered (site 0 up, site 0 down, site 1 up, ...)
typedef std::vector<int> Conf;
static int annih(Conf& c, size_t s, int m) { if (!(c[s] & m)) return 0; int n = 0; for (size_t i = 0; i < s; ++i) n += (c[i] & 1) + (c[i] >> 1); if (m == 2) n += c[s] & 1; c[s] &= ~m; return n % 2 ? -1 : 1; }
static int creat(Conf& c, size_t s, int m) { if (c[s] & m) return 0; c[s] |= m; Conf d = c; return annih(d, s, m); }
// matrix elements of the MPO against the oracle
template <class E, class Q> struct Walk {
  const MPO<QLTensor<E, Q>>& m; const Basis& b; size_t N; Conf in, out; bool ok = true; virtual E want() = 0;
  Walk(const MPO<QLTensor<E, Q>>& mm, const Basis& bb, size_t n) : m(mm), b(bb), N(n), in(n), out(n) {}
  void go(size_t s, const std::vector<E>& v) {
    if (s == N) { ok = ok && v[0] == want(); return; }
    const auto& t = m[s]; size_t L = t.GetIndex(0).dim(), R = t.GetIndex(3).dim(), d = b.st.size();
    for (size_t c = 0; c < d; ++c) for (size_t r = 0; r < d; ++r) { in[s] = b.st[c]; out[s] = b.st[r]; std::vector<E> w(R, E(0)); for (size_t x = 0; x < L; ++x) for (size_t y = 0; y < R; ++y) { const E& e = t.a[((x * d + c) * d + r) * R + y]; if (!(e == E(0)) && !(v[x] == E(0))) w[y] += v[x] * e; } go(s + 1, w); }
  }
  bool run() { go(0, std::vector<E>(1, E(1))); return ok; }
};
template <class E, class Q> struct HopWalk : Walk<E, Q> {
  E t, tc; size_t i, j; using Walk<E, Q>::Walk;
  E want() override { E r = E(0); for (int m = 1; m <= 2; ++m) { Conf c = this->in; int s = annih(c, j, m); if (s) { s *= creat(c, i, m); if (s && c == this->out) r += -t * E(s); } c = this->in; s = annih(c, i, m); if (s) { s *= creat(c, j, m); if (s && c == this->out) r += -tc * E(s); } } return r; }
};
template <class E, class Q> struct HeisWalk : Walk<E, Q> {
  E J; size_t i, j; using Walk<E, Q>::Walk;
  E want() override { auto& a = this->in; auto& o = this->out; for (size_t s = 0; s < this->N; ++s) if (s != i && s != j && a[s] != o[s]) return E(0); return J * E(szv(o[i], a[i]) * szv(o[j], a[j]) + 0.5 * (sp(o[i], a[i]) * sm(o[j], a[j]) + sm(o[i], a[i]) * sp(o[j], a[j]))); }
};
static size_t N; static size_t si, sj;
static double real() { static const double p[] = {1, -0.5, 3, 0.25}; return p[sx_concretize(sx_range("amplitude", 0, 3))]; }
static void amp(double& d) { d = real(); }
static void amp(QLTEN_Complex& z) { double re = real(), im = sx_bool("imaginary") ? 0.5 : -1.5; z = QLTEN_Complex(re, im); }
template <class E, class Q, class S> static MPOGenerator<E, Q> gen(S& s) { return MPOGenerator<E, Q>(s.template GenUniformSites<E>(N)); }
template <class E, class Q, class O, class S> static void heis(S s) {
  auto g = gen<E, Q>(s); O ops; double J = real(); AddHeisenbergCoupling(g, J, si, sj, ops); auto m = g.Gen(); Basis b = basis(s); HeisWalk<E, Q> w(m, b, N); w.J = E(J); w.i = si; w.j = sj; sx_assert(w.run(), "AddHeisenbergCoupling does not add J S_i.S_j"); sx_reach("Heisenberg");
}
template <class E, class Q> static void hopH() { sites::HubbardSite<Q> s; auto g = gen<E, Q>(s); double t = real(); AddHubbardHoppingTerms(g, t, si, sj); auto m = g.Gen(); Basis b = basis(s); HopWalk<E, Q> w(m, b, N); w.t = w.tc = E(t); w.i = si; w.j = sj; sx_assert(w.run(), "AddHubbardHoppingTerms does not add the hopping term"); sx_reach("hopping"); }
template <class E, class Q> static void hopT() { sites::tJSite<Q> s; auto g = gen<E, Q>(s); E t; amp(t); AddTJHoppingTerms(g, t, si, sj); auto m = g.Gen(); Basis b = basis(s); HopWalk<E, Q> w(m, b, N); w.t = t; w.tc = CalcConj(t); w.i = si; w.j = sj; sx_assert(w.run(), "AddTJHoppingTerms does not add the hopping term"); sx_reach("hopping"); }
extern "C" void sx_main() {
  const int model = sx_param("MODEL", 0), task = sx_param("TASK", 0); N = sx_param("N", 3);
  int sym = sx_concretize(sx_range("symmetry", 0, 2));
  if (task) { si = sx_concretize(sx_range("i", 0, N - 1)); sj = sx_concretize(sx_range("j", 0, N - 1)); sx_assume(si != sj); }
  if (model == 0) {
    sx_assume(sym != 1);
    if (task == 0) {
      if (sym == 0) { sites::SpinOneHalfSite<U1QN> s; checkSite(s.phys_bond_out, s.phys_bond_in, basis(s)); spinOps(SpinOneHalfOperators<double, U1QN>(), basis(s)); }
      else { sites::SpinOneHalfSite<TrivialRepQN> s; checkSite(s.phys_bond_out, s.phys_bond_in, basis(s)); SpinOneHalfOperators<QLTEN_Complex, TrivialRepQN> o; spinOps(o, basis(s)); checkOp(o.GetSx(), basis(s), "sx is wrong", sxr); checkOp(o.GetSy(), basis(s), "sy is wrong", syc); }
    } else { if (sym == 0) heis<double, U1QN, SpinOneHalfOperators<double, U1QN>>(sites::SpinOneHalfSite<U1QN>()); else heis<QLTEN_Complex, TrivialRepQN, SpinOneHalfOperators<QLTEN_Complex, TrivialRepQN>>(sites::SpinOneHalfSite<TrivialRepQN>()); }
  } else if (model == 1) {
    if (task == 0) {
      if (sym == 0) { sites::tJSite<U1QN> s; checkSite(s.phys_bond_out, s.phys_bond_in, basis(s)); tjOps(tJOperators<double, U1QN>(), basis(s)); }
      else if (sym == 1) { sites::tJSite<U1U1QN> s; checkSite(s.phys_bond_out, s.phys_bond_in, basis(s)); tjOps(tJOperators<QLTEN_Complex, U1U1QN>(), basis(s)); }
      else { sites::tJSite<TrivialRepQN> s; checkSite(s.phys_bond_out, s.phys_bond_in, basis(s)); tjOps(tJOperators<double, TrivialRepQN>(), basis(s)); }
    } else if (task == 1) { if (sym == 0) hopT<double, U1QN>(); else if (sym == 1) hopT<QLTEN_Complex, U1U1QN>(); else hopT<QLTEN_Complex, TrivialRepQN>(); }
    else { if (sym == 0) heis<double, U1QN, tJOperators<double, U1QN>>(sites::tJSite<U1QN>()); else if (sym == 1) heis<double, U1U1QN, tJOperators<double, U1U1QN>>(sites::tJSite<U1U1QN>()); else sx_kill(); }
  } else {
    if (task == 0) {
      if (sym == 0) { sites::HubbardSite<U1QN> s; checkSite(s.phys_bond_out, s.phys_bond_in, basis(s)); hubbardOps(HubbardOperators<double, U1QN>(), basis(s)); }
      else if (sym == 1) { sites::HubbardSite<U1U1QN> s; checkSite(s.phys_bond_out, s.phys_bond_in, basis(s)); hubbardOps(HubbardOperators<double, U1U1QN>(), basis(s)); }
      else { sites::HubbardSite<TrivialRepQN> s; checkSite(s.phys_bond_out, s.phys_bond_in, basis(s)); HubbardOperators<QLTEN_Complex, TrivialRepQN> o; hubbardOps(o, basis(s)); checkOp(o.GetSx(), basis(s), "sx is wrong", sxr); checkOp(o.GetSy(), basis(s), "sy is wrong", syc); }
    } else if (task == 1) { if (sym == 0) hopH<double, U1QN>(); else if (sym == 1) hopH<double, U1U1QN>(); else hopH<QLTEN_Complex, TrivialRepQN>(); }
    else { if (sym == 0) heis<double, U1QN, HubbardOperators<double, U1QN>>(sites::HubbardSite<U1QN>()); else if (sym == 1) heis<double, U1U1QN, HubbardOperators<double, U1U1QN>>(sites::HubbardSite<U1U1QN>()); else sx_kill(); }
  }
}
