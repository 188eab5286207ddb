// C04: coefficients and operators behave as formal sums.  Bounds: NA/NB/NC summands per coefficient list, labels 0..L, up to M summands per operator.
#include "sx.h"
#include <vector>
#include "qlmps/one_dim_tn/mpo/mpogen/symb_alg/coef_op_alg.h"
typedef std::vector<CNumberLabel> LV;
static LV symList(const char *n, size_t mx, long L) { size_t k = sx_concretize(sx_range(n, 0, mx)); LV v; for (size_t i = 0; i < k; ++i) v.push_back(sx_range("label", 0, L)); return v; }
static long cnt(const LV &v, long x) { long c = 0; for (size_t i = 0; i < v.size(); ++i) c += (long)(v[i] == x); return c; }
static int sameBag(const LV &a, const LV &b, long L) { int ok = (int)(a.size() == b.size()); for (long x = 0; x <= L; ++x) ok &= (int)(cnt(a, x) == cnt(b, x)); return ok; }
static LV cat(LV a, const LV &b) { for (long x : b) a.push_back(x); return a; }
static void coefs() {
  const long L = sx_param("L", 3); const size_t NA = sx_param("NA", 3), NB = sx_param("NB", 2), NC = sx_param("NC", 1);
  LV la = symList("na", NA, L), lb = symList("nb", NB, L), lc = symList("nc", NC, L);
  CoefRepr a(la), b(lb), c(lc);
  bool eq = a == b;
  sx_assert((int)eq == sameBag(la, lb, L), "two coefficients compare equal exactly when they have the same summands");
  sx_assert((a != b) == !eq && (b == a) == eq, "inequality / symmetry of coefficient equality");
  CoefRepr s = a + b, t = b + a;
  sx_assert(sameBag(s.GetCoefLabelList(), cat(la, lb), L), "the sum has the summands of both sides");
  sx_assert(s == t, "coefficient addition commutes");
  sx_assert((a + b) + c == a + (b + c), "coefficient addition is associative");
  CoefRepr d(a); d += b; sx_assert(d == s, "+= agrees with +");
  sx_assert(sameBag(a.GetCoefLabelList(), la, L) && sameBag(b.GetCoefLabelList(), lb, L), "operands unchanged");
  CoefRepr e; e = s; CoefRepr f(std::move(e)); CoefRepr g; g = std::move(f); sx_assert(sameBag(g.GetCoefLabelList(), cat(la, lb), L), "copying and moving keep the value");
  sx_assert((a == kNullCoefRepr) == la.empty() && a + kNullCoefRepr == a, "the null coefficient is the empty sum");
  std::vector<long> map; for (long x = 0; x <= L; ++x) map.push_back((long)sx_sym(16, "number"));
  long wa = 0; for (long x : la) { long v = 0; for (long y = 0; y <= L; ++y) v += map[y] * (long)(x == y); wa += v; }
  long wb = 0; for (long x : lb) { long v = 0; for (long y = 0; y <= L; ++y) v += map[y] * (long)(x == y); wb += v; }
  sx_assert(a.Realize(map) == wa, "realising a coefficient sums the numbers of its labels");
  sx_assert(s.Realize(map) == wa + wb, "realising a sum gives the sum");
  if (eq && la.size() > 1) sx_reach("equal multi-term coefficients"); if (!eq && la.size() == lb.size() && la.size() > 1) sx_reach("unequal coefficients of equal length");
}
struct OpT { long v[4]; OpT() { for (long &x : v) x = 0; } OpT &operator+=(const OpT &o) { for (int i = 0; i < 4; ++i) v[i] += o.v[i]; return *this; } };
static OpT operator*(long c, const OpT &o) { OpT r; for (int i = 0; i < 4; ++i) r.v[i] = c * o.v[i]; return r; }
struct Sum { std::vector<BasisOpLabel> ops; std::vector<LV> cs; };
static Sum symSum(const char *n, size_t mx, size_t cl, long O, long L) { Sum s; size_t k = sx_concretize(sx_range(n, 0, mx)); for (size_t i = 0; i < k; ++i) { s.ops.push_back(sx_range("op", 0, O)); LV c; size_t q = sx_concretize(sx_range("ncoef", 1, cl)); for (size_t j = 0; j < q; ++j) c.push_back(sx_range("label", 0, L)); s.cs.push_back(c); } return s; }
static OpRepr mk(const Sum &s) { std::vector<CoefRepr> c; for (auto &x : s.cs) c.push_back(CoefRepr(x)); return OpRepr(c, s.ops); }
static long num(const Sum &s, long op, long lab) { long n = 0; for (size_t i = 0; i < s.ops.size(); ++i) for (long l : s.cs[i]) n += (long)(s.ops[i] == op) & (long)(l == lab); return n; }
static Sum read(const OpRepr &o) { Sum s; s.ops = o.GetOpLabelList(); for (auto &c : o.GetCoefReprList()) s.cs.push_back(c.GetCoefLabelList()); return s; }
static int sameSum(const Sum &a, const Sum &b, long O, long L) { int ok = 1; for (long o = 0; o <= O; ++o) for (long l = 0; l <= L; ++l) ok &= (int)(num(a, o, l) == num(b, o, l)); return ok; }
static Sum plus(Sum a, const Sum &b) { for (size_t i = 0; i < b.ops.size(); ++i) { a.ops.push_back(b.ops[i]); a.cs.push_back(b.cs[i]); } return a; }
static void ops() {
  const long O = sx_param("O", 2), L = sx_param("L", 2); const size_t M = sx_param("M", 2), M2 = sx_param("M2", 2), CL = sx_param("CL", 1);
  Sum sa = symSum("na", M, CL, O, L), sb = symSum("nb", M2, CL, O, L); OpRepr a = mk(sa), b = mk(sb);
  Sum ra = read(a);
  sx_assert(ra.ops.size() == ra.cs.size(), "operator and coefficient lists line up");
  int uniq = 1; for (size_t i = 0; i < ra.ops.size(); ++i) for (size_t j = 0; j < i; ++j) uniq &= (int)(ra.ops[i] != ra.ops[j]);
  sx_assert(uniq, "every basis operator is listed once");
  sx_assert(sameSum(ra, sa, O, L), "an operator built from lists is the formal sum of its summands");
  bool eq = a == b; sx_assert((int)eq == sameSum(sa, sb, O, L), "two operators compare equal exactly when they are the same formal sum"); sx_assert((a != b) == !eq && (b == a) == eq, "inequality / symmetry");
  OpRepr s = a + b; sx_assert(sameSum(read(s), plus(sa, sb), O, L), "operator addition adds formal sums"); sx_assert(s == b + a, "operator addition commutes");
  OpRepr d(a); d += b; sx_assert(d == s, "+= agrees with +"); sx_assert(sameSum(read(a), sa, O, L) && sameSum(read(b), sb, O, L), "operands unchanged");
  OpRepr e; e = s; sx_assert(e == s && !(e != s), "assignment copies");
  sx_assert((a == kNullOpRepr) == sa.ops.empty() && a + kNullOpRepr == a && kNullOpRepr + a == a, "the null operator is the empty sum");
  if (sx_param("REALIZE", 1)) {
    std::vector<long> cm; for (long x = 0; x <= L; ++x) cm.push_back((long)sx_sym(8, "number")); std::vector<OpT> om; for (long x = 0; x <= O; ++x) { OpT t; t.v[x] = 1; om.push_back(t); }
    OpT r = s.Realize(cm, om); Sum sp = plus(sa, sb);
    for (long o = 0; o <= O; ++o) { long w = 0; for (long l = 0; l <= L; ++l) w += cm[l] * num(sp, o, l); sx_assert(r.v[o] == w, "realising an operator gives the weighted sum of its basis operators"); }
  }
  if (eq && sa.ops.size() > 1) sx_reach("equal operators"); if (ra.ops.size() < sa.ops.size()) sx_reach("duplicate labels merged");
}
static void ctors() { // the shorthand constructors denote what they say
  long o = sx_range("op", 0, 5), l = sx_range("label", 0, 5), p = sx_range("op2", 0, 5);
  Sum x; x.ops = {o}; x.cs = {LV{0}}; sx_assert(sameSum(read(OpRepr(o)), x, 5, 5), "OpRepr(label) is 1*op"); Sum y; y.ops = {o}; y.cs = {LV{l}}; sx_assert(sameSum(read(OpRepr(CoefRepr(l), o)), y, 5, 5), "OpRepr(coef, label) is coef*op");
  Sum z; z.ops = {o, p}; z.cs = {LV{0}, LV{0}}; sx_assert(sameSum(read(OpRepr(std::vector<BasisOpLabel>{o, p})), z, 5, 5), "OpRepr(labels) is the sum of the operators");
  sx_assert(read(OpRepr()).ops.empty(), "OpRepr() is zero"); sx_assert(CoefRepr(l).GetCoefLabelList() == LV{l}, "CoefRepr(label)"); sx_assert((CoefRepr(l) == kIdCoefRepr) == (l == 0), "label 0 is the identity coefficient");
}
extern "C" void sx_main() { switch (sx_param("MODE", 0)) { case 0: coefs(); break; case 1: ops(); break; default: ctors(); sx_reach("constructors"); } }
