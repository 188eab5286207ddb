// C16: measurements give the expectation values, keep the state and the files.  Tensors and operators are uninterpreted.
// MODE: 0 one-site, memory  1 two-site, memory  2 multi-site, memory  3 one-site, disk  4 two-site group, disk  5 four-site group, disk
#include "diag/mpslib.h"
#include "qlmps/one_dim_tn/mps/finite_mps/finite_mps_measu_memory.h"
#include "qlmps/one_dim_tn/mps/finite_mps/finite_mps_measu_disk.h"
static const Sites* SV; static T ST; static VS none;
static I space(size_t i) { if (!sx_param("UNI", 0) && i % 2) return I({QNSector<Q>(qn(2), 1), QNSector<Q>(qn(0), 1), QNSector<Q>(qn(-2), 1)}, OUT); return phys(); }
static T op(const char* s, size_t site) { I o = SV->sites[site]; return T::atom({InverseIndex(o), o}, nameOf(s, sx_param("UNI", 0) ? 0 : o.dim())); }
static T inst(size_t kind, size_t site) { return kind ? op("F", site) : SV->id_ops[site]; }
typedef std::vector<std::pair<size_t, T>> Ops;
static E expect(const Ops& ops) {
  T a = ST; for (auto& p : ops) { size_t l = p.first + 1, n = a.Rank(); T r; std::vector<size_t> x = {l}, y = {0}, o; Contract(&a, x, &p.second, y, &r); for (size_t k = 0; k < n; ++k) o.push_back(k < l ? k : k == l ? n - 1 : k - 1); r.Transpose(o); a = r; }
  T d = Dag(ST), r; std::vector<size_t> x; for (size_t i = 0; i < a.Rank(); ++i) x.push_back(i); Contract(&a, x, &d, x, &r); return r();
}
static void make(Mps& m, const char* nm) { for (size_t i = 0; i < N; ++i) { m.alloc(i); m[i] = T::atom({bond(nm, i, full(i), IN), SV->sites[i], bond(nm, i + 1, full(i + 1))}, nameOf(nm, i + 1000)); } }
static void file(const std::string& name, const MeasuRes<E>& r) {
  std::ifstream f(name + ".json"); sx_assert(f.good(), "no results file"); std::string s((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>()); size_t p = 0; lit(s, p, "[");
  for (size_t k = 0; k < r.size(); ++k) { if (k) lit(s, p, ","); lit(s, p, "["); lit(s, p, "["); for (size_t i = 0; i < r[k].sites.size(); ++i) { if (i) lit(s, p, ","); sx_assert(numAt(s, p) == double(r[k].sites[i]), "the results file has a wrong site"); } lit(s, p, "]"); lit(s, p, ","); val(s, p, r[k].avg); lit(s, p, "]"); }
  lit(s, p, "]"); sx_assert(p == s.size(), "the results file is not the documented list"); sx_reach("file");
}
static void elem(const MeasuResElem<E>& e, const VS& sites, E want) { sx_assert(e.sites == sites, "a result carries the wrong sites"); if (e.avg == want) sx_reach("value"); else sx_fail("the measured value is not the expectation value"); }
static VS ascending(const char* nm, size_t n, size_t from) { VS s; size_t lo = from; for (size_t i = 0; i < n; ++i) { size_t x = pickN(nm, lo, N - (n - i)); s.push_back(x); lo = x + 1; } return s; }
static void kept(const Mps& m) { sx_assert(state(m).same(ST), "measuring changed the state"); checkFlags(m); }
static void fill(Ops& o, size_t a, size_t b, size_t kind) { for (size_t k = a + 1; k < b; ++k) o.push_back({k, inst(kind, k)}); }
static void memory(int mode) {
  Mps m(*SV); make(m, "A"); if (sx_bool("canonical")) m.Centralize(pickN("centre", 0, N - 1)); ST = state(m);
  if (mode == 0) {
    if (sx_bool("list")) {
      std::vector<T> ops = {op("A1", 0), op("B1", 0)}; auto r = MeasureOneSiteOp(m, ops, std::vector<std::string>{"ra", "rb"}); sx_assert(r.size() == 2, "wrong number of results");
      for (int k = 0; k < 2; ++k) { sx_assert(r[k].size() == N, "wrong number of results"); for (size_t i = 0; i < N; ++i) elem(r[k][i], {i}, expect({{i, ops[k]}})); file(k ? "rb" : "ra", r[k]); }
    } else { T o = op("A1", 0); auto r = MeasureOneSiteOp(m, o, std::string("ra")); sx_assert(r.size() == N, "wrong number of results"); for (size_t i = 0; i < N; ++i) elem(r[i], {i}, expect({{i, o}})); file("ra", r); }
  } else if (mode == 1) {
    bool uni = sx_bool("uniform"); size_t ev = pickN("events", 1, sx_param("EV", 2)); std::vector<VS> ss; std::vector<Ops> want; TenVV<E, Q> ins; size_t kind = uni ? pickN("insert", 0, 1) : 0; std::vector<T> ph;
    for (size_t e = 0; e < ev; ++e) {
      VS s = ascending("site", 2, 0); ss.push_back(s); if (e == 0) ph = {op("P", s[0]), op("R", s[1])}; else sx_assume(SV->sites[s[0]] == SV->sites[ss[0][0]] && SV->sites[s[1]] == SV->sites[ss[0][1]]);
      Ops o = {{s[0], ph[0]}}; std::vector<T> v; for (size_t k = s[0] + 1; k < s[1]; ++k) { size_t q = uni ? kind : pickN("ins", 0, 1); if (uni && kind == 0) sx_assume(SV->sites[k] == SV->sites[0] || sx_param("UNI", 0)); if (uni && kind) sx_assume(SV->sites[k] == SV->sites[0]); T i = inst(q, k); v.push_back(i); o.push_back({k, i}); } o.push_back({s[1], ph[1]}); want.push_back(o); ins.push_back(v);
    }
    auto r = uni ? MeasureTwoSiteOp(m, ph, inst(kind, 0), ss, "r2") : MeasureTwoSiteOp(m, ph, ins, ss, "r2"); sx_assert(r.size() == ev, "wrong number of results");
    for (size_t e = 0; e < ev; ++e) elem(r[e], ss[e], expect(want[e])); file("r2", r);
  } else {
    bool uni = sx_bool("uniform"); size_t ev = pickN("events", 1, sx_param("EV", 1)); std::vector<VS> ss; std::vector<Ops> want; TenVV<E, Q> ph, insU; TenVVV<E, Q> insV; const char* nm[] = {"P0", "P1", "P2", "P3"};
    for (size_t e = 0; e < ev; ++e) {
      size_t n = pickN("ops", 2, std::min<size_t>(N, 4)); VS s = ascending("site", n, 0); ss.push_back(s); std::vector<T> p, u; TenVV<E, Q> v; Ops o;
      for (size_t k = 0; k < n; ++k) { p.push_back(op(nm[k], s[k])); o.push_back({s[k], p.back()}); if (k + 1 < n) { size_t q = pickN("ins", 0, 1); std::vector<T> w; for (size_t x = s[k] + 1; x < s[k + 1]; ++x) { if (uni) sx_assume(SV->sites[x] == SV->sites[s[k] + 1]); w.push_back(inst(q, x)); o.push_back({x, w.back()}); } v.push_back(w); u.push_back(inst(q, std::min(s[k] + 1, N - 1))); } }
      if (!uni && sx_bool("tail")) { size_t t = pickN("to", s[n - 1], N - 1); std::vector<T> w; for (size_t x = s[n - 1] + 1; x <= t; ++x) { w.push_back(op("F", x)); o.push_back({x, w.back()}); } v.push_back(w); sx_reach("tail"); }
      ph.push_back(p); insU.push_back(u); insV.push_back(v); want.push_back(o);
    }
    auto r = uni ? MeasureMultiSiteOp(m, ph, insU, ss, "rm") : MeasureMultiSiteOp(m, ph, insV, ss, "rm"); sx_assert(r.size() == ev, "wrong number of results");
    for (size_t e = 0; e < ev; ++e) elem(r[e], ss[e], expect(want[e])); file("rm", r);
  }
  kept(m);
}
static void disk(int mode) {
  bool other = sx_bool("path"); std::string dir = other ? "elsewhere" : kMpsPath; { Mps a(*SV); make(a, "A"); a.Centralize(0); ST = state(a); a.Dump(dir, sx_bool("release")); }
  Mps m(*SV);
  if (mode == 3) {
    size_t which = pickN("overload", 0, 2); std::vector<T> ops = {op("A1", 0), op("B1", 0)};
    if (which == 0) { auto r = MeasureOneSiteOp(m, dir, ops[0], std::string("ra")); sx_assert(r.size() == N, "wrong number of results"); for (size_t i = 0; i < N; ++i) elem(r[i], {i}, expect({{i, ops[0]}})); file("ra", r); }
    else {
      VS s; if (which == 1) s = ascending("site", pickN("sites", 1, N), 0); else for (size_t i = 0; i < N; ++i) s.push_back(i); std::vector<std::string> f = {"ra", "rb"};
      auto r = which == 1 ? MeasureOneSiteOp(m, dir, ops, s, f) : MeasureOneSiteOp(m, dir, ops, f); sx_assert(r.size() == 2, "wrong number of results");
      for (int k = 0; k < 2; ++k) { sx_assert(r[k].size() == s.size(), "wrong number of results"); for (size_t i = 0; i < s.size(); ++i) elem(r[k][i], {s[i]}, expect({{s[i], ops[k]}})); file(f[k], r[k]); }
    }
  } else if (mode == 4) {
    size_t which = pickN("overload", 0, 2), s1 = pickN("first", 0, N - 2), kind = pickN("insert", 0, 2); if (kind != 2) sx_assume(sx_param("UNI", 0)); VS s2; if (which == 0) s2 = ascending("second", pickN("n", 1, N - 1 - s1), s1 + 1); else for (size_t i = s1 + 1; i < N; ++i) s2.push_back(i);
    for (size_t x : s2) sx_assume(SV->sites[x] == SV->sites[s2[0]]); T p1 = op("P", s1), p2 = op("R", s2[0]), in = kind == 2 ? T() : inst(kind, 0);
    auto r = which == 0 ? MeasureTwoSiteOpGroup(m, dir, p1, p2, s1, s2, in) : which == 1 ? MeasureTwoSiteOpGroup(m, dir, p1, p2, s1, in) : MeasureTwoSiteOpGroup(m, dir, p1, p2, s1, in, std::string("rg")); sx_assert(r.size() == s2.size(), "wrong number of results");
    for (size_t e = 0; e < s2.size(); ++e) { Ops o = {{s1, p1}}; fill(o, s1, s2[e], kind == 1); o.push_back({s2[e], p2}); elem(r[e], {s1, s2[e]}, expect(o)); } if (which == 2) file("rg", r);
  } else {
    VS rf = ascending("ref", 2, 0); sx_assume(rf[1] + 2 < N); size_t ev = pickN("events", 1, sx_param("EV", 2)), kind = pickN("insert", 0, 2); std::vector<std::array<size_t, 2>> tg; for (size_t e = 0; e < ev; ++e) { VS t = ascending("target", 2, rf[1] + 1); tg.push_back({t[0], t[1]}); }
    std::array<T, 4> ph = {op("P0", 0), op("P1", 0), op("P2", 0), op("P3", 0)}; auto r = MeasureFourSiteOpGroup(m, dir, ph, {rf[0], rf[1]}, tg, kind == 2 ? T() : inst(kind, 0)); sx_assert(r.size() == ev, "wrong number of results");
    std::vector<VS> got, exp; for (auto& e : r) { sx_assert(e.sites.size() == 4, "a result carries the wrong sites"); VS s = e.sites; got.push_back(s); Ops o = {{s[0], ph[0]}, {s[1], ph[1]}, {s[2], ph[2]}, {s[3], ph[3]}}; fill(o, s[0], s[1], kind == 1); fill(o, s[2], s[3], kind == 1); elem(e, s, expect(o)); }
    for (auto& t : tg) exp.push_back({rf[0], rf[1], t[0], t[1]}); std::sort(got.begin(), got.end()); std::sort(exp.begin(), exp.end()); sx_assert(got == exp, "the results are not those of the requested targets");
  }
  const Mps& c = m; for (size_t i = 0; i < N; ++i) sx_assert(c(i) == nullptr, "tensors are left in memory after the measurement");
  Mps back(*SV); back.Load(dir); sx_assert(state(back).same(ST), "measuring changed the data on disk");
}
extern "C" void sx_main() {
  int m = sx_param("MODE", 0); N = sx_param("N", 4); if (sx_param("NSYM", 0)) N = pickN("sites", 2, N); std::vector<I> v; for (size_t i = 0; i < N; ++i) v.push_back(space(i)); Sites s(v); SV = &s; if (m < 3) memory(m); else disk(m);
}
