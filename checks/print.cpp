// C11: the printed symbolic form of coefficients, operators and matrices names exactly the summands it stands for.
// Bounds: NC summands per coefficient with labels 0..26, M summands per operator with labels 0..OMAX.
#include "sx.h"
#include <string>
#include <vector>
#include <iostream>
#include <sstream>
#include "qlmps/one_dim_tn/mpo/mpogen/symb_alg/coef_op_alg.h"
typedef std::vector<long> LV;
static int sameBag(const LV &a, const LV &b) { if (a.size() != b.size()) return 0; int ok = 1; for (long x : a) { long p = 0, q = 0; for (long y : a) p += (long)(x == y); for (long y : b) q += (long)(x == y); ok &= (int)(p == q); } return ok; }
// letter -> label; -1 when the character is no coefficient
static long coefOf(char c) { long v = (long)(unsigned char)c; return v == '1' ? 0 : ((v >= 'a') & (v <= 'z')) ? v - 'a' + 1 : -1; }
// parses "0" | symbol | "(" symbol ("+" symbol)* ")" at p; false when malformed
static bool parseCoef(const std::string &s, size_t &p, LV &out) {
  if (p >= s.size()) return false;
  if (s[p] == '(') { ++p; for (;;) { if (p >= s.size()) return false; out.push_back(coefOf(s[p++])); if (p >= s.size()) return false; char c = s[p++]; if (c == ')') return true; if (c != '+') return false; } }
  if (s[p] == '0') { ++p; return true; } out.push_back(coefOf(s[p++])); return true;
}
static bool parseOp(const std::string &s, size_t &p, long &label) {
  if (p >= s.size()) return false; if (s[p] == 'I' && p + 1 < s.size() && s[p + 1] == 'd') { p += 2; label = 0; return true; }
  long c = s[p++]; if (c < 'A' || c > 'Z') return false; long n = 0; bool num = false; while (p < s.size() && s[p] >= '0' && s[p] <= '9') { n = n * 10 + (s[p++] - '0'); num = true; }
  if (num && n == 0) return false; label = n * 26 + (c - 'A') + 1; return true;
}
extern "C" void sx_main() {
  const int mode = (int)sx_param("MODE", 0); const long OM = sx_param("OMAX", 60); const size_t NC = sx_param("NC", 3), M = sx_param("M", 2);
  if (mode == 0) { size_t n = sx_concretize(sx_range("n", 0, (long)NC)); LV l, got; for (size_t i = 0; i < n; ++i) l.push_back(sx_range("label", 0, 26)); std::string s = CoefRepr(l).ToString(); size_t p = 0;
    bool ok = parseCoef(s, p, got) && p == s.size(); sx_assert(ok, "a printed coefficient is a symbol or a parenthesised sum of symbols"); sx_assert(sameBag(l, got), "a printed coefficient names exactly its summands"); sx_observe("len", s.size()); if (n > 1) sx_reach("sum"); if (n == 0) sx_reach("zero"); return; }
  if (mode == 1) { size_t n = sx_concretize(sx_range("n", 0, (long)M)); std::vector<LV> cs; LV ops; OpRepr o; long last = -1;
    for (size_t i = 0; i < n; ++i) { long op = sx_range("op", 0, OM); sx_assume(op > last); last = op; size_t k = sx_concretize(sx_range("coefs", 1, 2)); LV c; for (size_t j = 0; j < k; ++j) c.push_back(sx_range("label", 0, 26)); cs.push_back(c); ops.push_back(op); o += OpRepr(CoefRepr(c), op); }
    std::string s = o.ToString(); std::ostringstream os; os << o; sx_assert(os.str() == s, "streaming an operator writes its printed form");
    if (n == 0) { sx_assert(s == "0", "the null operator prints as 0"); sx_reach("zero"); return; }
    size_t p = 0; int ok = 1; for (size_t i = 0; i < n; ++i) { if (i) { sx_assert(p < s.size() && s[p] == '+', "summands are joined by +"); ++p; } LV got; long lab = -1; bool w = parseCoef(s, p, got) && parseOp(s, p, lab); sx_assert(w, "each summand prints as coefficient and operator symbol"); long hits = 0; for (size_t j = 0; j < n; ++j) hits += (long)(ops[j] == lab) & (long)sameBag(cs[j], got); ok &= (int)(hits == 1); }
    sx_assert(ok && p == s.size(), "a printed operator names exactly its summands"); sx_reach("operator"); return; }
  // realised form: coefficients are printed as the numbers they stand for
  size_t n = sx_concretize(sx_range("n", 0, (long)NC)); LV l; long want = 0; std::vector<long> map; for (long i = 0; i < 3; ++i) map.push_back(sx_range("number", -20, 20)); for (size_t i = 0; i < n; ++i) { long x = sx_concretize(sx_range("label", 0, 2)); l.push_back(x); want += map[x]; }
  sx_assert(CoefRepr(l).ToString(map) == std::to_string(want), "a realised coefficient prints as the sum of its numbers"); long op = sx_range("op", 1, 26); std::string t(1, (char)('A' + op - 1)); sx_assert(OpRepr(CoefRepr(l), op).ToString(map) == std::to_string(want) + t, "a realised operator prints number and symbol"); sx_reach("numbers");
}
