// C10/C11: the case-parameter parser returns the value in the file, and reports a missing key or a wrong type instead of inventing a value.
// A JSON value is generated from symbolic choices (kind, digits, sign, characters, array elements); what every accessor must do follows from the choice.
#include "sx.h"
#include <string>
#include <vector>
#include <sstream>
#include <iostream>
#include <cstring>
#include "qlmps/case_params_parser.h"
struct J { // reference value
  int kind; /* 0 null 1 bool 2 integer 3 float 4 string 5 array 6 object */ bool b; bool neg; uint64_t mag; double d; std::string s; std::vector<J> a;
};
static std::string *text; static std::ostringstream *errs;
static const char *expect_type, *expect_key = "Key", *actual_type; static bool may_exit; static bool exit_missing; static std::string *file_path;
static const struct { const char *t; double v; } floats[] = {{"2.5", 2.5}, {"-0.125", -0.125}, {"3.0", 3.0}, {"1e3", 1000.0}, {"-4E0", -4.0}, {"0.1", 0.1}};
static J gen(int depth, int kinds) {
  J j; j.b = j.neg = false; j.mag = 0; j.d = 0; j.kind = (int)sx_concretize(sx_range("kind", 0, kinds)); std::string &t = *text;
  if (j.kind == 0) t += "null";
  else if (j.kind == 1) { j.b = sx_concretize(sx_range("bool", 0, 1)); t += j.b ? "true" : "false"; }
  else if (j.kind == 2) {
    static const struct { const char *p; uint64_t v; } pre[] = {{"", 0}, {"214748364", 214748364u}, {"429496729", 429496729u}, {"922337203685477580", 922337203685477580ull}, {"1844674407370955161", 1844674407370955161ull}};
    int big = (int)sx_concretize(sx_range("magnitude", 0, sx_param("BIG", 4))); j.neg = sx_concretize(sx_range("minus", 0, big == 4 ? 0 : 1)); if (j.neg) t += "-";
    t += pre[big].p; j.mag = pre[big].v; int nd = big ? 1 : (int)sx_concretize(sx_range("digits", 1, sx_param("DIGITS", 2)));
    for (int i = 0; i < nd; ++i) { long dg = sx_range("digit", (!big && i == 0 && nd > 1) ? 1 : 0, big == 4 ? 5 : (big == 3 ? 7 : 9)); t.push_back((char)('0' + dg)); j.mag = j.mag * 10 + (uint64_t)dg; }
  } else if (j.kind == 3) { int f = (int)sx_concretize(sx_range("float", 0, 5)); t += floats[f].t; j.d = floats[f].v; }
  else if (j.kind == 4) { int n = (int)sx_concretize(sx_range("length", 0, sx_param("STR", 2))); t += "\""; for (int i = 0; i < n; ++i) { long c = sx_range("char", 32, 126); sx_assume(c != '"' && c != '\\'); t.push_back((char)c); j.s.push_back((char)c); } t += "\""; }
  else if (j.kind == 5) { int n = (int)sx_concretize(sx_range("elements", 0, depth > 1 ? 0 : sx_param("ELEMS", 2))); t += "["; for (int i = 0; i < n; ++i) { if (i) t += ", "; j.a.push_back(gen(depth + 1, (int)sx_param("EKINDS", 5))); } t += "]"; }
  else t += "{\"x\": 1}";
  return j;
}
static bool fitsInt(const J &j) { return j.kind == 2 && (j.neg ? j.mag <= 2147483648ull : j.mag <= 2147483647ull); }
static long asInt(const J &j) { return j.neg ? -(long)j.mag : (long)j.mag; }
static bool fitsDouble(const J &j) { return j.kind == 2 || j.kind == 3; }
static double asDouble(const J &j) { return j.kind == 3 ? j.d : (j.neg ? -(double)j.mag : (double)j.mag); }

static bool fitsSize(const J &j) { return j.kind == 2 && (!j.neg || j.mag == 0); }
static bool allArr(const J &j, bool (*f)(const J &)) { if (j.kind != 5) return false; bool ok = true; for (auto &x : j.a) ok = ok && f(x); return ok; }
extern "C" void sx_on_exit(int code) {
  sx_assert(code == 1, "a parse error exits with status 1"); sx_assert(may_exit, "the program exits although the parameter is present and has the right type");
  std::string m = errs->str();
  sx_assert(m.find(*file_path) != std::string::npos, "the error message names the file"); sx_assert(!expect_key || m.find(expect_key) != std::string::npos, "the error message names the key");
  if (expect_type) sx_assert(m.find(expect_type) != std::string::npos, "the error message names the expected type");
  if (!exit_missing && actual_type) sx_assert(m.find(actual_type) != std::string::npos, "the error message names the actual type");
  if (!exit_missing) sx_reach("exit: wrong type"); else sx_reach("exit: missing");
}
static const char *tname(const J &j) { static const char *n[] = {"null", "boolean", "number", "number", "string", "array", "object"}; return n[j.kind]; }
template <typename T> static bool sameVec(const std::vector<T> &a, const std::vector<T> &b) { if (a.size() != b.size()) return false; int ok = 1; for (size_t i = 0; i < a.size(); ++i) ok &= (int)(a[i] == b[i]); return ok; }
// one accessor family: TryParseX, ParseXOr, ParseX
#define FAMILY(NAME, T, EXPECT, FITS, VALUE, DEFLT, SAME) do { \
    bool fits = present && (FITS); T dflt = DEFLT; T out = dflt; bool ok = parser.TryParse##NAME("Key", out); \
    sx_assert(ok == fits, "TryParse succeeds exactly when the parameter is present with the right type"); \
    if (fits) { T want = VALUE; sx_assert(SAME(out, want), "TryParse returns the value in the file"); sx_reach("value"); } else { sx_assert(SAME(out, dflt), "a failed TryParse leaves the output alone"); sx_reach("no value"); } \
    expect_type = EXPECT; \
    if (!present) { sx_assert(SAME(parser.Parse##NAME##Or("Key", dflt), dflt), "a missing parameter takes the default"); may_exit = true; exit_missing = true; parser.Parse##NAME("Key"); sx_fail("a missing parameter must not yield a value"); } \
    else if (fits) { T want = VALUE; may_exit = false; sx_assert(SAME(parser.Parse##NAME("Key"), want), "Parse returns the value in the file"); sx_assert(SAME(parser.Parse##NAME##Or("Key", dflt), want), "a present parameter overrides the default"); } \
    else { may_exit = true; exit_missing = false; if (sx_concretize(sx_range("use_default_form", 0, 1))) parser.Parse##NAME##Or("Key", dflt); else parser.Parse##NAME("Key"); sx_fail("a parameter of the wrong type must not yield a value"); } \
  } while (0)
#define EQ(a, b) ((a) == (b))
extern "C" void sx_main() {
  text = new std::string(); errs = new std::ostringstream(); file_path = new std::string("params_in.json"); std::cerr.rdbuf(errs->rdbuf());
  const int mode = (int)sx_param("MODE", 0); may_exit = false; exit_missing = false; expect_type = nullptr; actual_type = nullptr;
  if (mode == 2) { // construction
    int which = (int)sx_concretize(sx_range("file", 0, 4)); expect_key = nullptr; may_exit = true; exit_missing = true;
    static const char *bodies[] = {"", "{\"Other\": {\"Key\": 1}}", "{}", "{\"caseparams\": {\"Key\": 1}}", "{\"Other\": 3, \"CaseParams\": {\"Key\": 1}}"};
    if (which) sx_file_write(file_path->c_str(), bodies[which], strlen(bodies[which])); else *file_path = "no_such_file.json";
    if (which == 4) may_exit = false;
    qlmps::CaseParamsParserBasic parser(file_path->c_str());
    sx_assert(which == 4, "construction succeeds only when the file has the parameter object"); sx_assert(parser.Has("Key") && !parser.Has("key") && !parser.Has("Other"), "Has answers for the parameter object"); sx_assert(parser.ParseInt("Key") == 1, "value"); sx_reach("constructed");
    return;
  }
  bool present = sx_concretize(sx_range("present", 0, 1)); J j; j.kind = 0;
  *text = "{\"Version\": 1, \"CaseParams\": {\"First\": [1, 2], "; *text += present ? "\"Key\": " : "\"key\": "; int acc = (int)sx_concretize(sx_range("accessor", 0, 7));
  if (mode == 0) { if (present) j = gen(0, 6); else *text += "7"; } else { if (!present || acc < 5) sx_kill(); *text += "["; j.kind = 5; int n = (int)sx_concretize(sx_range("elements", 0, sx_param("ELEMS", 2))); for (int i = 0; i < n; ++i) { if (i) *text += ","; j.a.push_back(gen(1, (int)sx_param("EKINDS", 4))); } *text += "]"; }

  *text += ", \"Last\": \"z\"}}"; actual_type = tname(j);
  sx_file_write(file_path->c_str(), text->data(), text->size());
  qlmps::CaseParamsParserBasic parser(file_path->c_str());
  sx_assert(parser.Has("Key") == present, "Has answers whether the key is there"); sx_assert(parser.Has("First") && parser.Has("Last") && !parser.Has("Version") && !parser.Has("CaseParams"), "Has answers for the parameter object only");
  switch (acc) {
    case 0: FAMILY(Int, int, "integer", fitsInt(j), (int)asInt(j), -77, EQ); break;
    case 1: FAMILY(Double, double, "number", fitsDouble(j), asDouble(j), -7.75, EQ); break;
    case 2: FAMILY(Char, char, "string", j.kind == 4, (j.s.empty() ? '\0' : j.s[0]), '#', EQ); break;
    case 3: FAMILY(Str, std::string, "string", j.kind == 4, j.s, std::string("dflt"), EQ); break;
    case 4: FAMILY(Bool, bool, "boolean", j.kind == 1, j.b, !j.b, EQ); break;
    case 5: { std::vector<int> w; for (auto &x : j.a) w.push_back((int)asInt(x)); FAMILY(IntVec, std::vector<int>, "integer", allArr(j, fitsInt), w, (std::vector<int>{5, 6, 7}), sameVec); break; }
    case 6: { std::vector<size_t> w; for (auto &x : j.a) w.push_back((size_t)x.mag); FAMILY(SizeTVec, std::vector<size_t>, "integer", allArr(j, fitsSize), w, (std::vector<size_t>{5, 6, 7}), sameVec); break; }
    default: { std::vector<double> w; for (auto &x : j.a) w.push_back(asDouble(x)); FAMILY(DoubleVec, std::vector<double>, "number", allArr(j, fitsDouble), w, (std::vector<double>{5.5, 6.0, 7.0}), sameVec); break; }
  }
}
