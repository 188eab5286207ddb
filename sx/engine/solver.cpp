#include "solver.h"
#include <algorithm>
#include <map>

void Solver::reset() {
  for (auto* p : tr) delete p; for (auto* p : proxy) delete p; tr.clear(); proxy.clear();
  s.reset(); c.reset();
  c = std::make_unique<z3::context>();
  s = std::make_unique<z3::solver>(*c, z3::solver::simple());
  z3::params p(*c); p.set("timeout", timeout_ms); s->set(p);
  asserted = 0;
}
static Z3_ast fpOf(z3::context& c, z3::expr& bv) {
  Z3_sort st = bv.get_sort().bv_size() == 64 ? Z3_mk_fpa_sort_64(c) : Z3_mk_fpa_sort_32(c);
  return Z3_mk_fpa_to_fp_bv(c, bv, st);
}
z3::expr& Solver::trans(Expr* e0) {
  // iterative post-order
  std::vector<Expr*> st{e0};
  while (!st.empty()) {
    Expr* e = st.back();
    if (e->id >= tr.size()) tr.resize(EP.all.size() + 64, nullptr);
    if (tr[e->id]) { st.pop_back(); continue; }
    bool ready = true;
    for (int i = 0; i < 3; i++) if (e->k[i] && (e->k[i]->id >= tr.size() || !tr[e->k[i]->id])) { st.push_back(e->k[i]); ready = false; }
    if (!ready) continue;
    st.pop_back();
    z3::context& C = *c;
    auto K = [&](int i) -> z3::expr& { return *tr[e->k[i]->id]; };
    auto B = [&](const z3::expr& b) { return z3::ite(b, C.bv_val(1, 1), C.bv_val(0, 1)); };
    auto W = [&](Z3_ast a) { z3::expr r(C, a); C.check_error(); return r; };
    auto ieee = [&](Z3_ast a) { Z3_inc_ref(C, a); z3::expr r(C, Z3_mk_fpa_to_ieee_bv(C, a)); Z3_dec_ref(C, a); C.check_error(); return r; };
    z3::expr rm(C, Z3_mk_fpa_round_nearest_ties_to_even(C));
    z3::expr rz(C, Z3_mk_fpa_round_toward_zero(C));
    auto FP = [&](int i) { return z3::expr(C, fpOf(C, K(i))); };
    z3::expr r(C);
    switch (e->op) {
      case E_CONST:
        if (e->w <= 64) r = C.bv_val((uint64_t)e->v, e->w);
        else r = z3::concat(C.bv_val((uint64_t)e->v2, e->w - 64), C.bv_val((uint64_t)e->v, 64));
        break;
      case E_VAR: r = C.bv_const(("v" + std::to_string(e->v) + "_" + std::to_string(e->w)).c_str(), e->w); break;
      case E_ADD: r = K(0) + K(1); break;
      case E_SUB: r = K(0) - K(1); break;
      case E_MUL: r = K(0) * K(1); break;
      case E_UDIV: r = z3::udiv(K(0), K(1)); break;
      case E_SDIV: r = K(0) / K(1); break;
      case E_UREM: r = z3::urem(K(0), K(1)); break;
      case E_SREM: r = z3::srem(K(0), K(1)); break;
      case E_AND: r = K(0) & K(1); break;
      case E_OR: r = K(0) | K(1); break;
      case E_XOR: r = K(0) ^ K(1); break;
      case E_SHL: r = z3::shl(K(0), K(1)); break;
      case E_LSHR: r = z3::lshr(K(0), K(1)); break;
      case E_ASHR: r = z3::ashr(K(0), K(1)); break;
      case E_EQ: r = B(K(0) == K(1)); break;
      case E_ULT: r = B(z3::ult(K(0), K(1))); break;
      case E_ULE: r = B(z3::ule(K(0), K(1))); break;
      case E_SLT: r = B(K(0) < K(1)); break;
      case E_SLE: r = B(K(0) <= K(1)); break;
      case E_ITE: r = z3::ite(K(0) == C.bv_val(1, 1), K(1), K(2)); break;
      case E_CONCAT: r = z3::concat(K(0), K(1)); break;
      case E_EXTRACT: r = K(0).extract((unsigned)e->v + e->w - 1, (unsigned)e->v); break;
      case E_ZEXT: r = z3::zext(K(0), e->w - e->k[0]->w); break;
      case E_SEXT: r = z3::sext(K(0), e->w - e->k[0]->w); break;
      case E_FADD: r = ieee(Z3_mk_fpa_add(C, rm, FP(0), FP(1))); break;
      case E_FSUB: r = ieee(Z3_mk_fpa_sub(C, rm, FP(0), FP(1))); break;
      case E_FMUL: r = ieee(Z3_mk_fpa_mul(C, rm, FP(0), FP(1))); break;
      case E_FDIV: r = ieee(Z3_mk_fpa_div(C, rm, FP(0), FP(1))); break;
      case E_FSQRT: r = ieee(Z3_mk_fpa_sqrt(C, rm, FP(0))); break;
      case E_FMA: r = ieee(Z3_mk_fpa_fma(C, rm, FP(0), FP(1), FP(2))); break;
      case E_FOEQ: r = B(W(Z3_mk_fpa_eq(C, FP(0), FP(1)))); break;
      case E_FOLT: r = B(W(Z3_mk_fpa_lt(C, FP(0), FP(1)))); break;
      case E_FOLE: r = B(W(Z3_mk_fpa_leq(C, FP(0), FP(1)))); break;
      case E_FUNO: r = B(W(Z3_mk_fpa_is_nan(C, FP(0))) || W(Z3_mk_fpa_is_nan(C, FP(1)))); break;
      case E_FPTOSI: r = W(Z3_mk_fpa_to_sbv(C, rz, FP(0), e->w)); break;
      case E_FPTOUI: r = W(Z3_mk_fpa_to_ubv(C, rz, FP(0), e->w)); break;
      case E_SITOFP: r = ieee(Z3_mk_fpa_to_fp_signed(C, rm, K(0), e->w == 64 ? Z3_mk_fpa_sort_64(C) : Z3_mk_fpa_sort_32(C))); break;
      case E_UITOFP: r = ieee(Z3_mk_fpa_to_fp_unsigned(C, rm, K(0), e->w == 64 ? Z3_mk_fpa_sort_64(C) : Z3_mk_fpa_sort_32(C))); break;
      case E_FPCVT: r = ieee(Z3_mk_fpa_to_fp_float(C, rm, FP(0), e->w == 64 ? Z3_mk_fpa_sort_64(C) : Z3_mk_fpa_sort_32(C))); break;
    }
    tr[e->id] = new z3::expr(r);
  }
  return *tr[e0->id];
}

static void collectVars(Expr* e, std::unordered_set<Expr*>& seen, std::map<u32, unsigned>& vars) {
  std::vector<Expr*> st{e};
  while (!st.empty()) { Expr* x = st.back(); st.pop_back(); if (!seen.insert(x).second) continue;
    if (x->op == E_VAR) vars[(u32)x->v] = x->w;
    for (int i = 0; i < 3; i++) if (x->k[i] && x->k[i]->mask) st.push_back(x->k[i]); }
}

// does the expression contain floating-point operations?
static bool usesFP(Expr* e) {
  static std::vector<char> memo; // 0 unknown, 1 no, 2 yes
  if (memo.size() < EP.all.size()) memo.resize(EP.all.size() + 1024, 0);
  std::vector<Expr*> st{e};
  while (!st.empty()) { Expr* x = st.back(); if (memo[x->id]) { st.pop_back(); continue; }
    bool rdy = true, f = x->op >= E_FADD; for (int i = 0; i < 3; i++) if (x->k[i]) { if (!memo[x->k[i]->id]) { st.push_back(x->k[i]); rdy = false; } else if (memo[x->k[i]->id] == 2) f = true; }
    if (rdy) { memo[x->id] = f ? 2 : 1; st.pop_back(); } }
  return memo[e->id] == 2;
}

SatRes Solver::check(const std::vector<Expr*>& pc, Expr* extra, const Model& base, Model& m, u32 nvars) {
  if (isC(extra)) { if (extra->v) { m = base; return SAT; } return UNSAT; }
  // independence slicing on variable masks
  std::vector<Expr*> sl; u64 mask = extra->mask; std::vector<char> used(pc.size(), 0);
  for (bool ch = true; ch;) { ch = false;
    for (size_t i = 0; i < pc.size(); i++) if (!used[i] && (pc[i]->mask & mask)) { used[i] = 1; if (pc[i]->mask & ~mask) { mask |= pc[i]->mask; } ch = true; sl.push_back(pc[i]); } }
  std::vector<u32> key; for (auto* e : sl) key.push_back(e->id);
  std::sort(key.begin(), key.end()); key.erase(std::unique(key.begin(), key.end()), key.end());
  key.push_back(extra->id);
  auto fill = [&](const std::vector<std::pair<u32, u64>>& v) {
    auto nm = std::make_shared<std::vector<u64>>(base ? *base : std::vector<u64>());
    if (nm->size() < nvars) nm->resize(nvars, 0);
    for (auto& p : v) { if (p.first >= nm->size()) nm->resize(p.first + 1, 0); (*nm)[p.first] = p.second; }
    m = nm; };
  auto it = cache.find(key);
  if (it != cache.end()) { cacheHits++; if (it->second.r == SAT) fill(it->second.m); return it->second.r; }
  auto t0 = std::chrono::steady_clock::now();
  if (!c || asserted > resetAt) reset();
  CE ce; ce.r = UNKNOWN;
  try {
    std::vector<Expr*> cs = sl; cs.push_back(extra); asserted++;
    static int kind = getenv("SX_KIND") ? atoi(getenv("SX_KIND")) : 1;
    bool fp = false; for (auto* e : cs) if (usesFP(e)) fp = true;
    if (kind == 1 && !fp) s = std::make_unique<z3::solver>(*c, "QF_FD"); else if (kind == 2 && !fp) s = std::make_unique<z3::solver>(*c, "QF_BV"); else s = std::make_unique<z3::solver>(*c, z3::solver::simple());
    { z3::params p(*c); p.set("timeout", timeout_ms); s->set(p); }
    for (auto* e : cs) s->add(trans(e) == c->bv_val(1, 1));
    z3::check_result r = s->check();
    if (r == z3::unsat) ce.r = UNSAT;
    else if (r == z3::sat) {
      ce.r = SAT; z3::model mod = s->get_model();
      std::unordered_set<Expr*> seen; std::map<u32, unsigned> vars; for (auto* e : cs) collectVars(e, seen, vars);
      for (auto& v : vars) { z3::expr x = mod.eval(trans(eVar(v.first, v.second)), true); u64 val = 0; if (!x.is_numeral_u64(val)) val = 0; ce.m.push_back({v.first, val}); }
      // self-check: the model must satisfy every constraint under our own concrete semantics
      std::vector<u64> tmp; for (auto& p : ce.m) { if (p.first >= tmp.size()) tmp.resize(p.first + 1, 0); tmp[p.first] = p.second; }
      Evaluator E(tmp); for (auto* e : cs) if (!E.ev(e)) { fprintf(stderr, "sx: solver model disagrees with evaluator on %s\n", eStr(e, 5).c_str()); ce.r = UNKNOWN; }
    }
    if (dump && ce.r != UNKNOWN && dumped < dumpMax && dumpEvery && queries % dumpEvery == 0) {
      fprintf(dump, "(reset)\n(set-logic ALL)\n%s(echo \"expect %s\")\n(check-sat)\n", smtOf(cs).c_str(), ce.r == SAT ? "sat" : "unsat"); dumped++;
    }
  } catch (z3::exception& ex) { fprintf(stderr, "sx: z3 exception %s\n", ex.msg()); ce.r = UNKNOWN; reset(); }
  double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
  static double slow = getenv("SX_SLOW") ? atof(getenv("SX_SLOW")) : 0; if (slow > 0 && dt > slow) { fprintf(stderr, "sx: slow query %.2fs\n", dt); for (auto* e : sl) fprintf(stderr, "   pc %s\n", eStr(e, 9).c_str()); fprintf(stderr, "   ?? %s\n", eStr(extra, 12).c_str()); }
  time += dt; if (dt > maxq) maxq = dt; queries++;
  if (ce.r == SAT) sat++; else if (ce.r == UNSAT) unsat++; else unknown++;
  if (ce.r == SAT) fill(ce.m);
  if (ce.r != UNKNOWN) cache.emplace(std::move(key), std::move(ce)).first; 
  return ce.r;
}

// SMT-LIB text of a conjunction (for the cross-check with a second solver).
std::string smtOf(const std::vector<Expr*>& cs) {
  std::unordered_set<Expr*> seen; std::map<u32, unsigned> vars; for (auto* e : cs) collectVars(e, seen, vars);
  std::string out; char b[256];
  for (auto& v : vars) { snprintf(b, 256, "(declare-const v%u_%u (_ BitVec %u))\n", v.first, v.second, v.second); out += b; }
  std::unordered_map<Expr*, std::string> nm; std::vector<Expr*> st; int fresh = 0;
  auto fps = [](unsigned w) { return std::string(w == 64 ? "(_ to_fp 11 53)" : "(_ to_fp 8 24)"); };
  for (auto* root : cs) { st.push_back(root);
    while (!st.empty()) { Expr* e = st.back(); if (nm.count(e)) { st.pop_back(); continue; }
      bool rdy = true; for (int i = 0; i < 3; i++) if (e->k[i] && !nm.count(e->k[i])) { st.push_back(e->k[i]); rdy = false; }
      if (!rdy) continue; st.pop_back();
      if (e->op == E_CONST) { std::string s = "#b"; u128 v = cval(e); for (int i = e->w - 1; i >= 0; i--) s += ((v >> i) & 1) ? '1' : '0'; nm[e] = s; continue; }
      if (e->op == E_VAR) { snprintf(b, 256, "v%llu_%u", (unsigned long long)e->v, e->w); nm[e] = b; continue; }
      auto K = [&](int i) { return nm[e->k[i]]; };
      auto F = [&](int i) { return "(" + fps(e->k[i]->w) + " " + K(i) + ")"; };
      auto Bo = [&](const std::string& s) { return "(ite " + s + " #b1 #b0)"; };
      static const char* bn[] = {0,0,"bvadd","bvsub","bvmul","bvudiv","bvsdiv","bvurem","bvsrem","bvand","bvor","bvxor","bvshl","bvlshr","bvashr"};
      std::string s, pre;
      switch (e->op) {
        case E_EQ: s = Bo("(= " + K(0) + " " + K(1) + ")"); break;
        case E_ULT: s = Bo("(bvult " + K(0) + " " + K(1) + ")"); break;
        case E_ULE: s = Bo("(bvule " + K(0) + " " + K(1) + ")"); break;
        case E_SLT: s = Bo("(bvslt " + K(0) + " " + K(1) + ")"); break;
        case E_SLE: s = Bo("(bvsle " + K(0) + " " + K(1) + ")"); break;
        case E_ITE: s = "(ite (= " + K(0) + " #b1) " + K(1) + " " + K(2) + ")"; break;
        case E_CONCAT: s = "(concat " + K(0) + " " + K(1) + ")"; break;
        case E_EXTRACT: s = "((_ extract " + std::to_string(e->v + e->w - 1) + " " + std::to_string(e->v) + ") " + K(0) + ")"; break;
        case E_ZEXT: s = "((_ zero_extend " + std::to_string(e->w - e->k[0]->w) + ") " + K(0) + ")"; break;
        case E_SEXT: s = "((_ sign_extend " + std::to_string(e->w - e->k[0]->w) + ") " + K(0) + ")"; break;
        case E_FOEQ: s = Bo("(fp.eq " + F(0) + " " + F(1) + ")"); break;
        case E_FOLT: s = Bo("(fp.lt " + F(0) + " " + F(1) + ")"); break;
        case E_FOLE: s = Bo("(fp.leq " + F(0) + " " + F(1) + ")"); break;
        case E_FUNO: s = Bo("(or (fp.isNaN " + F(0) + ") (fp.isNaN " + F(1) + "))"); break;
        case E_FPTOSI: s = "((_ fp.to_sbv " + std::to_string(e->w) + ") RTZ " + F(0) + ")"; break;
        case E_FPTOUI: s = "((_ fp.to_ubv " + std::to_string(e->w) + ") RTZ " + F(0) + ")"; break;
        case E_FADD: case E_FSUB: case E_FMUL: case E_FDIV: case E_FSQRT: case E_FMA: case E_SITOFP: case E_UITOFP: case E_FPCVT: {
          std::string fe;
          if (e->op == E_FADD) fe = "(fp.add RNE " + F(0) + " " + F(1) + ")"; else if (e->op == E_FSUB) fe = "(fp.sub RNE " + F(0) + " " + F(1) + ")";
          else if (e->op == E_FMUL) fe = "(fp.mul RNE " + F(0) + " " + F(1) + ")"; else if (e->op == E_FDIV) fe = "(fp.div RNE " + F(0) + " " + F(1) + ")";
          else if (e->op == E_FSQRT) fe = "(fp.sqrt RNE " + F(0) + ")"; else if (e->op == E_FMA) fe = "(fp.fma RNE " + F(0) + " " + F(1) + " " + F(2) + ")";
          else if (e->op == E_SITOFP) fe = "(" + fps(e->w) + " RNE " + K(0) + ")"; else if (e->op == E_UITOFP) fe = std::string("((_ to_fp_unsigned ") + (e->w == 64 ? "11 53" : "8 24") + ") RNE " + K(0) + ")";
          else fe = "(" + fps(e->w) + " RNE " + F(0) + ")";
          std::string bvn = "f" + std::to_string(fresh++); out += "(declare-const " + bvn + " (_ BitVec " + std::to_string(e->w) + "))\n(assert (= (" + fps(e->w) + " " + bvn + ") " + fe + "))\n"; s = bvn; break; }
        default: s = std::string("(") + bn[e->op] + " " + K(0) + " " + K(1) + ")";
      }
      std::string n = "d" + std::to_string(fresh++);
      out += "(define-fun " + n + " () (_ BitVec " + std::to_string(e->w) + ") " + s + ")\n"; nm[e] = n;
    }
    out += "(assert (= " + nm[root] + " #b1))\n";
  }
  return out;
}
