// sx: hash-consed bit-vector / floating-point expressions with simplification.
#pragma once
#include <cstdint>
#include <cstring>
#include <cmath>
#include <vector>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <functional>
#include <cassert>
#include <cstdio>
#include <cstdlib>

typedef uint64_t u64; typedef int64_t i64; typedef uint32_t u32; typedef unsigned __int128 u128;

enum EOp : uint8_t { E_CONST, E_VAR, E_ADD, E_SUB, E_MUL, E_UDIV, E_SDIV, E_UREM, E_SREM, E_AND, E_OR, E_XOR,
  E_SHL, E_LSHR, E_ASHR, E_EQ, E_ULT, E_ULE, E_SLT, E_SLE, E_ITE, E_CONCAT, E_EXTRACT, E_ZEXT, E_SEXT,
  E_FADD, E_FSUB, E_FMUL, E_FDIV, E_FSQRT, E_FMA, E_FOEQ, E_FOLT, E_FOLE, E_FUNO,
  E_FPTOSI, E_FPTOUI, E_SITOFP, E_UITOFP, E_FPCVT };

struct Expr {
  EOp op; uint16_t w; u32 id; u64 v, v2; Expr* k[3]; u64 mask; // mask: variables the expression depends on
  size_t hash; u128 lo, hi; // unsigned range (valid for w <= 128)
};
void setRange(Expr* e);

static inline u64 maskw(unsigned w) { return w >= 64 ? ~0ULL : ((1ULL << w) - 1); }
static inline i64 sext64(u64 v, unsigned w) { return w >= 64 ? (i64)v : (i64)(v << (64 - w)) >> (64 - w); }
static inline u128 mask128(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }

static inline double bits2d(u64 b) { double d; memcpy(&d, &b, 8); return d; }
static inline u64 d2bits(double d) { u64 b; memcpy(&b, &d, 8); return b; }
static inline float bits2f(u64 b) { u32 x = (u32)b; float d; memcpy(&d, &x, 4); return d; }
static inline u64 f2bits(float d) { u32 b; memcpy(&b, &d, 4); return b; }

struct ExprPool {
  struct H { size_t operator()(const Expr* e) const { return e->hash; } };
  struct Eq { bool operator()(const Expr* a, const Expr* b) const {
    return a->op == b->op && a->w == b->w && a->v == b->v && a->v2 == b->v2 && a->k[0] == b->k[0] && a->k[1] == b->k[1] && a->k[2] == b->k[2]; } };
  std::unordered_set<Expr*, H, Eq> tab;
  std::vector<Expr*> all;
  Expr* mk(EOp op, unsigned w, u64 v = 0, Expr* a = nullptr, Expr* b = nullptr, Expr* c = nullptr, u64 v2 = 0) {
    Expr t; t.op = op; t.w = w; t.v = v; t.v2 = v2; t.k[0] = a; t.k[1] = b; t.k[2] = c;
    size_t h = op * 1000003u + w; h = h * 0x9E3779B97F4A7C15ULL + v; h ^= h >> 29; h = h * 0x9E3779B97F4A7C15ULL + v2;
    for (int i = 0; i < 3; i++) { h ^= h >> 31; h = h * 0x9E3779B97F4A7C15ULL + (t.k[i] ? t.k[i]->id + 1 : 0); }
    t.hash = h;
    auto it = tab.find(&t); if (it != tab.end()) return *it;
    Expr* e = new Expr(t); e->id = all.size(); e->mask = 0;
    if (op == E_VAR) e->mask = 1ULL << (v >= 63 ? 63 : v);
    for (int i = 0; i < 3; i++) if (e->k[i]) e->mask |= e->k[i]->mask;
    setRange(e); all.push_back(e); tab.insert(e); return e;
  }
};
extern ExprPool EP;

static inline bool isC(Expr* e) { return e->op == E_CONST; }
static inline u128 cval(Expr* e) { return ((u128)e->v2 << 64) | e->v; }
Expr* eConst(u64 v, unsigned w);
Expr* eConst128(u128 v, unsigned w);
Expr* eVar(u32 idx, unsigned w, u64 span = 0); // span: the variable is known to be <= span (0: no bound)
Expr* eBin(EOp op, Expr* a, Expr* b);
Expr* eNot(Expr* a);           // bitwise not
Expr* eCmp(EOp op, Expr* a, Expr* b);
Expr* eIte(Expr* c, Expr* a, Expr* b);
Expr* eExtract(Expr* a, unsigned lo, unsigned w);
Expr* eConcat(Expr* hi, Expr* lo);
Expr* eZext(Expr* a, unsigned w);
Expr* eSext(Expr* a, unsigned w);
Expr* eF(EOp op, unsigned w, Expr* a, Expr* b = nullptr, Expr* c = nullptr);
std::string eStr(Expr* e, int depth = 6);

// Evaluate under a model (variable index -> value).  Memoised per call.
struct Evaluator {
  const std::vector<u64>& m; std::unordered_map<Expr*, u128> memo;
  explicit Evaluator(const std::vector<u64>& mm) : m(mm) {}
  u128 ev(Expr* e);
};
// concrete semantics shared by folding and evaluation
bool foldBin(EOp op, unsigned w, u128 a, u128 b, u128& r);
bool foldF(EOp op, unsigned w, unsigned wa, u128 a, u128 b, u128 c, u128& r);
