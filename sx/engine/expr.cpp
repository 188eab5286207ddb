#include "expr.h"
ExprPool EP;

static i64 s64(u128 v, unsigned w) { return sext64((u64)v, w); }
static __int128 s128(u128 v, unsigned w) { return w >= 128 ? (__int128)v : (__int128)(v << (128 - w)) >> (128 - w); }

Expr* eConst(u64 v, unsigned w) { return EP.mk(E_CONST, w, v & maskw(w)); }
Expr* eConst128(u128 v, unsigned w) { v &= mask128(w); return EP.mk(E_CONST, w, (u64)v, nullptr, nullptr, nullptr, (u64)(v >> 64)); }
Expr* eVar(u32 idx, unsigned w, u64 span) { return EP.mk(E_VAR, w, idx, nullptr, nullptr, nullptr, span == maskw(w) ? 0 : span); }
static unsigned bitsOf(u128 v) { unsigned n = 0; while (v) { n++; v >>= 1; } return n; }
void setRange(Expr* e) {
  unsigned w = e->w; u128 M = mask128(w); e->lo = 0; e->hi = M; if (w > 128) return;
  Expr *a = e->k[0], *b = e->k[1], *c = e->k[2];
  switch (e->op) {
    case E_CONST: e->lo = e->hi = cval(e); break;
    case E_VAR: if (e->v2) e->hi = e->v2; break;
    case E_ZEXT: e->lo = a->lo; e->hi = a->hi; break;
    case E_SEXT: if (!(a->hi >> (a->w - 1))) { e->lo = a->lo; e->hi = a->hi; } break;
    case E_CONCAT: e->lo = (a->lo << b->w) | b->lo; e->hi = (a->hi << b->w) | b->hi; break;
    case E_EXTRACT: if ((a->hi >> (unsigned)e->v) <= M) { e->lo = a->lo >> (unsigned)e->v; e->hi = a->hi >> (unsigned)e->v; } break;
    case E_ITE: e->lo = b->lo < c->lo ? b->lo : c->lo; e->hi = b->hi > c->hi ? b->hi : c->hi; break;
    case E_ADD: if (w <= 64) { u128 l = a->lo + b->lo, h = a->hi + b->hi; if (h <= M) { e->lo = l; e->hi = h; } else if (l > M) { e->lo = l - M - 1; e->hi = h - M - 1; } } break;
    case E_SUB: if (a->lo >= b->hi) { e->lo = a->lo - b->hi; e->hi = a->hi - b->lo; } break;
    case E_MUL: if (w <= 64) { u128 h = a->hi * b->hi; if (h <= M) { e->lo = a->lo * b->lo; e->hi = h; } } break;
    case E_UDIV: if (b->lo) { e->lo = a->lo / b->hi; e->hi = a->hi / b->lo; } break;
    case E_UREM: if (b->lo) { if (a->hi < b->lo) { e->lo = a->lo; e->hi = a->hi; } else e->hi = a->hi < b->hi - 1 ? a->hi : b->hi - 1; } break;
    case E_AND: e->hi = a->hi < b->hi ? a->hi : b->hi; break;
    case E_OR: case E_XOR: { unsigned n = bitsOf(a->hi | b->hi); e->hi = mask128(n ? n : 1) & M; if (!n) e->hi = 0; if (e->op == E_OR) e->lo = a->lo > b->lo ? a->lo : b->lo; break; }
    case E_LSHR: e->hi = a->hi; break;
    default: break;
  }
}
static unsigned roundBits(unsigned n) { static const unsigned st[] = {1, 4, 8, 12, 16, 20, 24, 32, 40, 48}; for (unsigned x : st) if (n <= x) return x; return 128; }
// the low n bits of a, pushed through arithmetic (used when values are known to fit n bits)
static std::unordered_map<u64, Expr*> lowMemo;
static Expr* lowBits(Expr* a, unsigned n) {
  if (n >= a->w) return a;
  switch (a->op) { case E_ADD: case E_SUB: case E_MUL: case E_AND: case E_OR: case E_XOR: case E_ITE: break; default: return eExtract(a, 0, n); }
  u64 key = ((u64)a->id << 8) | n; auto it = lowMemo.find(key); if (it != lowMemo.end()) return it->second;
  Expr* r = a->op == E_ITE ? eIte(a->k[0], lowBits(a->k[1], n), lowBits(a->k[2], n)) : eBin(a->op, lowBits(a->k[0], n), lowBits(a->k[1], n));
  lowMemo[key] = r; return r;
}

bool foldBin(EOp op, unsigned w, u128 a, u128 b, u128& r) {
  u128 M = mask128(w);
  switch (op) {
    case E_ADD: r = a + b; break;
    case E_SUB: r = a - b; break;
    case E_MUL: r = a * b; break;
    case E_UDIV: if (b == 0) { r = M; break; } r = a / b; break;            // SMT-LIB semantics; the executor reports division by zero itself
    case E_UREM: if (b == 0) { r = a; break; } r = a % b; break;
    case E_SDIV: { __int128 x = s128(a, w), y = s128(b, w); if (y == 0) { r = x >= 0 ? M : 1; break; } r = (u128)(y == -1 ? -(u128)x : (u128)(x / y)); break; }
    case E_SREM: { __int128 x = s128(a, w), y = s128(b, w); if (y == 0) { r = a; break; } r = y == -1 ? 0 : (u128)(x % y); break; }
    case E_AND: r = a & b; break;
    case E_OR: r = a | b; break;
    case E_XOR: r = a ^ b; break;
    case E_SHL: r = b >= w ? 0 : a << (unsigned)b; break;
    case E_LSHR: r = b >= w ? 0 : a >> (unsigned)b; break;
    case E_ASHR: { __int128 x = s128(a, w); r = b >= w ? (x < 0 ? M : 0) : (u128)(x >> (unsigned)b); break; }
    case E_EQ: r = a == b; return true;
    case E_ULT: r = a < b; return true;
    case E_ULE: r = a <= b; return true;
    case E_SLT: r = s128(a, w) < s128(b, w); return true;
    case E_SLE: r = s128(a, w) <= s128(b, w); return true;
    default: return false;
  }
  r &= M; return true;
}
bool foldF(EOp op, unsigned w, unsigned wa, u128 A, u128 B, u128 C, u128& r) {
  u64 a = (u64)A, b = (u64)B, c = (u64)C;
  if (wa > 64 || w > 64) return false;
  auto D = [&](u64 x) { return wa == 64 ? bits2d(x) : (double)bits2f(x); };
  switch (op) {
    case E_FADD: r = w == 64 ? d2bits(bits2d(a) + bits2d(b)) : f2bits(bits2f(a) + bits2f(b)); return true;
    case E_FSUB: r = w == 64 ? d2bits(bits2d(a) - bits2d(b)) : f2bits(bits2f(a) - bits2f(b)); return true;
    case E_FMUL: r = w == 64 ? d2bits(bits2d(a) * bits2d(b)) : f2bits(bits2f(a) * bits2f(b)); return true;
    case E_FDIV: r = w == 64 ? d2bits(bits2d(a) / bits2d(b)) : f2bits(bits2f(a) / bits2f(b)); return true;
    case E_FSQRT: r = w == 64 ? d2bits(std::sqrt(bits2d(a))) : f2bits(std::sqrt(bits2f(a))); return true;
    case E_FMA: r = w == 64 ? d2bits(std::fma(bits2d(a), bits2d(b), bits2d(c))) : f2bits(std::fma(bits2f(a), bits2f(b), bits2f(c))); return true;
    case E_FOEQ: r = D(a) == D(b); return true;
    case E_FOLT: r = D(a) < D(b); return true;
    case E_FOLE: r = D(a) <= D(b); return true;
    case E_FUNO: r = std::isnan(D(a)) || std::isnan(D(b)); return true;
    case E_FPTOSI: { double d = std::trunc(D(a)); if (!(d >= -9223372036854775808.0 && d < 9223372036854775808.0)) { r = (u128)(1ULL << 63) & mask128(w); if (w < 64) r = 0; return true; } r = (u128)(u64)(i64)d & mask128(w); return true; }
    case E_FPTOUI: { double d = std::trunc(D(a)); if (!(d >= 0 && d < 18446744073709551616.0)) { r = 0; return true; } r = (u128)(u64)d & mask128(w); return true; }
    case E_SITOFP: { i64 s = sext64(a, wa); r = w == 64 ? d2bits((double)s) : f2bits((float)s); return true; }
    case E_UITOFP: r = w == 64 ? d2bits((double)a) : f2bits((float)a); return true;
    case E_FPCVT: if (w == wa) { r = a; return true; } r = w == 64 ? d2bits((double)bits2f(a)) : f2bits((float)bits2d(a)); return true;
    default: return false;
  }
}
// A double that is exactly an integer of magnitude <= 2^53, as a 64-bit signed expression (null if not known to be one).
static Expr* asExactInt(Expr* e) {
  const u128 L = (u128)1 << 53;
  if (e->w != 64) return nullptr;
  if (isC(e)) { double d = bits2d(e->v); if (std::fabs(d) <= 9007199254740992.0 && d == std::trunc(d)) return eConst((u64)(i64)d, 64); return nullptr; }
  if (e->op == E_UITOFP && e->k[0]->hi <= L) return eZext(e->k[0], 64);
  if (e->op == E_SITOFP) { Expr* x = e->k[0];
    if (!(x->hi >> (x->w - 1)) && x->hi <= L) return eZext(x, 64);
    if (x->op == E_SUB && isC(x->k[0]) && cval(x->k[0]) == 0 && x->k[1]->hi <= L && !(x->k[1]->hi >> (x->w - 1))) return eBin(E_SUB, eConst(0, 64), eZext(x->k[1], 64));
    if (x->w <= 32) return eSext(x, 64);
    return nullptr; }
  if (e->op == E_XOR && isC(e->k[1]) && cval(e->k[1]) == ((u128)1 << 63)) { Expr* x = asExactInt(e->k[0]); if (x) return eBin(E_SUB, eConst(0, 64), x); }
  return nullptr;
}
Expr* eF(EOp op, unsigned w, Expr* a, Expr* b, Expr* c) {
  if (op == E_FOEQ || op == E_FOLT || op == E_FOLE) { Expr* x = asExactInt(a); Expr* y = x ? asExactInt(b) : nullptr; if (y) return eCmp(op == E_FOEQ ? E_EQ : op == E_FOLT ? E_SLT : E_SLE, x, y); }
  if (op == E_FUNO && asExactInt(a) && asExactInt(b)) return eConst(0, 1);
  if (isC(a) && (!b || isC(b)) && (!c || isC(c))) {
    u128 r; if (foldF(op, w, a->w, cval(a), b ? cval(b) : 0, c ? cval(c) : 0, r)) return eConst128(r, w);
  }
  return EP.mk(op, w, 0, a, b, c);
}
Expr* eNot(Expr* a) { return eBin(E_XOR, a, eConst128(~(u128)0, a->w)); }

Expr* eBin(EOp op, Expr* a, Expr* b) {
  unsigned w = a->w; assert(a->w == b->w);
  if (isC(a) && isC(b)) { u128 r; if (foldBin(op, w, cval(a), cval(b), r)) return eConst128(r, w); }
  if (op == E_MUL && !isC(a) && !isC(b)) for (int t = 0; t < 2; t++) { Expr *x = t ? b : a, *y = t ? a : b; if (x->op == E_ZEXT && x->k[0]->w == 1) return eIte(x->k[0], y, eConst(0, w)); if (w == 1) return eBin(E_AND, a, b); }
  // the exact result fits few bits: compute it there
  if (w >= 16 && w <= 64 && !isC(a)) {
    u128 h = 0; bool ok = false; u128 M0 = mask128(w);
    switch (op) {
      case E_SUB: ok = a->lo >= b->hi; h = a->hi; break;
      case E_MUL: h = a->hi * b->hi; ok = h <= M0; if (a->hi > h) h = a->hi; if (b->hi > h) h = b->hi; break;
      case E_UDIV: case E_UREM: ok = b->lo > 0; h = a->hi > b->hi ? a->hi : b->hi; break;
      case E_SDIV: case E_SREM: if (b->lo > 0 && !(a->hi >> (w - 1)) && !(b->hi >> (w - 1))) return eBin(op == E_SDIV ? E_UDIV : E_UREM, a, b); break;
      default: break;
    }
    if (ok) {
      if (op == E_UDIV && a->hi < b->lo) return eConst(0, w);
      if (op == E_UREM && a->hi < b->lo) return a;
      unsigned n = roundBits(bitsOf(h)); if (n < w) return eZext(eBin(op, lowBits(a, n), lowBits(b, n)), w);
    }
  }
  bool comm = op == E_ADD || op == E_MUL || op == E_AND || op == E_OR || op == E_XOR;
  if (comm) { if (isC(a) || (!isC(b) && a->id > b->id)) std::swap(a, b); if (isC(a)) std::swap(a, b); }
  u128 M = mask128(w);
  switch (op) {
    case E_ADD:
      if (isC(b)) {
        if (cval(b) == 0) return a;
        if (a->op == E_ADD && isC(a->k[1])) return eBin(E_ADD, a->k[0], eConst128(cval(a->k[1]) + cval(b), w));
        if (a->op == E_ITE && isC(a->k[1]) && isC(a->k[2])) return eIte(a->k[0], eBin(op, a->k[1], b), eBin(op, a->k[2], b));
      } else {
        if (a->op == E_ADD && isC(a->k[1])) return eBin(E_ADD, eBin(E_ADD, a->k[0], b), a->k[1]);
        if (b->op == E_ADD && isC(b->k[1])) return eBin(E_ADD, eBin(E_ADD, a, b->k[0]), b->k[1]);
      }
      break;
    case E_SUB:
      if (a == b) return eConst(0, w);
      if (isC(b)) return eBin(E_ADD, a, eConst128(-cval(b), w));
      if (a->op == E_ADD && isC(a->k[1])) return eBin(E_ADD, eBin(E_SUB, a->k[0], b), a->k[1]);
      if (b->op == E_ADD && isC(b->k[1])) return eBin(E_ADD, eBin(E_SUB, a, b->k[0]), eConst128(-cval(b->k[1]), w));
      if (a->op == E_ADD && a->k[0] == b) return a->k[1];
      if (a->op == E_ADD && a->k[1] == b) return a->k[0];
      break;
    case E_MUL:
      if (isC(b)) { if (cval(b) == 0) return b; if (cval(b) == 1) return a;
        u128 cv = cval(b); if ((cv & (cv - 1)) == 0) { unsigned s = 0; while (!((cv >> s) & 1)) s++; return eBin(E_SHL, a, eConst(s, w)); } }
      break;
    case E_AND:
      if (a == b) return a;
      if (isC(b)) { if (cval(b) == 0) return b; if (cval(b) == M) return a;
        u128 c = cval(b); if (((c + 1) & c) == 0) { unsigned n = 0; while ((c >> n) & 1) n++; return eZext(eExtract(a, 0, n), w); }
        if (a->op == E_AND && isC(a->k[1])) return eBin(E_AND, a->k[0], eConst128(cval(a->k[1]) & c, w)); }
      break;
    case E_OR:
      if (a == b) return a;
      if (isC(b)) { if (cval(b) == 0) return a; if (cval(b) == M) return b; }
      // or of disjoint zext / shl: (zext x) | (shl (zext y), c)  -> concat
      for (int t = 0; t < 2; t++) { Expr* x = t ? b : a; Expr* y = t ? a : b;
        if (x->op == E_CONCAT && isC(x->k[1]) && cval(x->k[1]) == 0 && y->op == E_ZEXT && y->k[0]->w <= x->k[1]->w)
          return eConcat(x->k[0], eZext(y->k[0], x->k[1]->w)); }
      break;
    case E_XOR:
      if (a == b) return eConst(0, w);
      if (isC(b)) { if (cval(b) == 0) return a; if (a->op == E_XOR && isC(a->k[1])) return eBin(E_XOR, a->k[0], eConst128(cval(a->k[1]) ^ cval(b), w)); }
      break;
    case E_SHL:
      if (isC(b)) { u128 c = cval(b); if (c == 0) return a; if (c >= w) return eConst(0, w); return eConcat(eExtract(a, 0, w - (unsigned)c), eConst(0, (unsigned)c)); }
      if (isC(a) && cval(a) == 0) return a;
      break;
    case E_LSHR:
      if (isC(b)) { u128 c = cval(b); if (c == 0) return a; if (c >= w) return eConst(0, w); return eZext(eExtract(a, (unsigned)c, w - (unsigned)c), w); }
      if (isC(a) && cval(a) == 0) return a;
      break;
    case E_ASHR:
      if (isC(b)) { u128 c = cval(b); if (c == 0) return a; if (c >= w) c = w - 1; return eSext(eExtract(a, (unsigned)c, w - (unsigned)c), w); }
      break;
    case E_UDIV: if (isC(b)) { u128 c = cval(b); if (c == 1) return a; if (c && (c & (c - 1)) == 0) { unsigned s = 0; while (!((c >> s) & 1)) s++; return eBin(E_LSHR, a, eConst(s, w)); } } break;
    case E_UREM: if (isC(b)) { u128 c = cval(b); if (c == 1) return eConst(0, w); if (c && (c & (c - 1)) == 0) return eBin(E_AND, a, eConst128(c - 1, w));
        } break;
    case E_SDIV: if (isC(b) && cval(b) == 1) return a; break;
    default: break;
  }
  return EP.mk(op, w, 0, a, b);
}

static bool urange(Expr* e, u128& lo, u128& hi) { lo = e->lo; hi = e->hi; return e->w <= 128; }

Expr* eCmp(EOp op, Expr* a, Expr* b) {
  unsigned w = a->w; assert(a->w == b->w);
  if (isC(a) && isC(b)) { u128 r; foldBin(op, w, cval(a), cval(b), r); return eConst((u64)r, 1); }
  if (a == b) return eConst(op == E_EQ || op == E_ULE || op == E_SLE, 1);
  if (w <= 64) {
    if (op == E_EQ && (a->hi < b->lo || b->hi < a->lo)) return eConst(0, 1);
    if (w >= 8 && (op == E_EQ || op == E_ULT || op == E_ULE)) { unsigned n = roundBits(bitsOf(a->hi > b->hi ? a->hi : b->hi)); if (n < w) return eCmp(op, lowBits(a, n), lowBits(b, n)); }
  }
  if (op == E_EQ) {
    if (isC(a) || (!isC(b) && a->id > b->id)) std::swap(a, b);
    if (isC(a)) std::swap(a, b);
    if (isC(b)) {
      u128 c = cval(b);
      if (w == 1) return c ? a : eNot(a);
      switch (a->op) {
        case E_ZEXT: if (c >> a->k[0]->w) return eConst(0, 1); return eCmp(E_EQ, a->k[0], eConst128(c, a->k[0]->w));
        case E_SEXT: { u128 t = c & mask128(a->k[0]->w); u128 back = (u128)s128(t, a->k[0]->w) & mask128(w); if (back != c) return eConst(0, 1); return eCmp(E_EQ, a->k[0], eConst128(t, a->k[0]->w)); }
        case E_ADD: if (isC(a->k[1])) return eCmp(E_EQ, a->k[0], eConst128(c - cval(a->k[1]), w)); break;
        case E_XOR: if (isC(a->k[1])) return eCmp(E_EQ, a->k[0], eConst128(c ^ cval(a->k[1]), w)); break;
        case E_SUB: if (c == 0) return eCmp(E_EQ, a->k[0], a->k[1]); break;
        case E_ITE:
          if (isC(a->k[1]) || isC(a->k[2])) {
            Expr* x = eCmp(E_EQ, a->k[1], b); Expr* y = eCmp(E_EQ, a->k[2], b);
            if (isC(x) || isC(y)) return eIte(a->k[0], x, y);
          }
          break;
        case E_CONCAT: { Expr* lo = a->k[1]; Expr* hi = a->k[0];
          return eBin(E_AND, eCmp(E_EQ, hi, eConst128(c >> lo->w, hi->w)), eCmp(E_EQ, lo, eConst128(c, lo->w))); }
        default: break;
      }
      u128 lo, hi; if (urange(a, lo, hi) && (c < lo || c > hi)) return eConst(0, 1);
    } else {
      if (a->op == E_ZEXT && b->op == E_ZEXT && a->k[0]->w == b->k[0]->w) return eCmp(E_EQ, a->k[0], b->k[0]);
      if (a->op == E_ADD && b->op == E_ADD && isC(a->k[1]) && a->k[1] == b->k[1]) return eCmp(E_EQ, a->k[0], b->k[0]);
      if (a->op == E_CONCAT && b->op == E_CONCAT && a->k[1]->w == b->k[1]->w)
        return eBin(E_AND, eCmp(E_EQ, a->k[0], b->k[0]), eCmp(E_EQ, a->k[1], b->k[1]));
    }
  } else if (op == E_ULT || op == E_ULE) {
    u128 la, ha, lb, hb; bool ra = urange(a, la, ha), rb = urange(b, lb, hb);
    if (!ra) { la = 0; ha = mask128(w); } if (!rb) { lb = 0; hb = mask128(w); }
    if (op == E_ULT) { if (ha < lb) return eConst(1, 1); if (la >= hb) return eConst(0, 1); }
    else { if (ha <= lb) return eConst(1, 1); if (la > hb) return eConst(0, 1); }
    if (a->op == E_ZEXT && b->op == E_ZEXT && a->k[0]->w == b->k[0]->w) return eCmp(op, a->k[0], b->k[0]);
    if (a->op == E_ZEXT && isC(b) && !(cval(b) >> a->k[0]->w)) return eCmp(op, a->k[0], eConst128(cval(b), a->k[0]->w));
    if (b->op == E_ZEXT && isC(a) && !(cval(a) >> b->k[0]->w)) return eCmp(op, eConst128(cval(a), b->k[0]->w), b->k[0]);
    if (op == E_ULT && isC(b) && cval(b) == 1) return eCmp(E_EQ, a, eConst(0, w));
    if (op == E_ULE && isC(b) && cval(b) == 0) return eCmp(E_EQ, a, b);
  } else if (op == E_SLT || op == E_SLE) {
    // both operands known non-negative -> unsigned comparison
    u128 la, ha, lb, hb; u128 half = (u128)1 << (w - 1);
    if (urange(a, la, ha) && urange(b, lb, hb) && ha < half && hb < half) return eCmp(op == E_SLT ? E_ULT : E_ULE, a, b);
  }
  return EP.mk(op, 1, 0, a, b);
}
Expr* eIte(Expr* c, Expr* a, Expr* b) {
  if (isC(c)) return c->v ? a : b;
  if (a == b) return a;
  if (a->w == 1) {
    if (isC(a) && isC(b)) return a->v ? c : eNot(c);
    if (isC(a)) return a->v ? eBin(E_OR, c, b) : eBin(E_AND, eNot(c), b);
    if (isC(b)) return b->v ? eBin(E_OR, eNot(c), a) : eBin(E_AND, c, a);
  }
  if (c->op == E_XOR && isC(c->k[1])) return eIte(c->k[0], b, a);
  return EP.mk(E_ITE, a->w, 0, c, a, b);
}
Expr* eExtract(Expr* a, unsigned lo, unsigned w) {
  assert(lo + w <= a->w && w > 0);
  if (lo == 0 && w == a->w) return a;
  switch (a->op) {
    case E_CONST: return eConst128(cval(a) >> lo, w);
    case E_EXTRACT: return eExtract(a->k[0], (unsigned)a->v + lo, w);
    case E_CONCAT: { unsigned lw = a->k[1]->w;
      if (lo >= lw) return eExtract(a->k[0], lo - lw, w);
      if (lo + w <= lw) return eExtract(a->k[1], lo, w);
      return eConcat(eExtract(a->k[0], 0, lo + w - lw), eExtract(a->k[1], lo, lw - lo)); }
    case E_ZEXT: { unsigned iw = a->k[0]->w;
      if (lo >= iw) return eConst(0, w);
      if (lo + w <= iw) return eExtract(a->k[0], lo, w);
      return eZext(eExtract(a->k[0], lo, iw - lo), w); }
    case E_SEXT: { unsigned iw = a->k[0]->w; if (lo + w <= iw) return eExtract(a->k[0], lo, w); break; }
    case E_ITE: if ((isC(a->k[1]) || a->k[1]->op == E_ZEXT) && (isC(a->k[2]) || a->k[2]->op == E_ZEXT)) return eIte(a->k[0], eExtract(a->k[1], lo, w), eExtract(a->k[2], lo, w)); break;
    case E_AND: case E_OR: case E_XOR:
      if (isC(a->k[1])) return eBin(a->op, eExtract(a->k[0], lo, w), eExtract(a->k[1], lo, w)); break;
    case E_ADD: case E_SUB: case E_MUL:
      if (lo == 0 && w >= 16 && (a->k[0]->op == E_ZEXT || a->k[0]->op == E_SEXT || a->k[0]->op == E_CONCAT || isC(a->k[1]))) return eBin(a->op, eExtract(a->k[0], 0, w), eExtract(a->k[1], 0, w)); break;
    default: break;
  }
  return EP.mk(E_EXTRACT, w, lo, a);
}
Expr* eConcat(Expr* hi, Expr* lo) {
  unsigned w = hi->w + lo->w;
  if (isC(hi) && isC(lo)) return eConst128((cval(hi) << lo->w) | cval(lo), w);
  if (isC(hi) && cval(hi) == 0) return eZext(lo, w);
  if (hi->op == E_EXTRACT && lo->op == E_EXTRACT && hi->k[0] == lo->k[0] && hi->v == lo->v + lo->w)
    return eExtract(hi->k[0], (unsigned)lo->v, w);
  if (hi->op == E_EXTRACT && hi->k[0] == lo && hi->v == lo->w) return eExtract(lo, 0, w);
  // concat(extract(x,hi part), concat-tail) re-association
  if (hi->op == E_EXTRACT && lo->op == E_CONCAT && lo->k[0]->op == E_EXTRACT && lo->k[0]->k[0] == hi->k[0] && hi->v == lo->k[0]->v + lo->k[0]->w)
    return eConcat(eExtract(hi->k[0], (unsigned)lo->k[0]->v, hi->w + lo->k[0]->w), lo->k[1]);
  // bytes of (x ^ constant): put the xor back together
  if (w <= 64) { Expr *h = hi, *l = lo; u128 hc = 0, lc = 0; if (h->op == E_XOR && isC(h->k[1])) { hc = cval(h->k[1]); h = h->k[0]; } if (l->op == E_XOR && isC(l->k[1])) { lc = cval(l->k[1]); l = l->k[0]; }
    if ((hc || lc) && h->op == E_EXTRACT && ((l->op == E_EXTRACT && h->k[0] == l->k[0] && h->v == l->v + l->w) || (h->k[0] == l && h->v == l->w))) return eBin(E_XOR, eConcat(h, l), eConst128((hc << l->w) | lc, w)); }
  if (hi->op == E_ZEXT) { return eZext(eConcat(hi->k[0], lo), w); }
  // bytes of an ITE with constant arms
  if (hi->op == E_ITE && lo->op == E_ITE && hi->k[0] == lo->k[0] && isC(hi->k[1]) && isC(hi->k[2]) && isC(lo->k[1]) && isC(lo->k[2]))
    return eIte(hi->k[0], eConcat(hi->k[1], lo->k[1]), eConcat(hi->k[2], lo->k[2]));
  return EP.mk(E_CONCAT, w, 0, hi, lo);
}
Expr* eZext(Expr* a, unsigned w) {
  if (w == a->w) return a;
  assert(w > a->w);
  if (isC(a)) return eConst128(cval(a), w);
  if (a->op == E_ZEXT) return eZext(a->k[0], w);
  if (a->op == E_ADD && a->w <= 64 && w <= 64 && a->k[0]->hi + a->k[1]->hi <= mask128(a->w)) return eBin(E_ADD, eZext(a->k[0], w), eZext(a->k[1], w)); // no overflow: keep sums at the wide width
  return EP.mk(E_ZEXT, w, 0, a);
}
Expr* eSext(Expr* a, unsigned w) {
  if (w == a->w) return a;
  if (isC(a)) return eConst128((u128)s128(cval(a), a->w), w);
  if (a->op == E_ZEXT) return eZext(a->k[0], w);
  if (a->op == E_SEXT) return eSext(a->k[0], w);
  return EP.mk(E_SEXT, w, 0, a);
}
u128 Evaluator::ev(Expr* e) {
  switch (e->op) {
    case E_CONST: return cval(e);
    case E_VAR: return e->v < m.size() ? (m[e->v] & maskw(e->w)) : 0;
    default: break;
  }
  auto it = memo.find(e); if (it != memo.end()) return it->second;
  u128 r = 0;
  switch (e->op) {
    case E_ITE: r = ev(e->k[0]) ? ev(e->k[1]) : ev(e->k[2]); break;
    case E_CONCAT: r = (ev(e->k[0]) << e->k[1]->w) | ev(e->k[1]); break;
    case E_EXTRACT: r = (ev(e->k[0]) >> (unsigned)e->v) & mask128(e->w); break;
    case E_ZEXT: r = ev(e->k[0]); break;
    case E_SEXT: r = (u128)s128(ev(e->k[0]), e->k[0]->w) & mask128(e->w); break;
    default:
      if (e->op >= E_FADD) { bool ok = foldF(e->op, e->w, e->k[0]->w, ev(e->k[0]), e->k[1] ? ev(e->k[1]) : 0, e->k[2] ? ev(e->k[2]) : 0, r); (void)ok; }
      else foldBin(e->op, e->k[0]->w, ev(e->k[0]), ev(e->k[1]), r);
  }
  memo[e] = r; return r;
}
static const char* opn[] = {"c","v","add","sub","mul","udiv","sdiv","urem","srem","and","or","xor","shl","lshr","ashr","=","ult","ule","slt","sle","ite","concat","extract","zext","sext",
 "fadd","fsub","fmul","fdiv","fsqrt","fma","foeq","folt","fole","funo","fptosi","fptoui","sitofp","uitofp","fpcvt"};
std::string eStr(Expr* e, int d) {
  char b[64];
  if (e->op == E_CONST) { snprintf(b, 64, "%llu:%u", (unsigned long long)e->v, e->w); return b; }
  if (e->op == E_VAR) { snprintf(b, 64, "v%llu:%u", (unsigned long long)e->v, e->w); return b; }
  if (d == 0) return "...";
  std::string s = std::string("(") + opn[e->op];
  if (e->op == E_EXTRACT) s += "@" + std::to_string(e->v) + "+" + std::to_string(e->w);
  for (int i = 0; i < 3; i++) if (e->k[i]) s += " " + eStr(e->k[i], d - 1);
  return s + ")";
}
