// sx: symbolic executor for LLVM bitcode -- program decoding, memory model, instruction semantics.
#include "exec.h"
#include <llvm/IR/Operator.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/InstIterator.h>
#include <llvm/Demangle/Demangle.h>
#include <chrono>
#include <algorithm>
using namespace llvm;
double nowS() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

// ---------------------------------------------------------------- decoding
u32 Exec::nslots(Type* t) { if (t->isVoidTy()) return 0; std::vector<Leaf> l; leaves(t, 0, l); return l.size(); }
void Exec::leaves(Type* t, u32 off, std::vector<Leaf>& out) {
  if (auto* st = dyn_cast<StructType>(t)) { auto* sl = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) leaves(st->getElementType(i), off + sl->getElementOffset(i), out); }
  else if (auto* at = dyn_cast<ArrayType>(t)) { u64 sz = DL->getTypeAllocSize(at->getElementType()); for (u64 i = 0; i < at->getNumElements(); i++) leaves(at->getElementType(), off + i * sz, out); }
  else if (auto* vt = dyn_cast<FixedVectorType>(t)) { u64 sz = DL->getTypeAllocSize(vt->getElementType()); if (vt->getElementType()->isIntegerTy(1)) sz = 1; for (u64 i = 0; i < vt->getNumElements(); i++) leaves(vt->getElementType(), off + i * sz, out); }
  else if (t->isIntegerTy()) out.push_back({off, t->getIntegerBitWidth()});
  else if (t->isPointerTy()) out.push_back({off, 64});
  else if (t->isDoubleTy()) out.push_back({off, 64});
  else if (t->isFloatTy()) out.push_back({off, 32});
  else if (t->isX86_FP80Ty()) out.push_back({off, 80});
  else if (t->isMetadataTy() || t->isTokenTy() || t->isLabelTy()) out.push_back({off, 1});
  else { fprintf(stderr, "sx: unsupported type\n"); t->print(errs()); exit(2); }
}
void Exec::constVals(const Constant* c, std::vector<Val>& out) {
  Type* t = c->getType();
  if (auto* ci = dyn_cast<ConstantInt>(c)) {
    unsigned w = ci->getBitWidth();
    if (w <= 64) out.push_back(VC(ci->getZExtValue()));
    else out.push_back(Val{0, eConst128(((u128)ci->getValue().extractBitsAsZExtValue(w - 64, 64) << 64) | ci->getValue().extractBitsAsZExtValue(64, 0), w)});
    return;
  }
  if (auto* cf = dyn_cast<ConstantFP>(c)) {
    APInt b = cf->getValueAPF().bitcastToAPInt();
    if (b.getBitWidth() <= 64) out.push_back(VC(b.getZExtValue()));
    else out.push_back(Val{0, eConst128(((u128)b.extractBitsAsZExtValue(b.getBitWidth() - 64, 64) << 64) | b.extractBitsAsZExtValue(64, 0), b.getBitWidth())});
    return;
  }
  if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c) || isa<ConstantPointerNull>(c) || isa<ConstantTokenNone>(c)) {
    std::vector<Leaf> l; leaves(t, 0, l); for (auto& x : l) out.push_back(x.w > 64 ? Val{0, eConst128(0, x.w)} : VC(0)); return;
  }
  if (auto* f = dyn_cast<Function>(c)) { out.push_back(VC(func(f)->addr)); return; }
  if (auto* g = dyn_cast<GlobalVariable>(c)) { out.push_back(VC(gaddr.at(g))); return; }
  if (auto* a = dyn_cast<GlobalAlias>(c)) { constVals(a->getAliasee(), out); return; }
  if (auto* cd = dyn_cast<ConstantDataSequential>(c)) { for (unsigned i = 0; i < cd->getNumElements(); i++) constVals(cd->getElementAsConstant(i), out); return; }
  if (isa<ConstantStruct>(c) || isa<ConstantArray>(c) || isa<ConstantVector>(c)) { for (auto& o : c->operands()) constVals(cast<Constant>(o.get()), out); return; }
  if (auto* ce = dyn_cast<ConstantExpr>(c)) {
    auto one = [&](unsigned i) { std::vector<Val> v; constVals(ce->getOperand(i), v); return v[0].c; };
    switch (ce->getOpcode()) {
      case Instruction::GetElementPtr: {
        APInt off(64, 0); auto* go = cast<GEPOperator>(ce);
        if (!go->accumulateConstantOffset(*DL, off)) { fprintf(stderr, "sx: non-constant GEP constant\n"); exit(2); }
        out.push_back(VC(one(0) + off.getSExtValue())); return; }
      case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: {
        u64 v = one(0); if (t->isIntegerTy() && t->getIntegerBitWidth() < 64) v &= maskw(t->getIntegerBitWidth()); out.push_back(VC(v)); return; }
      case Instruction::Trunc: out.push_back(VC(one(0) & maskw(t->getIntegerBitWidth()))); return;
      case Instruction::Add: out.push_back(VC((one(0) + one(1)) & maskw(t->getIntegerBitWidth()))); return;
      case Instruction::Sub: out.push_back(VC((one(0) - one(1)) & maskw(t->getIntegerBitWidth()))); return;
      case Instruction::ICmp: { u64 a = one(0), b = one(1); auto p = ce->getPredicate(); bool r = p == CmpInst::ICMP_EQ ? a == b : p == CmpInst::ICMP_NE ? a != b : a < b; out.push_back(VC(r)); return; }
      case Instruction::Select: { out.push_back(VC(one(0) ? one(1) : one(2))); return; }
      default: break;
    }
    fprintf(stderr, "sx: unsupported constant expression\n"); ce->print(errs()); exit(2);
  }
  fprintf(stderr, "sx: unsupported constant\n"); c->print(errs()); exit(2);
}
void Exec::writeConst(ObjData* d, u32 off, const Constant* c) {
  std::vector<Val> vs; constVals(c, vs); std::vector<Leaf> l; leaves(c->getType(), 0, l);
  for (size_t i = 0; i < l.size(); i++) {
    u32 o = off + l[i].off; unsigned nb = (l[i].w + 7) / 8;
    if (vs[i].e) { u128 v = cval(vs[i].e); for (unsigned b = 0; b < nb; b++) d->d[o + b] = (uint8_t)(v >> (8 * b)); }
    else for (unsigned b = 0; b < nb; b++) d->d[o + b] = (uint8_t)(vs[i].c >> (8 * b));
  }
}
DFunc* Exec::func(const Function* F) {
  auto it = funcs.find(F); if (it != funcs.end()) return it->second;
  DFunc* f = new DFunc(); f->F = F; f->name = F->getName().str();
  u32 id = mem0->alloc(16, K_FUNC, false); mem0->entW(id)->ro = 1;
  f->addr = (u64)id << 32; if (F->hasExternalWeakLinkage()) f->addr = 0;
  funcs[F] = f; funcByObj[id] = f; return f;
}
void Exec::load(Module* m) {
  M = m; DL = &M->getDataLayout(); mem0 = new Mem();
  for (auto& F : *M) if (!F.isIntrinsic()) func(&F);
  for (auto& G : M->globals()) {
    if (G.hasExternalWeakLinkage() && !G.hasInitializer()) { gaddr[&G] = 0; continue; }
    u64 sz = G.getValueType()->isSized() ? (u64)DL->getTypeAllocSize(G.getValueType()) : 64;
    if (!G.hasInitializer() && sz < 128) sz = 128;
    u32 id = mem0->alloc((u32)sz, K_GLOBAL, false); gaddr[&G] = (u64)id << 32; tiByAddr[(u64)id << 32] = &G;
  }
  for (auto& G : M->globals()) if (G.hasInitializer() && gaddr[&G]) {
    u32 id = gaddr[&G] >> 32; if (G.getName().starts_with("llvm.")) continue;
    writeConst(mem0->dataW(id), 0, G.getInitializer());
    if (G.isConstant()) mem0->entW(id)->ro = 1;
  }
}
Op Exec::operand(DFunc* f, const Value* v) {
  Op o; 
  if (auto* c = dyn_cast<Constant>(v)) { f->consts.emplace_back(); constVals(c, f->consts.back()); o.cv = f->consts.back().data(); o.n = f->consts.back().size(); return o; }
  auto it = f->slot.find(v);
  if (it == f->slot.end()) { static const Val z[1] = {Val()}; o.cv = z; o.n = 1; return o; } // metadata, inline asm, labels
  o.slot = it->second; o.n = nslots(v->getType()); return o;
}
static unsigned sw(Type* t, const DataLayout* DL) {
  if (auto* vt = dyn_cast<FixedVectorType>(t)) t = vt->getElementType();
  if (t->isIntegerTy()) return t->getIntegerBitWidth();
  if (t->isFloatTy()) return 32; if (t->isX86_FP80Ty()) return 80;
  return 64;
}
void Exec::decode(DFunc* f) {
  if (f->decoded) return; f->decoded = true;
  const Function* F = f->F; int n = 0; std::unordered_map<const BasicBlock*, int> bi;
  for (auto& a : F->args()) { u32 k = nslots(a.getType()); f->slot[&a] = n; f->args.push_back({n, k}); n += k; }
  for (auto& B : *F) { int id = bi.size(); bi[&B] = id; for (auto& I : B) if (!I.getType()->isVoidTy()) { f->slot[&I] = n; n += nslots(I.getType()); } }
  f->nslots = n; f->bl.resize(bi.size());
  auto edge = [&](const BasicBlock* from, const BasicBlock* to) {
    Edge e; e.blk = bi[to];
    for (auto& P : to->phis()) { Move m; m.dst = f->slot[&P]; m.src = operand(f, P.getIncomingValueForBlock(from)); m.n = nslots(P.getType()); e.mv.push_back(m); }
    return e; };
  for (auto& B : *F) {
    auto& out = f->bl[bi[&B]].is;
    for (auto& I : B) {
      if (isa<PHINode>(I) || isa<DbgInfoIntrinsic>(I)) continue;
      DI d; d.I = &I; d.opc = I.getOpcode();
      if (!I.getType()->isVoidTy()) { d.dst = f->slot[&I]; d.nd = nslots(I.getType()); }
      d.w = I.getType()->isVoidTy() ? 0 : sw(I.getType(), DL);
      if (auto* cb = dyn_cast<CallBase>(&I)) {
        d.invoke = isa<InvokeInst>(I);
        const Function* cf = dyn_cast<Function>(cb->getCalledOperand()->stripPointerCastsAndAliases());
        for (unsigned i = 0; i < cb->arg_size(); i++) {
          d.ops.push_back(operand(f, cb->getArgOperand(i))); d.opw.push_back(sw(cb->getArgOperand(i)->getType(), DL));
          if (cb->isByValArgument(i)) d.byval.push_back({(int)i, (u64)DL->getTypeAllocSize(cb->getParamByValType(i))});
        }
        if (cf && cf->isIntrinsic()) { d.iid = cf->getIntrinsicID(); d.w2 = cb->arg_size() ? sw(cb->getArgOperand(0)->getType(), DL) : 0;
          if (d.iid == Intrinsic::eh_typeid_for) d.imm = 0;
          if (d.iid == Intrinsic::is_fpclass) {} 
          d.bname = strdup(cf->getName().str().c_str()); }
        else if (cf) { d.callee = func(cf); if (cf->isDeclaration()) { d.bi = findBuiltin(cf->getName().str()); d.bname = d.callee->name.c_str(); }
          else { Builtin b = findBuiltin("!" + cf->getName().str()); if (b) { d.bi = b; d.bname = d.callee->name.c_str(); } } }
        else { if (cb->isInlineAsm()) d.bname = "inline asm"; d.ops.push_back(operand(f, cb->getCalledOperand())); d.pred = 1; } // indirect: callee operand last
        if (d.invoke) { auto* iv = cast<InvokeInst>(&I); d.ed.push_back(edge(&B, iv->getNormalDest())); d.ed.push_back(edge(&B, iv->getUnwindDest())); }
        out.push_back(std::move(d)); continue;
      }
      switch (I.getOpcode()) {
        case Instruction::Br: { auto& b = cast<BranchInst>(I); if (b.isConditional()) d.ops.push_back(operand(f, b.getCondition())); for (unsigned i = 0; i < b.getNumSuccessors(); i++) d.ed.push_back(edge(&B, b.getSuccessor(i))); break; }
        case Instruction::Switch: { auto& s = cast<SwitchInst>(I); d.ops.push_back(operand(f, s.getCondition())); d.w2 = sw(s.getCondition()->getType(), DL); d.ed.push_back(edge(&B, s.getDefaultDest()));
          for (auto& c : s.cases()) { d.caseV.push_back(VC(c.getCaseValue()->getZExtValue())); d.ed.push_back(edge(&B, c.getCaseSuccessor())); } break; }
        case Instruction::GetElementPtr: {
          auto& g = cast<GetElementPtrInst>(I); d.ops.push_back(operand(f, g.getPointerOperand()));
          for (auto it = gep_type_begin(g), e = gep_type_end(g); it != e; ++it) {
            Value* ix = it.getOperand();
            if (auto* st = it.getStructTypeOrNull()) { d.imm += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue()); }
            else { u64 sc = DL->getTypeAllocSize(it.getIndexedType());
              if (auto* ci = dyn_cast<ConstantInt>(ix)) d.imm += ci->getSExtValue() * sc;
              else d.gi.push_back({operand(f, ix), sw(ix->getType(), DL), sc}); }
          }
          break; }
        case Instruction::Load: leaves(I.getType(), 0, d.lv); d.ops.push_back(operand(f, I.getOperand(0))); break;
        case Instruction::Store: leaves(I.getOperand(0)->getType(), 0, d.lv); d.ops.push_back(operand(f, I.getOperand(0))); d.ops.push_back(operand(f, I.getOperand(1))); break;
        case Instruction::Alloca: { auto& a = cast<AllocaInst>(I); d.imm = DL->getTypeAllocSize(a.getAllocatedType()); d.ops.push_back(operand(f, a.getArraySize())); break; }
        case Instruction::ICmp: case Instruction::FCmp: d.pred = cast<CmpInst>(I).getPredicate(); d.w2 = sw(I.getOperand(0)->getType(), DL); d.ops.push_back(operand(f, I.getOperand(0))); d.ops.push_back(operand(f, I.getOperand(1))); break;
        case Instruction::ExtractValue: { auto& e = cast<ExtractValueInst>(I); d.ops.push_back(operand(f, e.getAggregateOperand()));
          Type* t = e.getAggregateOperand()->getType(); u32 o = 0; for (unsigned ix : e.indices()) { for (unsigned k = 0; k < ix; k++) o += nslots(t->isStructTy() ? t->getStructElementType(k) : t->getArrayElementType()); t = t->isStructTy() ? t->getStructElementType(ix) : t->getArrayElementType(); } d.imm = o; break; }
        case Instruction::InsertValue: { auto& e = cast<InsertValueInst>(I); d.ops.push_back(operand(f, e.getAggregateOperand())); d.ops.push_back(operand(f, e.getInsertedValueOperand()));
          Type* t = I.getType(); u32 o = 0; for (unsigned ix : e.indices()) { for (unsigned k = 0; k < ix; k++) o += nslots(t->isStructTy() ? t->getStructElementType(k) : t->getArrayElementType()); t = t->isStructTy() ? t->getStructElementType(ix) : t->getArrayElementType(); } d.imm = o; break; }
        case Instruction::ShuffleVector: { auto& s = cast<ShuffleVectorInst>(I); d.ops.push_back(operand(f, s.getOperand(0))); d.ops.push_back(operand(f, s.getOperand(1))); for (int m : s.getShuffleMask()) d.idxs.push_back(m); break; }
        case Instruction::LandingPad: { auto& l = cast<LandingPadInst>(I); d.cleanup = l.isCleanup();
          for (unsigned i = 0; i < l.getNumClauses(); i++) { LPClause c; c.kind = l.isCatch(i) ? 0 : 1; c.ti = 0; if (c.kind == 0) { std::vector<Val> v; constVals(l.getClause(i), v); c.ti = v[0].c; } d.lp.push_back(c); } break; }
        default:
          for (auto& o : I.operands()) { d.ops.push_back(operand(f, o.get())); }
          if (I.getNumOperands()) d.w2 = sw(I.getOperand(0)->getType(), DL);
          if (auto* rmw = dyn_cast<AtomicRMWInst>(&I)) { d.pred = rmw->getOperation(); }
          if (auto* cx = dyn_cast<AtomicCmpXchgInst>(&I)) { d.w = sw(cx->getNewValOperand()->getType(), DL); }
          break;
      }
      out.push_back(std::move(d));
    }
  }
}

// ---------------------------------------------------------------- state helpers
State* Exec::initial(const std::string& entry) {
  Function* E = M->getFunction(entry); if (!E || E->isDeclaration()) { fprintf(stderr, "sx: no entry function %s\n", entry.c_str()); exit(2); }
  State* s = new State();
  s->mem.ch = mem0->ch; for (auto* c : s->mem.ch) c->rc++; s->mem.next = mem0->next;
  s->model = std::make_shared<std::vector<u64>>(); s->th.resize(1);
  if (auto* G = M->getGlobalVariable("llvm.global_ctors")) if (G->hasInitializer()) if (auto* a = dyn_cast<ConstantArray>(G->getInitializer())) {
    std::vector<std::pair<u64, Function*>> v;
    for (auto& o : a->operands()) { auto* cs = cast<ConstantStruct>(o.get()); if (auto* f = dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts())) v.push_back({cast<ConstantInt>(cs->getOperand(0))->getZExtValue(), f}); }
    std::stable_sort(v.begin(), v.end(), [](auto& x, auto& y) { return x.first < y.first; });
    for (auto& p : v) s->pending.push_back({func(p.second), {}});
  }
  s->pending.push_back({func(E), {}});
  return s;
}
Expr* Exec::fresh(State& S, unsigned w, const std::string& name, bool input, u64 span) {
  Expr* e = eVar(S.nvars, w, span);
  if (input) S.inputs.push_back({name, S.nvars, w}); else S.uninitMask |= e->mask;
  S.nvars++; return e;
}
SatRes Exec::query(State& S, Expr* c, Model& m) {
  if (isC(c)) { if (c->v) { m = S.model; return SAT; } return UNSAT; }
  // all variables already pinned to a single value: the current model decides
  if ((c->mask & ~S.fixed) == 0 && !(c->mask >> 63)) { Evaluator E(*S.model); if (E.ev(c)) { m = S.model; return SAT; } return UNSAT; }
  SatRes r = sol.check(S.pc, c, S.model, m, S.nvars);
  if (r == UNKNOWN) { inconclusive++; notes.insert("solver returned unknown at " + where(S)); }
  return r;
}
void Exec::addC(State& S, Expr* c) {
  if (isC(c)) return;
  if (c->op == E_AND && c->w == 1) { addC(S, c->k[0]); addC(S, c->k[1]); return; }
  for (auto* p : S.pc) if (p == c) return;
  S.pc.push_back(c);
  if (c->op == E_EQ && isC(c->k[1]) && c->k[0]->op == E_VAR && c->k[0]->v < 63) S.fixed |= 1ULL << c->k[0]->v;
}
bool Exec::branch(State& S, Expr* c, State*& other) {
  other = nullptr;
  if (isC(c)) return c->v;
  Evaluator E(*S.model); bool b = E.ev(c);
  Expr* nc = b ? eNot(c) : c; Model m2;
  SatRes r = query(S, nc, m2);
  if (r == SAT) { other = clone(S); other->model = m2; addC(*other, nc); addC(S, b ? c : eNot(c)); }
  else if (r == UNKNOWN) addC(S, b ? c : eNot(c));
  return b;
}
// Enumerate every feasible value of e; S keeps the current model's value, the others get forked states.
bool Exec::concVal(State& S, Expr* e, u64& out, std::vector<std::pair<u64, State*>>& others) {
  if (isC(e)) { out = e->v; return true; }
  std::vector<std::pair<u64, Model>> vals; Evaluator E0(*S.model); vals.push_back({(u64)E0.ev(e), S.model});
  Expr* excl = eNot(eCmp(E_EQ, e, eConst(vals[0].first, e->w)));
  while (true) {
    Model m; SatRes r = query(S, excl, m); if (r != SAT) break;
    Evaluator E(*m); u64 v = (u64)E.ev(e); vals.push_back({v, m});
    excl = eBin(E_AND, excl, eNot(eCmp(E_EQ, e, eConst(v, e->w))));
    if (vals.size() > enumLimit) { unsup(S, "more than " + std::to_string(enumLimit) + " feasible values when concretising at " + where(S)); return false; }
  }
  for (size_t i = 1; i < vals.size(); i++) { State* n = clone(S); n->model = vals[i].second; addC(*n, eCmp(E_EQ, e, eConst(vals[i].first, e->w))); others.push_back({vals[i].first, n}); }
  if (vals.size() > 1) addC(S, eCmp(E_EQ, e, eConst(vals[0].first, e->w)));
  out = vals[0].first;
  // detect pinned single variables
  auto pin = [&](State& T) { u64 mk = e->mask & ~T.fixed; if (mk && !(mk & (mk - 1)) && !(mk >> 63)) { u32 vi = __builtin_ctzll(mk); 
      std::vector<Expr*> st{e}; unsigned w = 0; while (!st.empty() && !w) { Expr* x = st.back(); st.pop_back(); if (x->op == E_VAR && x->v == vi) w = x->w; for (int i = 0; i < 3; i++) if (x->k[i] && x->k[i]->mask) st.push_back(x->k[i]); }
      if (w) { Expr* var = eVar(vi, w); u64 cur = vi < T.model->size() ? (*T.model)[vi] : 0; Model m; if (query(T, eNot(eCmp(E_EQ, var, eConst(cur, w))), m) == UNSAT) T.fixed |= 1ULL << vi; } } };
  pin(S); for (auto& o : others) pin(*o.second);
  return true;
}
bool Exec::conc(State& S, const Op& op, u32 i, unsigned w, u64& out) {
  Val v = rd(S, op, i); if (!v.e) { out = v.c; return true; }
  std::vector<std::pair<u64, State*>> oth; if (!concVal(S, v.e, out, oth)) return false;
  for (auto& o : oth) { if (op.slot >= 0) o.second->fr().r[op.slot + i] = VC(o.first); work.push_back(o.second); }
  if (op.slot >= 0) S.fr().r[op.slot + i] = VC(out);
  return true;
}
std::string Exec::where(State& S) {
  std::string r; if (S.th.empty()) return r; auto& T = S.th[S.cur];
  int n = 0;
  for (int i = (int)T.st.size() - 1; i >= 0 && n < 6; i--) {
    Frame& f = T.st[i]; const Instruction* I = nullptr; if (f.blk < (int)f.f->bl.size() && f.pc < (int)f.f->bl[f.blk].is.size()) I = f.f->bl[f.blk].is[f.pc].I;
    const DILocation* L = I ? I->getDebugLoc().get() : nullptr;
    if (!L) { if (n) r += " < "; r += demangle(f.f->name).substr(0, 60); n++; continue; }
    for (; L && n < 6; L = L->getInlinedAt()) { std::string fn = L->getFilename().str(); size_t p = fn.rfind('/'); if (p != std::string::npos) fn = fn.substr(p + 1); if (n) r += " < "; r += fn + ":" + std::to_string(L->getLine()); n++; }
  }
  return r;
}
void Exec::unsup(State& S, const std::string& msg) { inconclusive++; unsupported.insert(msg); S.dead = true; }
void Exec::fail(State& S, const std::string& kind, const std::string& msg, Expr* cond) {
  Model m = S.model;
  if (cond) { if (query(S, cond, m) != SAT) return; }
  S.dead = true; paths++;
  std::string w = where(S); std::string key = kind + "|" + msg + "|" + w.substr(0, 120);
  if (!violKeys.insert(key).second || viol.size() >= 20) return;
  Violation v; v.kind = kind; v.msg = msg; v.where = w; v.in = S.inputs; v.uninit = S.usedUninit;
  for (auto& in : S.inputs) v.vals.push_back(in.var < m->size() ? ((*m)[in.var] & maskw(in.w)) : 0);
  viol.push_back(v);
}

// ---------------------------------------------------------------- memory
bool Exec::access(State& S, u64 addr, u64 n, bool write, ObjEnt*& e, u32& id, u32& off) {
  id = addr >> 32; off = (u32)addr; char b[128];
  if (id == 0) { snprintf(b, 128, "null-pointer %s (address %llu, %llu bytes)", write ? "write" : "read", (unsigned long long)addr, (unsigned long long)n); fail(S, "memory", b); return false; }
  e = S.mem.get(id);
  if (!e) { fail(S, "memory", write ? "wild write" : "wild read"); return false; }
  if (!e->alive) { fail(S, "memory", std::string(e->kind == K_STACK ? "use of dead stack slot" : "use after free") + (write ? " (write)" : " (read)")); return false; }
  if ((u64)off + n > e->p->size) { const char* kn = e->kind == K_STACK ? "stack" : e->kind == K_GLOBAL ? "global" : "heap"; fail(S, "memory", std::string(kn) + " out-of-bounds " + (write ? "write" : "read")); return false; }
  if (write && e->ro) { fail(S, "memory", "write to constant memory"); return false; }
  if (e->kind == K_FUNC) { fail(S, "memory", "access to code"); return false; }
  return true;
}
bool Exec::loadV(State& S, u64 addr, unsigned w, Val& out) {
  unsigned nb = (w + 7) / 8; ObjEnt* e; u32 id, off; if (!access(S, addr, nb, false, e, id, off)) return false;
  ObjData* p = e->p;
  bool sym = false;
  if (!p->un.empty()) for (unsigned i = 0; i < nb; i++) if (p->un[off + i]) {
      ObjData* q = S.mem.dataW(id); for (unsigned j = 0; j < nb; j++) if (q->un[off + j]) { if (q->s.empty()) q->s.assign(q->size, nullptr); q->s[off + j] = fresh(S, 8, "uninit", false); q->un[off + j] = 0; S.usedUninit = true; }
      p = q; break; }
  if (!p->s.empty()) for (unsigned i = 0; i < nb; i++) if (p->s[off + i]) { sym = true; break; }
  if (!sym) {
    if (w <= 64) { u64 v = 0; memcpy(&v, &p->d[off], nb); out = VC(v & maskw(w)); }
    else { u128 v = 0; memcpy(&v, &p->d[off], nb); out = Val{0, eConst128(v, w)}; }
    return true;
  }
  auto by = [&](unsigned i) { return p->s[off + i] ? p->s[off + i] : eConst(p->d[off + i], 8); };
  Expr* r = by(nb - 1); for (int i = nb - 2; i >= 0; i--) r = eConcat(r, by(i));
  if (r->w > w) r = eExtract(r, 0, w);
  out = w <= 64 ? VE(r) : Val{0, r}; return true;
}
bool Exec::storeV(State& S, u64 addr, unsigned w, const Val& v) {
  unsigned nb = (w + 7) / 8; ObjEnt* e; u32 id, off; if (!access(S, addr, nb, true, e, id, off)) return false;
  ObjData* p = S.mem.dataW(id);
  if (!p->un.empty()) memset(&p->un[off], 0, nb);
  if (!v.e) { if (w <= 64) memcpy(&p->d[off], &v.c, nb); else { memset(&p->d[off], 0, nb); memcpy(&p->d[off], &v.c, 8); } if (!p->s.empty()) for (unsigned i = 0; i < nb; i++) p->s[off + i] = nullptr; return true; }
  if (isC(v.e)) { u128 c = cval(v.e); memcpy(&p->d[off], &c, nb); if (!p->s.empty()) for (unsigned i = 0; i < nb; i++) p->s[off + i] = nullptr; return true; }
  Expr* x = v.e; if (x->w < nb * 8) x = eZext(x, nb * 8);
  if (p->s.empty()) p->s.assign(p->size, nullptr);
  for (unsigned i = 0; i < nb; i++) { Expr* b = eExtract(x, 8 * i, 8); if (isC(b)) { p->d[off + i] = (uint8_t)b->v; p->s[off + i] = nullptr; } else p->s[off + i] = b; }
  return true;
}
bool Exec::copyMem(State& S, u64 dst, u64 src, u64 n) {
  if (n == 0) return true;
  ObjEnt *es, *ed; u32 is, os, id, od; if (!access(S, src, n, false, es, is, os)) return false;
  std::vector<uint8_t> d(es->p->d.begin() + os, es->p->d.begin() + os + n); std::vector<Expr*> sx; std::vector<uint8_t> un;
  if (!es->p->s.empty()) sx.assign(es->p->s.begin() + os, es->p->s.begin() + os + n);
  if (!es->p->un.empty()) un.assign(es->p->un.begin() + os, es->p->un.begin() + os + n);
  if (!access(S, dst, n, true, ed, id, od)) return false;
  ObjData* q = S.mem.dataW(id); memcpy(&q->d[od], d.data(), n);
  bool anyS = false; for (auto* x : sx) if (x) { anyS = true; break; }
  if (anyS) { if (q->s.empty()) q->s.assign(q->size, nullptr); for (u64 i = 0; i < n; i++) q->s[od + i] = sx[i]; }
  else if (!q->s.empty()) for (u64 i = 0; i < n; i++) q->s[od + i] = nullptr;
  bool anyU = false; for (auto x : un) if (x) { anyU = true; break; }
  if (anyU) { if (q->un.empty()) q->un.assign(q->size, 0); for (u64 i = 0; i < n; i++) q->un[od + i] = un[i]; }
  else if (!q->un.empty()) memset(&q->un[od], 0, n);
  return true;
}
bool Exec::setMem(State& S, u64 dst, Val b, u64 n) {
  if (n == 0) return true; ObjEnt* e; u32 id, off; if (!access(S, dst, n, true, e, id, off)) return false;
  ObjData* q = S.mem.dataW(id); if (!q->un.empty()) memset(&q->un[off], 0, n);
  if (b.e) { if (q->s.empty()) q->s.assign(q->size, nullptr); for (u64 i = 0; i < n; i++) q->s[off + i] = b.e; }
  else { memset(&q->d[off], (int)b.c, n); if (!q->s.empty()) for (u64 i = 0; i < n; i++) q->s[off + i] = nullptr; }
  return true;
}
bool Exec::concByte(State& S, u64 addr, uint8_t& out) {
  Val v; if (!loadV(S, addr, 8, v)) return false;
  if (!v.e) { out = (uint8_t)v.c; return true; }
  u64 o; std::vector<std::pair<u64, State*>> oth; if (!concVal(S, v.e, o, oth)) return false;
  for (auto& p : oth) { storeV(*p.second, addr, 8, VC(p.first)); work.push_back(p.second); }
  storeV(S, addr, 8, VC(o)); out = (uint8_t)o; return true;
}
bool Exec::cstr(State& S, u64 addr, std::string& out) {
  out.clear(); while (true) { uint8_t b; if (!concByte(S, addr, b)) return false; if (!b) return true; out.push_back((char)b); addr++; if (out.size() > 100000) { unsup(S, "unterminated string"); return false; } }
}

// ---------------------------------------------------------------- control
void Exec::jump(State& S, const Edge& e) {
  Frame& f = S.fr();
  if (!e.mv.empty()) {
    static thread_local std::vector<Val> tmp; tmp.clear();
    for (auto& m : e.mv) for (u32 i = 0; i < m.n; i++) tmp.push_back(m.src.slot >= 0 ? f.r[m.src.slot + i] : m.src.cv[i]);
    size_t k = 0; for (auto& m : e.mv) for (u32 i = 0; i < m.n; i++) f.r[m.dst + i] = tmp[k++];
  }
  f.blk = e.blk; f.pc = 0;
}
void Exec::advance(State& S, DI& d) { if (d.invoke) jump(S, d.ed[0]); else S.fr().pc++; }
void Exec::pushCall(State& S, DFunc* f, const std::vector<Val>& args) {
  decode(f); f->calls++;
  S.th[S.cur].st.emplace_back(); Frame& fr = S.th[S.cur].st.back(); fr.f = f; fr.r.resize(f->nslots);
  for (size_t i = 0; i < args.size() && i < (size_t)f->nslots; i++) fr.r[i] = args[i];
  if (S.th[S.cur].st.size() > 3000) { fail(S, "resource", "call stack deeper than 3000 frames"); }
}
void Exec::popFrame(State& S) {
  Frame& f = S.fr(); for (u32 id : f.allocas) S.mem.kill(id);
  if (f.freeObj) { S.mem.kill(f.freeObj); }
  S.th[S.cur].st.pop_back();
}
void Exec::threadEnded(State& S) {
  // current thread's stack is empty
  Thread& T = S.th[S.cur];
  if (S.cur != 0) { T.done = true; S.cur = T.resumer; Frame& f = S.fr(); DI& r = f.f->bl[f.blk].is[f.pc]; ret(S, r, VC(1)); return; } // resumed thread continues after its sx_resume call
  if (S.exiting) { finish(S); return; }
  if (!S.pending.empty()) { auto p = S.pending.front(); S.pending.pop_front(); if (p.first->F->isDeclaration()) { unsup(S, "pending call to undefined " + p.first->name); return; } pushCall(S, p.first, p.second); return; }
  finish(S);
}
void Exec::doReturn(State& S, const std::vector<Val>& rv) {
  bool ign = S.fr().ignoreRet; popFrame(S);
  if (S.th[S.cur].st.empty()) { threadEnded(S); return; }
  if (ign) return;
  Frame& c = S.fr(); DI& d = c.f->bl[c.blk].is[c.pc];
  if (d.dst >= 0) for (size_t i = 0; i < rv.size() && i < d.nd; i++) c.r[d.dst + i] = rv[i];
  advance(S, d);
}
void Exec::doCall(State& S, DI& d) {
  if (d.bi) { d.bi(*this, S, d); return; }
  if (d.iid) { runIntrinsic(*this, S, d); return; }
  DFunc* f = d.callee; size_t na = d.ops.size();
  if (!f) {
    if (d.bname) { unsup(S, "inline asm"); return; }
    na--; u64 a; if (!conc(S, d.ops[na], 0, 64, a)) return;
    auto it = funcByObj.find(a >> 32); if (it == funcByObj.end() || (u32)a != 0) { fail(S, "memory", a == 0 ? "call through null function pointer" : "call through wild function pointer"); return; }
    f = it->second;
    if (f->F->isDeclaration()) { Builtin b = findBuiltin(f->name); if (b) { b(*this, S, d); return; } }
    else if (Builtin b = findBuiltin("!" + f->name)) { b(*this, S, d); return; }
  }
  if (f->F->isDeclaration()) { unsup(S, "call to unmodelled external function " + f->name + " at " + where(S)); return; }
  std::vector<Val> args; args.reserve(8);
  u64 va = 0; if (f->F->isVarArg()) { // the variable arguments live in one object, eight bytes each
    size_t nf = f->F->arg_size(); va = newObj(S, na > nf ? 8 * (na - nf) : 8, K_STACK, true);
    for (size_t i = nf; i < na; i++) { if (d.ops[i].n != 1 || d.opw[i] > 64) { unsup(S, "aggregate variable argument"); return; } Val v = rd(S, d.ops[i]); if (!storeV(S, va + 8 * (i - nf), 64, d.opw[i] < 64 ? VE(eZext(toE(v, d.opw[i]), 64)) : v)) return; } na = nf; }
  for (size_t i = 0; i < na; i++) for (u32 k = 0; k < d.ops[i].n; k++) args.push_back(rd(S, d.ops[i], k));
  std::vector<u32> extra;
  for (auto& bv : d.byval) { // argument slots are 1 for pointers; find flat index
    u32 fi = 0; for (int i = 0; i < bv.first; i++) fi += d.ops[i].n;
    if (args[fi].e) { unsup(S, "symbolic byval pointer"); return; }
    u64 na2 = newObj(S, bv.second, K_STACK, true); if (!copyMem(S, na2, args[fi].c, bv.second)) return; extra.push_back(na2 >> 32); args[fi] = VC(na2);
  }
  pushCall(S, f, args);
  if (va && !S.dead) { S.fr().va = va; extra.push_back(va >> 32); }
  if (!S.dead) for (u32 id : extra) S.fr().allocas.push_back(id);
}
// typeinfo matching -------------------------------------------------------
static std::string tiKind(const GlobalVariable* g) {
  if (!g || !g->hasInitializer()) return "";
  auto* cs = dyn_cast<ConstantStruct>(g->getInitializer()); if (!cs || cs->getNumOperands() < 2) return "";
  const Value* v = cs->getOperand(0)->stripInBoundsOffsets(); return v->getName().str();
}
bool Exec::catches(u64 cti, u64 tti, u64& off) {
  if (cti == 0) return true;
  if (cti == tti) return true;
  auto it = tiByAddr.find(tti); if (it == tiByAddr.end()) return false;
  const GlobalVariable* g = it->second; std::string k = tiKind(g);
  // same name in different globals (hidden duplicates) -- compare by symbol
  auto ic = tiByAddr.find(cti); if (ic != tiByAddr.end() && ic->second->getName() == g->getName()) return true;
  if (k == "_ZTVN10__cxxabiv120__si_class_type_infoE") {
    std::vector<Val> v; constVals(cast<ConstantStruct>(g->getInitializer())->getOperand(2), v); return catches(cti, v[0].c, off);
  }
  if (k == "_ZTVN10__cxxabiv121__vmi_class_type_infoE") {
    auto* cs = cast<ConstantStruct>(g->getInitializer());
    for (unsigned i = 4; i + 1 < cs->getNumOperands(); i += 2) { std::vector<Val> b, o; constVals(cs->getOperand(i), b); constVals(cs->getOperand(i + 1), o); i64 fl = (i64)o[0].c; if (fl & 1) continue; u64 save = off; off += fl >> 8; if (catches(cti, b[0].c, off)) return true; off = save; }
  }
  return false;
}
void Exec::unwind(State& S, u64 exc) {
  ExcInfo& xi = S.exc[exc >> 32];
  auto& st = S.th[S.cur].st;
  // phase 1: is there a handler at all?
  bool handled = false;
  for (int i = (int)st.size() - 1; i >= 0 && !handled; i--) {
    Frame& f = st[i]; DI& d = f.f->bl[f.blk].is[f.pc]; if (!d.invoke) continue;
    DBlock& ub = f.f->bl[d.ed[1].blk]; DI& lp = ub.is[0];
    for (auto& c : lp.lp) { u64 off = 0; if (c.kind == 0 && catches(c.ti, xi.ti, off)) { handled = true; break; } }
  }
  if (!handled) {
    auto it = tiByAddr.find(xi.ti); std::string tn = it != tiByAddr.end() ? demangle(it->second->getName().str()) : "?";
    fail(S, "uncaught-exception", "exception not caught: " + tn); if (!S.dead) S.dead = true; return;
  }
  while (!st.empty()) {
    Frame& f = st.back(); DI& d = f.f->bl[f.blk].is[f.pc];
    if (d.invoke) {
      DI& lp = f.f->bl[d.ed[1].blk].is[0]; u64 sel = 0; bool take = lp.cleanup; u64 off = 0;
      for (auto& c : lp.lp) { off = 0; if (c.kind == 0 && catches(c.ti, xi.ti, off)) { take = true; sel = c.ti ? (c.ti >> 32) : 0x7fffffff; break; } }
      if (take) {
        u64 adj = exc + off; auto it = tiByAddr.find(xi.ti); if (it != tiByAddr.end() && tiKind(it->second) == "_ZTVN10__cxxabiv119__pointer_type_infoE") { Val pv; if (loadV(S, exc, 64, pv)) adj = pv.c; }
        if (sel) xi.adj = adj;
        jump(S, d.ed[1]); Frame& g = S.fr(); DI& l2 = g.f->bl[g.blk].is[0]; g.r[l2.dst] = VC(exc); g.r[l2.dst + 1] = VC(sel); g.pc = 1; return;
      }
    }
    popFrame(S);
  }
}
void Exec::finish(State& S) {
  S.dead = true; paths++; if (S.steps > maxSteps) maxSteps = S.steps;
  if (S.exiting) exits++;
  // reservoir sample of completed paths for the native trace comparison
  rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17;
  if (S.usedUninit) { // the mask is only a filter: many variables share a bit
    std::set<u64> in; for (auto& i : S.inputs) in.insert(i.var); std::set<Expr*> seen; std::vector<Expr*> q;
    for (auto* c : S.pc) if (c->mask & S.uninitMask) q.push_back(c);
    while (!q.empty()) { Expr* e = q.back(); q.pop_back(); if (!(e->mask & S.uninitMask) || !seen.insert(e).second) continue; if (e->op == E_VAR && !in.count(e->v)) return; for (auto* k : e->k) if (k) q.push_back(k); }
  }
  if (samples.size() < maxSamples || rng % paths < maxSamples) {
    Evaluator E(*S.model); std::pair<std::vector<std::pair<Input, u64>>, std::vector<std::pair<std::string, u64>>> sm;
    for (auto& in : S.inputs) sm.first.push_back({in, in.var < S.model->size() ? ((*S.model)[in.var] & maskw(in.w)) : 0});
    for (auto& o : S.obs) sm.second.push_back({o.tag, (u64)E.ev(o.e)});
    sm.second.push_back({"#exit", S.exiting ? (u64)(u32)S.exitCode : (u64)-1});
    if (samples.size() < maxSamples) samples.push_back(sm); else samples[rng / 7 % samples.size()] = sm;
  }
}
void Exec::run(State* s) {
  State& S = *s;
  while (!S.dead) {
    if (S.th[S.cur].st.empty()) { threadEnded(S); continue; }
    step(S);
    if ((S.steps & 0x3fff) == 0) { if (S.steps > stepLimit) { fail(S, "hang", "no termination within the step bound"); break; } if (deadline && nowS() > deadline) { inconclusive++; notes.insert("time budget exhausted"); break; } }
  }
  delete s;
}
static EOp binop(unsigned opc) {
  switch (opc) { case Instruction::Add: return E_ADD; case Instruction::Sub: return E_SUB; case Instruction::Mul: return E_MUL; case Instruction::UDiv: return E_UDIV; case Instruction::SDiv: return E_SDIV;
    case Instruction::URem: return E_UREM; case Instruction::SRem: return E_SREM; case Instruction::And: return E_AND; case Instruction::Or: return E_OR; case Instruction::Xor: return E_XOR;
    case Instruction::Shl: return E_SHL; case Instruction::LShr: return E_LSHR; case Instruction::AShr: return E_ASHR;
    case Instruction::FAdd: return E_FADD; case Instruction::FSub: return E_FSUB; case Instruction::FMul: return E_FMUL; case Instruction::FDiv: return E_FDIV; }
  return E_CONST;
}
static Val vCmp(unsigned pred, unsigned w, Val a, Val b) {
  if (!a.e && !b.e) {
    u64 x = a.c, y = b.c; i64 sx = sext64(x, w), sy = sext64(y, w); bool r = false;
    switch (pred) { case CmpInst::ICMP_EQ: r = x == y; break; case CmpInst::ICMP_NE: r = x != y; break; case CmpInst::ICMP_UGT: r = x > y; break; case CmpInst::ICMP_UGE: r = x >= y; break;
      case CmpInst::ICMP_ULT: r = x < y; break; case CmpInst::ICMP_ULE: r = x <= y; break; case CmpInst::ICMP_SGT: r = sx > sy; break; case CmpInst::ICMP_SGE: r = sx >= sy; break;
      case CmpInst::ICMP_SLT: r = sx < sy; break; case CmpInst::ICMP_SLE: r = sx <= sy; break; }
    return VC(r);
  }
  Expr *x = toE(a, w), *y = toE(b, w), *r = nullptr;
  switch (pred) { case CmpInst::ICMP_EQ: r = eCmp(E_EQ, x, y); break; case CmpInst::ICMP_NE: r = eNot(eCmp(E_EQ, x, y)); break; case CmpInst::ICMP_UGT: r = eCmp(E_ULT, y, x); break; case CmpInst::ICMP_UGE: r = eCmp(E_ULE, y, x); break;
    case CmpInst::ICMP_ULT: r = eCmp(E_ULT, x, y); break; case CmpInst::ICMP_ULE: r = eCmp(E_ULE, x, y); break; case CmpInst::ICMP_SGT: r = eCmp(E_SLT, y, x); break; case CmpInst::ICMP_SGE: r = eCmp(E_SLE, y, x); break;
    case CmpInst::ICMP_SLT: r = eCmp(E_SLT, x, y); break; case CmpInst::ICMP_SLE: r = eCmp(E_SLE, x, y); break; }
  return VE(r);
}
static Val vFCmp(unsigned pred, unsigned w, Val a, Val b) {
  Expr *x = toE(a, w), *y = toE(b, w);
  auto eq = [&] { return eF(E_FOEQ, 1, x, y); }; auto lt = [&] { return eF(E_FOLT, 1, x, y); }; auto gt = [&] { return eF(E_FOLT, 1, y, x); };
  auto le = [&] { return eF(E_FOLE, 1, x, y); }; auto ge = [&] { return eF(E_FOLE, 1, y, x); }; auto un = [&] { return eF(E_FUNO, 1, x, y); };
  Expr* r = nullptr;
  switch (pred) {
    case CmpInst::FCMP_FALSE: r = eConst(0, 1); break; case CmpInst::FCMP_TRUE: r = eConst(1, 1); break;
    case CmpInst::FCMP_OEQ: r = eq(); break; case CmpInst::FCMP_OGT: r = gt(); break; case CmpInst::FCMP_OGE: r = ge(); break; case CmpInst::FCMP_OLT: r = lt(); break; case CmpInst::FCMP_OLE: r = le(); break;
    case CmpInst::FCMP_ONE: r = eBin(E_AND, eNot(eq()), eNot(un())); break; case CmpInst::FCMP_ORD: r = eNot(un()); break; case CmpInst::FCMP_UNO: r = un(); break;
    case CmpInst::FCMP_UEQ: r = eBin(E_OR, un(), eq()); break; case CmpInst::FCMP_UGT: r = eNot(le()); break; case CmpInst::FCMP_UGE: r = eNot(lt()); break;
    case CmpInst::FCMP_ULT: r = eNot(ge()); break; case CmpInst::FCMP_ULE: r = eNot(gt()); break; case CmpInst::FCMP_UNE: r = eNot(eq()); break;
  }
  return VE(r);
}
static Val mkV(Expr* e) { if (e->w <= 64) return VE(e); return Val{0, e}; }
void Exec::step(State& S) {
  Frame& f = S.fr(); DI& d = f.f->bl[f.blk].is[f.pc];
  S.steps++; instrs++; d.visited = 1;
  switch (d.opc) {
    case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::And: case Instruction::Or: case Instruction::Xor: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr:
    case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem: {
      bool isdiv = d.opc == Instruction::UDiv || d.opc == Instruction::SDiv || d.opc == Instruction::URem || d.opc == Instruction::SRem;
      for (u32 i = 0; i < d.nd; i++) {
        Val a = rd(S, d.ops[0], i), b = rd(S, d.ops[1], i);
        if (isdiv) { Expr* z = eCmp(E_EQ, toE(b, d.w), eConst128(0, d.w)); if (isC(z)) { if (z->v) { fail(S, "arithmetic", "division by zero"); return; } }
          else { State* o; bool r = branch(S, z, o); if (r) { if (o) work.push_back(o); fail(S, "arithmetic", "division by zero"); return; } if (o) { fail(*o, "arithmetic", "division by zero"); delete o; } } }
        if (!a.e && !b.e && d.w <= 64) {
          u64 r; switch (d.opc) { case Instruction::Add: r = a.c + b.c; break; case Instruction::Sub: r = a.c - b.c; break; case Instruction::Mul: r = a.c * b.c; break; case Instruction::And: r = a.c & b.c; break; case Instruction::Or: r = a.c | b.c; break; case Instruction::Xor: r = a.c ^ b.c; break;
            default: { u128 q; foldBin(binop(d.opc), d.w, a.c, b.c, q); r = (u64)q; } }
          f.r[d.dst + i] = VC(r & maskw(d.w));
        } else f.r[d.dst + i] = mkV(eBin(binop(d.opc), toE(a, d.w), toE(b, d.w)));
      }
      f.pc++; return; }
    case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv:
      if (d.w > 64) { unsup(S, "x87 arithmetic"); return; }
      for (u32 i = 0; i < d.nd; i++) f.r[d.dst + i] = mkV(eF(binop(d.opc), d.w, toE(rd(S, d.ops[0], i), d.w), toE(rd(S, d.ops[1], i), d.w)));
      f.pc++; return;
    case Instruction::FNeg: for (u32 i = 0; i < d.nd; i++) f.r[d.dst + i] = mkV(eBin(E_XOR, toE(rd(S, d.ops[0], i), d.w), eConst128((u128)1 << (d.w - 1), d.w))); f.pc++; return;
    case Instruction::ICmp: for (u32 i = 0; i < d.nd; i++) { Val a = rd(S, d.ops[0], i), b = rd(S, d.ops[1], i); f.r[d.dst + i] = d.w2 > 64 ? vCmp(d.pred, d.w2, a.e ? a : Val{0, eConst128(a.c, d.w2)}, b.e ? b : Val{0, eConst128(b.c, d.w2)}) : vCmp(d.pred, d.w2, a, b); } f.pc++; return;
    case Instruction::FCmp: if (d.w2 > 64) { unsup(S, "x87 compare"); return; } for (u32 i = 0; i < d.nd; i++) f.r[d.dst + i] = vFCmp(d.pred, d.w2, rd(S, d.ops[0], i), rd(S, d.ops[1], i)); f.pc++; return;
    case Instruction::Br: {
      if (d.ops.empty()) { jump(S, d.ed[0]); return; }
      Val c = rd(S, d.ops[0]);
      if (!c.e) { jump(S, d.ed[c.c ? 0 : 1]); return; }
      State* o; bool b = branch(S, c.e, o);
      if (o) { if (d.ops[0].slot >= 0) o->fr().r[d.ops[0].slot] = VC(!b); jump(*o, d.ed[b ? 1 : 0]); work.push_back(o); }
      if (d.ops[0].slot >= 0) S.fr().r[d.ops[0].slot] = VC(b);
      jump(S, d.ed[b ? 0 : 1]); return; }
    case Instruction::Switch: {
      Val c = rd(S, d.ops[0]);
      if (!c.e) { size_t i; for (i = 0; i < d.caseV.size(); i++) if (d.caseV[i].c == c.c) break; jump(S, d.ed[i < d.caseV.size() ? i + 1 : 0]); return; }
      // group by target
      std::vector<std::pair<int, Expr*>> g; Expr* dflt = eConst(1, 1);
      for (size_t i = 0; i < d.caseV.size(); i++) { Expr* q = eCmp(E_EQ, c.e, eConst(d.caseV[i].c, d.w2)); dflt = eBin(E_AND, dflt, eNot(q)); bool hit = false;
        if (d.ed[i + 1].mv.empty()) for (auto& x : g) if (d.ed[x.first].blk == d.ed[i + 1].blk && d.ed[x.first].mv.empty()) { x.second = eBin(E_OR, x.second, q); hit = true; break; }
        if (!hit) g.push_back({(int)i + 1, q}); }
      g.push_back({0, dflt});
      Evaluator E(*S.model); int mine = -1; Expr* mineC = nullptr;
      for (auto& x : g) { if (mine < 0 && E.ev(x.second)) { mine = x.first; mineC = x.second; continue; }
        Model m; SatRes r = query(S, x.second, m); if (r == SAT) { State* o = clone(S); o->model = m; addC(*o, x.second); jump(*o, d.ed[x.first]); work.push_back(o); } }
      if (mine < 0) { S.dead = true; return; }
      addC(S, mineC); jump(S, d.ed[mine]); return; }
    case Instruction::Ret: { std::vector<Val> rv; if (!d.ops.empty()) for (u32 i = 0; i < d.ops[0].n; i++) rv.push_back(rd(S, d.ops[0], i)); doReturn(S, rv); return; }
    case Instruction::Unreachable: fail(S, "ub", "reached code the compiler proved unreachable (undefined behaviour)"); return;
    case Instruction::Call: case Instruction::Invoke: doCall(S, d); return;
    case Instruction::Resume: { Val x = rd(S, d.ops[0], 0);  unwind(S, x.c); return; }
    case Instruction::LandingPad: f.pc++; return;
    case Instruction::Load: {
      Val p = rd(S, d.ops[0]);
      if (p.e) {
        // table lookup in constant memory: encode as an if-then-else over the offsets instead of forking
        Evaluator E(*S.model); u64 a0 = (u64)E.ev(p.e); ObjEnt* oe = S.mem.get(a0 >> 32);
        if (d.lv.size() == 1 && d.lv[0].w <= 64 && oe && oe->alive && oe->ro && oe->kind == K_GLOBAL && oe->p->size <= 2048) {
          u64 base = a0 >> 32 << 32; unsigned nb = (d.lv[0].w + 7) / 8; u64 last = base + oe->p->size - nb; Model m;
          SatRes r = query(S, eBin(E_OR, eCmp(E_ULT, p.e, eConst(base, 64)), eCmp(E_ULT, eConst(last, 64), p.e)), m);
          if (r == UNSAT) {
            u32 stp = 1; for (u32 k = 3; k > 0; k--) { Expr* lo = eExtract(p.e, 0, k); if (isC(lo) && lo->v == 0) { stp = 1u << k; break; } }
            std::vector<std::pair<u64, u64>> runs; // first offset, value
            for (u32 o = 0; o + nb <= oe->p->size; o += stp) { u64 v = 0; memcpy(&v, &oe->p->d[o], nb); v &= maskw(d.lv[0].w); if (runs.empty() || runs.back().second != v) runs.push_back({o, v}); }
            if (runs.size() <= 300) {
              Expr* res = eConst(runs[0].second, d.lv[0].w); Expr* off = eBin(E_SUB, p.e, eConst(base, 64)); 
              for (size_t i = 1; i < runs.size(); i++) res = eIte(eCmp(E_ULT, off, eConst(runs[i].first, 64)), res, eConst(runs[i].second, d.lv[0].w));
              f.r[d.dst] = VE(res); f.pc++; return;
            }
          }
        }
      }
      u64 a; if (!conc(S, d.ops[0], 0, 64, a)) return;
      Frame& g = S.fr(); for (size_t i = 0; i < d.lv.size(); i++) { Val v; if (!loadV(S, a + d.lv[i].off, d.lv[i].w, v)) return; g.r[d.dst + i] = v; }
      g.pc++; return; }
    case Instruction::Store: {
      u64 a; if (!conc(S, d.ops[1], 0, 64, a)) return;
      for (size_t i = 0; i < d.lv.size(); i++) if (!storeV(S, a + d.lv[i].off, d.lv[i].w, rd(S, d.ops[0], i))) return;
      S.fr().pc++; return; }
    case Instruction::Alloca: { u64 n; if (!conc(S, d.ops[0], 0, 64, n)) return; u64 sz = n * d.imm; if (sz > maxAlloc) { unsup(S, "huge alloca"); return; } u64 a = newObj(S, sz, K_STACK, true); Frame& g = S.fr(); g.allocas.push_back(a >> 32); g.r[d.dst] = VC(a); g.pc++; return; }
    case Instruction::GetElementPtr: {
      Val p = rd(S, d.ops[0]); bool sym = p.e; for (auto& g : d.gi) if (rd(S, g.op).e) sym = true;
      if (!sym) { u64 a = p.c + d.imm; for (auto& g : d.gi) a += (u64)sext64(rd(S, g.op).c, g.w) * g.scale; f.r[d.dst] = VC(a); }
      else { Expr* a = eBin(E_ADD, toE(p, 64), eConst(d.imm, 64)); for (auto& g : d.gi) { Expr* x = toE(rd(S, g.op), g.w); if (x->w < 64) x = eSext(x, 64); a = eBin(E_ADD, a, eBin(E_MUL, x, eConst(g.scale, 64))); } f.r[d.dst] = VE(a); }
      f.pc++; return; }
    case Instruction::Select: {
      Val c = rd(S, d.ops[0]);
      for (u32 i = 0; i < d.nd; i++) {
        if (d.ops[0].n > 1) c = rd(S, d.ops[0], i);
        Val a = rd(S, d.ops[1], i), b = rd(S, d.ops[2], i);
        if (!c.e) f.r[d.dst + i] = c.c ? a : b;
        else if (a.e == b.e && a.c == b.c) f.r[d.dst + i] = a;
        else { unsigned w = d.w; std::vector<Leaf> l; leaves(d.I->getType(), 0, l); w = l[i].w; f.r[d.dst + i] = mkV(eIte(c.e, toE(a, w), toE(b, w))); }
      }
      f.pc++; return; }
    case Instruction::ZExt: for (u32 i = 0; i < d.nd; i++) { Val a = rd(S, d.ops[0], i); f.r[d.dst + i] = (!a.e && d.w <= 64) ? a : mkV(eZext(toE(a, d.w2), d.w)); } f.pc++; return;
    case Instruction::SExt: for (u32 i = 0; i < d.nd; i++) { Val a = rd(S, d.ops[0], i); f.r[d.dst + i] = (!a.e && d.w <= 64) ? VC((u64)sext64(a.c, d.w2) & maskw(d.w)) : mkV(eSext(toE(a, d.w2), d.w)); } f.pc++; return;
    case Instruction::Trunc: for (u32 i = 0; i < d.nd; i++) { Val a = rd(S, d.ops[0], i); f.r[d.dst + i] = !a.e ? VC(a.c & maskw(d.w)) : mkV(eExtract(a.e, 0, d.w)); } f.pc++; return;
    case Instruction::BitCast: if (d.nd != d.ops[0].n) { unsup(S, "vector bitcast"); return; } for (u32 i = 0; i < d.nd; i++) f.r[d.dst + i] = rd(S, d.ops[0], i); f.pc++; return;
    case Instruction::PtrToInt: case Instruction::IntToPtr: { Val a = rd(S, d.ops[0]); if (d.w < d.w2) a = !a.e ? VC(a.c & maskw(d.w)) : VE(eExtract(a.e, 0, d.w)); else if (d.w > d.w2 && a.e) a = VE(eZext(a.e, d.w)); f.r[d.dst] = a; f.pc++; return; }
    case Instruction::Freeze: for (u32 i = 0; i < d.nd; i++) f.r[d.dst + i] = rd(S, d.ops[0], i); f.pc++; return;
    case Instruction::FPToSI: case Instruction::FPToUI: case Instruction::SIToFP: case Instruction::UIToFP: case Instruction::FPExt: case Instruction::FPTrunc: {
      if (d.w > 64 || d.w2 > 64) { unsup(S, "x87 conversion"); return; }
      EOp o = d.opc == Instruction::FPToSI ? E_FPTOSI : d.opc == Instruction::FPToUI ? E_FPTOUI : d.opc == Instruction::SIToFP ? E_SITOFP : d.opc == Instruction::UIToFP ? E_UITOFP : E_FPCVT;
      for (u32 i = 0; i < d.nd; i++) { Expr* x = toE(rd(S, d.ops[0], i), d.w2); f.r[d.dst + i] = mkV(eF(o, d.w, x)); }
      f.pc++; return; }
    case Instruction::ExtractValue: for (u32 i = 0; i < d.nd; i++) f.r[d.dst + i] = rd(S, d.ops[0], d.imm + i); f.pc++; return;
    case Instruction::InsertValue: { for (u32 i = 0; i < d.nd; i++) f.r[d.dst + i] = rd(S, d.ops[0], i); for (u32 i = 0; i < d.ops[1].n; i++) f.r[d.dst + d.imm + i] = rd(S, d.ops[1], i); f.pc++; return; }
    case Instruction::ExtractElement: { u64 ix; if (!conc(S, d.ops[1], 0, 64, ix)) return; f.r[d.dst] = rd(S, d.ops[0], ix); f.pc++; return; }
    case Instruction::InsertElement: { u64 ix; if (!conc(S, d.ops[2], 0, 64, ix)) return; std::vector<Val> t; for (u32 i = 0; i < d.nd; i++) t.push_back(rd(S, d.ops[0], i)); t[ix] = rd(S, d.ops[1]); for (u32 i = 0; i < d.nd; i++) f.r[d.dst + i] = t[i]; f.pc++; return; }
    case Instruction::ShuffleVector: { std::vector<Val> t; for (int m : d.idxs) t.push_back(m < 0 ? Val() : m < (int)d.ops[0].n ? rd(S, d.ops[0], m) : rd(S, d.ops[1], m - d.ops[0].n)); for (u32 i = 0; i < d.nd; i++) f.r[d.dst + i] = t[i]; f.pc++; return; }
    case Instruction::AtomicRMW: {
      u64 a; if (!conc(S, d.ops[0], 0, 64, a)) return; Val o; if (!loadV(S, a, d.w, o)) return; Val v = rd(S, d.ops[1]); Expr *x = toE(o, d.w), *y = toE(v, d.w), *r;
      switch (d.pred) { case AtomicRMWInst::Xchg: r = y; break; case AtomicRMWInst::Add: r = eBin(E_ADD, x, y); break; case AtomicRMWInst::Sub: r = eBin(E_SUB, x, y); break; case AtomicRMWInst::And: r = eBin(E_AND, x, y); break; case AtomicRMWInst::Or: r = eBin(E_OR, x, y); break; default: unsup(S, "atomicrmw"); return; }
      if (!storeV(S, a, d.w, VE(r))) return; S.fr().r[d.dst] = o; S.fr().pc++; return; }
    case Instruction::AtomicCmpXchg: {
      u64 a; if (!conc(S, d.ops[0], 0, 64, a)) return; Val o; if (!loadV(S, a, d.w, o)) return; Val c = rd(S, d.ops[1]), n = rd(S, d.ops[2]); Expr *eq = eCmp(E_EQ, toE(o, d.w), toE(c, d.w));
      if (!storeV(S, a, d.w, VE(eIte(eq, toE(n, d.w), toE(o, d.w))))) return; S.fr().r[d.dst] = o; S.fr().r[d.dst + 1] = VE(eq); S.fr().pc++; return; }
    case Instruction::Fence: f.pc++; return;
    default: { std::string s; raw_string_ostream os(s); d.I->print(os); unsup(S, "instruction " + s); return; }
  }
}
