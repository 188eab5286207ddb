// sx: symbolic executor for LLVM bitcode -- states, memory, decoded program.
#pragma once
#include "solver.h"
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <map>
#include <set>
#include <deque>
#include <string>
#include <vector>

struct Val { u64 c = 0; Expr* e = nullptr; };
static inline Val VC(u64 c) { Val v; v.c = c; return v; }
static inline Val VE(Expr* e) { Val v; if (isC(e) && e->w <= 64) { v.c = e->v; return v; } v.e = e; return v; }
static inline Expr* toE(const Val& v, unsigned w) { return v.e ? v.e : eConst(v.c, w); }

enum ObjKind : uint8_t { K_NONE, K_GLOBAL, K_STACK, K_MALLOC, K_NEW, K_NEWA, K_EXC, K_FUNC };
struct ObjData { int rc = 1; u32 size = 0; std::vector<uint8_t> d; std::vector<Expr*> s; std::vector<uint8_t> un; };
struct ObjEnt { ObjData* p = nullptr; uint8_t kind = 0, alive = 0, ro = 0; };
struct Chunk { int rc = 1; ObjEnt e[64]; };
struct Mem {
  std::vector<Chunk*> ch; u32 next = 1; u64 heapLive = 0;
  Mem() {}
  Mem(const Mem& o) : ch(o.ch), next(o.next), heapLive(o.heapLive) { for (auto* c : ch) c->rc++; }
  Mem& operator=(const Mem&) = delete;
  ~Mem() { for (auto* c : ch) drop(c); }
  static void dropData(ObjData* d) { if (d && --d->rc == 0) delete d; }
  static void drop(Chunk* c) { if (--c->rc == 0) { for (auto& x : c->e) dropData(x.p); delete c; } }
  ObjEnt* get(u32 id) { u32 k = id >> 6; if (id == 0 || k >= ch.size() || id >= next) return nullptr; return &ch[k]->e[id & 63]; }
  ObjEnt* entW(u32 id) { u32 k = id >> 6; Chunk*& c = ch[k]; if (c->rc > 1) { Chunk* n = new Chunk(*c); n->rc = 1; for (auto& x : n->e) if (x.p) x.p->rc++; c->rc--; c = n; } return &c->e[id & 63]; }
  ObjData* dataW(u32 id) { ObjEnt* e = entW(id); if (e->p->rc > 1) { ObjData* n = new ObjData(*e->p); n->rc = 1; e->p->rc--; e->p = n; } return e->p; }
  u32 alloc(u32 size, ObjKind k, bool uninit) {
    u32 id = next++; if ((id >> 6) >= ch.size()) ch.push_back(new Chunk());
    ObjEnt* e = entW(id); e->p = new ObjData(); e->p->size = size; e->p->d.assign(size, 0); if (uninit && size) e->p->un.assign(size, 1);
    e->kind = k; e->alive = 1; e->ro = 0; return id;
  }
  void kill(u32 id) { ObjEnt* e = entW(id); dropData(e->p); u32 sz = 0; (void)sz; e->p = nullptr; e->alive = 0; }
};

struct Op { int slot = -1; u32 n = 1; const Val* cv = nullptr; };
struct Leaf { u32 off; unsigned w; };
struct DFunc;
struct Move { int dst; u32 n; Op src; };
struct Edge { int blk; std::vector<Move> mv; };
struct Exec; struct State; struct DI;
typedef void (*Builtin)(Exec&, State&, DI&);
struct GepIdx { Op op; unsigned w; u64 scale; };
struct LPClause { int kind; u64 ti; }; // 0 catch, 1 filter
struct DI {
  unsigned opc = 0; int dst = -1; u32 nd = 0; unsigned w = 0; unsigned w2 = 0; unsigned pred = 0;
  std::vector<Op> ops; std::vector<Leaf> lv; std::vector<Edge> ed; std::vector<GepIdx> gi; std::vector<Val> caseV;
  u64 imm = 0; DFunc* callee = nullptr; Builtin bi = nullptr; unsigned iid = 0; bool invoke = false; const char* bname = nullptr;
  std::vector<LPClause> lp; bool cleanup = false; std::vector<std::pair<int, u64>> byval; std::vector<unsigned> opw;
  const llvm::Instruction* I = nullptr; uint8_t visited = 0; std::vector<int> idxs;
};
struct DBlock { std::vector<DI> is; };
struct DFunc {
  const llvm::Function* F; std::string name; bool decoded = false; int nslots = 0; std::vector<DBlock> bl; std::vector<std::pair<int, u32>> args; u64 addr = 0;
  std::unordered_map<const llvm::Value*, int> slot; std::deque<std::vector<Val>> consts; u64 calls = 0;
};
struct Frame { DFunc* f; int blk = 0; int pc = 0; std::vector<Val> r; std::vector<u32> allocas; u32 freeObj = 0; u64 va = 0; bool ignoreRet = false; };
struct ExcInfo { u64 ti = 0, dtor = 0, adj = 0; int handlers = 0; };
struct Thread { std::vector<Frame> st; std::vector<u64> caught; int resumer = -1; bool done = false; };
struct Input { std::string name; u32 var; unsigned w; };
struct Obs { std::string tag; Expr* e; };
struct State {
  Mem mem; std::vector<Thread> th; int cur = 0; std::vector<Expr*> pc; Model model; u32 nvars = 0; u64 fixed = 0;
  std::vector<Input> inputs; std::vector<Obs> obs; std::map<u32, ExcInfo> exc; std::deque<std::pair<DFunc*, std::vector<Val>>> pending;
  u64 steps = 0; bool exiting = false; int exitCode = -1; bool dead = false; u32 depth = 0; bool usedUninit = false; u64 uninitMask = 0; int uncaught = 0;
  Frame& fr() { return th[cur].st.back(); }
};
struct Violation { std::string kind, msg, where; std::vector<Input> in; std::vector<u64> vals; bool uninit; };
struct Exec {
  llvm::Module* M; const llvm::DataLayout* DL; Solver sol;
  std::unordered_map<const llvm::Function*, DFunc*> funcs; std::unordered_map<u32, DFunc*> funcByObj;
  std::unordered_map<const llvm::GlobalVariable*, u64> gaddr; Mem* mem0 = nullptr;
  std::unordered_map<u64, const llvm::GlobalVariable*> tiByAddr;
  std::vector<State*> work; // DFS stack
  std::map<std::string, i64> params;
  // results
  u64 paths = 0, forks = 0, instrs = 0, asserts = 0, assertsSolver = 0, exits = 0, assumeKilled = 0, maxSteps = 0, inconclusive = 0; u64 maxPaths = 0;
  std::set<std::string> reached, notes, unsupported, knownHits; std::vector<Violation> viol; std::set<std::string> violKeys;
  std::vector<std::pair<std::vector<std::pair<Input, u64>>, std::vector<std::pair<std::string, u64>>>> samples; u64 sampleEvery = 1; size_t maxSamples = 64; u64 rng = 88172645463325252ULL;
  u64 stepLimit = 20000000; double deadline = 0; bool stopFirst = true; size_t enumLimit = 1024; u64 maxAlloc = 1u << 26;

  // setup
  void load(llvm::Module* m);
  State* initial(const std::string& entry);
  DFunc* func(const llvm::Function* F);
  void decode(DFunc* f);
  Op operand(DFunc* f, const llvm::Value* v);
  void constVals(const llvm::Constant* c, std::vector<Val>& out);
  void writeConst(ObjData* d, u32 off, const llvm::Constant* c);
  void leaves(llvm::Type* t, u32 off, std::vector<Leaf>& out);
  u32 nslots(llvm::Type* t);
  // execution
  void run(State* s);          // until path ends; forks go to work
  void step(State& S);
  void finish(State& S);
  void kill(State& S) { S.dead = true; }
  void fail(State& S, const std::string& kind, const std::string& msg, Expr* cond = nullptr);
  void unsup(State& S, const std::string& msg);
  std::string where(State& S);
  State* clone(State& S) { forks++; State* n = new State(S); n->depth++; S.depth++; return n; }
  void addC(State& S, Expr* c);
  SatRes query(State& S, Expr* c, Model& m);
  // decide a 1-bit condition: forks if both feasible; returns value on this state. 'redo' => forked state re-executes with reg replaced
  bool branch(State& S, Expr* c, State*& other); // other!=null: the forked state has !result
  bool conc(State& S, const Op& op, u32 i, unsigned w, u64& out); // concretise operand; false => state died
  bool concVal(State& S, Expr* e, u64& out, std::vector<std::pair<u64, State*>>& others);
  Val rd(State& S, const Op& o, u32 i = 0) { return o.slot >= 0 ? S.fr().r[o.slot + i] : o.cv[i]; }
  void wr(State& S, int slot, Val v) { S.fr().r[slot] = v; }
  bool access(State& S, u64 addr, u64 n, bool write, ObjEnt*& e, u32& id, u32& off);
  bool loadV(State& S, u64 addr, unsigned w, Val& out);
  bool storeV(State& S, u64 addr, unsigned w, const Val& v);
  bool copyMem(State& S, u64 dst, u64 src, u64 n);
  bool setMem(State& S, u64 dst, Val b, u64 n);
  bool concByte(State& S, u64 addr, uint8_t& out); // concretise a memory byte (forks; forked states redo)
  bool cstr(State& S, u64 addr, std::string& out);
  void jump(State& S, const Edge& e);
  void advance(State& S, DI& d);
  void ret(State& S, DI& d, Val v) { if (d.dst >= 0) wr(S, d.dst, v); advance(S, d); }
  void pushCall(State& S, DFunc* f, const std::vector<Val>& args);
  void doCall(State& S, DI& d);
  void doReturn(State& S, const std::vector<Val>& rv);
  void unwind(State& S, u64 exc);
  bool catches(u64 clauseTi, u64 thrownTi, u64& off);
  void popFrame(State& S);
  u64 newObj(State& S, u64 size, ObjKind k, bool uninit) { u32 id = S.mem.alloc((u32)size, k, uninit); if (k == K_MALLOC || k == K_NEW || k == K_NEWA) S.mem.heapLive++; return (u64)id << 32; }
  void threadEnded(State& S);
  Expr* fresh(State& S, unsigned w, const std::string& name, bool input, u64 span = 0);
};
Builtin findBuiltin(const std::string& n);
void runIntrinsic(Exec& X, State& S, DI& d);
double nowS();
