// Message passing for the checks: every process is a coroutine.  A process runs until it must wait; a receive from any source waits until nobody
// else can proceed and then takes, in turn, every message that could have arrived first; sends may be buffered or wait for their receiver.
#pragma once
#include <memory>
#include <deque>
#include <functional>
#include <vector>
#include <string>
#include "sx.h"
typedef int MPI_Comm; const MPI_Comm MPI_COMM_WORLD = 1; const int MPI_ANY_SOURCE = -1, MPI_ANY_TAG = -1;
struct MPI_Status { int MPI_SOURCE, MPI_TAG; };
enum MPI_Datatype { MPI_INT, MPI_UNSIGNED_LONG_LONG, MPI_DOUBLE };
const int MPI_SUCCESS = 0; static MPI_Status* const MPI_STATUS_IGNORE = nullptr;
#define HANDLE_MPI_ERROR(x) ((void)(x))
namespace mpi {
struct Msg { int src, dst, tag; std::string type; std::shared_ptr<void> data; bool taken; };
struct Coll { std::string what; int root; std::shared_ptr<void> data; size_t arrived; bool rooted; };
struct World { size_t n = 1; std::vector<int> co; std::vector<bool> over; std::vector<size_t> seq; std::deque<std::shared_ptr<Msg>> box; std::vector<Coll> colls; int cur = 0; bool progress = false, buffered = true; bool quiet = false; size_t moved = 0; std::vector<std::function<void(int)>> body; };
inline World& W() { static World w; return w; }
inline int (*&choose())(size_t) { static int (*f)(size_t) = nullptr; return f; }    // which of several possible senders comes first
inline void block() { sx_suspend(); }
template <class F> void waitFor(F f) { while (!f()) block(); W().progress = true; }
inline void post(std::shared_ptr<void> d, const char* type, int dst, int tag) {
  auto& w = W(); if (dst < 0 || (size_t)dst >= w.n || dst == w.cur) sx_fail("a message to a process that does not exist"); auto m = std::make_shared<Msg>(Msg{w.cur, dst, tag, type, d, false}); w.box.push_back(m); w.progress = true; ++w.moved;
  if (!w.buffered) waitFor([&] { return m->taken; });
}
inline std::vector<size_t> firsts(int me, int src, int tag) { auto& w = W(); std::vector<size_t> r; std::vector<bool> seen(w.n, false); for (size_t i = 0; i < w.box.size(); ++i) { auto& m = *w.box[i]; if (m.dst != me || seen[m.src] || (src != MPI_ANY_SOURCE && m.src != src) || (tag != MPI_ANY_TAG && m.tag != tag)) continue; seen[m.src] = true; r.push_back(i); } return r; }
inline std::shared_ptr<Msg> take(const char* type, int src, int tag) {
  auto& w = W(); int me = w.cur; std::vector<size_t> c;
  if (src == MPI_ANY_SOURCE) do { block(); if (w.quiet) c = firsts(me, src, tag); } while (c.empty()); else waitFor([&] { c = firsts(me, src, tag); return !c.empty(); });
  size_t k = c.size() > 1 && choose() ? (size_t)choose()(c.size()) : 0; auto m = w.box[c[k]]; w.box.erase(w.box.begin() + c[k]); m->taken = true; w.progress = true; w.quiet = false; if (m->type != type) sx_fail("a message of another type is received"); return m;
}
template <class D> void send(const D& d, const char* type, int dst, int tag, const MPI_Comm&) { post(std::make_shared<D>(d), type, dst, tag); }
template <class D> MPI_Status recv(D& d, const char* type, int src, int tag, const MPI_Comm&) { auto m = take(type, src, tag); d = *std::static_pointer_cast<D>(m->data); return MPI_Status{m->src, m->tag}; }
inline Coll& join(const char* what, int root) {
  auto& w = W(); size_t k = w.seq[w.cur]++; w.progress = true; if (k == w.colls.size()) w.colls.push_back(Coll{what, root, nullptr, 0, false}); Coll& c = w.colls[k]; if (c.what != what || c.root != root) sx_fail("the processes take part in different collective operations"); ++c.arrived; return c;
}
template <class D> void bcast(int root, const MPI_Comm&, D& d, const char* what) {
  auto& w = W(); if (root < 0 || (size_t)root >= w.n) sx_fail("a broadcast from a process that does not exist"); size_t k = w.seq[w.cur]; Coll& c = join(what, root);
  if (w.cur == root) { c.data = std::make_shared<D>(d); c.rooted = true; if (!w.buffered) waitFor([&] { return W().colls[k].arrived == W().n; }); } else { waitFor([&] { return W().colls[k].rooted; }); d = *std::static_pointer_cast<D>(w.colls[k].data); }
}
inline void together(const char* what, const MPI_Comm&) { size_t k = W().seq[W().cur]; join(what, -1); waitFor([&] { return W().colls[k].arrived == W().n; }); }
inline void entry(void* p) { int r = (int)(size_t)p; W().body[r](r); }
// run n processes to their end
inline void run(std::vector<std::function<void(int)>> body) {
  auto& w = W(); w.n = body.size(); w.body = body; w.seq.assign(w.n, 0); w.colls.clear(); w.box.clear(); w.over.assign(w.n, false); w.co.clear(); w.quiet = false;
  for (size_t i = 0; i < w.n; ++i) w.co.push_back(sx_spawn(entry, (void*)i));
  for (size_t done = 0; done < w.n;) {
    w.progress = false; for (size_t k = w.n; k-- > 0;) if (!w.over[k]) { w.cur = (int)k; if (sx_resume(w.co[k])) { w.over[k] = true; ++done; w.progress = true; } }
    if (w.progress) w.quiet = false; else if (!w.quiet) w.quiet = true; else sx_fail("the processes wait for each other");
  }
  if (!w.box.empty()) sx_fail("a message is never received"); for (auto& c : w.colls) if (c.arrived != w.n) sx_fail("not all processes take part in a collective operation");
}
}
inline int MPI_Comm_rank(const MPI_Comm&, int* r) { *r = mpi::W().cur; return 0; }
inline int MPI_Comm_size(const MPI_Comm&, int* n) { *n = (int)mpi::W().n; return 0; }
inline int MPI_Abort(const MPI_Comm&, int) { sx_fail("a process gives up"); return 1; }
inline int MPI_Barrier(const MPI_Comm& c) { mpi::together("barrier", c); return 0; }
template <class D> void mpiType(int n, MPI_Datatype t) { if (n != 1 || sizeof(D) != (t == MPI_INT ? sizeof(int) : 8)) sx_fail("internal: message type"); }
inline const char* mpiName(MPI_Datatype t) { return t == MPI_INT ? "int" : t == MPI_DOUBLE ? "double" : "size_t"; }
template <class D> int MPI_Bcast(D* d, int n, MPI_Datatype t, int root, const MPI_Comm& c) { mpiType<D>(n, t); mpi::bcast(root, c, *d, mpiName(t)); return 0; }
template <class D> int MPI_Send(const D* d, int n, MPI_Datatype t, int dst, int tag, const MPI_Comm& c) { mpiType<D>(n, t); mpi::send(*d, mpiName(t), dst, tag, c); return 0; }
template <class D> int MPI_Recv(D* d, int n, MPI_Datatype t, int src, int tag, const MPI_Comm& c, MPI_Status* s) { mpiType<D>(n, t); auto r = mpi::recv(*d, mpiName(t), src, tag, c); if (s) *s = r; return 0; }
namespace qlten {
const int kMPIMasterRank = 0;
namespace hp_numeric {
inline void MPI_Send(size_t v, int dst, int tag, const MPI_Comm& c) { mpi::send(v, "size_t", dst, tag, c); }
inline MPI_Status MPI_Recv(size_t& v, int src, int tag, const MPI_Comm& c) { return mpi::recv(v, "size_t", src, tag, c); }
}
}
// a thread runs when it is started, or only when it is waited for
namespace mpi { inline bool (*&late())() { static bool (*f)() = nullptr; return f; } }
#include <thread>
namespace std { struct thread_standin { std::function<void()> f; thread_standin() : live(false) {} template <class F, class... A> explicit thread_standin(F&& g, A&&... a) { auto b = std::bind(std::forward<F>(g), std::forward<A>(a)...); f = [b]() mutable { b(); }; if (!(mpi::late() && mpi::late()())) run(); } thread_standin(const thread_standin&) = delete; thread_standin& operator=(thread_standin&& o) { if (live) sx_fail("a running thread is replaced"); f = std::move(o.f); live = o.live; o.live = false; o.f = nullptr; ran = o.ran; return *this; } thread_standin(thread_standin&& o) : live(false) { *this = std::move(o); } ~thread_standin() { if (live) sx_fail("a thread is not waited for"); } bool live = true, ran = false; void run() { f(); ran = true; } bool joinable() const { return live; } void join() { if (!live) sx_fail("a thread that does not run is waited for"); live = false; if (!ran) run(); } }; }
#define thread thread_standin
