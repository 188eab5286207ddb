// C09: the owning vector frees every element exactly once, never leaks, and copies/moves keep contents, under any history of public operations.
// Bounds: V vectors of size 0..S, K operations; element values symbolic.
#include "sx.h"
#include <vector>
#include <utility>
#include "qlmps/one_dim_tn/framework/duovector.h"
static long live = 0;
struct E { long v; E() : v(0) { ++live; } E(long x) : v(x) { ++live; } E(const E &o) : v(o.v) { ++live; } E(E &&o) : v(o.v) { o.v = -1; ++live; } E &operator=(const E &o) { v = o.v; return *this; } ~E() { --live; v = -2; } };
typedef qlmps::DuoVector<E> DV;
struct Slot { bool has; long v; };
typedef std::vector<Slot> M;
static int same(const DV &d, const M &m) {
  if (d.size() != m.size()) return 0; int ok = 1; bool any = false; auto raw = d.cdata(); if (raw.size() != m.size()) return 0;
  for (size_t i = 0; i < m.size(); ++i) { const E *p = d(i); if ((p != nullptr) != m[i].has || raw[i] != p) return 0; if (p) { any = true; ok &= (int)(p->v == m[i].v) & (int)(&d[i] == p); } }
  if (d.empty() != !any) return 0;
  if (!m.empty() && m[0].has && &d.front() != d(0)) return 0; if (!m.empty() && m.back().has && &d.back() != d(m.size() - 1)) return 0;
  return ok;
}
static int total(const std::vector<M> &ms) { int n = 0; for (auto &m : ms) for (auto &s : m) n += s.has; return n; }
extern "C" void sx_main() {
  const size_t V = sx_param("V", 2), S = sx_param("S", 2), K = sx_param("K", 3); const int self = (int)sx_param("SELF", 1);
  uint64_t heap0 = sx_heap_live(); live = 0;
  {
    std::vector<M> ms; DV *dv[4]; 
    for (size_t i = 0; i < V; ++i) { size_t n = sx_concretize(sx_range("size", 0, S)); dv[i] = new DV(n); ms.push_back(M(n, Slot{false, 0})); sx_assert(same(*dv[i], ms[i]), "a new vector is empty"); }
    for (size_t k = 0; k < K; ++k) {
      int op = (int)sx_concretize(sx_range("op", 0, 10)); size_t a = sx_concretize(sx_range("a", 0, V - 1)), n = ms[a].size();
      if (op <= 4) {
        if (!n) sx_kill(); size_t i = sx_concretize(sx_range("i", 0, n - 1));
        if (op == 0) { long v = sx_range("v", 0, 99); (*dv[a])[i] = E(v); ms[a][i] = Slot{true, v}; sx_reach("write by reference"); }
        else if (op == 1) { dv[a]->alloc(i); ms[a][i] = Slot{true, 0}; sx_reach("alloc"); }
        else if (op == 2) { dv[a]->dealloc(i); ms[a][i] = Slot{false, 0}; sx_reach("dealloc"); }
        else if (op == 3) { long v = sx_range("v", 0, 99); dv[a]->dealloc(i); (*dv[a])(i) = new E(v); ms[a][i] = Slot{true, v}; sx_reach("write by pointer"); }
        else { E *p = (*dv[a])(i); (*dv[a])(i) = nullptr; sx_assert((p != nullptr) == ms[a][i].has, "pointer access"); if (p) { sx_assert(p->v == ms[a][i].v, "pointer access value"); delete p; } ms[a][i] = Slot{false, 0}; sx_reach("take the pointer out"); }
      } else if (op == 5) { dv[a]->clear(); for (auto &s : ms[a]) s.has = false; sx_reach("clear"); }
      else if (op == 6) { DV c(*dv[a]); sx_assert(same(c, ms[a]) && same(*dv[a], ms[a]), "copy construction keeps both contents"); for (size_t i = 0; i < n; ++i) sx_assert(!ms[a][i].has || c(i) != (*static_cast<const DV *>(dv[a]))(i), "a copy owns its own elements"); if (n) { c[0] = E(1000); c.dealloc(n - 1); } sx_assert(same(*dv[a], ms[a]), "changing a copy leaves the original alone"); sx_reach("copy construct"); }
      else if (op == 7) { DV *c = new DV(std::move(*dv[a])); sx_assert(same(*c, ms[a]), "move construction keeps contents"); for (size_t i = 0; i < dv[a]->size(); ++i) sx_assert((*dv[a])(i) == nullptr, "the moved-from vector owns nothing"); delete dv[a]; dv[a] = c; sx_reach("move construct"); }
      else if (op == 8 || op == 9) {
        size_t b = sx_concretize(sx_range("b", 0, V - 1)); if (a == b && !self) sx_kill();
        if (op == 8) { DV &r = (*dv[a] = *dv[b]); sx_assert(&r == dv[a], "assignment returns the target"); ms[a] = ms[b]; if (a == b) sx_reach("self copy-assign"); else { sx_reach("copy assign"); for (size_t i = 0; i < ms[a].size(); ++i) sx_assert(!ms[a][i].has || (*static_cast<const DV *>(dv[a]))(i) != (*static_cast<const DV *>(dv[b]))(i), "a copy owns its own elements"); } }
        else { *dv[a] = std::move(*dv[b]); if (a != b) { ms[a] = ms[b]; sx_assert(same(*dv[a], ms[a]), "move assignment keeps contents"); for (size_t i = 0; i < dv[b]->size(); ++i) sx_assert((*dv[b])(i) == nullptr, "the moved-from vector owns nothing"); ms[b] = M(dv[b]->size(), Slot{false, 0}); sx_reach("move assign"); } else { ms[a].clear(); const DV &c = *dv[a]; for (size_t i = 0; i < c.size(); ++i) ms[a].push_back(Slot{c(i) != nullptr, c(i) ? c(i)->v : 0}); sx_reach("self move-assign"); } }
      } else { if (!n) sx_kill(); size_t i = sx_concretize(sx_range("i", 0, n - 1)); E &e = (*dv[a])[i]; if (!ms[a][i].has) { sx_assert(e.v == 0, "reference access allocates a default element"); ms[a][i] = Slot{true, 0}; } sx_assert(e.v == ms[a][i].v, "reference access reads the element"); sx_reach("read by reference"); }
      for (size_t i = 0; i < V; ++i) sx_assert(same(*dv[i], ms[i]), "contents after the operation");
      sx_assert(live == total(ms), "exactly the owned elements are alive");
    }
    for (size_t i = 0; i < V; ++i) delete dv[i];
  }
  sx_assert(live == 0, "every element is destroyed exactly once"); sx_assert(sx_heap_live() == heap0, "no memory is leaked");
}
