// Ownership of the memory of aligned buffers: the allocator is replaced by a ghost one whose state is a typestate
// (allocated / released once), tracked by the dataflow passes along every operation.
#include "plain_std.h"
#include <cstdlib>
#include <cstdint>
#include <cstddef>
#include <new>
struct Ghost {
  static constexpr int K = 6;
  void* pool[K];
  int live[K];
  int n;
  int bad;
};
static Ghost g;
namespace std {
inline __attribute__((always_inline)) void* ghost_malloc(std::size_t) {
  const int k = g.n;
  g.n = k + 1;
  g.live[k] = 1;
  g.pool[k] = ::operator new(1024);
  return g.pool[k];
}
inline __attribute__((always_inline)) void* ghost_aligned_alloc(std::size_t, std::size_t s) { return ghost_malloc(s); }
inline __attribute__((always_inline)) void ghost_free(void* p) {
  if (!p) return;
  bool found = false;
  for (int k = 0; k < Ghost::K; ++k) {
    if (k < g.n && p == g.pool[k]) {
      found = true;
      if (g.live[k] != 1) g.bad = 1; // double release
      g.live[k] = 0;
    }
  }
  if (!found) g.bad = 1; // release of something which was not allocated
}
} // namespace std
using std::ghost_malloc;
using std::ghost_free;
using std::ghost_aligned_alloc;
#define malloc ghost_malloc
#define free ghost_free
#define aligned_alloc ghost_aligned_alloc
#include "LitlContainer/AlignedBuffer.h"
#include "LitlContainer/Sequence.h"
#include "LitlRaster/Raster.h"
#undef malloc
#undef free
#undef aligned_alloc
#include "litl_obl.h"
using namespace Litl;
INL void start() {
  g.n = 0;
  g.bad = 0;
  for (int k = 0; k < Ghost::K; ++k) g.live[k] = 0;
}
INL int alive() {
  int s = 0;
  for (int k = 0; k < Ghost::K; ++k) s += g.live[k];
  return s;
}
#define DONE() \
  REQ("all the memory is released at the end", alive() == 0); \
  REQ("memory is released exactly once", g.bad == 0)
using B = AlignedBuffer<int>;
template <typename C>
INL int* mut(C& c) { return const_cast<int*>(static_cast<const C&>(c).data()); }
template <typename C>
INL void put(C& c, const int* p, int n) { for (int i = 0; i < n; ++i) mut(c)[i] = p[i]; }
template <typename C>
INL void same(const char* l, const C& c, const int* p, int n) { for (int i = 0; i < n; ++i) litl_eq(l, c.data()[i], p[i]); }

H h_own_ctor() {
  start();
  {
    B a(4);
    REQ("owns the memory it allocates", a.owns());
    REQ("allocates once", g.n == 1);
    REQ("memory is kept while in use", alive() == 1);
  }
  DONE();
}
H h_own_view(int* p) {
  start();
  {
    B a(4, p);
    ASSUME(p != nullptr);
    EQP("views the given memory", a.data(), p);
    REQ("does not own it", !a.owns());
  }
  REQ("allocates nothing", g.n == 0);
  DONE();
}
H h_own_copy(const int* __restrict p) {
  start();
  {
    B a(4);
    put(a, p, 4);
    B b(a);
    REQ("the copy owns its memory", b.owns());
    REQ("the copy has the size of the source", b.size() == 4 && a.size() == 4);
    REQ("the copy has its own memory", b.data() != a.data());
    REQ("the copy has the alignment of the source", b.alignmentReq() == a.alignmentReq());
    same("copied elements", b, p, 4);
    mut(b)[1] = 12345;
    same("the source is independent of its copy", a, p, 4);
  }
  DONE();
}
H h_own_copyview(int* p) {
  ASSUME(p != nullptr);
  start();
  {
    B a(4, p);
    B b(a);
    EQP("a copy of a view is a view of the same memory", b.data(), p);
    REQ("a copy of a view does not own", !b.owns());
    REQ("size of the view", b.size() == 4);
    B c(2);
    c = a;
    EQP("an assigned view is a view of the same memory", c.data(), p);
    REQ("an assigned view does not own", !c.owns());
    REQ("size of the assigned view", c.size() == 4);
  }
  DONE();
}
H h_own_move(const int* __restrict p) {
  start();
  {
    B a(4);
    put(a, p, 4);
    const int* d = a.data();
    B b(std::move(a));
    REQ("moving transfers the memory", b.data() == d);
    REQ("the destination owns it", b.owns());
    REQ("the source does not own it anymore", !a.owns());
    REQ("the source is empty", a.size() == 0);
    REQ("nothing is allocated by moving", g.n == 1);
    REQ("size is moved", b.size() == 4);
    same("moved elements", b, p, 4);
  }
  DONE();
}
H h_own_movewithview(int* p) {
  ASSUME(p != nullptr);
  start();
  {
    B a(4, p);
    B b(std::move(a));
    EQP("moving a view", b.data(), p);
    REQ("moved view does not own", !b.owns());
    REQ("moved view has the size", b.size() == 4);
    B c(3);
    c = std::move(b);
    EQP("move-assigning a view", c.data(), p);
    REQ("move-assigned view does not own", !c.owns());
    REQ("move-assigned view has the size", c.size() == 4);
  }
  DONE();
}
H h_own_assign(const int* __restrict p) {
  start();
  {
    B a(4, nullptr, 128), b(2);
    put(a, p, 4);
    b = a;
    REQ("the assigned buffer owns its memory", b.owns());
    REQ("the assigned buffer has the size of the source", b.size() == 4 && a.size() == 4);
    REQ("the assigned buffer has its own memory", b.data() != a.data());
    REQ("the assigned buffer has the alignment of the source", b.alignmentReq() == 128);
    same("assigned elements", b, p, 4);
    mut(b)[3] = 12345;
    same("the source is independent of its copy", a, p, 4);
    REQ("previous memory is released", alive() == 2);
  }
  DONE();
}
H h_own_moveassign(const int* __restrict p) {
  start();
  {
    B a(4), b(2);
    put(a, p, 4);
    const int* d = a.data();
    b = std::move(a);
    REQ("moving transfers the memory", b.data() == d);
    REQ("the destination owns it", b.owns());
    REQ("the source does not own it anymore", !a.owns());
    REQ("nothing is allocated by moving", g.n == 2);
    REQ("size is moved", b.size() == 4);
    same("moved elements", b, p, 4);
    REQ("previous memory is released", alive() == 1);
  }
  DONE();
}
H h_own_self(const int* __restrict p) {
  start();
  {
    B a(4);
    put(a, p, 4);
    B& r = a;
    a = r;
    REQ("self-assignment keeps the size", a.size() == 4);
    REQ("self-assignment keeps ownership", a.owns());
    same("self-assignment keeps the elements", a, p, 4);
    a = std::move(r);
    REQ("self-move keeps the size", a.size() == 4);
    REQ("self-move keeps ownership", a.owns());
    same("self-move keeps the elements", a, p, 4);
  }
  DONE();
}
H h_own_release() {
  start();
  void* m;
  {
    B a(4);
    m = a.release();
    REQ("released buffer does not own", !a.owns());
    REQ("the memory is returned", m != nullptr);
  }
  REQ("released memory is not freed by the buffer", alive() == 1);
  std::ghost_free(m);
  DONE();
}
H h_own_reset() {
  start();
  {
    B a(4);
    a.reset();
    REQ("reset releases the memory", alive() == 0);
    REQ("reset buffer is empty", a.size() == 0 && a.data() == nullptr && !a.owns());
    a.reset();
  }
  DONE();
}
H h_own_raster(const int* __restrict p) {
  start();
  {
    AlignedRaster<int, 2> a({2, 2});
    put(a, p, 4);
    AlignedRaster<int, 2> b(a);
    same("copied raster", b, p, 4);
    REQ("a copied raster has its own memory", b.data() != a.data());
    AlignedRaster<int, 2> c({1, 1});
    c = a;
    same("assigned raster", c, p, 4);
    REQ("an assigned raster has its own memory", c.data() != a.data());
    const int* d = b.data();
    AlignedRaster<int, 2> e(std::move(b));
    REQ("a moved raster keeps the memory", e.data() == d);
    c = std::move(e);
    REQ("a move-assigned raster keeps the memory", c.data() == d);
    same("moved raster", c, p, 4);
    REQ("the shape is moved", c.shape()[0] == 2 && c.shape()[1] == 2);
  }
  DONE();
}
H h_own_chain(const int* __restrict p) {
  start();
  {
    Sequence<int, AlignedBuffer<int>> a(3);
    put(a, p, 3);
    auto b = a + a;
    for (int i = 0; i < 3; ++i) litl_eq("sum", b.data()[i], p[i] + p[i]);
    b = a;
    b = std::move(a);
    same("moved", b, p, 3);
  }
  DONE();
}
