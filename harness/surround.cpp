// Surroundings of boxes: a partition of the ring between a box and the same box grown by margins.
#include "devirt.h"
#include "LitlRaster/Box.h"
#include "litl_obl.h"
using namespace Litl;
#define LP const long* __restrict
constexpr long BIG = 100000;
template <Index N>
INL Position<N> mk(const long* p, int n) {
  Position<N> o(n);
  for (int i = 0; i < n; ++i) o[i] = p[i];
  return o;
}
// faces: bit 2i for the front face of axis i, 2i+1 for its back face
template <Index N, int Faces>
INL void ring(LP f, LP b, LP mf, LP mb, int n) {
  for (int i = 0; i < n; ++i) {
    ASSUME(f[i] > -BIG);
    ASSUME(f[i] < BIG);
    ASSUME(b[i] < BIG);
    ASSUME(f[i] <= b[i]);
    ASSUME(mf[i] > -BIG);
    ASSUME(mb[i] < BIG);
    if ((Faces >> (2 * i)) & 1) ASSUME(mf[i] < 0);
    else ASSUME(mf[i] == 0);
    if ((Faces >> (2 * i + 1)) & 1) ASSUME(mb[i] > 0);
    else ASSUME(mb[i] == 0);
  }
  NOTHROW("surround does not throw");
  const Box<N> in(mk<N>(f, n), mk<N>(b, n));
  const auto out = in.surround(Box<N>(mk<N>(mf, n), mk<N>(mb, n)));
  constexpr int C = __builtin_popcount(Faces);
  EQI("one box per face with a margin", out.size(), C);
  long sum = 1, outer = 1;
  for (int i = 0; i < n; ++i) {
    sum *= b[i] - f[i] + 1;
    outer *= (b[i] + mb[i]) - (f[i] + mf[i]) + 1;
  }
  for (int k = 0; k < C; ++k) {
    const auto& o = out.data()[k];
    EQI("dimension", o.dimension(), n);
    long s = 1;
    bool apart = false;
    for (int i = 0; i < n; ++i) {
      const long a = o.front()[i], z = o.back()[i];
      s *= z - a + 1;
      REQ("boxes are not empty", a <= z);
      REQ("boxes are inside the outer box (front)", a >= f[i] + mf[i]);
      REQ("boxes are inside the outer box (back)", z <= b[i] + mb[i]);
      apart = apart | (z < f[i]) | (a > b[i]);
    }
    REQ("boxes are outside of the inner box", apart);
    sum += s;
    for (int l = 0; l < k; ++l) {
      const auto& p = out.data()[l];
      bool disjoint = false;
      for (int i = 0; i < n; ++i) disjoint = disjoint | (o.back()[i] < p.front()[i]) | (o.front()[i] > p.back()[i]);
      REQ("boxes are disjoint", disjoint);
    }
  }
  EQI("the boxes cover the ring", sum, outer);
  for (int i = 0; i < n; ++i) {
    EQI("the inner box is unchanged", in.front()[i], f[i]);
    EQI("the inner box is unchanged", in.back()[i], b[i]);
  }
}
#define D1(T, N, D, A) H h_ring_##T##D##_##A(LP f, LP b, LP mf, LP mb) { ring<N, A>(f, b, mf, mb, D); }
#define D2(T, N, D, A, B) H h_ring_##T##D##_##A##B(LP f, LP b, LP mf, LP mb) { ring<N, A + 4 * B>(f, b, mf, mb, D); }
#define D3(T, N, D, A, B, C) H h_ring_##T##D##_##A##B##C(LP f, LP b, LP mf, LP mb) { ring<N, A + 4 * B + 16 * C>(f, b, mf, mb, D); }
D1(f, 1, 1, 0) D1(f, 1, 1, 1) D1(f, 1, 1, 2) D1(f, 1, 1, 3)
D1(v, -1, 1, 1) D1(v, -1, 1, 3)
#define E2(T, N, A) D2(T, N, 2, A, 0) D2(T, N, 2, A, 1) D2(T, N, 2, A, 2) D2(T, N, 2, A, 3)
E2(f, 2, 0) E2(f, 2, 1) E2(f, 2, 2) E2(f, 2, 3)
D2(v, -1, 2, 3, 3) D2(v, -1, 2, 1, 2)
#define E3(T, N, A, B) D3(T, N, 3, A, B, 0) D3(T, N, 3, A, B, 1) D3(T, N, 3, A, B, 2) D3(T, N, 3, A, B, 3)
E3(f, 3, 0, 0) E3(f, 3, 0, 1) E3(f, 3, 0, 2) E3(f, 3, 0, 3)
E3(f, 3, 1, 0) E3(f, 3, 1, 1) E3(f, 3, 1, 2) E3(f, 3, 1, 3)
E3(f, 3, 2, 0) E3(f, 3, 2, 1) E3(f, 3, 2, 2) E3(f, 3, 2, 3)
E3(f, 3, 3, 0) E3(f, 3, 3, 1) E3(f, 3, 3, 2) E3(f, 3, 3, 3)
#define D5(T, N, D, A, B, C, E, F) H h_ring_##T##D##_##A##B##C##E##F(LP f, LP b, LP mf, LP mb) { ring<N, A + 4 * B + 16 * C + 64 * E + 256 * F>(f, b, mf, mb, D); }
D5(f, 5, 5, 0, 0, 0, 0, 3) D5(f, 5, 5, 0, 0, 0, 3, 0) D5(f, 5, 5, 1, 0, 0, 0, 2) D5(v, -1, 5, 0, 0, 0, 2, 1)
