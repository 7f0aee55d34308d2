// Random generators: what is drawn, with which parameters, from which engine state.
#include "ghost_random.h"
#include "LitlContainer/Sequence.h"
#include "LitlRaster/Raster.h"
using namespace Litl;
typedef std::complex<double> C;
typedef unsigned long U;
typedef unsigned char UC;
typedef unsigned short US;
#define SEED ASSUME(s != U(-1))
// draws
#define UNIF(T, n) \
  H h_seed_uniform_##n(T a, T b, T x, T y, U s) { \
    SEED; \
    UniformNoise<T> u(a, b, s); \
    litl_eq("first draw, within [min, max]", u(), T(DRAW(a, b, 0))); \
    litl_eq("adds the second draw", u(x), T(x + T(DRAW(a, b, 1)))); \
    litl_eq("adds the third draw", u(y), T(y + T(DRAW(a, b, 2)))); \
    UniformNoise<T> v(a, b, s); \
    litl_eq("same seed, same draws", v(), T(DRAW(a, b, 0))); \
    litl_eq("generators do not interfere", u(), T(DRAW(a, b, 3))); \
    litl_eq("same seed, same draws", v(x), T(x + T(DRAW(a, b, 1)))); \
    UniformNoise<T> c(u); \
    litl_eq("copies carry on from the same state", c(), T(DRAW(a, b, 4))); \
    litl_eq("copies carry on from the same state", u(), T(DRAW(a, b, 4))); \
  }
#define DRAW(a, b, n) g_uniform_int(a, b, s, n)
UNIF(int, i) UNIF(long, l) UNIF(US, us)
#undef DRAW
#define DRAW(a, b, n) g_uniform(a, b, s, n)
UNIF(double, d) UNIF(float, f)
#undef DRAW
H h_seed_uniform_c(C* p, U s) {
  SEED;
  const C a = p[0], b = p[1], x = p[2];
  UniformNoise<C> u(a, b, s);
  litl_eq("real and imaginary parts are drawn one after the other, each within its own bounds", u(), C(g_uniform(a.real(), b.real(), s, 0), g_uniform(a.imag(), b.imag(), s, 1)));
  litl_eq("adds the next draw", u(x), x + C(g_uniform(a.real(), b.real(), s, 2), g_uniform(a.imag(), b.imag(), s, 3)));
}
#define NORM(T, n) \
  H h_seed_normal_##n(T a, T b, T x, T y, U s) { \
    SEED; \
    for (int k = 0; k < 5; ++k) { ASSUME(g_normal(a, b, s, k) >= (T(-1) < T(0) ? -1e4 : 0)); ASSUME(g_normal(a, b, s, k) < (sizeof(T) == 1 ? 255 : 1e4)); } \
    GaussianNoise<T> u(a, b, s); \
    litl_eq("first draw, with the mean and standard deviation", u(), T(g_normal(a, b, s, 0))); \
    litl_eq("adds the second draw", u(x), T(x + T(g_normal(a, b, s, 1)))); \
    litl_eq("adds the third draw", u(y), T(y + T(g_normal(a, b, s, 2)))); \
    GaussianNoise<T> v(a, b, s); \
    litl_eq("same seed, same draws", v(x), T(x + T(g_normal(a, b, s, 0)))); \
    litl_eq("generators do not interfere", u(), T(g_normal(a, b, s, 3))); \
  }
NORM(double, d) NORM(float, f) NORM(int, i) NORM(UC, u)
H h_seed_normal_c(C* p, U s) {
  SEED;
  const C a = p[0], b = p[1], x = p[2];
  GaussianNoise<C> u(a, b, s);
  litl_eq("real and imaginary parts are drawn one after the other, each with its own parameters", u(), C(g_normal(a.real(), b.real(), s, 0), g_normal(a.imag(), b.imag(), s, 1)));
  litl_eq("adds the next draw", u(x), x + C(g_normal(a.real(), b.real(), s, 2), g_normal(a.imag(), b.imag(), s, 3)));
}
#define POIS(T, n) \
  H h_seed_poisson_##n(T a, T x, T y, U s) { \
    SEED; \
    PoissonNoise<T> u(a, s); \
    litl_eq("first draw, with the mean", u(), T(g_poisson(a, s, 0))); \
    litl_eq("draws with the input as mean", u(x), T(g_poisson(x, s, 1))); \
    litl_eq("draws with the input as mean", u(y), T(g_poisson(y, s, 2))); \
    litl_eq("the mean of the generator is kept", u(), T(g_poisson(a, s, 3))); \
  } \
  H h_stable_poisson_##n(T a, T x, T y, U s) { \
    SEED; \
    StablePoissonNoise<T> u(a, s); \
    litl_eq("the draw has the input as mean and a seed of its own", u(x), T(g_poisson(x, g_minstd(s, 0), 0))); \
    litl_eq("the draw does not depend on the previous inputs", u(y), T(g_poisson(y, g_minstd(s, 1), 0))); \
    litl_eq("the draw does not depend on the previous inputs", u(a), T(g_poisson(a, g_minstd(s, 2), 0))); \
    StablePoissonNoise<T> v(a, s); \
    litl_eq("same seed, same draws", v(y), T(g_poisson(y, g_minstd(s, 0), 0))); \
    litl_eq("draws without input have the mean of the generator", v(), T(g_poisson(a, s, 0))); \
    litl_eq("draws without input do not shift the draws with input", v(x), T(g_poisson(x, g_minstd(s, 1), 0))); \
    StablePoissonNoise<T> d; \
    litl_eq("the default seed is fixed", d(x), T(g_poisson(x, g_minstd(0, 0), 0))); \
  }
POIS(int, i) POIS(long, l) POIS(double, d) POIS(float, f)
H h_stable_poisson_c(C* p, U s) {
  SEED;
  const C x = p[0], y = p[1];
  StablePoissonNoise<C> u(x, s);
  litl_eq("complex draws", u(x), C(g_poisson(x.real(), g_minstd(s, 0), 0), g_poisson(x.imag(), g_minstd(s, 0), 1)));
  litl_eq("complex draws", u(y), C(g_poisson(y.real(), g_minstd(s, 1), 0), g_poisson(y.imag(), g_minstd(s, 1), 1)));
}
// without seed, or with the seed -1, the engine is seeded with the clock
H h_seed_clock_u() { UniformNoise<int> u; litl_eq("seeded with the clock", u(), int(g_uniform_int(-1073741824L, 1073741824L, gclock, 0))); }
H h_seed_clock_ud() { UniformNoise<double> u(2., 3.); litl_eq("seeded with the clock", u(), g_uniform(2., 3., gclock, 0)); }
H h_seed_clock_u1(int a, int b) { UniformNoise<int> u(a, b, -1); litl_eq("seeded with the clock", u(), int(g_uniform_int(a, b, gclock, 0))); }
H h_seed_clock_n() { GaussianNoise<double> u; litl_eq("seeded with the clock", u(), g_normal(0., 1., gclock, 0)); }
H h_seed_clock_n1(double a, double b) { GaussianNoise<double> u(a, b, U(-1)); litl_eq("seeded with the clock", u(), g_normal(a, b, gclock, 0)); }
H h_seed_clock_p(long m) { PoissonNoise<long> u(m); litl_eq("seeded with the clock", u(), long(g_poisson(m, gclock, 0))); }
H h_impulse_clock(int a, int in) {
  ImpulseNoise<int> u(a, 0.5);
  const auto i = g_discrete(gclock, 0);
  litl_eq("seeded with the clock", u(in), i < 1 ? a : in);
}
H h_impulse_clock_map(int a, int in) {
  const std::ghost_map<int, double> m({{a, 0.5}});
  ImpulseNoise<int> u(m);
  const auto i = g_discrete(gclock, 0);
  litl_eq("seeded with the clock", u(in), i < 1 ? a : in);
}
H h_impulse_clock_sp(int in) {
  auto u = ImpulseNoise<int>::saltAndPepper(0.25, 0.25);
  const int o = u(in);
  litl_use(&o);
  litl_eq("seeded with the clock", gdisc.seed, U(gclock));
}
H h_seed_range(U s) {
  SEED;
  UniformNoise<int> u(Limits<int>::halfMin(), Limits<int>::halfMax(), s);
  litl_eq("half range", long(Limits<int>::halfMin()), -1073741824L);
  litl_eq("half range", long(Limits<int>::halfMax()), 1073741824L);
  litl_eq("half range", u(), int(g_uniform_int(-1073741824L, 1073741824L, s, 0)));
}
// random containers: one draw per element, within the half range of the type
H h_seed_random_sequence() {
  const auto a = Litl::random<int>(std::size_t(3));
  EQI("size", a.size(), 3);
  for (int i = 0; i < 3; ++i) litl_eq("element", a.data()[i], int(g_uniform_int(-1073741824L, 1073741824L, gclock, i)));
}
H h_seed_random_raster() {
  const auto a = Litl::random<double, 2>({2, 1});
  EQI("width", a.shape()[0], 2);
  EQI("height", a.shape()[1], 1);
  EQI("size", a.size(), 2);
  for (int i = 0; i < 2; ++i) litl_eq("element", a.data()[i], g_uniform(Limits<double>::halfMin(), Limits<double>::halfMax(), gclock, i));
}
// impulse noise
#define IMP(T, n, ...) \
  H h_impulse_none_##n(U s) { \
    SEED; \
    const std::ghost_map<T, double> m; \
    ImpulseNoise<T> u(m, s); \
    REQ("only the null hypothesis", gdisc.cnt == 1); \
    litl_eq("weight of the null hypothesis", gdisc.w[0], 1.); \
  } \
  H h_impulse_one_##n(T a, T in, U s) { \
    SEED; \
    const double p = 0.125; \
    ImpulseNoise<T> u(a, p, s); \
    REQ("one value and the null hypothesis", gdisc.cnt == 2); \
    litl_eq("probability of the value", gdisc.w[0], p); \
    litl_eq("probability of the null hypothesis", gdisc.w[1], 1 - p); \
  } \
  H h_impulse_draw_hit_##n(T a, T in, U s) { \
    SEED; \
    const double p = 0.125; \
    ASSUME(g_discrete(s, 0) == 0); \
    ImpulseNoise<T> u(a, p, s); \
    litl_eq("replaces the input by the value", u(in), a); \
  } \
  H h_impulse_draw_null_##n(T a, T in, U s) { \
    SEED; \
    const double p = 0.125; \
    ASSUME(g_discrete(s, 0) == 1); \
    ASSUME(g_discrete(s, 1) == 0); \
    ImpulseNoise<T> u(a, p, s); \
    litl_eq("keeps the input", u(in), in); \
    litl_eq("one draw per call", u(in), a); \
  } \
  H h_impulse_sure_##n(T a, U s) { \
    SEED; \
    ImpulseNoise<T> u(a, 1., s); \
    REQ("sure value", gdisc.cnt == 1 || gdisc.w[1] <= 1e-12); \
    litl_eq("probability of the value", gdisc.w[0], 1.); \
  } \
  H h_impulse_two_##n(T a, T b, U s) { \
    SEED; \
    ASSUME(a < b); \
    __VA_ARGS__; \
    ImpulseNoise<T> u({{b, 0.25}, {a, 0.125}}, s); \
    REQ("two values and the null hypothesis", gdisc.cnt == 3); \
    litl_eq("probability of the smaller value", gdisc.w[0], 0.125); \
    litl_eq("probability of the larger value", gdisc.w[1], 0.25); \
    litl_eq("probability of the null hypothesis", gdisc.w[2], 0.625); \
  } \
  H h_impulse_two_first_##n(T a, T b, T in, U s) { \
    SEED; \
    ASSUME(a < b); \
    __VA_ARGS__; \
    ASSUME(g_discrete(s, 0) == 0); \
    ASSUME(g_discrete(s, 1) == 1); \
    ASSUME(g_discrete(s, 2) == 2); \
    ImpulseNoise<T> u({{b, 0.25}, {a, 0.125}}, s); \
    litl_eq("values have the probability they are given", u(in), a); \
    litl_eq("values have the probability they are given", u(in), b); \
    litl_eq("keeps the input", u(in), in); \
  } \
  H h_impulse_salt_##n(T a, T b, T in, U s) { \
    SEED; \
    ASSUME(a < b); \
    __VA_ARGS__; \
    ASSUME(g_discrete(s, 0) == 0); \
    ASSUME(g_discrete(s, 1) == 1); \
    ASSUME(g_discrete(s, 2) == 2); \
    auto u = ImpulseNoise<T>::saltAndPepper(0.25, 0.125, b, a, s); \
    litl_eq("probability of pepper", gdisc.w[0], 0.125); \
    litl_eq("probability of salt", gdisc.w[1], 0.25); \
    litl_eq("probability of the null hypothesis", gdisc.w[2], 0.625); \
    litl_eq("pepper", u(in), a); \
    litl_eq("salt", u(in), b); \
    litl_eq("keeps the input", u(in), in); \
  } \
  H h_impulse_salt_all_##n(U s) { \
    SEED; \
    auto u = ImpulseNoise<T>::saltAndPepper(0.75, 0.25, Limits<T>::max(), Limits<T>::min(), s); \
    REQ("no null hypothesis", gdisc.cnt == 2 || gdisc.w[2] <= 1e-12); \
    litl_eq("probability of pepper", gdisc.w[0], 0.25); \
    litl_eq("probability of salt", gdisc.w[1], 0.75); \
  }
// unlikely null hypothesis, unknown probability
H h_impulse_rare_one(int a, U s) {
  SEED;
  ImpulseNoise<int> u(a, 0.9999999, s);
  REQ("one value and the null hypothesis", gdisc.cnt == 2);
  litl_eq("probability of the value", gdisc.w[0], 0.9999999);
  litl_eq("probability of the null hypothesis", gdisc.w[1], 1 - 0.9999999);
}
H h_impulse_rare_two(double a, double b, U s) {
  SEED;
  ASSUME(a < b);
  a = 1.5; b = 2.5;
  auto u = ImpulseNoise<double>::saltAndPepper(0.5, 0.4999999, b, a, s);
  REQ("two values and the null hypothesis", gdisc.cnt == 3);
  litl_eq("probability of pepper", gdisc.w[0], 0.4999999);
  litl_eq("probability of salt", gdisc.w[1], 0.5);
  REQ("probability of the null hypothesis", gdisc.w[2] > 0.9e-7 && gdisc.w[2] < 1.1e-7);
}
H h_impulse_rare_value(int a, U s) {
  SEED;
  ImpulseNoise<int> u(a, 1e-7, s);
  REQ("one value and the null hypothesis", gdisc.cnt == 2);
  litl_eq("probability of the value", gdisc.w[0], 1e-7);
  litl_eq("probability of the null hypothesis", gdisc.w[1], 1 - 1e-7);
}
H h_impulse_any(int a, double p, U s) {
  SEED;
  ASSUME(p >= 0.);
  ASSUME(p <= 0.9999);
  ImpulseNoise<int> u(a, p, s);
  REQ("one value and the null hypothesis", gdisc.cnt == 2);
  litl_eq("probability of the value", gdisc.w[0], p);
  litl_eq("probability of the null hypothesis", gdisc.w[1], 1 - p);
}
IMP(int, i, ) IMP(long, l, ) IMP(double, d, a = 1.5; b = 2.5) IMP(UC, u, )
