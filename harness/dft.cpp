// Discrete Fourier transform plans over a ghost FFTW.
#include "ghost_fftw.h"
using namespace Litl;
template <Index N>
struct Shape {
  long s[N];
};
template <Index N>
INL Position<N> mk(const Shape<N>& s) {
  Position<N> o;
  for (int i = 0; i < N; ++i) o[i] = s.s[i];
  return o;
}
template <typename T>
INL const double* reals(const T* p) { return reinterpret_cast<const double*>(p); }
// kind, direction, geometry and buffers of the last plan
template <Index N, typename TPlan>
INL void planned(TPlan& p, const Shape<N>& s, int id, int kind, int sign) {
  const fftw_plan_s* f = g.plans[id];
  EQI("kind of transform", f->kind, kind);
  EQI("direction", f->sign, sign);
  EQI("dimension", f->rank, N);
  long half[N], size = 1;
  for (int i = 0; i < N; ++i) {
    EQI("logical lengths, the first axis being the contiguous one", f->n[N - 1 - i], s.s[i]);
    half[i] = i ? s.s[i] : s.s[i] / 2 + 1;
    size *= s.s[i];
    EQI("logical shape", p.logicalShape()[i], s.s[i]);
    EQI("input shape", p.inShape()[i], kind == C2R ? half[i] : s.s[i]);
    EQI("output shape", p.outShape()[i], kind == R2C ? half[i] : s.s[i]);
    EQI("input buffer shape", p.in().shape()[i], kind == C2R ? half[i] : s.s[i]);
    EQI("output buffer shape", p.out().shape()[i], kind == R2C ? half[i] : s.s[i]);
  }
  REQ("the input buffer is large enough", allocated(f->in, 8 * in_size(f)));
  REQ("the output buffer is large enough", allocated(f->out, 8 * out_size(f)));
  EQP("planned input is the input buffer", f->in, p.in().data());
  EQP("planned output is the output buffer", f->out, p.out().data());
  EQF("normalization factor", p.normalizationFactor(), size);
}
template <typename TDft, Index N>
INL void plan(const Shape<N>& s, int kind, int inv) {
  start();
  {
    TDft dft(mk(s));
    planned(dft, s, 0, kind, FFTW_FORWARD);
    EQI("a plan allocates its two buffers", g.m, 2);
    auto idft = dft.inverse();
    planned(idft, s, 1, inv, FFTW_BACKWARD);
    EQI("inverse plans allocate no buffer", g.m, 2);
    EQP("input of the inverse plan is the output", idft.in().data(), dft.out().data());
    EQP("output of the inverse plan is the input", idft.out().data(), dft.in().data());
    auto back = idft.inverse();
    planned(back, s, 2, kind, FFTW_FORWARD);
    EQP("the inverse of the inverse shares the input", back.in().data(), dft.in().data());
    EQP("the inverse of the inverse shares the output", back.out().data(), dft.out().data());
  }
  REQ("all plans are destroyed", alive() == 0);
  REQ("all buffers are released", blocks() == 0);
  REQ("plans and buffers are released once", g.bad == 0);
}
H h_plan_r1() { plan<RealDft<1>, 1>({{5}}, R2C, C2R); }
H h_plan_r1e() { plan<RealDft<1>, 1>({{6}}, R2C, C2R); }
H h_plan_r2() { plan<RealDft<2>, 2>({{4, 2}}, R2C, C2R); }
H h_plan_r2o() { plan<RealDft<2>, 2>({{3, 2}}, R2C, C2R); }
H h_plan_r3() { plan<RealDft<3>, 3>({{2, 1, 3}}, R2C, C2R); }
H h_plan_r4() { plan<RealDft<4>, 4>({{2, 3, 1, 4}}, R2C, C2R); }
H h_plan_c4() { plan<ComplexDft<4>, 4>({{2, 3, 1, 4}}, C2C, C2C); }
H h_plan_c1() { plan<ComplexDft<1>, 1>({{4}}, C2C, C2C); }
H h_plan_c2() { plan<ComplexDft<2>, 2>({{3, 2}}, C2C, C2C); }
H h_plan_c3() { plan<ComplexDft<3>, 3>({{1, 2, 2}}, C2C, C2C); }
// transforms
template <Index N>
INL int geometry(const Shape<N>& s, int* n, int kind, bool in) { // number of doubles
  int size = 1;
  for (int i = 0; i < N; ++i) {
    n[i] = int(s.s[N - 1 - i]);
    size *= i + 1 == N && kind == (in ? C2R : R2C) ? n[i] / 2 + 1 : n[i];
  }
  return kind == (in ? R2C : C2R) ? size : 2 * size;
}
template <typename TDft, Index N>
INL void run(const Shape<N>& s, const double* d, int kind, int sign, bool inverse) {
  start();
  {
    TDft p(mk(s));
    int n[4] {};
    const int size = geometry(s, n, kind, true), osize = geometry(s, n, kind, false);
    double total = 1;
    for (int i = 0; i < N; ++i) total *= double(s.s[i]);
    double* in = reinterpret_cast<double*>(p.in().data());
    for (int i = 0; i < size; ++i) in[i] = d[i];
    auto& q = p.transform();
    EQP("transform() returns the plan", &q, &p);
    EQI("one transform is run", g.runs, 1);
    const double* out = reals(p.out().data());
    for (int i = 0; i < osize; ++i) EQF("transform of the input values", out[i], fft(kind, sign, N, n, d, size, i));
    auto& r = p.normalize();
    EQP("normalize() returns the plan", &r, &p);
    EQI("normalizing runs no transform", g.runs, 1);
    for (int i = 0; i < osize; ++i) EQF("normalized by the logical size", out[i], fft(kind, sign, N, n, d, size, i) * (1. / total));
    // the plan can be run again
    for (int i = 0; i < size; ++i) in[i] = d[i + size];
    p.transform();
    for (int i = 0; i < osize; ++i) EQF("transform of the new input values", out[i], fft(kind, sign, N, n, d + size, size, i));
  }
  REQ("all plans are destroyed", alive() == 0);
  REQ("all buffers are released", blocks() == 0);
  REQ("plans and buffers are released once", g.bad == 0);
}
#define D const double* __restrict d
H h_run_r1(D) { run<RealDft<1>, 1>({{5}}, d, R2C, FFTW_FORWARD, false); }
H h_run_r2(D) { run<RealDft<2>, 2>({{4, 2}}, d, R2C, FFTW_FORWARD, false); }
H h_run_r3(D) { run<RealDft<3>, 3>({{3, 2, 1}}, d, R2C, FFTW_FORWARD, false); }
H h_run_ir1(D) { run<RealDft<1>::Inverse, 1>({{5}}, d, C2R, FFTW_BACKWARD, true); }
H h_run_ir2(D) { run<RealDft<2>::Inverse, 2>({{3, 2}}, d, C2R, FFTW_BACKWARD, true); }
H h_run_c1(D) { run<ComplexDft<1>, 1>({{4}}, d, C2C, FFTW_FORWARD, false); }
H h_run_c2(D) { run<ComplexDft<2>, 2>({{3, 2}}, d, C2C, FFTW_FORWARD, false); }
H h_run_ic2(D) { run<ComplexDft<2>::Inverse, 2>({{2, 3}}, d, C2C, FFTW_BACKWARD, true); }
// moves and compositions
#define DONE() \
  REQ("all plans are destroyed", alive() == 0); \
  REQ("all buffers are released", blocks() == 0); \
  REQ("plans and buffers are released once", g.bad == 0)
INL void put(double* to, const double* from, int n) {
  for (int i = 0; i < n; ++i) to[i] = from[i];
}
INL void forward(RealDft<1>& p, const double* d, long s) {
  const int n[4] {int(s)};
  put(p.in().data(), d, int(s));
  p.transform();
  const double* out = reals(p.out().data());
  for (int i = 0; i < 2 * (s / 2 + 1); ++i) EQF("transform of the input values", out[i], fft(R2C, FFTW_FORWARD, 1, n, d, int(s), i));
}
H h_own_move(D) {
  start();
  {
    RealDft<1> p({4});
    const auto* in = p.in().data();
    const auto* out = p.out().data();
    RealDft<1> q(std::move(p));
    EQP("moved input buffer", q.in().data(), in);
    EQP("moved output buffer", q.out().data(), out);
    EQI("moving allocates nothing", g.m, 2);
    planned(q, Shape<1> {{4}}, 0, R2C, FFTW_FORWARD);
    forward(q, d, 4);
  }
  DONE();
}
H h_own_assign(D) {
  start();
  {
    RealDft<1> p({4});
    RealDft<1> q({3});
    const auto* in = p.in().data();
    forward(q, d, 3);
    q = std::move(p);
    EQP("moved input buffer", q.in().data(), in);
    EQI("moving allocates nothing", g.m, 4);
    planned(q, Shape<1> {{4}}, 0, R2C, FFTW_FORWARD);
    forward(q, d, 4);
  }
  DONE();
}
H h_own_assign_inverse(D) {
  start();
  {
    RealDft<1> p({4});
    auto i = p.inverse();
    RealDft<1> q({4});
    i = q.inverse();
    EQP("moved input buffer", i.in().data(), q.out().data());
    EQP("moved output buffer", i.out().data(), q.in().data());
    forward(p, d, 4);
    forward(q, d, 4);
  }
  DONE();
}
H h_own_swap(D) {
  start();
  {
    RealDft<1> p({4});
    RealDft<1> q({3});
    std::swap(p, q);
    forward(p, d, 3);
    forward(q, d, 4);
  }
  DONE();
}
H h_own_external(D, double* __restrict in, std::complex<double>* __restrict out) {
  ASSUME(in != nullptr);
  ASSUME(out != nullptr);
  start();
  {
    RealDft<1> p({3}, in, out);
    EQP("given input buffer", p.in().data(), in);
    EQP("given output buffer", p.out().data(), out);
    EQI("given buffers are used as is", g.m, 0);
    forward(p, d, 3);
    RealDft<1> q({3}, in);
    EQP("given input buffer", q.in().data(), in);
    EQI("the other buffer is allocated", g.m, 1);
    forward(q, d, 3);
    RealDft<1> r({3}, nullptr, out);
    EQP("given output buffer", r.out().data(), out);
    EQI("the other buffer is allocated", g.m, 2);
    forward(r, d, 3);
  }
  DONE();
}
H h_own_inverse_runs(D) {
  start();
  {
    RealDft<1> p({3});
    auto q = p.inverse();
    forward(p, d, 3);
    const int n[4] {3};
    double c[4];
    for (int i = 0; i < 4; ++i) c[i] = fft(R2C, FFTW_FORWARD, 1, n, d, 3, i);
    q.transform().normalize();
    for (int i = 0; i < 3; ++i) EQF("inverse transform of the coefficients", p.in().data()[i], fft(C2R, FFTW_BACKWARD, 1, n, c, 4, i) * (1. / 3));
  }
  DONE();
}
H h_own_compose(D) {
  start();
  {
    RealDft<2> p({3, 1});
    auto q = p.compose<ComplexDft<2>>({2, 1});
    EQP("the plans share a buffer", q.in().data(), p.out().data());
    EQI("the output buffer only is allocated", g.m, 3);
    planned(q, Shape<2> {{2, 1}}, 1, C2C, FFTW_FORWARD);
    put(p.in().data(), d, 3);
    p.transform();
    q.transform();
    const int m[4] {1, 3}, n[4] {1, 2};
    double c[4];
    for (int i = 0; i < 4; ++i) c[i] = fft(R2C, FFTW_FORWARD, 2, m, d, 3, i);
    const double* out = reals(q.out().data());
    for (int i = 0; i < 4; ++i) EQF("transform of the transform", out[i], fft(C2C, FFTW_FORWARD, 2, n, c, 4, i));
  }
  DONE();
}
// functions
template <typename TOut, Index N>
INL void computed(const TOut& out, const Shape<N>& s, int kind, int sign, const double* d, bool normalized) {
  int n[4] {};
  const int size = geometry(s, n, kind, true), osize = geometry(s, n, kind, false);
  double total = 1;
  for (int i = 0; i < N; ++i) {
    EQI("output shape", out.shape()[i], kind == R2C && !i ? s.s[0] / 2 + 1 : s.s[i]);
    total *= double(s.s[i]);
  }
  const double* o = reals(out.data());
  for (int i = 0; i < osize; ++i) {
    const double f = fft(kind, sign, N, n, d, size, i);
    EQF("transform of the input values", o[i], normalized ? f * (1. / total) : f);
  }
  REQ("plans are destroyed", alive() == 0);
  REQ("the output only is not released", blocks() == 1);
}
template <Index N>
INL void real(const Shape<N>& s, const double* d) {
  const PtrRaster<const double, N> in(mk(s), d);
  start();
  {
    const auto out = realDft(in);
    computed(out, s, R2C, FFTW_FORWARD, d, false);
  }
  DONE();
}
template <Index N>
INL void complex(const Shape<N>& s, const std::complex<double>* d) {
  const PtrRaster<const std::complex<double>, N> in(mk(s), d);
  start();
  {
    const auto out = complexDft(in);
    computed(out, s, C2C, FFTW_FORWARD, reals(d), false);
  }
  DONE();
  start();
  {
    const auto out = inverseComplexDft(in);
    computed(out, s, C2C, FFTW_BACKWARD, reals(d), true);
  }
  DONE();
}
template <Index N>
INL void inverseReal(const Shape<N>& s, const std::complex<double>* d) {
  auto h = s;
  h.s[0] = s.s[0] / 2 + 1;
  const PtrRaster<const std::complex<double>, N> in(mk(h), d);
  start();
  {
    const auto out = inverseRealDft(in, mk(s));
    computed(out, s, C2R, FFTW_BACKWARD, reals(d), true);
  }
  DONE();
}
#define Z const std::complex<double>* __restrict d
H h_fun_r1(D) { real<1>({{5}}, d); }
H h_fun_r2(D) { real<2>({{4, 2}}, d); }
H h_fun_r3(D) { real<3>({{2, 3, 1}}, d); }
H h_fun_c1(Z) { complex<1>({{3}}, d); }
H h_fun_c2(Z) { complex<2>({{3, 2}}, d); }
H h_fun_c4(Z) { complex<4>({{1, 2, 3, 1}}, d); }
H h_fun_r4(D) { real<4>({{1, 2, 3, 1}}, d); }
H h_fun_ir1(Z) { inverseReal<1>({{5}}, d); }
H h_fun_ir2(Z) { inverseReal<2>({{4, 2}}, d); }
H h_fun_ir2o(Z) { inverseReal<2>({{3, 2}}, d); }
H h_fun_real_to_complex(D) {
  const PtrRaster<const double, 1> in({3}, d);
  start();
  {
    const auto out = complexDft(in);
    const double z[] {d[0], 0, d[1], 0, d[2], 0};
    computed(out, Shape<1> {{3}}, C2C, FFTW_FORWARD, z, false);
  }
  DONE();
}
