// Vectors and shapes, samplings of axes, positions and data.
#include "plain_std.h"
#include "LitlRaster/Raster.h"
#include "LitlRaster/Sampling.h"
#include "litl_obl.h"
using namespace Litl;
#define LP const long* __restrict
constexpr long BIG = 100000;
template <Index N>
INL Position<N> mk(const long* p, int n) {
  Position<N> o(n);
  for (int i = 0; i < n; ++i) o[i] = p[i];
  return o;
}

// --- vectors
template <typename T, Index N>
INL void constants(int n) {
  const auto z = Vector<T, N>::zero();
  const auto o = Vector<T, N>::one();
  const auto f = Vector<T, N>::inf();
  EQI("dimension of zero", z.size(), n);
  EQI("dimension of one", o.size(), n);
  EQI("dimension of inf", f.size(), n);
  for (int i = 0; i < n; ++i) {
    litl_eq("coordinate of zero", z[i], T(0));
    litl_eq("coordinate of one", o[i], T(1));
    REQ("coordinate of inf", f[i] == std::numeric_limits<T>::max() || (std::numeric_limits<T>::has_infinity && f[i] == std::numeric_limits<T>::infinity()));
  }
  REQ("zero is zero", z.isZero() && !z.isOne() && !z.isInf());
  REQ("one is one", o.isOne() && !o.isZero() && !o.isInf());
  REQ("inf is inf", f.isInf() && !f.isZero() && !f.isOne());
}
#define CST(L, T, N, D) H h_cst_##L() { constants<T, N>(D); }
CST(i1, long, 1, 1) CST(i2, long, 2, 2) CST(i3, long, 3, 3) CST(i6, long, 6, 6) CST(id, long, -1, 1) CST(f2, float, 2, 2) CST(d3, double, 3, 3)
template <typename T, Index N>
INL void notconst(const T* p, int n, int axis) {
  Vector<T, N> v(n);
  for (int i = 0; i < n; ++i) v[i] = p[i];
  const T inf = Limits<T>::inf();
  REQ("not zero", p[axis] == T(0) || !v.isZero());
  REQ("not one", p[axis] == T(1) || !v.isOne());
  REQ("not inf", p[axis] == inf || !v.isInf());
}
#define NOC(L, T, N, D, A) H h_noc_##L##A(const T* __restrict p) { notconst<T, N>(p, D, A); }
NOC(i1, long, 1, 1, 0) NOC(i2, long, 2, 2, 0) NOC(i2, long, 2, 2, 1) NOC(i3, long, 3, 3, 0) NOC(i3, long, 3, 3, 1) NOC(i3, long, 3, 3, 2)
NOC(i6, long, 6, 6, 5) NOC(id5, long, -1, 5, 4) NOC(id, long, -1, 3, 0) NOC(id, long, -1, 3, 2) NOC(d2, double, 2, 2, 0) NOC(d2, double, 2, 2, 1)
H h_slice31(const Position<3>& p) {
  const auto v = p.slice<1>();
  EQI("dimension", v.size(), 1);
  EQI("coordinate", v[0], p[0]);
}
H h_slice42(const Position<4>& p) {
  const auto v = p.slice<2>();
  EQI("dimension", v.size(), 2);
  EQI("coordinate", v[0], p[0]);
  EQI("coordinate", v[1], p[1]);
}
H h_sliced2(LP q) {
  const auto p = mk<-1>(q, 3);
  const auto v = p.slice<2>();
  EQI("dimension", v.size(), 2);
  EQI("coordinate", v[0], q[0]);
  EQI("coordinate", v[1], q[1]);
}
H h_slicef(const Vector<double, 3>& p) {
  const auto v = p.slice<2>();
  litl_eq("coordinate", v[0], p[0]);
  litl_eq("coordinate", v[1], p[1]);
}
H h_extendd3(LP q, const Position<3>& r) {
  const auto p = mk<-1>(q, 2);
  const auto v = p.extend<3>(r);
  EQI("dimension", v.size(), 3);
  EQI("coordinate", v[0], q[0]);
  EQI("coordinate", v[1], q[1]);
  EQI("padding", v[2], r[2]);
}
H h_extendd1(LP q, const Position<3>& r) {
  const auto v = mk<-1>(q, 1).extend<3>(r);
  EQI("coordinate", v[0], q[0]);
  EQI("padding", v[1], r[1]);
  EQI("padding", v[2], r[2]);
}
H h_extend3d(const Position<3>& p, LP q) {
  const auto v = p.extend<-1>(mk<-1>(q, 5));
  EQI("dimension", v.size(), 5);
  for (int i = 0; i < 3; ++i) EQI("coordinate", v[i], p[i]);
  for (int i = 3; i < 5; ++i) EQI("padding", v[i], q[i]);
}
H h_extend_same(const Position<3>& p, const Position<3>& q) {
  const auto v = p.extend<3>(q);
  for (int i = 0; i < 3; ++i) EQI("coordinate", v[i], p[i]);
}
H h_extend24(const Position<2>& p, const Position<4>& q) {
  const auto v = p.extend<4>(q);
  EQI("dimension", v.size(), 4);
  EQI("coordinate", v[0], p[0]);
  EQI("coordinate", v[1], p[1]);
  EQI("coordinate", v[2], q[2]);
  EQI("coordinate", v[3], q[3]);
  const auto w = p.extend<3>();
  EQI("dimension", w.size(), 3);
  EQI("coordinate", w[0], p[0]);
  EQI("coordinate", w[1], p[1]);
  EQI("default coordinate", w[2], 0);
}
template <Index N>
INL void strides(LP s, int n) {
  const auto p = mk<N>(s, n);
  long e = 1;
  for (int i = 0; i < n; ++i) {
    EQI("stride along axis", shapeStride(p, i), e);
    e *= s[i];
  }
  EQI("size of the shape", shapeSize(p), e);
  if (n > 1) {
    EQI("stride along fixed axis", shapeStride<1>(p), s[0]);
    EQI("stride along first axis", shapeStride<0>(p), 1);
  }
}
#define STR(N, D) H h_str_##D(LP s) { strides<N>(s, D); }
STR(1, 1) STR(2, 2) STR(3, 3) STR(4, 4) STR(5, 5) STR(6, 6)
H h_str_d5(LP s) { strides<-1>(s, 5); }
H h_str_d7(LP s) { strides<-1>(s, 7); }
H h_str_d1(LP s) { strides<-1>(s, 1); }
H h_str_d2(LP s) { strides<-1>(s, 2); }
H h_str_d3(LP s) { strides<-1>(s, 3); }
H h_str_none() { EQI("size of the null shape", shapeSize(Position<-1>(0)), 0); }

// --- axis sampling
template <typename T>
INL void axis(T front, T back, T step) {
  ASSUME(front > -BIG);
  ASSUME(front < BIG);
  ASSUME(back > -BIG);
  ASSUME(back < BIG);
  NOTHROW("samplings do not throw");
  const AxisSampling<T> s {front, back, step};
  const auto n = s.size();
  REQ("the last sample is not after the back", n == 0 || front + (T(n) - 1) * step <= back);
  REQ("the sample after the last one is after the back", front + T(n) * step > back);
}
H h_ax_1(long f, long b) { axis<long>(f, b, 1); }
H h_ax_2(long f, long b) { axis<long>(f, b, 2); }
H h_ax_3(long f, long b) { axis<long>(f, b, 3); }
H h_ax_7(long f, long b) { axis<long>(f, b, 7); }
H h_ax_i5(int f, int b) { axis<int>(f, b, 5); }
template <typename T>
INL void axis_it(T front, T step, T n, int k) {
  const AxisSampling<T> s {front, front + step * k, step};
  auto it = s.begin();
  for (int i = 0; i < k; ++i) {
    litl_eq("sample", *it, T(front + i * step));
    litl_eq("sample (arrow)", *it.operator->(), T(front + i * step));
    auto jt = it++;
    litl_eq("sample before the post-increment", *jt, T(front + i * step));
    REQ("the incremented iterator is different", jt != it && !(jt == it));
    ++jt;
    REQ("incremented iterators are equal", jt == it && !(jt != it));
    litl_eq("sample after the pre-increment", *jt, T(front + (i + 1) * step));
  }
  litl_eq("sample after the last increment", *it, T(front + k * step));
  const T x = *it;
  it += n;
  litl_eq("sample after a jump", *it, T(x + n * step));
  it -= n;
  litl_eq("sample after the opposite jump", *it, x);
}
H h_axit_i(long f, long s, long n) { axis_it<long>(f, s, n, 3); }
H h_axit_i32(int f, int s, int n) { axis_it<int>(f, s, n, 3); }
template <int STEP, int EXTRA>
INL void axis_vec(long f, long b) {
  ASSUME(f > -BIG);
  ASSUME(f < BIG);
  const AxisSampling<long> s {f, f + 2 * STEP + EXTRA, STEP};
  EQI("count", s.size(), 3);
  auto it = s.begin();
  REQ("not the end", it != s.end());
  ++it;
  REQ("not the end", it != s.end());
  ++it;
  REQ("not the end", it != s.end());
  EQI("last sample", *it, f + 2 * STEP);
  ++it;
  REQ("the end", it == s.end());
}
template <typename T>
INL void axis_at(T front, T back, T step, unsigned k, T n) {
  ASSUME(k < 1000);
  ASSUME(n > 0);
  ASSUME(n < 1000);
  const AxisSampling<T> s {front, back, step};
  typename AxisSampling<T>::Iterator it(s, k);
  litl_eq("sample of given index", *it, T(front + T(k) * step));
  it += n;
  litl_eq("sample of given index after a jump", *it, T(front + T(k) * step + n * step));
  REQ("a jump changes the index", it != (typename AxisSampling<T>::Iterator(s, k)));
  REQ("a jump reaches the target index", it == (typename AxisSampling<T>::Iterator(s, k + n)));
  it -= n;
  REQ("jumping back gives the initial index", it == (typename AxisSampling<T>::Iterator(s, k)));
}
H h_axat_l(long f, long b, long s, unsigned k, long n) { axis_at<long>(f, b, s, k, n); }
H h_axat_i(int f, int b, int s, unsigned k, int n) { axis_at<int>(f, b, s, k, n); }
H h_axv_10(long f, long b) { axis_vec<1, 0>(f, b); }
H h_axv_20(long f, long b) { axis_vec<2, 0>(f, b); }
H h_axv_21(long f, long b) { axis_vec<2, 1>(f, b); }
H h_axv_32(long f, long b) { axis_vec<3, 2>(f, b); }
H h_axv_vec() {
  const AxisSampling<long> s {-2, 3, 2};
  const auto v = s.vector();
  EQI("size of the vector", v.size(), 3);
  EQI("first", v[0], -2);
  EQI("second", v[1], 0);
  EQI("third", v[2], 2);
}
H h_axv_default() {
  const AxisSampling<long> s;
  EQI("front", s.front, 0);
  EQI("back", s.back, std::numeric_limits<long>::max());
  EQI("step", s.step, 1);
}

// --- position sampling
template <Index N>
INL void posit(LP f, LP b, LP st, int n) {
  const Box<N> box(mk<N>(f, n), mk<N>(b, n));
  const PositionSampling<N> s(box, mk<N>(st, n));
  for (int i = 0; i < n; ++i) {
    EQI("front along axis", s.along(i).front, f[i]);
    EQI("back along axis", s.along(i).back, b[i]);
    EQI("step along axis", s.along(i).step, st[i]);
  }
  EQI("step along fixed axis", (&s.template along<0>() == &s.along(0)), 1);
  const PositionSampling<N> u(box);
  for (int i = 0; i < n; ++i) {
    EQI("front along axis", u.along(i).front, f[i]);
    EQI("back along axis", u.along(i).back, b[i]);
    EQI("default step along axis", u.along(i).step, 1);
  }
  EQI("dimension of the shape", u.shape().size(), n);
  for (int i = 0; i < n; ++i) EQI("shape along axis", u.shape()[i], u.along(i).size());
}
H h_pos_1(LP f, LP b, LP s) { posit<1>(f, b, s, 1); }
H h_pos_2(LP f, LP b, LP s) { posit<2>(f, b, s, 2); }
H h_pos_3(LP f, LP b, LP s) { posit<3>(f, b, s, 3); }
H h_pos_d1(LP f, LP b, LP s) { posit<-1>(f, b, s, 1); }
H h_pos_d2(LP f, LP b, LP s) { posit<-1>(f, b, s, 2); }
H h_pos_d3(LP f, LP b, LP s) { posit<-1>(f, b, s, 3); }

// --- data samples
template <typename T>
INL void data(T* d, long size, long f, long b, long step, long stride) {
  ASSUME(b < BIG); ASSUME(step != 0);
  DataSamples<T> s(d, size, {f, b, step}, stride);
  const DataSamples<T>& c = s;
  EQI("front", c.front(), f);
  EQI("back", c.back(), b);
  EQI("step", c.step(), step);
  EQI("stride", c.stride(), stride);
  EQI("size", c.size(), size);
  EQI("count", c.count(), c.sampling().size());
  EQP("data", s.data(), d);
  EQP("read-only data", c.data(), d);
  auto it = s.begin();
  auto ct = c.begin();
  for (int k = 0; k < 3; ++k) {
    EQP("sample", &*it, d + (f + k * step) * stride);
    EQP("sample (arrow)", it.operator->(), d + (f + k * step) * stride);
    EQP("read-only sample", &*ct, d + (f + k * step) * stride);
    ++it;
    const auto prev = ct++;
    EQP("sample before the post-increment", &*const_cast<typename std::remove_const<decltype(prev)>::type&>(prev), d + (f + k * step) * stride);
  }
  EQP("end", &*s.end(), d + (f + long(s.count()) * step) * stride);
  EQP("read-only end", &*c.end(), d + (f + long(s.count()) * step) * stride);
  auto jt = s.begin();
  jt += size;
  EQP("sample after a jump", &*jt, d + (f + size * step) * stride);
  jt -= size;
  EQP("sample after the opposite jump", &*jt, d + f * stride);
  REQ("iterators at the same sample are equal", jt == s.begin() && !(jt != s.begin()));
}
H h_data_i(int* d, long size, long f, long b, long step, long stride) { data<int>(d, size, f, b, step, stride); }
H h_data_c(const double* d, long size, long f, long b, long step, long stride) { data<const double>(d, size, f, b, step, stride); }
H h_data_default(int* d, long size) {
  ASSUME(size > 0);
  ASSUME(size < BIG);
  DataSamples<int> s(d, size);
  EQI("front", s.front(), 0);
  EQI("back", s.back(), size - 1);
  EQI("step", s.step(), 1);
  EQI("stride", s.stride(), 1);
  EQI("count", s.count(), size);
  DataSamples<int> t(d, size, {2, Limits<Index>::inf(), 3}, 5);
  EQI("front", t.front(), 2);
  EQI("back", t.back(), size - 1);
  EQI("step", t.step(), 3);
  EQI("stride", t.stride(), 5);
}
H h_data_move(double* d, long size, long f, long b, long step, long stride, long n) {
  ASSUME(b < BIG);
  DataSamples<double> s(d, size, {f, b, step}, stride);
  REQ("moving returns the samples", &(s += n) == &s);
  EQP("moved forward", s.data(), d + n);
  EQI("the sampling is unchanged", s.front(), f);
  REQ("moving returns the samples", &(s -= n) == &s);
  EQP("moved backward", s.data(), d);
  REQ("incrementing returns the samples", &++s == &s);
  EQP("incremented", s.data(), d + 1);
  const auto p = s++;
  EQP("before the post-increment", p.data(), d + 1);
  EQP("after the post-increment", s.data(), d + 2);
}
H h_data_vec(double* d) {
  const DataSamples<double> s(d, 10, {1, 9, 4}, 3);
  const auto v = s.vector();
  EQI("size of the vector", v.size(), 3);
  litl_eq("first", v[0], d[3]);
  litl_eq("second", v[1], d[15]);
  litl_eq("third", v[2], d[27]);
  const DataSamples<const double> c(d, 10, {1, 9, 4}, 3);
  const auto w = c.vector();
  EQI("size of the vector", w.size(), 3);
  litl_eq("third", w[2], d[27]);
}
