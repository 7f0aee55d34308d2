// Order statistics and moments of a data distribution.
#include "ghost_order.h"
#include "LitlContainer/DataDistribution.h"
#include "LitlContainer/Sequence.h"
using namespace Litl;
template <typename T>
struct It { // read-only iterable over symbolic values
  const T* b; const T* e;
  const T* begin() const { return b; }
  const T* end() const { return e; }
  const T& back() const { return e[-1]; }
};
template <typename T, int N>
INL void stats(const T* p) {
  using F = typename TypeTraits<T>::Floating;
  T s[N];
  for (int i = 0; i < N; ++i) s[i] = p[i];
  ghost_order(s, N);
  DataDistribution<T> d(It<T> {p, p + N});
  REQ("size", d.size() == N);
  T sum(0);
  F fsum(0), sq(0);
  for (int i = 0; i < N; ++i) { sum = T(sum + p[i]); fsum += F(p[i]); sq += F(p[i]) * F(p[i]); }
  litl_eq("sum", d.sum(), sum);
  litl_eq("mean is the sum over the size, without truncation", d.mean(), F(fsum / N));
  if (N > 1) litl_eq("unbiased variance", d.variance(), F((sq - fsum * fsum / N) / (N - 1)));
  litl_eq("biased variance", d.variance(false), F((sq - fsum * fsum / N) / N));
  litl_eq("min", d.min(), s[0]);
  litl_eq("max", d.max(), s[N - 1]);
  for (int i = 0; i < N; ++i) litl_eq("nth smallest", d.nth(i), s[i]);
  for (int i = N - 1; i >= 0; --i) litl_eq("nth smallest", d.nth(i), s[i]);
  litl_eq("size is unchanged", long(d.size()), long(N));
  d.sort();
  litl_eq("sum", d.sum(), sum);
  litl_eq("mean is independent of the order", d.mean(), F(fsum / N));
  for (int i = 0; i < N; ++i) litl_eq("nth smallest once sorted", d.nth(i), s[i]);
  litl_eq("min once sorted", d.min(), s[0]);
  litl_eq("max once sorted", d.max(), s[N - 1]);
}
template <typename F, typename T>
INL F quant(const T* s, int n, double q) {
  const double x = q * (n - 1);
  const int k = int(x);
  if (x == k) return F(s[k]);
  return F(s[k] * (1. - (x - k)) + s[k + 1] * (x - k));
}
template <typename T, int N>
INL void quantiles(const T* p, double q) {
  using F = typename TypeTraits<T>::Floating;
  T s[N];
  for (int i = 0; i < N; ++i) s[i] = p[i];
  ghost_order(s, N);
  DataDistribution<T> d(It<T> {p, p + N});
  litl_eq("quantile interpolates between the values around", d.quantile(q), quant<F>(s, N, q));
  d.sort();
  litl_eq("quantile once sorted", d.quantile(q), quant<F>(s, N, q));
}
template <typename T, int N>
INL void mad(const T* p) {
  using F = typename TypeTraits<T>::Floating;
  T s[N];
  F a[N];
  for (int i = 0; i < N; ++i) s[i] = p[i];
  ghost_order(s, N);
  const F m = quant<F>(s, N, 0.5);
  DataDistribution<T> d(It<T> {p, p + N});
  litl_eq("median", d.median(), m);
  for (int i = 0; i < N; ++i) a[i] = std::abs(p[i] - m);
  ghost_order(a, N);
  litl_eq("median absolute deviation", d.mad(), quant<F>(a, N, 0.5));
  litl_eq("median is unchanged", d.median(), m);
}
#define T_(T, n, N) \
  H h_stats_##n##_##N(const T* __restrict p) { stats<T, N>(p); } \
  H h_median_##n##_##N(const T* __restrict p) { quantiles<T, N>(p, 0.5); } \
  H h_quantile_##n##_##N##_first(const T* __restrict p) { quantiles<T, N>(p, 0.); } \
  H h_quantile_##n##_##N##_last(const T* __restrict p) { quantiles<T, N>(p, 1.); } \
  H h_quantile_##n##_##N##_low(const T* __restrict p) { quantiles<T, N>(p, 0.125); } \
  H h_quantile_##n##_##N##_high(const T* __restrict p) { quantiles<T, N>(p, 0.875); }
T_(double, d, 1) T_(double, d, 2) T_(double, d, 3) T_(float, f, 2) T_(float, f, 3) T_(int, i, 2) T_(int, i, 3) T_(unsigned char, u, 2)
H h_mad_d_1(const double* __restrict p) { mad<double, 1>(p); }
H h_mad_d_2(const double* __restrict p) { mad<double, 2>(p); }
H h_mad_i_1(const int* __restrict p) { mad<int, 1>(p); }
H h_mad_i_2(const int* __restrict p) { mad<int, 2>(p); }
// sorted values, symbolic quantile
H h_quantile_sorted(const long* __restrict p, double q) {
  ASSUME(p[0] <= p[1]); ASSUME(p[1] <= p[2]);
  ASSUME(q >= 0); ASSUME(q <= 1);
  const double x = q * 2;
  const unsigned long k = x;
  ASSUME(x != k);
  DataDistribution<long> d(It<long> {p, p + 3});
  litl_eq("quantile interpolates between the values around", d.quantile(q), d.nth(k) * (1. - (x - k)) + d.nth(k + 1) * (x - k));
}
template <typename T, int N, int B>
INL void histo(const T* p, const T* b) {
  DataDistribution<T> d(It<T> {p, p + N});
  const auto h = d.histogram(It<T> {b, b + B});
  REQ("there are as many counts as intervals", h.size() == B - 1);
  for (int k = 0; k < B - 1; ++k) {
    unsigned long n = 0;
    for (int i = 0; i < N; ++i) n += (p[i] >= b[k] && p[i] < b[k + 1]) || (k == B - 2 && p[i] == b[k + 1]);
    litl_eq("count of the values from the lower edge included to the upper edge", long(h[k]), long(n));
  }
}
#define SORTED2 ASSUME(b[0] < b[1])
#define SORTED3 ASSUME(b[0] < b[1]); ASSUME(b[1] < b[2])
H h_histo_1_2(const int* __restrict p, const int* __restrict b) { SORTED2; histo<int, 1, 2>(p, b); }
H h_histo_1_3(const int* __restrict p, const int* __restrict b) { SORTED3; histo<int, 1, 3>(p, b); }
H h_histo_2_same(const long* __restrict p, const long* __restrict b) { ASSUME(b[0] <= p[0]); ASSUME(p[0] < p[1]); ASSUME(p[1] < b[1]); ASSUME(b[1] < b[2]); histo<long, 2, 3>(p, b); }
H h_histo_2_each(const long* __restrict p, const long* __restrict b) { ASSUME(b[0] <= p[0]); ASSUME(p[0] < b[1]); ASSUME(b[1] <= p[1]); ASSUME(p[1] < b[2]); histo<long, 2, 3>(p, b); }
H h_histo_2_below(const long* __restrict p, const long* __restrict b) { ASSUME(p[0] < b[0]); ASSUME(b[0] < b[1]); ASSUME(b[1] <= p[1]); ASSUME(p[1] < b[2]); histo<long, 2, 3>(p, b); }
H h_histo_2_top(const long* __restrict p, const long* __restrict b) { ASSUME(b[0] <= p[0]); ASSUME(p[0] < b[1]); ASSUME(b[1] < p[1]); ASSUME(p[1] == b[2]); histo<long, 2, 3>(p, b); }
H h_histo_2_above(const long* __restrict p, const long* __restrict b) { ASSUME(b[0] < b[1]); ASSUME(b[1] <= p[0]); ASSUME(p[0] < b[2]); ASSUME(b[2] < p[1]); histo<long, 2, 3>(p, b); }
H h_histo_2_out(const long* __restrict p, const long* __restrict b) { ASSUME(p[0] < b[0]); ASSUME(b[0] < b[1]); ASSUME(b[1] < b[2]); ASSUME(b[2] < p[1]); histo<long, 2, 3>(p, b); }
// values which are not sorted
H h_histo_2_swap(const long* __restrict p, const long* __restrict b) { ASSUME(b[0] <= p[1]); ASSUME(p[1] < b[1]); ASSUME(b[1] <= p[0]); ASSUME(p[0] < b[2]); histo<long, 2, 3>(p, b); }
H h_histo_2_swapsame(const long* __restrict p, const long* __restrict b) { ASSUME(b[0] <= p[1]); ASSUME(p[1] < p[0]); ASSUME(p[0] < b[1]); ASSUME(b[1] < b[2]); histo<long, 2, 3>(p, b); }
H h_histo_2_swapbelow(const long* __restrict p, const long* __restrict b) { ASSUME(p[1] < b[0]); ASSUME(b[0] <= p[0]); ASSUME(p[0] < b[1]); histo<long, 2, 2>(p, b); }
H h_histo_2_swaptop(const long* __restrict p, const long* __restrict b) { ASSUME(b[0] <= p[1]); ASSUME(p[1] < b[1]); ASSUME(p[0] == b[1]); histo<long, 2, 2>(p, b); }
H h_histo_2_swapabove(const long* __restrict p, const long* __restrict b) { ASSUME(b[0] <= p[1]); ASSUME(p[1] < b[1]); ASSUME(p[0] > b[1]); histo<long, 2, 2>(p, b); }
H h_histo_3_last(const long* __restrict p, const long* __restrict b) { ASSUME(b[0] < b[1]); ASSUME(b[1] <= p[0]); ASSUME(p[0] < p[1]); ASSUME(p[1] < b[2]); ASSUME(b[0] <= p[2]); ASSUME(p[2] < b[1]); histo<long, 3, 3>(p, b); }
// the order of the calls does not matter
H h_histo_after(const long* __restrict p, const long* __restrict b) {
  ASSUME(b[0] <= p[1]); ASSUME(p[1] < b[1]); ASSUME(b[1] <= p[0]); ASSUME(p[0] < b[2]);
  DataDistribution<long> d(It<long> {p, p + 2});
  litl_eq("the minimum", d.min(), p[1]);
  const auto h = d.histogram(It<long> {b, b + 3});
  litl_eq("count of the first interval after the minimum", long(h[0]), 1L);
  litl_eq("count of the second interval after the minimum", long(h[1]), 1L);
  litl_eq("the maximum after the histogram", d.max(), p[0]);
  litl_eq("the minimum after the histogram", d.min(), p[1]);
}
H h_histo_d_1_3(const double* __restrict p, const double* __restrict b) { SORTED3; histo<double, 1, 3>(p, b); }
H h_moved(const double* __restrict p) {
  std::vector<double> v(p, p + 2);
  const double* m = v.data();
  DataDistribution<double> d(std::move(v));
  REQ("the values are moved, not copied", &d.min() == m || &d.max() == m);
  litl_eq("sum", d.sum(), p[0] + p[1]);
}
// more than 64 values
H h_large_stats(const int* p) {
  constexpr int N = 67;
  for (int i = 0; i < N; ++i) ASSUME(p[i] > -1000 && p[i] < 1000);
  DataDistribution<int> d(It<int> {p, p + N});
  REQ("size", d.size() == N);
  long sum = 0;
  double sq = 0;
  for (int i = 0; i < N; ++i) { sum += p[i]; sq += double(p[i]) * p[i]; }
  litl_eq("sum", long(d.sum()), sum);
}
H h_large_moments(const double* p) {
  constexpr int N = 67;
  DataDistribution<double> d(It<double> {p, p + N});
  double sum = 0, sq = 0;
  for (int i = 0; i < N; ++i) { sum += p[i]; sq += p[i] * p[i]; }
  litl_eq("sum", d.sum(), sum);
  litl_eq("mean", d.mean(), sum / N);
  litl_eq("variance", d.variance(), (sq - sum * sum / N) / (N - 1));
}
H h_large_histogram() {
  constexpr int N = 67;
  int p[N];
  for (int i = 0; i < N; ++i) p[i] = i;
  DataDistribution<int> d(It<int> {p, p + N});
  int b[] = {1, 2, 8, 8 + 33, 66};
  const auto h = d.histogram(It<int> {b, b + 5});
  REQ("size", h.size() == 4);
  const long w[] = {1, 6, 33, 26};
  for (int i = 0; i < 4; ++i) litl_eq("count", long(h[i]), w[i]);
  for (int i = 0; i < N; i += 11) litl_eq("nth", d.nth(i), i);
  litl_eq("max", d.max(), N - 1);
}
