// Ghost stand-ins for the standard random library: engines carry their seed and the number of draws, distributions are
// uninterpreted functions of their parameters, of the seed and of the rank of the draw. The clock is an opaque call.
#ifndef GHOST_RANDOM_H
#define GHOST_RANDOM_H
#include "plain_std.h"
#include <algorithm>
#include <chrono>
#include <complex>
#include <map>
#include <random>
#include <tuple>
#include <vector>
#include "litl_obl.h"
extern "C" {
#define PURE __attribute__((const, nothrow))
PURE double g_uniform(double a, double b, unsigned long seed, unsigned long n);
PURE long g_uniform_int(long a, long b, unsigned long seed, unsigned long n);
PURE double g_normal(double m, double s, unsigned long seed, unsigned long n);
PURE long g_poisson(double m, unsigned long seed, unsigned long n);
PURE unsigned long g_discrete(unsigned long seed, unsigned long n);
PURE unsigned long g_minstd(unsigned long seed, unsigned long n);
long litl_free_clock();
}
static long gclock; // the last time which was read
static struct { double w[4]; unsigned long cnt, seed; } gdisc;
namespace std {
struct ghost_engine {
  typedef unsigned long result_type;
  unsigned long seed_, n_;
  ghost_engine() : seed_(5489u), n_(0) {}
  explicit ghost_engine(unsigned long s) : seed_(s), n_(0) {}
  void seed(unsigned long s = 5489u) { seed_ = s; n_ = 0; }
  void discard(unsigned long k) { n_ += k; }
};
struct ghost_minstd {
  typedef unsigned long result_type;
  unsigned long seed_, n_;
  ghost_minstd() : seed_(1), n_(0) {}
  explicit ghost_minstd(unsigned long s) : seed_(s), n_(0) {}
  void seed(unsigned long s = 1) { seed_ = s; n_ = 0; }
  void discard(unsigned long k) { n_ += k; }
  unsigned long operator()() {
    const unsigned long r = g_minstd(seed_, n_++);
    __builtin_assume(r >= 1);
    __builtin_assume(r <= 2147483646);
    return r;
  }
};
struct ghost_clock {
  struct D { long count() const { return gclock = litl_free_clock(); } };
  struct P { D time_since_epoch() const { return D(); } };
  static P now() { return P(); }
};
#define GDIST(NAME, F, A) \
  template <typename T = A> \
  struct NAME { \
    typedef T result_type; \
    T a_, b_; \
    explicit NAME(T a = 0, T b = 1) : a_(a), b_(b) {} \
    void reset() {} \
    template <typename E> T operator()(E& e) { return T(F(a_, b_, e.seed_, e.n_++)); } \
  };
namespace chrono { using std::ghost_clock; }
GDIST(ghost_uniform_int, g_uniform_int, int)
GDIST(ghost_uniform_real, g_uniform, double)
GDIST(ghost_normal, g_normal, double)
template <typename T = int>
struct ghost_poisson {
  typedef T result_type;
  double m_;
  explicit ghost_poisson(double m = 1) : m_(m) {}
  void reset() {}
  template <typename E> T operator()(E& e) { return T(g_poisson(m_, e.seed_, e.n_++)); }
};
template <typename T = int>
struct ghost_discrete {
  typedef T result_type;
  template <typename I>
  ghost_discrete(I b, I e) {
    gdisc.cnt = 0;
    for (; b != e; ++b) gdisc.w[gdisc.cnt++] = *b;
  }
  ghost_discrete(initializer_list<double> l) : ghost_discrete(l.begin(), l.end()) {}
  void reset() {}
  template <typename E> T operator()(E& e) { gdisc.seed = e.seed_; return g_discrete(e.seed_, e.n_++); }
};
template <typename K, typename V>
struct ghost_map { // sorted, unique keys, at most three
  typedef pair<const K, V> value_type;
  struct Item { K first; V second; INL operator value_type() const { return value_type(first, second); } };
  Item v[3];
  unsigned long n;
  ghost_map() : n(0) {}
  INL ghost_map(initializer_list<value_type> l) : n(0) {
    for (const auto& e : l) {
      unsigned long k = 0;
      while (k < n && v[k].first < e.first) ++k;
      if (k < n && !(e.first < v[k].first)) continue;
      for (unsigned long j = n; j > k; --j) v[j] = v[j - 1];
      v[k].first = e.first;
      v[k].second = e.second;
      ++n;
    }
  }
  const Item* begin() const { return v; }
  const Item* end() const { return v + n; }
  typedef const Item* const_iterator;
  typedef const Item* iterator;
  typedef K key_type;
  typedef V mapped_type;
  typedef unsigned long size_type;
  const Item* cbegin() const { return v; }
  const Item* cend() const { return v + n; }
  std::reverse_iterator<const Item*> rbegin() const { return std::reverse_iterator<const Item*>(end()); }
  std::reverse_iterator<const Item*> rend() const { return std::reverse_iterator<const Item*>(begin()); }
  std::reverse_iterator<const Item*> crbegin() const { return rbegin(); }
  std::reverse_iterator<const Item*> crend() const { return rend(); }
  unsigned long size() const { return n; }
  bool empty() const { return n == 0; }
  INL const Item* find(const K& k) const {
    const Item* i = v;
    while (i != v + n && (i->first < k || k < i->first)) ++i;
    return i;
  }
  INL const Item* lower_bound(const K& k) const {
    const Item* i = v;
    while (i != v + n && i->first < k) ++i;
    return i;
  }
  unsigned long count(const K& k) const { return find(k) != end(); }
  const V& at(const K& k) const { return find(k)->second; }
};
} // namespace std
#define mt19937 ghost_engine
#define mt19937_64 ghost_engine
#define minstd_rand ghost_minstd
#define system_clock ghost_clock
#define uniform_int_distribution ghost_uniform_int
#define uniform_real_distribution ghost_uniform_real
#define normal_distribution ghost_normal
#define poisson_distribution ghost_poisson
#define discrete_distribution ghost_discrete
#define map ghost_map
#include "LitlContainer/Random.h"
#undef map
#undef discrete_distribution
#endif
