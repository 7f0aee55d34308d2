// Ghost stand-in for std::string: a bounded array of characters which the dataflow passes fold entirely. Opaque texts
// are single characters, so that their position in a composed text is decided for any content.
#ifndef GHOST_STRING_H
#define GHOST_STRING_H
#include "plain_std.h"
#include <algorithm>
#include <array>
#include <chrono>
#include <cmath>
#include <complex>
#include <cstdint>
#include <cstdlib>
#include <exception>
#include <functional>
#include <initializer_list>
#include <iomanip>
#include <iostream>
#include <iterator>
#include <limits>
#include <map>
#include <memory>
#include <numeric>
#include <random>
#include <sstream>
#include <stdexcept>
#include <string>
#include <tuple>
#include <utility>
#include <valarray>
#include <vector>
#include "litl_obl.h"
namespace std {
// A text is the value at LITL_BASE of the polynomial whose coefficients are its characters: concatenation is linear.
static constexpr unsigned long LITL_BASE = 0x9E3779B97F4A7C15ul;
struct ghost_string {
  typedef char value_type;
  typedef unsigned long size_type;
  static constexpr size_type npos = -1;
  unsigned long h, p, n;
  INL ghost_string() : h(0), p(1), n(0) {}
  INL ghost_string(const char* c) : h(0), p(1), n(0) {
    const unsigned long m = __builtin_strlen(c);
    for (unsigned long i = 0; i < m; ++i) push_back(c[i]);
  }
  INL ghost_string(const ghost_string& o) : h(o.h), p(o.p), n(o.n) {}
  INL ghost_string& operator=(const ghost_string& o) {
    const unsigned long oh = o.h, op = o.p, on = o.n;
    h = oh;
    p = op;
    n = on;
    return *this;
  }
  INL ghost_string(unsigned long k, char c) : h(0), p(1), n(0) { for (unsigned long i = 0; i < k; ++i) push_back(c); }
  INL ghost_string(const char* c, unsigned long k) : h(0), p(1), n(0) { for (unsigned long i = 0; i < k; ++i) push_back(c[i]); }
  INL ghost_string(initializer_list<char> l) : h(0), p(1), n(0) { for (char c : l) push_back(c); }
  INL void push_back(char c) {
    h += p * (unsigned long)(c);
    p *= LITL_BASE;
    ++n;
  }
  INL ghost_string& operator+=(const ghost_string& o) {
    const unsigned long oh = o.h, op = o.p, on = o.n;
    h += p * oh;
    p *= op;
    n += on;
    return *this;
  }
  INL ghost_string& operator+=(char c) { push_back(c); return *this; }
  INL ghost_string& append(const ghost_string& o) { return *this += o; }
  INL ghost_string& append(unsigned long k, char c) { for (unsigned long i = 0; i < k; ++i) push_back(c); return *this; }
  INL ghost_string& append(const char* c, unsigned long k) { return *this += ghost_string(c, k); }
  INL ghost_string& insert(unsigned long i, const ghost_string& o) { // in front or at the end
    if (i == 0) {
      ghost_string t(o);
      t += *this;
      return *this = t;
    }
    return *this += o;
  }
  INL void resize(unsigned long k, char c = 0) { while (n < k) push_back(c); }
  INL int compare(const ghost_string& o) const { return !(h == o.h && p == o.p); }
  void reserve(unsigned long) {}
  INL void clear() { h = n = 0; p = 1; }
  INL void swap(ghost_string& o) { ghost_string t(o); o = *this; *this = t; }
  INL ghost_string& assign(const ghost_string& o) { return *this = o; }
  INL const char* c_str() const { return (const char*)(this); }
  INL const char* data() const { return c_str(); }
  INL unsigned long size() const { return n; }
  INL unsigned long length() const { return n; }
  INL bool empty() const { return n == 0; }
};
INL ghost_string operator+(const ghost_string& a, const ghost_string& b) { ghost_string r(a); r += b; return r; }
INL ghost_string operator+(const ghost_string& a, char b) { ghost_string r(a); r += b; return r; }
INL ghost_string operator+(char a, const ghost_string& b) { ghost_string r(1, a); r += b; return r; }
INL bool operator==(const ghost_string& a, const ghost_string& b) { return a.h == b.h && a.p == b.p; }
INL bool operator!=(const ghost_string& a, const ghost_string& b) { return !(a == b); }
// Each number is printed as one character, which identifies it
template <typename T>
INL ghost_string ghost_to_string(T v) { return ghost_string(1, char(v)); }
struct ghost_stream {
  ghost_string t;
  INL ghost_stream() {}
  INL explicit ghost_stream(const ghost_string& s) : t(s) {}
  INL void str(const ghost_string& s) { t = s; }
  INL ghost_stream& put(char c) { t += c; return *this; }
  INL ghost_stream& write(const char* c, long k) { t += ghost_string(c, k); return *this; }
  INL ghost_stream& flush() { return *this; }
  INL explicit operator bool() const { return true; }
  INL ghost_stream& operator<<(const ghost_string& x) { t += x; return *this; }
  INL ghost_stream& operator<<(const char* x) { t += ghost_string(x); return *this; }
  INL ghost_stream& operator<<(char x) { t += x; return *this; }
  template <typename T>
  INL typename enable_if<is_arithmetic<T>::value && !is_same<T, char>::value, ghost_stream&>::type operator<<(T x) { t += ghost_to_string(x); return *this; }
  INL ghost_stream& operator<<(const void*) { t += '\x7e'; return *this; }
  INL ghost_stream& operator<<(ostream& (*)(ostream&)) { t += '\n'; return *this; }
  INL ghost_string str() const { return t; }
};
} // namespace std
#define string ghost_string
#define to_string ghost_to_string
#define stringstream ghost_stream
#define ostringstream ghost_stream
#define ostream ghost_stream
#endif
