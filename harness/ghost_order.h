// Loop-free ghosts of the standard selection and sorting algorithms, meeting their contract adversarially:
// std::nth_element only leaves the nth value in place, with the smaller ones before it and the larger ones after it in
// increasing or decreasing order.
#pragma once
#include "plain_std.h"
#include <algorithm>
#include <cmath>
#include <vector>
#include "litl_obl.h"
template <typename T>
INL void ghost_order(T* b, int n) {
  for (int i = 0; i < n; ++i)
    for (int j = 0; j + 1 < n - i; ++j) {
      const T x = b[j], y = b[j + 1];
      const bool s = y < x;
      b[j] = s ? y : x;
      b[j + 1] = s ? x : y;
    }
}
extern "C" __attribute__((const, nothrow)) long g_order(int); // which of the possible orders, unknown
template <typename T>
INL void ghost_flip(T* b, int i, int j, bool flip) {
  for (; i < j; ++i, --j) {
    const T x = b[i], y = b[j];
    b[i] = flip ? y : x;
    b[j] = flip ? x : y;
  }
}
template <typename T>
INL void ghost_nth(T* b, int k, int n) {
  ghost_order(b, n);
  ghost_flip(b, 0, k - 1, g_order(0) > 0);
  ghost_flip(b, k + 1, n - 1, g_order(1) > 0);
}
#define GHOST(T) \
  namespace std { \
  template <> INL void nth_element(vector<T>::iterator b, vector<T>::iterator k, vector<T>::iterator e) { ghost_nth(&*b, int(k - b), int(e - b)); } \
  template <> INL void sort(vector<T>::iterator b, vector<T>::iterator e) { ghost_order(&*b, int(e - b)); } \
  }
GHOST(double)
GHOST(float)
GHOST(int)
GHOST(long)
GHOST(unsigned char)
