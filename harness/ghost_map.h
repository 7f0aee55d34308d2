// Ghost stand-in for std::map: a bounded sorted array which the dataflow passes fold entirely.
#ifndef GHOST_MAP_H
#define GHOST_MAP_H
#include "devirt.h"
#include <unordered_map>
#include <map>
#include "litl_obl.h"
namespace std {
template <typename K, typename V, typename C = less<K>>
struct ghost_map {
  static constexpr int MAX = 8;
  typedef K key_type;
  typedef V mapped_type;
  typedef pair<const K, V> value_type;
  typedef unsigned long size_type;
  value_type* m[MAX + 1];
  int n;
  template <typename T>
  struct It {
    typedef T value_type;
    typedef T& reference;
    typedef T* pointer;
    typedef ptrdiff_t difference_type;
    typedef bidirectional_iterator_tag iterator_category;
    typename ghost_map::value_type* const* p;
    INL It(typename ghost_map::value_type* const* q = nullptr) : p(q) {}
    template <typename U>
    INL It(const It<U>& o) : p(o.p) {}
    INL T& operator*() const { return **p; }
    INL T* operator->() const { return *p; }
    INL It& operator++() { ++p; return *this; }
    INL It operator++(int) { auto r = *this; ++p; return r; }
    INL It& operator--() { --p; return *this; }
    INL It operator--(int) { auto r = *this; --p; return r; }
    INL bool operator==(const It& o) const { return p == o.p; }
    INL bool operator!=(const It& o) const { return p != o.p; }
  };
  typedef It<value_type> iterator;
  typedef It<const value_type> const_iterator;
  INL ghost_map() : n(0) {}
  INL ghost_map(initializer_list<value_type> l) : n(0) { insert(l.begin(), l.end()); }
  template <typename I>
  INL ghost_map(I b, I e) : n(0) { insert(b, e); }
  INL ghost_map(const ghost_map& o) : n(0) { insert(o.begin(), o.end()); }
  INL ghost_map(ghost_map&& o) : n(0) { swap(o); }
  INL ~ghost_map() { clear(); }
  INL ghost_map& operator=(const ghost_map& o) {
    if (this != &o) {
      clear();
      insert(o.begin(), o.end());
    }
    return *this;
  }
  INL ghost_map& operator=(ghost_map&& o) {
    swap(o);
    return *this;
  }
  INL void swap(ghost_map& o) {
    for (int i = 0; i < MAX; ++i) std::swap(m[i], o.m[i]);
    std::swap(n, o.n);
  }
  INL void clear() {
    for (int i = 0; i < n; ++i) delete m[i];
    n = 0;
  }
  INL iterator begin() { return m; }
  INL iterator end() { return m + n; }
  INL const_iterator begin() const { return const_iterator(m); }
  INL const_iterator end() const { return const_iterator(m + n); }
  INL const_iterator cbegin() const { return begin(); }
  INL const_iterator cend() const { return end(); }
  INL size_type size() const { return n; }
  INL bool empty() const { return n == 0; }
  INL int lower(const K& k) const {
    int i = 0;
    while (i < n && C()(m[i]->first, k)) ++i;
    return i;
  }
  INL bool has(int i, const K& k) const { return i < n && !C()(k, m[i]->first); }
  INL iterator find(const K& k) { const int i = lower(k); return has(i, k) ? iterator(m + i) : end(); }
  INL const_iterator find(const K& k) const { const int i = lower(k); return has(i, k) ? const_iterator(m + i) : end(); }
  INL iterator lower_bound(const K& k) { return iterator(m + lower(k)); }
  INL const_iterator lower_bound(const K& k) const { return const_iterator(m + lower(k)); }
  INL size_type count(const K& k) const { return has(lower(k), k); }
  INL V& at(const K& k) { const int i = lower(k); if (!has(i, k)) throw out_of_range("map::at"); return m[i]->second; }
  INL const V& at(const K& k) const { const int i = lower(k); if (!has(i, k)) throw out_of_range("map::at"); return m[i]->second; }
  INL iterator put(int i, value_type* v) {
    for (int j = n; j > i; --j) m[j] = m[j - 1];
    m[i] = v;
    ++n;
    return iterator(m + i);
  }
  INL pair<iterator, bool> insert(const value_type& v) {
    const int i = lower(v.first);
    if (has(i, v.first)) return {iterator(m + i), false};
    return {put(i, new value_type(v)), true};
  }
  INL iterator insert(const_iterator, const value_type& v) { return insert(v).first; }
  template <typename I>
  INL void insert(I b, I e) {
    for (; b != e; ++b) insert(*b);
  }
  template <typename... Ts>
  INL pair<iterator, bool> emplace(Ts&&... ts) {
    auto* v = new value_type(std::forward<Ts>(ts)...);
    const int i = lower(v->first);
    if (has(i, v->first)) {
      delete v;
      return {iterator(m + i), false};
    }
    return {put(i, v), true};
  }
  template <typename... Ts>
  INL pair<iterator, bool> try_emplace(const K& k, Ts&&... ts) {
    const int i = lower(k);
    if (has(i, k)) return {iterator(m + i), false};
    return {put(i, new value_type(k, V(std::forward<Ts>(ts)...))), true};
  }
  template <typename T>
  INL pair<iterator, bool> insert_or_assign(const K& k, T&& t) {
    const int i = lower(k);
    if (has(i, k)) {
      m[i]->second = std::forward<T>(t);
      return {iterator(m + i), false};
    }
    return {put(i, new value_type(k, V(std::forward<T>(t)))), true};
  }
  INL size_type erase(const K& k) {
    const int i = lower(k);
    if (!has(i, k)) return 0;
    delete m[i];
    for (int j = i; j + 1 < n; ++j) m[j] = m[j + 1];
    --n;
    return 1;
  }
  INL V& operator[](const K& k) {
    const int i = lower(k);
    return has(i, k) ? m[i]->second : put(i, new value_type(k, V()))->second;
  }
};
template <typename K, typename V, typename... Ts>
using ghost_unordered_map = ghost_map<K, V>;
}
#define map ghost_map
#define unordered_map ghost_unordered_map
#endif
