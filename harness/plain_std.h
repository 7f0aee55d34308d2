// Keeps libstdc++ from dispatching element comparisons and fills to memcmp and memset, whose byte-wise form hides the
// elements from value numbering. The standard algorithms keep their meaning.
#ifndef LITL_PLAIN_STD_H
#define LITL_PLAIN_STD_H
#include <bits/cpp_type_traits.h>
namespace std {
#define LITL_PLAIN(T) \
  template <> struct __memcmpable<T*, T*> { enum { __value = 0 }; }; \
  template <> struct __memcmpable<const T*, T*> { enum { __value = 0 }; }; \
  template <> struct __memcmpable<T*, const T*> { enum { __value = 0 }; }; \
  template <> struct __memcmpable<const T*, const T*> { enum { __value = 0 }; }; \
  template <> struct __is_byte<T> { enum { __value = 0 }; typedef __false_type __type; };
LITL_PLAIN(int) LITL_PLAIN(long)
template <> struct __memcmpable<unsigned char*, unsigned char*> { enum { __value = 0 }; };
template <> struct __memcmpable<const unsigned char*, unsigned char*> { enum { __value = 0 }; };
template <> struct __memcmpable<unsigned char*, const unsigned char*> { enum { __value = 0 }; };
template <> struct __memcmpable<const unsigned char*, const unsigned char*> { enum { __value = 0 }; };
} // namespace std
#endif
