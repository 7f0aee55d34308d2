// Obligation markers. None of them is defined anywhere: a harness is never linked nor run, the markers only
// survive, or not, in the canonical IR where the rules of lib/core.py look for them.
#ifndef LITL_OBL_H
#define LITL_OBL_H
#include <complex>
#include <cstddef>
extern "C" {
__attribute__((nothrow)) void litl_obligation(const char* label);
__attribute__((nothrow)) void litl_viol(const char* label);
__attribute__((nothrow)) void litl_eqi(const char* label, long a, long b);
__attribute__((nothrow)) void litl_eqi32(const char* label, int a, int b);
__attribute__((nothrow)) void litl_eqi16(const char* label, short a, short b);
__attribute__((nothrow)) void litl_eqi8(const char* label, signed char a, signed char b);
__attribute__((nothrow)) void litl_eqp(const char* label, const volatile void* a, const volatile void* b);
__attribute__((nothrow)) void litl_eqf(const char* label, double a, double b);
__attribute__((nothrow)) void litl_nothrow(const char* label);
__attribute__((nothrow)) void litl_throwtype(const char* label, const char* type);
__attribute__((nothrow)) void litl_mark(const char* label);
__attribute__((nothrow)) void litl_assume(bool);
__attribute__((nothrow)) void litl_use(const volatile void*);
}
// The condition holds whenever this point is reached.
#define REQ(label, ...) \
  do { \
    litl_obligation(label); \
    if (!(__VA_ARGS__)) litl_viol(label); \
  } while (0)
#define ASSUME(...) \
  do { \
    const bool litl_a = (__VA_ARGS__); \
    litl_assume(litl_a); \
    __builtin_assume(litl_a); \
  } while (0)
// The two values have the same normal form.
#define EQI(label, a, b) litl_eqi(label, (long)(a), (long)(b))
#define EQP(label, a, b) litl_eqp(label, (a), (b))
#define EQF(label, a, b) litl_eqf(label, (double)(a), (double)(b))
// No path of this root throws.
#define NOTHROW(label) litl_nothrow(label)
// The statement never completes normally.
#define MUST_THROW(label, ...) \
  do { \
    litl_obligation(label); \
    __VA_ARGS__; \
    litl_viol(label); \
  } while (0)
// Every exception this root lets out has this type.
#define THROWS_ONLY(label, type) litl_throwtype(label, type)
#define H extern "C" void
#define INL inline __attribute__((always_inline))
#endif
#ifndef LITL_EQ_H
#define LITL_EQ_H
INL void litl_eq(const char* l, double a, double b) { litl_eqf(l, a, b); }
INL void litl_eq(const char* l, float a, float b) { litl_eqf(l, a, b); }
template <typename T>
INL typename std::enable_if<std::is_integral<T>::value>::type litl_eq(const char* l, T a, T b) {
  if (sizeof(T) == 8) litl_eqi(l, long(a), long(b));
  else if (sizeof(T) == 4) litl_eqi32(l, int(a), int(b));
  else if (sizeof(T) == 2) litl_eqi16(l, short(a), short(b));
  else litl_eqi8(l, (signed char)(a), (signed char)(b));
}
template <typename T>
INL void litl_eq(const char* l, std::complex<T> a, std::complex<T> b) {
  litl_eqf(l, a.real(), b.real());
  litl_eqf(l, a.imag(), b.imag());
}
template <typename T>
INL void litl_eq(const char* l, const T* a, const T* b) {
  litl_eqp(l, a, b);
}
#endif
