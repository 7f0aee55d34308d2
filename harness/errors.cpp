// Exceptions: hierarchy, conditions, and text.
#include "ghost_string.h"
#include "LitlTypes/Exceptions.h"
#include "LitlContainer/Holders.h"
#include "LitlContainer/AlignedBuffer.h"
#undef string
#undef to_string
#undef stringstream
#undef ostringstream
#undef ostream
using namespace Litl;
using S = std::ghost_string;
template <typename E> constexpr bool isLitl() { return std::is_base_of<Litl::Exception, E>::value && std::is_base_of<std::exception, E>::value && std::is_convertible<E*, Litl::Exception*>::value; }
static_assert(isLitl<Exception>() && isLitl<NullPtrError>() && isLitl<OutOfBoundsError>() && isLitl<SizeError>() && isLitl<AlignmentError>(), "all errors are Litl exceptions, and standard exceptions");
static_assert(std::has_virtual_destructor<Exception>::value, "exceptions are deleted through their base");
static_assert(std::is_copy_constructible<NullPtrError>::value && std::is_copy_constructible<OutOfBoundsError>::value && std::is_copy_constructible<SizeError>::value && std::is_copy_constructible<AlignmentError>::value, "exceptions can be caught by value");
static_assert(noexcept(std::declval<const Exception&>().what()), "what() does not throw");
INL void text(const char* label, const Exception& e, const S& expected) {
  const S& w = *(const S*)(e.what());
  litl_eq(label, w.h, expected.h);
  litl_eq(label, w.n, expected.n);
}
H h_text_msg(char m) {
  text("default prefix", Exception(S(1, m)), S("Litl error: ") + m);
}
H h_text_prefix(char p, char m) {
  text("prefix and message", Exception(S(1, p), S(1, m)), S(1, p) + ": " + m);
}
template <int N>
INL void append(char m, char l, char k) {
  Exception e("P", S(1, m));
  Exception& r = e.append(S(1, l), N);
  EQP("append returns the exception itself", &r, &e);
  S expected = S("P: ") + m + "\n";
  for (int i = 0; i < N; ++i) expected += "  ";
  expected += l;
  text("the line is appended, indented", e, expected);
  e.append(S(1, k));
  text("several lines can be appended", e, expected + "\n" + k);
}
H h_text_append0(char m, char l, char k) { append<0>(m, l, k); }
H h_text_append1(char m, char l, char k) { append<1>(m, l, k); }
H h_text_append3(char m, char l, char k) { append<3>(m, l, k); }
H h_text_copy(char m) {
  Exception e("P", S(1, m));
  Exception f(e);
  f.append("x");
  text("a copy has the same message", f, S("P: ") + m + "\nx");
  text("a copy has its own message", e, S("P: ") + m);
}
H h_text_null(char m) {
  text("null pointer error", NullPtrError(S(1, m)), S("Null pointer error: ") + m);
}
INL S t(char c) { return S(1, c); }
H h_text_oob(char v, char lo, char hi, char m) {
  text("out of bounds error", OutOfBoundsError(t(m), int(v), {int(lo), int(hi)}), S("Out of bounds error: ") + m + v + " not in [" + lo + ", " + hi + "]");
  text("out of bounds error", OutOfBoundsError(t(m), long(v), {long(lo), long(hi)}), S("Out of bounds error: ") + m + v + " not in [" + lo + ", " + hi + "]");
}
H h_text_size(char in, char ref) { text("size error", SizeError(in, ref), S("Size error: Expected ") + ref + ", got " + in); }
H h_text_align(const int* p, char as) { text("alignment error", AlignmentError(p, as), S("Alignment error: \x7e is not ") + as + " byte-aligned."); }
// Conditions
template <typename T>
INL void bounds(T v, T lo, T hi) {
  NOTHROW("values in bounds are accepted");
  ASSUME(lo <= v); ASSUME(v <= hi);
  OutOfBoundsError::mayThrow("a", v, std::pair<T, T>(lo, hi));
}
H h_in_l(long v, long lo, long hi) { bounds(v, lo, hi); }
H h_in_i(int v, int lo, int hi) { bounds(v, lo, hi); }
H h_in_u(unsigned long v, unsigned long lo, unsigned long hi) { bounds(v, lo, hi); }
H h_in_d(double v, double lo, double hi) { ASSUME(v == v); bounds(v, lo, hi); }
#define OUTB(N, T) \
  H h_x_below_##N(T v, T lo, T hi) { ASSUME(v < lo); THROWS_ONLY("below", "Litl::OutOfBoundsError"); MUST_THROW("values below the bounds are rejected", OutOfBoundsError::mayThrow("a", v, std::pair<T, T>(lo, hi))); } \
  H h_x_above_##N(T v, T lo, T hi) { ASSUME(v > hi); THROWS_ONLY("above", "Litl::OutOfBoundsError"); MUST_THROW("values above the bounds are rejected", OutOfBoundsError::mayThrow("a", v, std::pair<T, T>(lo, hi))); }
OUTB(l, long) OUTB(i, int) OUTB(u, unsigned long) OUTB(d, double)
H h_nonnull(const int* p) { NOTHROW("non null pointers are accepted"); ASSUME(p != nullptr); NullPtrError::mayThrow(p, "a"); }
H h_x_null() { THROWS_ONLY("null", "Litl::NullPtrError"); MUST_THROW("null pointers are rejected", NullPtrError::mayThrow(nullptr, "a")); }
H h_size(unsigned long n, unsigned long m) { NOTHROW("equal sizes are accepted"); ASSUME(n == m); SizeError::mayThrow(n, m); }
H h_x_size(unsigned long n, unsigned long m) { ASSUME(n != m); THROWS_ONLY("size", "Litl::SizeError"); MUST_THROW("different sizes are rejected", SizeError::mayThrow(n, m)); }
