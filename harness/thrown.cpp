// Text of the exceptions as thrown by the checks: observed in the throw itself.
#include "ghost_string.h"
#include "LitlTypes/Exceptions.h"
#include "LitlContainer/Holders.h"
#include "LitlContainer/AlignedBuffer.h"
#undef string
#undef to_string
#undef stringstream
#undef ostringstream
#undef ostream
using namespace Litl;
using S = std::ghost_string;
static unsigned long expected_h, expected_n;
extern "C" void exception_leaves(void*) __attribute__((noreturn));
extern "C" __attribute__((always_inline, noreturn)) inline void litl_throw(void* e) {
  const S& w = *(const S*)((const Exception*)e)->Exception::what();
  litl_eq("text of the exception thrown", w.h, expected_h);
  litl_eq("text of the exception thrown", w.n, expected_n);
  exception_leaves(e);
}
namespace std { class type_info; }
extern "C" __attribute__((always_inline, used, noreturn)) void __cxa_throw(void* e, std::type_info*, void (*)(void*)) { litl_throw(e); }
INL void expect(const S& s) { expected_h = s.h; expected_n = s.n; }
H h_thrown_null(const int* p, char m) {
  expect(S("Null pointer error: ") + m);
  NullPtrError::mayThrow(p, S(1, m));
}
H h_thrown_size(unsigned char in, unsigned char ref) {
  expect(S("Size error: Expected ") + char(ref) + ", got " + char(in));
  SizeError::mayThrow(in, ref);
}
template <typename T>
INL void bounds(char m, signed char v, signed char lo, signed char hi) {
  expect(S("Out of bounds error: ") + m + v + " not in [" + lo + ", " + hi + "]");
  OutOfBoundsError::mayThrow(S(1, m), T(v), std::pair<T, T>(lo, hi));
}
H h_thrown_bounds_i(char m, signed char v, signed char lo, signed char hi) { bounds<int>(m, v, lo, hi); }
H h_thrown_bounds_l(char m, signed char v, signed char lo, signed char hi) { bounds<long>(m, v, lo, hi); }
H h_thrown_align(const int* p, unsigned char as) {
  ASSUME(p != nullptr);
  ASSUME(as != 0);
  expect(S("Alignment error: \x7e is not ") + char(as) + " byte-aligned.");
  AlignmentError::mayThrow(p, as);
}
H h_thrown_vec(std::vector<int>& v, unsigned char n) {
  ASSUME(v.size() < 100);
  expect(S("Size error: Expected ") + char(n) + ", got " + char(v.size()));
  StdHolder<std::vector<int>> h(n, std::move(v));
}
H h_thrown_array(unsigned char n, const int* __restrict p) {
  expect(S("Size error: Expected \x03, got ") + char(n));
  StdHolder<std::array<int, 3>> h(n, p);
}
H h_thrown_align_buffer(int* p) {
  ASSUME(p != nullptr);
  expect(S("Alignment error: \x7e is not \x20 byte-aligned."));
  AlignedBuffer<int> b(3, p, 32);
}
