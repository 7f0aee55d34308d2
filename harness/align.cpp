// Alignment and capacity of aligned buffers, for any size and any address returned by the allocator.
#include "plain_std.h"
#include <cstdint>
#include "LitlContainer/AlignedBuffer.h"
#include "LitlRaster/Raster.h"
#include "litl_obl.h"
using namespace Litl;
extern "C" void litl_data(const char*, const void* data, std::size_t bytes, std::size_t align);
template <typename T, std::size_t A>
INL void own(std::size_t n, std::size_t expected) {
  ASSUME(n < 1000000000);
  AlignedBuffer<T> b(n, nullptr, A);
  EQI("size", b.size(), n);
  EQI("alignment requirement", b.alignmentReq(), expected);
  REQ("data is aligned", std::uintptr_t(b.data()) % expected == 0);
  REQ("owns", b.owns());
  litl_data("capacity", b.data(), n * sizeof(T), expected);
  b.release();
}
#define OWN(N, T, A, E) H h_own_##N##_##E(std::size_t n) { own<T, A>(n, E); }
OWN(c0, char, 0, 64) OWN(i0, int, 0, 64) OWN(d0, double, 0, 64) OWN(z0, std::complex<double>, 0, 64)
OWN(dm, double, std::size_t(-1), 64) OWN(d, double, 8, 8) OWN(d, double, 16, 16) OWN(d, double, 32, 32) OWN(d, double, 128, 128)
OWN(f, float, 64, 64) OWN(c, char, 1, 1) OWN(c, char, 2, 2) OWN(i, int, 4096, 4096)
template <std::size_t A>
INL void viewok(std::size_t n, double* p, std::size_t expected) {
  ASSUME(p != nullptr); ASSUME(std::uintptr_t(p) % expected == 0);
  NOTHROW("aligned data is accepted");
  AlignedBuffer<double> b(n, p, A);
  EQP("data", b.data(), p);
  EQI("size", b.size(), n);
  EQI("alignment requirement", b.alignmentReq(), expected);
}
#define VOK(N, A, E) H h_vok_##N(std::size_t n, double* p) { viewok<A>(n, p, E); }
VOK(0, 0, 1) VOK(16, 16, 16) VOK(m1, std::size_t(-1), 64) VOK(1, 1, 1) VOK(8, 8, 8)
#define VBAD(N, A, E) H h_x_vbad_##N(std::size_t n, double* p) { \
  ASSUME(p != nullptr); ASSUME(std::uintptr_t(p) % E != 0); \
  THROWS_ONLY("misaligned data", "Litl::AlignmentError"); \
  MUST_THROW("misaligned data is rejected", AlignedBuffer<double> b(n, p, A); litl_use(&b)); }
VBAD(16, 16, 16) VBAD(m1, std::size_t(-1), 64) VBAD(8, 8, 8) VBAD(2, 2, 2)
H h_isaligned(const int* p) {
  ASSUME(p != nullptr);
  NOTHROW("alignment test");
  REQ("any data is 1-byte aligned", isAligned(p, 1));
  EQI("isAligned", isAligned(p, 16), std::uintptr_t(p) % 16 == 0);
  EQI("isAligned", isAligned(p, 2), std::uintptr_t(p) % 2 == 0);
}
H h_x_null() {
  THROWS_ONLY("null", "Litl::NullPtrError");
  const int* p = nullptr;
  MUST_THROW("null pointer is rejected", litl_obligation(isAligned(p, 2) ? "a" : "b"));
}
H h_x_null2() {
  THROWS_ONLY("null", "Litl::NullPtrError");
  const int* p = nullptr;
  MUST_THROW("null pointer is rejected", litl_use((void*)Litl::alignment(p)));
}
// copies and moves meet the requirement of their source
template <typename T, std::size_t A, typename F>
INL void copied(std::size_t n, F make) {
  ASSUME(n < 1000000000);
  AlignedBuffer<T> a(n, nullptr, A);
  litl_use(a.data());
  auto b = make(a);
  EQI("size of the copy", b.size(), n);
  EQI("alignment requirement of the copy", b.alignmentReq(), A);
  REQ("data of the copy is aligned", std::uintptr_t(b.data()) % A == 0);
  REQ("the copy owns", b.owns());
  litl_data("capacity of the copy", b.data(), n * sizeof(T), A);
  a.release();
  b.release();
}
#define COPIED(T, A) \
  H h_cp_ctor_##T##_##A(std::size_t n) { copied<T, A>(n, [](auto& a) { return AlignedBuffer<T>(a); }); } \
  H h_cp_move_##T##_##A(std::size_t n) { copied<T, A>(n, [](auto& a) { return AlignedBuffer<T>(std::move(a)); }); } \
  H h_cp_assign_##T##_##A(std::size_t n) { copied<T, A>(n, [](auto& a) { AlignedBuffer<T> b(0, nullptr, 1); b.release(); b = a; return b; }); } \
  H h_cp_massign_##T##_##A(std::size_t n) { copied<T, A>(n, [](auto& a) { AlignedBuffer<T> b(0, nullptr, 1); b.release(); b = std::move(a); return b; }); }
COPIED(double, 8) COPIED(int, 64) COPIED(char, 128) COPIED(double, 4096)
// what is released is what was allocated
H h_free_dtor(std::size_t n) { AlignedBuffer<double> b(n); litl_use(b.data()); }
H h_free_reset(std::size_t n) { AlignedBuffer<float> b(n, nullptr, 128); litl_use(b.data()); b.reset(); }
H h_free_move(std::size_t n) { AlignedBuffer<int> b(n); litl_use(b.data()); AlignedBuffer<int> c(std::move(b)); litl_use(c.data()); }
H h_free_massign(std::size_t n) { AlignedBuffer<int> b(n), c(n); litl_use(b.data()); c = std::move(b); litl_use(c.data()); }
H h_free_assign(std::size_t n) { AlignedBuffer<char> b(n), c(n); litl_use(b.data()); litl_use(c.data()); c = b; litl_use(c.data()); }
