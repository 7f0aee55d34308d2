// A ghost FFTW: plans record their arguments, planning fills the buffers with unknown values (unless it is estimated),
// transforms are uninterpreted functions of their inputs and fill their inputs with unknown values, and plans are
// created, executed and destroyed by an automaton. Allocation is a ghost automaton as well.
#pragma once
#include "devirt.h"
#include <cstdint>
#include <cstdlib>
#include <fftw3.h>
#include <new>
#include "litl_obl.h"
enum { R2C = 1, C2R, C2C };
struct fftw_plan_s {
  int kind, rank, n[4], sign;
  unsigned flags;
  double *in, *out;
  int id;
};
struct Ghost {
  static constexpr int K = 8;
  fftw_plan_s* plans[K];
  int live[K], n;
  void* pool[K];
  long bytes[K];
  int memory[K], m;
  int bad, runs;
};
static Ghost ghost_state;
#define g ghost_state
#define PURE extern "C" __attribute__((const, nothrow))
PURE double g_garbage(int when, int where);
PURE double g_fft(int kind, int sign, int n0, int n1, int n2, int n3, int k, double, double, double, double, double, double, double, double, double, double, double, double);
INL int fft_size(const int* n, int rank, bool half) { // in complex (half or full) or real (full) values
  int s = 1;
  for (int i = 0; i < rank; ++i) s *= i + 1 == rank && half ? n[i] / 2 + 1 : n[i];
  return s;
}
INL int in_size(const fftw_plan_s* p) { // in doubles
  return fft_size(p->n, p->rank, p->kind == C2R) * (p->kind == R2C ? 1 : 2);
}
INL int out_size(const fftw_plan_s* p) {
  return fft_size(p->n, p->rank, p->kind == R2C) * (p->kind == C2R ? 1 : 2);
}
INL void garbage(double* d, int n, int when) {
#pragma clang loop unroll(full)
  for (int i = 0; i < n; ++i) d[i] = g_garbage(when, i);
}
INL double fft(int kind, int sign, int rank, const int* n, const double* in, int size, int k) {
  double v[12] {};
  for (int i = 0; i < 12; ++i) v[i] = i < size ? in[i] : 0;
  return g_fft(kind, sign, n[0], rank > 1 ? n[1] : 0, rank > 2 ? n[2] : 0, rank > 3 ? n[3] : 0, k, v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9], v[10], v[11]);
}
INL fftw_plan make_plan(int kind, int rank, const int* n, void* in, void* out, int sign, unsigned flags) {
  fftw_plan_s* p = new fftw_plan_s;
  p->kind = kind;
  p->rank = rank;
  for (int i = 0; i < 4; ++i) p->n[i] = i < rank ? n[i] : 0;
  p->sign = sign;
  p->flags = flags;
  p->in = static_cast<double*>(in);
  p->out = static_cast<double*>(out);
  p->id = g.n++;
  g.live[p->id] = 1;
  g.plans[p->id] = p;
  if (!(flags & FFTW_ESTIMATE)) {
    garbage(p->in, in_size(p), 100 + 2 * p->id);
    garbage(p->out, out_size(p), 101 + 2 * p->id);
  }
  return p;
}
extern "C" {
INL fftw_plan fftw_plan_dft_r2c(int rank, const int* n, double* in, fftw_complex* out, unsigned flags) {
  return make_plan(R2C, rank, n, in, out, FFTW_FORWARD, flags);
}
INL fftw_plan fftw_plan_dft_c2r(int rank, const int* n, fftw_complex* in, double* out, unsigned flags) {
  return make_plan(C2R, rank, n, in, out, FFTW_BACKWARD, flags);
}
INL fftw_plan fftw_plan_dft(int rank, const int* n, fftw_complex* in, fftw_complex* out, int sign, unsigned flags) {
  return make_plan(C2C, rank, n, in, out, sign, flags);
}
INL void fftw_execute(const fftw_plan p) {
  if (!g.live[p->id]) g.bad = 1;
  const int size = out_size(p);
  double o[24];
#pragma clang loop unroll(full)
  for (int k = 0; k < size; ++k) o[k] = fft(p->kind, p->sign, p->rank, p->n, p->in, in_size(p), k);
  if (!(p->flags & FFTW_PRESERVE_INPUT)) garbage(p->in, in_size(p), g.runs);
  ++g.runs;
#pragma clang loop unroll(full)
  for (int k = 0; k < size; ++k) p->out[k] = o[k];
}
INL void fftw_destroy_plan(fftw_plan p) {
  if (g.live[p->id] != 1) g.bad = 1;
  g.live[p->id] = 0;
}
INL void fftw_cleanup() {}
INL int __cxa_atexit(void (*)(void*), void*, void*) { return 0; }
}
namespace std {
INL void* ghost_malloc(std::size_t size) {
  const int k = g.m;
  g.m = k + 1;
  g.memory[k] = 1;
  g.bytes[k] = long(size);
  g.pool[k] = __builtin_assume_aligned(::operator new(512), 256);
  return g.pool[k];
}
INL void ghost_free(void* p) {
  if (!p) return;
  bool found = false;
  for (int k = 0; k < Ghost::K; ++k) {
    if (k < g.m && p == g.pool[k]) {
      found = true;
      if (g.memory[k] != 1) g.bad = 1;
      g.memory[k] = 0;
    }
  }
  if (!found) g.bad = 1;
}
} // namespace std
using std::ghost_malloc;
using std::ghost_free;
#define malloc ghost_malloc
#define free ghost_free
#undef g
#include "LitlTransforms/Dft.h"
#define g ghost_state
#undef malloc
#undef free
INL void start() {
  g.n = g.m = g.bad = g.runs = 0;
  for (int k = 0; k < Ghost::K; ++k) g.live[k] = g.memory[k] = 0;
}
INL bool allocated(const void* p, long size) { // the bytes are those of an allocated block
  bool found = false;
  for (int k = 0; k < Ghost::K; ++k) {
    const long offset = static_cast<const char*>(p) - static_cast<const char*>(g.pool[k]);
    found |= k < g.m && g.memory[k] == 1 && offset >= 0 && offset < 512 && offset + size <= g.bytes[k];
  }
  return found;
}
INL int alive() {
  int s = 0;
  for (int k = 0; k < Ghost::K; ++k) s += g.live[k];
  return s;
}
INL int blocks() {
  int s = 0;
  for (int k = 0; k < Ghost::K; ++k) s += g.memory[k];
  return s;
}
