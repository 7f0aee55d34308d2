// FITS images over a ghost CFITSIO.
#include <fitsio.h>
#include "ghost_string.h"
struct Ghost {
  char handle;
  bool live, fallible;
  int fail_at, ops, opened, created, closed, bad, failed;
  unsigned long name;
  int mode, image, datatype;
  int naxis;
  long axes[4];
  long first, count;
  bool written;
  long ints[8];
  double floats[8];
};
static Ghost ghost_state;
#define PURE extern "C" __attribute__((const, nothrow))
PURE int g_fail(int k);
PURE double g_real(long i);
PURE long g_int(long i);
#define G ghost_state
namespace ghost {
using std::ghost_string;
// no operation is performed once the status is set; any operation can fail
INL bool go(int* status) {
  if (*status > 0) return false;
  const int k = G.ops++;
  if (k == G.fail_at) {
    *status = 104;
    ++G.failed;
    return false;
  }
  if (!G.fallible) return true;
  const int f = g_fail(k);
  if (f > 0) {
    *status = f;
    ++G.failed;
    return false;
  }
  return true;
}
INL void handle(const fitsfile* f) {
  if (!G.live || f != reinterpret_cast<const fitsfile*>(&G.handle)) G.bad = 1;
}
INL int open(fitsfile** f, const char* name, int mode, int* status) {
  if (!go(status)) return *status;
  if (G.live) G.bad = 1;
  G.live = true;
  ++G.opened;
  G.name = reinterpret_cast<const ghost_string*>(name)->h;
  G.mode = mode;
  *f = reinterpret_cast<fitsfile*>(&G.handle);
  return *status;
}
INL int create(fitsfile** f, const char* name, int* status) {
  if (!go(status)) return *status;
  if (G.live) G.bad = 1;
  G.live = true;
  ++G.created;
  G.name = reinterpret_cast<const ghost_string*>(name)->h;
  *f = reinterpret_cast<fitsfile*>(&G.handle);
  return *status;
}
INL int close(fitsfile* f, int* status) { // whatever the status
  if (!f) {
    if (*status <= 0) *status = NULL_INPUT_PTR;
    return *status;
  }
  handle(f);
  G.live = false;
  ++G.closed;
  go(status);
  return *status;
}
INL int dim(fitsfile* f, int* naxis, int* status) {
  if (!go(status)) return *status;
  handle(f);
  *naxis = G.naxis;
  return *status;
}
template <typename T>
INL int shape(fitsfile* f, int n, T* axes, int* status) {
  if (!go(status)) return *status;
  handle(f);
  for (int i = 0; i < 4; ++i) if (i < n && i < G.naxis) axes[i] = G.axes[i];
  return *status;
}
template <typename T>
INL void fill(void* data, long n) {
  T* const d = static_cast<T*>(data);
#pragma clang loop unroll(full)
  for (long i = 0; i < n; ++i) {
    if constexpr (std::is_floating_point<T>::value) d[i] = T(g_real(i));
    else d[i] = T(g_int(i));
  }
}
template <typename T>
INL void keep(void* data, long n) {
  T* const d = static_cast<T*>(data);
#pragma clang loop unroll(full)
  for (long i = 0; i < n; ++i) {
    if constexpr (std::is_floating_point<T>::value) G.floats[i] = d[i];
    else G.ints[i] = long(d[i]);
  }
}
#define FOR_TYPE(DO) \
  switch (type) { \
    case TBYTE: DO(unsigned char); break; \
    case TSBYTE: DO(signed char); break; \
    case TSHORT: DO(short); break; \
    case TUSHORT: DO(unsigned short); break; \
    case TINT: DO(int); break; \
    case TUINT: DO(unsigned int); break; \
    case TLONG: DO(long); break; \
    case TULONG: DO(unsigned long); break; \
    case TLONGLONG: DO(long long); break; \
    case TULONGLONG: DO(unsigned long long); break; \
    case TFLOAT: DO(float); break; \
    case TDOUBLE: DO(double); break; \
    default: G.bad = 1; \
  }
INL int read(fitsfile* f, int type, long first, long n, const void*, void* data, int*, int* status) {
  if (!go(status)) return *status;
  handle(f);
  G.datatype = type;
  G.first = first;
  G.count = n;
#define DO(T) fill<T>(data, n)
  FOR_TYPE(DO)
#undef DO
  return *status;
}
INL int image(fitsfile* f, int bitpix, int naxis, long* axes, int* status) {
  if (!go(status)) return *status;
  handle(f);
  G.image = bitpix;
  G.naxis = naxis;
  for (int i = 0; i < 4; ++i) if (i < naxis) G.axes[i] = axes[i];
  return *status;
}
INL int write(fitsfile* f, int type, long first, long n, void* data, int* status) {
  if (!go(status)) return *status;
  handle(f);
  G.datatype = type;
  G.first = first;
  G.count = n;
  G.written = true;
#define DO(T) keep<T>(data, n)
  FOR_TYPE(DO)
#undef DO
  return *status;
}
INL int params(fitsfile* f, int n, int* bitpix, int* naxis, long* axes, int* status) {
  if (!go(status)) return *status;
  handle(f);
  if (bitpix) *bitpix = G.image;
  if (naxis) *naxis = G.naxis;
  for (int i = 0; i < 4; ++i) if (axes && i < n && i < G.naxis) axes[i] = G.axes[i];
  return *status;
}
INL long linear(const long* p) { // 1-based position to 1-based index
  long o = 0;
  for (int i = 4; i-- > 0;) if (i < G.naxis) o = o * G.axes[i] + p[i] - 1;
  return o + 1;
}
INL int read_pix(fitsfile* f, int type, const long* p, long n, const void* nul, void* data, int* any, int* status) {
  return read(f, type, linear(p), n, nul, data, any, status);
}
INL int write_pix(fitsfile* f, int type, const long* p, long n, void* data, int* status) {
  return write(f, type, linear(p), n, data, status);
}
INL void errstatus(int, char* text) { *text = 0; }
} // namespace ghost
#undef fits_read_pix
#undef fits_write_pix
#undef fits_get_img_param
#undef fits_create_diskfile
#undef fits_open_data
#undef fits_get_errstatus
#undef fits_get_img_sizell
#define fits_read_pix ghost::read_pix
#define fits_write_pix ghost::write_pix
#define fits_get_img_param ghost::params
#define fits_create_diskfile ghost::create
#define fits_open_data ghost::open
#define fits_get_errstatus ghost::errstatus
#define fits_get_img_sizell ghost::shape
#undef fits_open_file
#undef fits_open_image
#undef fits_open_diskfile
#undef fits_create_file
#undef fits_close_file
#undef fits_get_img_dim
#undef fits_get_img_size
#undef fits_read_img
#undef fits_create_img
#undef fits_write_img
#define fits_open_file ghost::open
#define fits_open_image ghost::open
#define fits_open_diskfile ghost::open
#define fits_create_file ghost::create
#define fits_close_file ghost::close
#define fits_get_img_dim ghost::dim
#define fits_get_img_size ghost::shape
#define fits_read_img ghost::read
#define fits_create_img ghost::image
#define fits_write_img ghost::write
#include "LitlIo/Fits.h"
#undef string
#undef to_string
#undef stringstream
#undef ostringstream
#undef ostream
using namespace Litl;
using S = std::ghost_string;
INL void start() {
  G.live = G.fallible = G.written = false;
  G.ops = G.opened = G.created = G.closed = G.bad = G.failed = G.mode = G.image = G.datatype = G.naxis = 0;
  G.name = G.first = G.count = 0;
  G.fail_at = -1;
}
template <typename T>
constexpr int image() {
  if (std::is_floating_point<T>::value) return sizeof(T) == 4 ? FLOAT_IMG : DOUBLE_IMG;
  const bool s = std::is_signed<T>::value;
  return sizeof(T) == 1 ? (s ? SBYTE_IMG : BYTE_IMG) : sizeof(T) == 2 ? (s ? SHORT_IMG : USHORT_IMG) : sizeof(T) == 4 ? (s ? LONG_IMG : ULONG_IMG) : (s ? LONGLONG_IMG : ULONGLONG_IMG);
}
template <typename T>
INL void pixel(const char* label, T v, long i) {
  if constexpr (std::is_floating_point<T>::value) litl_eq(label, v, T(g_real(i)));
  else litl_eq(label, v, T(g_int(i)));
}
template <typename TRaster, int N>
INL void reads(Fits& io, char name) {
  const auto out = io.read<TRaster>();
  EQI("the file is that of given name", G.name, S(1, name).h);
  EQI("the file is open once", G.opened, 1);
  EQI("no file is created", G.created, 0);
  EQI("read-only", G.mode, READONLY);
  EQI("the file is closed", G.live, 0);
  EQI("the file is closed once", G.closed, 1);
  REQ("operations apply to the open file", G.bad == 0);
  EQI("first pixel", G.first, 1);
  long size = 1;
  EQI("dimension", out.dimension(), N);
  for (int i = 0; i < N; ++i) {
    EQI("shape", out.shape()[i], G.axes[i]);
    size *= G.axes[i];
  }
  EQI("all the pixels are read", G.count, size);
  EQI("size", out.size(), size);
#pragma clang loop unroll(full)
  for (long i = 0; i < size; ++i) pixel<typename TRaster::Value>("pixels have the type of the raster", out[i], i);
}
template <typename TRaster, int N>
INL void writes(Fits& io, char name, const long* s, const typename TRaster::Value* d) {
  Position<TRaster::Dimension> shape(N);
  long size = 1;
  for (int i = 0; i < N; ++i) {
    shape[i] = s[i];
    size *= s[i];
  }
  TRaster in(shape);
#pragma clang loop unroll(full)
  for (long i = 0; i < size; ++i) in[i] = d[i];
  io.write(in);
  EQI("the file is that of given name", G.name, S(1, name).h);
  EQI("the file is created once", G.created, 1);
  EQI("no file is open", G.opened, 0);
  EQI("the file is closed", G.live, 0);
  EQI("the file is closed once", G.closed, 1);
  REQ("operations apply to the open file", G.bad == 0);
  EQI("type of the image", G.image, image<typename TRaster::Value>());
  EQI("dimension of the image", G.naxis, N);
  for (int i = 0; i < N; ++i) EQI("shape of the image", G.axes[i], s[i]);
  REQ("pixels are written", G.written);
  EQI("first pixel", G.first, 1);
  EQI("all the pixels are written", G.count, size);
#pragma clang loop unroll(full)
  for (long i = 0; i < size; ++i) {
    if constexpr (std::is_floating_point<typename TRaster::Value>::value) litl_eq("pixels have the type of the raster", G.floats[i], double(d[i]));
    else litl_eq("pixels have the type of the raster", G.ints[i], long(d[i]));
    litl_eq("the raster is unchanged", in[i], d[i]);
  }
}
template <typename TRaster, int N>
INL void io(char name, long a, long b, long c, const typename TRaster::Value* d) {
  const long s[] {a, b, c};
  {
    start();
    Fits f(S(1, name));
    G.naxis = N;
    for (int i = 0; i < N; ++i) G.axes[i] = s[i];
    reads<TRaster, N>(f, name);
    start();
    writes<TRaster, N>(f, name, s, d);
    start();
    writes<TRaster, N>(f, name, s, d + 8);
  }
}
#define IO(NAME, T, N) \
  H h_io_##NAME##_1(char name, const T* __restrict d) { io<Raster<T, 1>, 1>(name, 5, 0, 0, d); }
#define IOS(NAME, T) \
  H h_io_##NAME##_1(char name, const T* __restrict d) { io<Raster<T, 1>, 1>(name, 5, 0, 0, d); } \
  H h_io_##NAME##_2(char name, const T* __restrict d) { io<Raster<T, 2>, 2>(name, 3, 2, 0, d); } \
  H h_io_##NAME##_3(char name, const T* __restrict d) { io<Raster<T, 3>, 3>(name, 2, 1, 3, d); }
IOS(char, char)
IOS(i8, signed char)
IOS(u8, unsigned char)
IOS(i16, short)
IOS(u16, unsigned short)
IOS(i32, int)
IOS(u32, unsigned int)
IOS(i64, long)
IOS(u64, unsigned long)
IOS(ll, long long)
IOS(f32, float)
IOS(f64, double)
H h_io_variable(char name, const int* __restrict d) { io<Raster<int, -1>, 2>(name, 2, 3, 0, d); }
H h_io_variable3(char name, const double* __restrict d) { io<Raster<double, -1>, 3>(name, 2, 1, 2, d); }
// failures
struct End {
  Fits& f;
  INL ~End() {
    REQ("the file is closed, whatever fails", !G.live);
    REQ("the file is closed once", G.closed == G.opened + G.created);
    REQ("operations apply to the open file", G.bad == 0);
  }
};
template <typename TRaster, int N>
INL void failing_read(char name, const long* s) {
  THROWS_ONLY("errors are those of the library", "Litl::Exception");
  start();
  G.fallible = true;
  G.naxis = N;
  for (int i = 0; i < N; ++i) G.axes[i] = s[i];
  Fits f(S(1, name));
  End e {f};
  const auto out = f.read<TRaster>();
  litl_use(out.data());
  REQ("failures are not silent", G.failed == 0);
}
template <typename TRaster, int N>
INL void failing_write(char name, const long* s) {
  THROWS_ONLY("errors are those of the library", "Litl::Exception");
  start();
  G.fallible = true;
  Position<TRaster::Dimension> shape(N);
  for (int i = 0; i < N; ++i) shape[i] = s[i];
  TRaster in(shape);
  Fits f(S(1, name));
  End e {f};
  f.write(in);
  REQ("failures are not silent", G.failed == 0);
}
H h_x_read_1(char name) {
  const long s[] {3};
  failing_read<Raster<int, 1>, 1>(name, s);
}
H h_x_read_2(char name) {
  const long s[] {2, 3};
  failing_read<Raster<double, 2>, 2>(name, s);
}
H h_x_read_v(char name) {
  const long s[] {2, 2};
  failing_read<Raster<char, -1>, 2>(name, s);
}
H h_x_write_1(char name) {
  const long s[] {3};
  failing_write<Raster<int, 1>, 1>(name, s);
}
H h_x_write_2(char name) {
  const long s[] {2, 3};
  failing_write<Raster<float, 2>, 2>(name, s);
}
H h_x_write_v(char name) {
  const long s[] {2, 3};
  failing_write<Raster<unsigned char, -1>, 2>(name, s);
}
// a raster of fixed dimension cannot hold an image of another dimension
template <typename TRaster, int N>
INL void mismatch(char name) {
  THROWS_ONLY("errors are those of the library", "Litl::Exception");
  start();
  G.naxis = N;
  for (int i = 0; i < N; ++i) G.axes[i] = 2;
  Fits f(S(1, name));
  End e {f};
  MUST_THROW("the dimension of the image must be that of the raster", litl_use(f.read<TRaster>().data()));
}
H h_x_dim_12(char name) { mismatch<Raster<int, 1>, 2>(name); }
H h_x_dim_21(char name) { mismatch<Raster<int, 2>, 1>(name); }
H h_x_dim_23(char name) { mismatch<Raster<int, 2>, 3>(name); }
H h_x_dim_32(char name) { mismatch<Raster<int, 3>, 2>(name); }
// a failure is not silent, and does not prevent from reading or writing afterwards
template <int K>
INL void reuse(char name, const int* d) {
  const long s[] {2, 3};
  Fits f(S(1, name));
  for (int w = 0; w < 2; ++w) {
    start();
    G.naxis = K < 0 ? 3 : 2;
    G.axes[0] = 2;
    G.axes[1] = 3;
    G.fail_at = K;
    bool failed = false;
    Raster<int, 2> r({1, 1});
    try {
      if (w) f.write(r);
      else f.read<Raster<int, 2>>();
    } catch (const Litl::Exception&) {
      failed = true;
    }
    REQ("failures are not silent", failed == (G.failed > 0) || K < 0);
    REQ("the file is closed after a failure", !G.live);
    REQ("the file is closed once", G.closed == G.opened + G.created);
    start();
    G.naxis = 2;
    G.axes[0] = 2;
    G.axes[1] = 3;
    reads<Raster<int, 2>, 2>(f, name);
    start();
    writes<Raster<int, 2>, 2>(f, name, s, d);
  }
}
#define REUSE(NAME, K) H h_reuse_##NAME(char name, const int* __restrict d) { reuse<K>(name, d); }
REUSE(dim, -1) REUSE(0, 0) REUSE(1, 1) REUSE(2, 2) REUSE(3, 3) REUSE(4, 4)
