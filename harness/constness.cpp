// What the types of the public interface allow: constness, conversions, copies.
#include "LitlRaster/Raster.h"
#include "LitlRaster/Ball.h"
#include "LitlRaster/Sampling.h"
#include "LitlContainer/Sequence.h"
#include "LitlContainer/DataDistribution.h"
#include "LitlContainer/Random.h"
#include "LitlTransforms/Dft.h"
#include "LitlTransforms/Interpolation.h"
#include "LitlTransforms/Kernel.h"
#include "LitlTransforms/SeparableKernel.h"
#include "LitlTransforms/MedianFilter.h"
#include "LitlTransforms/StructuringElement.h"
#include "LitlIo/Fits.h"
#include "LitlRun/Chronometer.h"
#include "LitlRun/ProgramOptions.h"
#include "litl_obl.h"
using namespace Litl;
template <typename T> const T& c();
template <typename T> T& m();
template <typename A, typename B> constexpr bool same() { return std::is_same<A, B>::value; }
template <typename C, typename T>
constexpr bool reads() {
  return same<decltype(c<C>()[std::size_t(0)]), const T&>() && same<decltype(c<C>().front()), const T&>() && same<decltype(c<C>().back()), const T&>() &&
      same<decltype(c<C>().data()), const T*>() && same<decltype(c<C>().at(0)), const T&>();
}
template <typename C, typename T>
constexpr bool writes() {
  return same<decltype(m<C>()[std::size_t(0)]), T&>() && same<decltype(m<C>().front()), T&>() && same<decltype(m<C>().back()), T&>() &&
      same<decltype(m<C>().data()), T*>() && same<decltype(m<C>().at(0)), T&>();
}
template <typename C, typename T>
constexpr bool iterates() {
  return std::is_assignable<decltype(*m<C>().begin()), T>::value && !std::is_assignable<decltype(*c<C>().begin()), T>::value && !std::is_assignable<decltype(*c<C>().end()), T>::value &&
      !std::is_assignable<decltype(*m<C>().cbegin()), T>::value && !std::is_assignable<decltype(*m<C>().cend()), T>::value;
}
template <typename C, typename T> constexpr bool access() { return reads<C, T>() && writes<C, T>() && iterates<C, T>(); }
static_assert(access<Sequence<int>, int>() && access<Sequence<double>, double>() && access<Sequence<int, PtrHolder<int>>, int>(), "Constant sequences are read-only, others are not");
static_assert(access<Sequence<int, AlignedBuffer<int>>, int>() && access<Sequence<int, StdHolder<std::array<int, 3>>>, int>() && access<Sequence<int, StdHolder<std::valarray<int>>>, int>(), "Constant sequences of any storage are read-only, others are not");
template <typename R, typename T, Index N>
constexpr bool pixels() {
  return same<decltype(c<R>()[c<Position<N>>()]), const T&>() && same<decltype(c<R>().at(c<Position<N>>())), const T&>() && same<decltype(m<R>()[c<Position<N>>()]), T&>() && same<decltype(m<R>().at(c<Position<N>>())), T&>() &&
      same<decltype(c<R>().data()), const T*>() && same<decltype(m<R>().data()), T*>() && iterates<R, T>() && same<decltype(c<R>().shape()), const Position<N>&>() && same<decltype(m<R>().shape()), const Position<N>&>();
}
static_assert(pixels<Raster<int, 2>, int, 2>() && pixels<Raster<double, 3>, double, 3>() && pixels<Raster<float, -1>, float, -1>(), "Constant rasters are read-only, others are not; shapes are read-only");
static_assert(pixels<PtrRaster<int, 2>, int, 2>() && pixels<AlignedRaster<double, 2>, double, 2>() && pixels<ValRaster<int, 2>, int, 2>() && pixels<ArrRaster<int, 6, 2>, int, 2>(), "Constant rasters of any storage are read-only, others are not");
static_assert(!std::is_assignable<decltype(m<PtrRaster<const int, 2>>()[c<Position<2>>()]), int>::value && !std::is_assignable<decltype(*m<PtrRaster<const int, 2>>().begin()), int>::value && same<decltype(m<PtrRaster<const int, 2>>().data()), const int*>(), "Rasters of constant pixels are read-only");
// views
template <typename R, typename T, Index N>
constexpr bool views() {
  return same<std::decay_t<decltype(c<R>().section(0))>, PtrRaster<const T, N - 1>>() && same<std::decay_t<decltype(m<R>().section(0))>, PtrRaster<T, N - 1>>() &&
      same<std::decay_t<decltype(c<R>().section(0, 1))>, PtrRaster<const T, N>>() && same<std::decay_t<decltype(m<R>().section(0, 1))>, PtrRaster<T, N>>() &&
      same<std::decay_t<decltype(c<R>().template slice<1>(c<Box<N>>()))>, PtrRaster<const T, 1>>() && same<std::decay_t<decltype(m<R>().template slice<1>(c<Box<N>>()))>, PtrRaster<T, 1>>();
}
static_assert(views<Raster<int, 2>, int, 2>() && views<Raster<double, 3>, double, 3>() && views<PtrRaster<int, 3>, int, 3>() && views<AlignedRaster<float, 2>, float, 2>(), "Sections and slices of constant rasters are read-only, others are not");
static_assert(!std::is_assignable<decltype(*begin(c<decltype(c<Raster<int, 2>>().subraster(c<Box<2>>()))>())), int>::value, "Subrasters of constant rasters are read-only");
template <typename R> auto first(R& r) -> decltype(*begin(c<decltype(r.subraster(c<Box<2>>()))>()));
static_assert(!std::is_assignable<decltype(first(c<Raster<int, 2>>())), int>::value, "Subrasters of constant rasters are read-only for generic code");
static_assert(std::is_assignable<decltype(*begin(m<std::decay_t<decltype(m<Raster<int, 2>>().subraster(c<Box<2>>()))>>())), int>::value, "Subrasters of other rasters are not read-only");
static_assert(!std::is_assignable<decltype(*begin(c<Subraster<Raster<int, 2>, int>>())), int>::value && !std::is_assignable<decltype(*end(c<Subraster<Raster<int, 3>, int>>())), int>::value, "Constant subrasters are read-only");
// boxes, positions
static_assert(same<decltype(c<Box<2>>().front()), const Position<2>&>() && same<decltype(c<Box<2>>().back()), const Position<2>&>() && same<decltype(m<Box<2>>().front()), const Position<2>&>(), "Fronts and backs of boxes are read-only");
static_assert(same<decltype(*begin(c<Box<2>>())), const Position<2>&>(), "Iterating over a box gives read-only positions");
static_assert(reads<Vector<double, 3>, double>() && writes<Vector<double, 3>, double>() && iterates<Position<-1>, Index>(), "Constant vectors are read-only, others are not");
static_assert(same<decltype(c<Kernel<double, 2>>().window()), const Box<2>&>(), "Windows of kernels are read-only");
static_assert(same<decltype(c<Ball<2, 2>>().center()), const Position<2>&>() && same<decltype(c<Ball<2, 2>>().radius()), double>(), "Centers of balls are read-only");
static_assert(same<decltype(c<RealDft<2>>().in()), const AlignedRaster<double, 2>&>() && same<decltype(c<RealDft<2>>().out()), const AlignedRaster<std::complex<double>, 2>&>() && same<decltype(m<RealDft<2>>().in()), AlignedRaster<double, 2>&>(), "Buffers of constant plans are read-only, others are not");
static_assert(same<decltype(m<RealDft<2>>().inShape()), const Position<2>&>() && same<decltype(m<RealDft<2>>().logicalShape()), const Position<2>&>(), "Shapes of plans are read-only");
static_assert(same<decltype(c<Extrapolator<Raster<int, 2>, NearestNeighbor>>()[c<Position<2>>()]), const int&>() || same<decltype(c<Extrapolator<Raster<int, 2>, NearestNeighbor>>()[c<Position<2>>()]), int>(), "Extrapolated values are read-only");
static_assert(same<decltype(c<Chronometer<std::chrono::milliseconds>>().increments()), const std::vector<double>&>() || same<decltype(c<Chronometer<std::chrono::milliseconds>>().increments()), std::vector<double>>(), "Increments of chronometers are read-only");
// conversions
template <typename A, typename B> constexpr bool conv() { return std::is_convertible<A, B>::value; }
template <typename A, typename... B> constexpr bool made() { return std::is_constructible<A, B...>::value; }
static_assert(!conv<std::size_t, Sequence<int>>() && !conv<int, Sequence<int>>() && !conv<std::vector<int>, Sequence<int>>(), "Sizes and containers do not silently become sequences");
static_assert(!conv<Position<2>, Raster<int, 2>>() && !conv<Position<-1>, Raster<int, -1>>() && !conv<int, Raster<int, 1>>(), "Positions and sizes do not silently become rasters");
static_assert(!conv<Index, Position<-1>>() && !conv<Index, Position<2>>() && !conv<double, Vector<double, 2>>(), "Numbers do not silently become positions");
static_assert(!conv<double, Ball<2, 2>>() && !conv<int, MedianFilter<int, 2>>() && !conv<Box<2>, MedianFilter<int, 2>>(), "Radii and boxes do not silently become balls and filters");
static_assert(!conv<std::vector<double>, LineKernel<double>>() && !conv<std::vector<double>, DataDistribution<double>>(), "Vectors do not silently become kernels and distributions");
static_assert(!conv<std::size_t, UniformNoise<double>>() && !conv<double, GaussianNoise<double>>() && !conv<double, PoissonNoise<double>>() && !conv<double, StablePoissonNoise<double>>(), "Numbers do not silently become generators");
static_assert(!conv<std::string, Exception>() && !conv<const char*, Exception>(), "Texts do not silently become exceptions");
static_assert(!conv<Raster<int, 2>, Extrapolator<Raster<int, 2>, NearestNeighbor>>() && !conv<Raster<int, 2>, Interpolator<Raster<int, 2>, Linear>>(), "Rasters do not silently become interpolators");
// copies
template <typename T> constexpr bool copies() { return std::is_copy_constructible<T>::value && std::is_copy_assignable<T>::value; }
template <typename T> constexpr bool moves() { return std::is_move_constructible<T>::value && std::is_move_assignable<T>::value; }
static_assert(copies<Sequence<int>>() && moves<Sequence<int>>() && copies<Raster<int, 2>>() && moves<Raster<int, 2>>() && copies<AlignedRaster<int, 2>>() && moves<AlignedRaster<int, 2>>() && copies<PtrRaster<int, 2>>(), "Containers can be copied and moved");
static_assert(copies<Box<2>>() && copies<Position<-1>>() && copies<Vector<double, 3>>() && copies<Ball<2, 1>>() && copies<Kernel<double, 2>>() && copies<LineKernel<double>>() && copies<MedianFilter<int, 2>>(), "Regions and filters can be copied");
static_assert(copies<UniformNoise<int>>() && copies<GaussianNoise<double>>() && copies<PoissonNoise<double>>() && copies<Chronometer<std::chrono::seconds>>() && std::is_copy_constructible<ProgramOptions>::value, "Generators, chronometers and options can be copied");
static_assert(!copies<RealDft<2>>() && !copies<ComplexDft<3>>() && !std::is_copy_constructible<RealDft<2>>::value && moves<RealDft<2>>(), "Plans own their buffers: they can be moved, not copied");
static_assert(std::has_virtual_destructor<Raster<int, 2>>::value && std::has_virtual_destructor<Sequence<int>>::value && std::has_virtual_destructor<Vector<double, 2>>::value && std::has_virtual_destructor<Exception>::value, "Classes made to be derived have virtual destructors");
static_assert(Raster<int, 2>::Dimension == 2 && Raster<int, -1>::Dimension == -1 && same<Raster<int, 2>::Value, int>() && same<Raster<const int, 2, PtrHolder<const int>>::Value, const int>(), "Rasters tell their dimension and value type");
static_assert(same<decltype(c<Raster<int, 2>>().domain()), Box<2>>() && same<decltype(c<Raster<int, -1>>().domain()), Box<-1>>(), "Domains are boxes");
static_assert(same<decltype(c<Raster<int, 2>>() == c<Raster<int, 2>>()), bool>() && same<decltype(c<Box<2>>() == c<Box<2>>()), bool>() && same<decltype(c<Position<2>>() == c<Position<2>>()), bool>(), "Constant objects can be compared");
H h_types() { EQI("types are checked", 0, 0); }
