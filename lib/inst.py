"""Explicit instantiations of the class templates of each public header (all of their non-template members)."""
V = 'std::vector'
HEADERS = {
    'LitlTypes/Exceptions.h': '',
    'LitlTypes/Segment.h': '',
    'LitlTypes/SeqUtils.h': '',
    'LitlTypes/TypeUtils.h': '''
template struct Litl::TypeTraits<int>; template struct Litl::TypeTraits<std::complex<double>>;
template struct Litl::Limits<int>; template struct Litl::Limits<unsigned char>; template struct Litl::Limits<double>; template struct Litl::Limits<std::complex<float>>;
''',
    'LitlContainer/AlignedBuffer.h': 'template struct Litl::AlignedBuffer<int>; template struct Litl::AlignedBuffer<double>;',
    'LitlContainer/Arithmetic.h': '',
    'LitlContainer/ContiguousContainer.h': '',
    'LitlContainer/DataContainer.h': '',
    'LitlContainer/DataDistribution.h': 'template class Litl::DataDistribution<int>; template class Litl::DataDistribution<double>;',
    'LitlContainer/Holders.h': '''
#include <array>
#include <valarray>
template class Litl::StdHolder<std::vector<int>>; template class Litl::StdHolder<std::array<int, 3>>; template class Litl::StdHolder<std::valarray<int>>;
template class Litl::PtrHolder<int>; template class Litl::PtrHolder<const int>;
''',
    'LitlContainer/Math.h': '',
    'LitlContainer/Random.h': '''
template class Litl::UniformNoise<int>; template class Litl::UniformNoise<double>; template class Litl::UniformNoise<std::complex<double>>;
template class Litl::GaussianNoise<int>; template class Litl::GaussianNoise<float>; template class Litl::GaussianNoise<std::complex<double>>;
template class Litl::PoissonNoise<int>; template class Litl::PoissonNoise<double>;
template class Litl::StablePoissonNoise<int>; template class Litl::StablePoissonNoise<double>;
template class Litl::ImpulseNoise<int>; template class Litl::ImpulseNoise<double>;
''',
    'LitlContainer/Sequence.h': '''
template class Litl::Sequence<int>; template class Litl::Sequence<double>;
template class Litl::DataContainer<double, Litl::DefaultHolder<double>, Litl::EuclidArithmetic, Litl::Sequence<double>>;
template class Litl::DataContainer<int, Litl::DefaultHolder<int>, Litl::EuclidArithmetic, Litl::Sequence<int>>;
template struct Litl::ContiguousContainerMixin<double, Litl::Sequence<double>>;
template struct Litl::MathFunctionsMixin<double, Litl::Sequence<double>>;
template struct Litl::MathFunctionsMixin<float, Litl::Sequence<float>>;
''',
    'LitlRaster/Ball.h': '''
template class Litl::Ball<1, 1>; template class Litl::Ball<2, 1>; template class Litl::Ball<2, 2>; template class Litl::Ball<3, 2>; template class Litl::Ball<-1, 2>;
''',
    'LitlRaster/BallIterator.h': 'template class Litl::Ball<2, 2>;',
    'LitlRaster/Box.h': '''
template class Litl::Box<1>; template class Litl::Box<2>; template class Litl::Box<3>; template class Litl::Box<-1>;
''',
    'LitlRaster/BoxIterator.h': 'template class Litl::Box<2>::Iterator;',
    'LitlRaster/Raster.h': '''
template class Litl::Raster<int, 1>; template class Litl::Raster<double, 2>; template class Litl::Raster<float, 3>; template class Litl::Raster<long, -1>;
template class Litl::Raster<double, 2, Litl::PtrHolder<double>>; template class Litl::Raster<double, 2, Litl::AlignedBuffer<double>>;
template class Litl::Raster<double, 2, Litl::StdHolder<std::valarray<double>>>; template class Litl::Raster<double, 2, Litl::StdHolder<std::array<double, 6>>>;
template struct Litl::MathFunctionsMixin<double, Litl::Raster<double, 2>>;
''',
    'LitlRaster/Sampling.h': '''
template class Litl::AxisSampling<Litl::Index>; template class Litl::AxisSampling<double>;
template class Litl::PositionSampling<2>; template class Litl::PositionSampling<-1>; template class Litl::DataSamples<double>; template class Litl::DataSamples<const int>;
''',
    'LitlRaster/Subraster.h': 'template class Litl::Subraster<Litl::Raster<int, 2>, int>; template class Litl::Subraster<const Litl::Raster<int, 3>, const int>;',
    'LitlRaster/SubrasterIterator.h': 'template class Litl::Subraster<Litl::Raster<int, 2>, int>::Iterator; template class Litl::Subraster<const Litl::Raster<int, -1>, const int>::Iterator;',
    'LitlRaster/Vector.h': 'template class Litl::Vector<double, 2>; template class Litl::Vector<Litl::Index, 1>; template class Litl::Vector<Litl::Index, 3>; template class Litl::Vector<Litl::Index, -1>;',
    'LitlTransforms/Convolution.h': 'template class Litl::Kernel1d<double>; template class Litl::Kernel1d<int>;',
    'LitlTransforms/Dft.h': 'template class Litl::DftPlan<Litl::Internal::RealDftTransform, 2>; template class Litl::DftPlan<Litl::Internal::ComplexDftTransform, 3>;',
    'LitlTransforms/DftMemory.h': '',
    'LitlTransforms/DftPlan.h': '',
    'LitlTransforms/Interpolation.h': '''
template class Litl::Extrapolator<Litl::Raster<double, 2>, Litl::NearestNeighbor>; template class Litl::Extrapolator<Litl::Raster<double, 3>, Litl::Periodic>;
template class Litl::Extrapolator<Litl::Raster<int, 2>, Litl::OutOfBoundsConstant<int>>;
template class Litl::Interpolator<Litl::Raster<double, 2>, Litl::NearestNeighbor>; template class Litl::Interpolator<Litl::Raster<double, 3>, Litl::Linear>;
template class Litl::Interpolator<Litl::Raster<double, 2>, Litl::Cubic>;
''',
    'LitlTransforms/InterpolationMethods.h': 'template struct Litl::OutOfBoundsConstant<double>;',
    'LitlTransforms/Kernel.h': 'template class Litl::Kernel<double, 2>; template class Litl::Kernel<int, 3>;',
    'LitlTransforms/LineKernel.h': 'template class Litl::LineKernel<double>; template class Litl::LineKernel<int>;',
    'LitlTransforms/MedianFilter.h': 'template class Litl::MedianFilter<double, 2>; template class Litl::MedianFilter<int, 3>;',
    'LitlTransforms/SeparableKernel.h': 'template class Litl::SeparableKernel<double, 0, 1>; template class Litl::SeparableKernel<int, 2, 0, 1>;',
    'LitlTransforms/StructuringElement.h': 'template class Litl::StructuringElement<double, 2>; template class Litl::StructuringElement<int, 3>;',
    'LitlIo/Fits.h': '',
    'LitlRun/Chronometer.h': 'template class Litl::Chronometer<std::chrono::milliseconds>; template class Litl::Chronometer<std::chrono::duration<double>>;',
    'LitlRun/IterationBenchmark.h': '',
    'LitlRun/ProgramOptions.h': '',
    'LitlRun/StepperPipeline.h': '''
struct LitlStep : Litl::PipelineStep<void, int> {};
struct LitlPipeline : Litl::StepperPipeline<LitlPipeline> {
  template <typename S> void doEvaluate() {}
  template <typename S> typename S::Return doGet() { return 0; }
};
inline int litl_get(LitlPipeline& p) { return p.get<LitlStep>(); }
inline double litl_time(LitlPipeline& p) { return p.milliseconds<LitlStep>(); }
inline bool litl_done(LitlPipeline& p) { return p.evaluated<LitlStep>(); }
inline double litl_total(const LitlPipeline& p) { return p.milliseconds(); }
''',
}


def unit(headers, twice=True):
    """A translation unit which includes these headers (twice) and instantiates their class templates, once each."""
    out, seen = [], set()
    for _ in range(2 if twice else 1):
        out += [f'#include "{h}"' for h in headers]
    for h in headers:
        for line in HEADERS.get(h, '').split('\n'):
            if not line.startswith('template '):
                out.append(line)
                continue
            for s in line.split(';'):
                s = s.strip()
                if s and s not in seen and not (len(headers) > 1 and '::Iterator' in s):
                    seen.add(s)
                    out.append(s + ';')
    return '\n'.join(out) + '\n'
