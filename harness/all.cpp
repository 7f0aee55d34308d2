// Every header and source of the library, with its class templates instantiated, for source-level analyses.
#include "LitlTypes/Exceptions.h"
#include "LitlTypes/Segment.h"
#include "LitlTypes/SeqUtils.h"
#include "LitlTypes/TypeUtils.h"
#include "LitlContainer/AlignedBuffer.h"
#include "LitlContainer/Arithmetic.h"
#include "LitlContainer/ContiguousContainer.h"
#include "LitlContainer/DataContainer.h"
#include "LitlContainer/DataDistribution.h"
#include "LitlContainer/Holders.h"
#include "LitlContainer/Math.h"
#include "LitlContainer/Random.h"
#include "LitlContainer/Sequence.h"
#include "LitlRaster/Ball.h"
#include "LitlRaster/Box.h"
#include "LitlRaster/Raster.h"
#include "LitlRaster/Sampling.h"
#include "LitlRaster/Subraster.h"
#include "LitlRaster/Vector.h"
#include "LitlTransforms/Convolution.h"
#include "LitlTransforms/Dft.h"
#include "LitlTransforms/Interpolation.h"
#include "LitlTransforms/Kernel.h"
#include "LitlTransforms/LineKernel.h"
#include "LitlTransforms/MedianFilter.h"
#include "LitlTransforms/SeparableKernel.h"
#include "LitlTransforms/StructuringElement.h"
#include "LitlIo/Fits.h"
#include <algorithm>
#include <numeric>
#include "LitlRun/Chronometer.h"
#include "LitlRun/IterationBenchmark.h"
#include "LitlRun/ProgramOptions.h"
#include "LitlRun/StepperPipeline.h"
