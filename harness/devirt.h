// Calls are resolved statically: the operands of the harnesses have exactly their declared type.
#ifndef LITL_DEVIRT_H
#define LITL_DEVIRT_H
#include "plain_std.h"
#include <algorithm>
#include <array>
#include <boost/operators.hpp>
#include <chrono>
#include <cmath>
#include <complex>
#include <exception>
#include <functional>
#include <iostream>
#include <limits>
#include <map>
#include <memory>
#include <numeric>
#include <random>
#include <sstream>
#include <string>
#include <tuple>
#include <type_traits>
#include <utility>
#include <valarray>
#include <vector>
#ifndef LITL_NODEVIRT
#define virtual
#define override
#endif
#endif
