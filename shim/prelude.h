#pragma once
// Force-included. Standard headers the project's own toolchain (libc++) exposes
// transitively, and the C math names libstdc++ 13 leaves out of namespace std.
#include <math.h>
#include <algorithm>
#include <array>
#include <cmath>
#include <cstddef>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <limits>
#include <memory>
#include <numeric>
#include <optional>
#include <string>
#include <string_view>
#include <tuple>
#include <type_traits>
#include <utility>
#include <variant>
#include <vector>
namespace std {
using ::sqrtf; using ::fabsf; using ::floorf; using ::ceilf; using ::sinf; using ::cosf; using ::tanf; using ::atanf;
using ::atan2f; using ::acosf; using ::asinf; using ::fmodf; using ::powf; using ::expf; using ::logf; using ::hypotf;
using ::roundf; using ::truncf; using ::copysignf; using ::fminf; using ::fmaxf; using ::lroundf; using ::remainderf;
using ::nextafterf; using ::cbrtf; using ::exp2f; using ::log2f; using ::log10f;
}
