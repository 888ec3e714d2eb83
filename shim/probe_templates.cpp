// Instantiates the header-only templates so that they are analysed as a user of the library would get them.
#include <cstddef>
#include <cstdint>
#include <mathlib/mathlib.h>
#include <AlphaFilter/AlphaFilter.hpp>
#include <EKF/RingBuffer.h>

namespace probe
{
struct Sample {
	uint64_t time_us;
	float value;
};

#define MATH(T, N) \
	T min_##N(T a, T b) { return math::min(a, b); } \
	T max_##N(T a, T b) { return math::max(a, b); } \
	T constrain_##N(T v, T lo, T hi) { return math::constrain(v, lo, hi); }
#define ANGLE(T, N) \
	T radians_##N(T a) { return math::radians(a); } \
	T degrees_##N(T a) { return math::degrees(a); } \
	T there_and_back_##N(T a) { return math::radians(math::degrees(a)); }
MATH(float, float)
MATH(double, double)
MATH(int, int)
MATH(unsigned, unsigned)
ANGLE(float, float)
ANGLE(double, double)
}

template class AlphaFilter<float>;
template class AlphaFilter<double>;
template class RingBuffer<probe::Sample>;
