import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
from mkseed import make
W='airdata/WindEstimator.cpp'
PRE='''#include <cmath>
#include <cstdio>
#include <cstdint>
#define private public
#include <airdata/WindEstimator.hpp>
#undef private
'''
make('b10','W01',[[W,"		time_meas_rejected = time_meas_rejected == 0 ? time_now : time_meas_rejected;","		time_meas_rejected = time_now;"]],
 'airspeed measurements rejected without interruption for more than five seconds','The rejection timer restarts with every rejected sample, so a diverged filter is never restarted.',
 PRE+'''int main() {
	WindEstimator w; matrix::Vector3f v(15.f, 2.f, 0.f); matrix::Vector2f var(0.1f, 0.1f);
	uint64_t t = 1000000; w.fuse_airspeed(t, 15.f, v, var);
	if (!w.is_estimate_valid()) return 2;
	bool reset = false;
	for (int i = 0; i < 100; i++) { t += 100000; w.update(t); w.fuse_airspeed(t, 80.f, v, var); reset |= w.get_wind_estimator_reset(); }
	if (!reset) { std::printf("never restarted\\n"); return 1; }
	return 0;
}
''', srcs=W, shim=True)
make('b11','W01',[[W,"	if (fabsf(rel_wind(0)) < 0.1f) {\n		return;\n	}\n","	if (fabsf(rel_wind(0)) < 0.1f) {\n		rel_wind(0) = 0.1f;\n	}\n"]],
 'sideslip fusion with the relative wind abeam or from behind by less than 0.1 m/s','A sideslip measurement without forward airspeed is fused instead of skipped.',
 PRE+'''int main() {
	WindEstimator w; matrix::Vector3f v(10.f, 0.f, 0.f); w.fuse_beta(1000000, v, matrix::Quatf(1.f, 0.f, 0.f, 0.f));
	if (!w.is_estimate_valid()) return 2;
	w._state(0) = 10.04f; w._state(1) = -0.002f;
	float a = w._state(0), b = w._state(1);
	w.set_beta_gate(255);
	w.fuse_beta(3000000, v, matrix::Quatf(1.f, 0.f, 0.f, 0.f));
	if (w._state(0) != a || w._state(1) != b || w._beta_innov != 0.f) { std::printf("fused\\n"); return 1; }
	return 0;
}
''', srcs=W, shim=True)
