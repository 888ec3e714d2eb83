import sys, os; sys.path.insert(0,os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
from mkseed import make
R='EKF/sensor_range_finder.cpp'
make('b12','L01',[[R,"	if (((_sample.time_us - _time_last_valid_us) > (uint64_t)10e6)) {","	if (((_sample.time_us - _time_last_valid_us) > (uint64_t)10e6) && !_is_stuck) {"]],
 'a sensor declared stuck that later reports varying ranges','A range finder once declared stuck never becomes valid again.',
 '''#include <cstdio>
#include "sensor_range_finder.hpp"
using namespace estimator;
int main() {
	sensor::SensorRangeFinder r; r.setLimits(0.1f, 100.f); matrix::Dcmf R; r.setPitchOffset(0.f);
	uint64_t t = 20000000; bool valid = false;
	for (int i = 0; i < 400; i++) { t += 50000; r.setSample(rangeSample{t, 1.f + 0.05f * (float)i, 100}); r.runChecks(t, R); valid |= r.isDataHealthy(); }
	if (!valid) { std::printf("never valid\\n"); return 1; }
	return 0;
}
''', srcs=R, shim=True)
S='EKF/imu_down_sampler.cpp'
make('b13','S03',[[S,"	const Dcmf delta_R(delta_q.inversed());\n","	const Dcmf delta_R(_delta_angle_accumulated.inversed());\n"]],
 'two or more IMU samples per prediction step while the vehicle rotates','Accumulated delta velocity is rotated by the whole accumulated rotation with every sample.',
 '''#include <cstdio>
#include "imu_down_sampler.hpp"
int main() {
	ImuDownSampler d(0.008f); imuSample i; i.time_us = 0; i.delta_ang_dt = i.delta_vel_dt = 0.002f;
	const float a = 0.05f; bool done = false; int n = 0;
	float th = 0; // velocity 1 m/s^2 along the initial x axis
	while (!done && n < 20) { i.time_us += 2000; float mid = th + a / 2; i.delta_ang = matrix::Vector3f(0, 0, a); i.delta_vel = matrix::Vector3f(cosf(mid), -sinf(mid), 0); done = d.update(i); th += a; n++; }
	imuSample o = d.getDownSampledImuAndTriggerReset();
	float x = cosf(th) * o.delta_vel(0) - sinf(th) * o.delta_vel(1);
	float y = sinf(th) * o.delta_vel(0) + cosf(th) * o.delta_vel(1);
	if (fabsf(y) > 0.15f * n || fabsf(x - n) > 0.05f * n) { std::printf("%f %f of %d\\n", (double)x, (double)y, n); return 1; }
	return 0;
}
''', srcs=S, shim=True)
U='EKF/utils.cpp'
make('b14','E01',[[U,"		asinf(rot_in(2, 1)),  // roll","		atan2f(rot_in(2, 1), rot_in(2, 2)),  // roll"]],
 'pitch larger than roll with both away from zero','Setting the yaw through the 3-1-2 sequence uses the 3-2-1 roll and so changes the tilt.',
 '''#include <cstdio>
#include <cmath>
#include "utils.hpp"
int main() {
	matrix::Dcmf R(matrix::Eulerf(0.4f, 0.7f, 0.3f)); matrix::Dcmf N = updateYawInRotMat(1.f, R);
	for (int j = 0; j < 3; j++) if (std::fabs(N(2, j) - R(2, j)) > 1e-4f) { std::printf("tilt\\n"); return 1; }
	return 0;
}
''', srcs=U, shim=True)
