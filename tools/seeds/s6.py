import sys, os; sys.path.insert(0,os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
from mkseed import make
from importlib import import_module
I='EKF/ekf.cpp'; HP='EKF/ekf_helper.cpp'
EK='EKF/*.cpp geo/geo.cpp geo_lookup/geo_mag_declination.cpp'
H='''#include <cstdio>
#include <cmath>
#include <cstring>
#include <algorithm>
#define private public
#define protected public
#include "ekf.h"
using matrix::Vector3f; using matrix::Quatf; using matrix::Eulerf; using matrix::Dcmf;
static imuSample imu(uint64_t t) { imuSample i; i.time_us = t; i.delta_ang_dt = i.delta_vel_dt = 0.005f; i.delta_ang = matrix::Vector3f(); i.delta_vel = matrix::Vector3f(0, 0, -9.80665f * 0.005f); return i; }
static uint64_t t = 1000000;
static void step(Ekf *e, int n) { for (int i = 0; i < n; i++) { t += 5000; e->setIMUData(imu(t)); if (t % 20000 == 0) { e->setMagData(magSample{t, matrix::Vector3f(0.2f, 0.f, 0.4f)}); e->setBaroData(baroSample{t, 100.f}); } e->update(); } }
'''
def mk(*a): make(*a, srcs=EK, shim=True, flags='-O0')
if __name__ == '__main__':
    mk('b19','F01',[[I,"corrected_delta_ang -= _R_to_earth.transpose() * _earth_rate_NED * _imu_sample_delayed.delta_ang_dt;","corrected_delta_ang -= _R_to_earth * _earth_rate_NED * _imu_sample_delayed.delta_ang_dt;"]],
     'a vehicle that is not aligned with the earth frame','The rotation of the Earth is subtracted in the wrong frame (not turned into the body frame).',
     H+'''int main() {
	Ekf *e = new Ekf; e->_state.quat_nominal = Quatf(Eulerf(0.f, 0.f, 1.5707963f)); e->_R_to_earth = Dcmf(e->_state.quat_nominal);
	e->_earth_rate_NED = Vector3f(0.01f, 0.f, 0.f); e->_imu_sample_delayed.delta_ang_dt = e->_imu_sample_delayed.delta_vel_dt = 0.01f;
	e->_imu_sample_delayed.delta_ang = e->_R_to_earth.transpose() * e->_earth_rate_NED * 0.01f;	// at rest on the rotating Earth
	Quatf q = e->_state.quat_nominal; for (int i = 0; i < 100; i++) e->predictState();
	float d = 0; for (int i = 0; i < 4; i++) d += fabsf(q(i) - e->_state.quat_nominal(i));
	if (d > 1e-3f) { std::printf("%f\\n", (double)d); return 1; }
	return 0;
}
''')
    mk('b20','C05',[[I,"""	uint8_t index = _output_vert_buffer.get_oldest_index();
""","""	uint8_t index = 0;
"""]],
     'a ring buffer whose oldest element is not the first','The vertical output history is corrected from the first slot of the ring instead of the oldest element, integrating across the seam.',
     H+'''int main() {
	Ekf *e = new Ekf; step(e, 1000);
	// the vertical history must be continuous in time order: integral[i+1] = integral[i] + mean velocity * dt
	int n = e->_output_vert_buffer.get_length(); 
	for (int i = 0; i < n; i++) { outputVert &o = e->_output_vert_buffer[i]; o.vert_vel = 0.f; o.vert_vel_integ = 0.f; o.dt = 0.01f; }
	int old = e->_output_vert_buffer.get_oldest_index(); if (old == 0) { std::printf("setup\\n"); return 0; }
	for (int i = 0; i < n; i++) { outputVert &o = e->_output_vert_buffer[(old + i) % n]; o.vert_vel_integ = 5.f; }
	e->_output_vert_buffer[(old + n - 1) % n].vert_vel_integ = 5.f; e->_output_vert_buffer[old].vert_vel_integ = 3.f;
	e->applyCorrectionToVerticalOutputBuffer(0.f);
	for (int i = 0; i < n; i++) if (fabsf(e->_output_vert_buffer[(old + i) % n].vert_vel_integ - 3.f) > 1e-4f) { std::printf("element %d: %f\\n", i, (double)e->_output_vert_buffer[(old + i) % n].vert_vel_integ); return 1; }
	return 0;
}
''')
    mk('b21','P01',[[I,"""		// run EKF-GSF yaw estimator
		runYawEKFGSF();
	}

	// the output observer always runs
	// Use full rate IMU data at the current time horizon
	calculateOutputStates(_newest_high_rate_imu_sample);

	return updated;""","""		// run EKF-GSF yaw estimator
		runYawEKFGSF();
	}

	// the output observer always runs
	// Use full rate IMU data at the current time horizon
	calculateOutputStates(_imu_updated ? _imu_sample_delayed : _newest_high_rate_imu_sample);

	return updated;"""]],
     'a changing IMU signal at the time the filter runs','The output predictor is fed the delayed sample whenever the filter has run.',
     H+'''int main() {
	Ekf *e = new Ekf; step(e, 1000);
	for (int i = 0; i < 4; i++) { t += 5000; imuSample s = imu(t); e->setIMUData(s); e->update(); if (e->_output_new.time_us != t) { std::printf("%llu instead of %llu\\n", (unsigned long long)e->_output_new.time_us, (unsigned long long)t); return 1; } }
	return 0;
}
''')
    mk('b22','P02',[[I,"""	// initialise the state covariance matrix now we have starting values for all the states
	initialiseCovariance();

	// update the yaw angle variance using the variance of the measurement
	if (_params.mag_fusion_type <= MAG_FUSE_TYPE_3D) {
		// using magnetic heading tuning parameter
		increaseQuatYawErrVariance(sq(fmaxf(_params.mag_heading_noise, 1.0e-2f)));
	}
""","""	// update the yaw angle variance using the variance of the measurement
	if (_params.mag_fusion_type <= MAG_FUSE_TYPE_3D) {
		// using magnetic heading tuning parameter
		increaseQuatYawErrVariance(sq(fmaxf(_params.mag_heading_noise, 1.0e-2f)));
	}

	// initialise the state covariance matrix now we have starting values for all the states
	initialiseCovariance();
"""]],
     'the yaw variance right after initialisation','The initial yaw variance of the heading measurement is overwritten by the covariance initialisation.',
     H+'''int main() {
	Ekf *e = new Ekf; e->getParamHandle()->mag_heading_noise = 0.6f; int i = 0; 
	// the covariance at the moment the filter has been initialised
	for (; i < 4000 && !e->_filter_initialised; i++) { t += 5000; e->setIMUData(imu(t)); if (t % 20000 == 0) { e->setMagData(magSample{t, Vector3f(0.2f, 0.f, 0.4f)}); e->setBaroData(baroSample{t, 100.f}); } if (e->_initialised) e->_filter_initialised = e->initialiseFilter(); }
	if (!e->_filter_initialised) { std::printf("not initialised\\n"); return 2; }
	float got = e->P(3,3);
	e->initialiseCovariance(); float bare = e->P(3,3); e->increaseQuatYawErrVariance(0.36f); float want = e->P(3,3);
	if (fabsf(want - bare) < 1e-9f || fabsf(got - want) > 0.01f * want) { std::printf("%g %g %g\\n", (double)got, (double)bare, (double)want); return 1; }
	return 0;
}
''')
    mk('b23','C04',[[HP,"""	for (uint8_t index = 0; index < _output_buffer.get_length(); index++) {
		_output_buffer[index].vel(2) += delta_vert_vel;
		_output_vert_buffer[index].vert_vel += delta_vert_vel;
	}
""","""	for (uint8_t index = 0; index < _output_buffer.get_length(); index++) {
		_output_buffer[index].vel(2) += delta_vert_vel;
	}

	_output_vert_buffer[_output_vert_buffer.get_oldest_index()].vert_vel += delta_vert_vel;
"""]],
     'a vertical velocity reset in flight','Only the oldest element of the vertical output history is moved by a vertical velocity reset.',
     H+'''int main() {
	Ekf *e = new Ekf; step(e, 1000); int n = e->_output_vert_buffer.get_length(); float b[64]; for (int i = 0; i < n && i < 64; i++) b[i] = e->_output_vert_buffer[i].vert_vel;
	float d = 2.f; e->resetVerticalVelocityTo(e->_state.vel(2) + d);
	for (int i = 0; i < n && i < 64; i++) if (fabsf(e->_output_vert_buffer[i].vert_vel - b[i] - d) > 1e-3f) { std::printf("element %d\\n", i); return 1; }
	return 0;
}
''')
    mk('b24','C04',[[HP,"""	// reset the horizontal velocity variance using the optical flow noise variance
	P.uncorrelateCovarianceSetVariance<2>(4, sq(range) * calcOptFlowMeasVar());
""","""	// reset the horizontal velocity variance using the optical flow noise variance
	P.uncorrelateCovarianceSetVariance<3>(4, sq(range) * calcOptFlowMeasVar());
"""]],
     'a velocity reset to optical flow','The vertical velocity, which the reset leaves alone, is decorrelated and gets the variance of the horizontal flow velocity.',
     H+'''int main() {
	Ekf *e = new Ekf; step(e, 1000); e->_flow_sample_delayed.dt = 0.02f; e->_flow_sample_delayed.quality = 200; e->_terrain_vpos = e->_state.pos(2) + 10.f;
	e->_range_sensor._cos_tilt_rng_to_earth = 1.f;
	float v = e->P(6,6), k = e->P(6,9); e->resetHorizontalVelocityToOpticalFlow();
	if (fabsf(e->P(6,6) - v) > 1e-6f || fabsf(e->P(6,9) - k) > 1e-7f) { std::printf("%g %g\\n", (double)v, (double)e->P(6,6)); return 1; }
	return 0;
}
''')
