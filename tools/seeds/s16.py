import sys, os; sys.path.insert(0,os.path.dirname(os.path.abspath(__file__)))
from s6 import mk, H, HP, I
from s14 import FRESH
if __name__ == '__main__':
    mk('b80','S02',[[HP,"	const matrix::Dcmf R_to_body(_output_new.quat_nominal.inversed());\n\n	// Calculate airspeed in body frame\n	const Vector3f velocity_earth","	const matrix::Dcmf R_to_body(_output_new.quat_nominal);\n\n	// Calculate airspeed in body frame\n	const Vector3f velocity_earth"]],
     'a static pressure coefficient and a vehicle that does not face north, so that the rotation and its inverse differ','The airspeed that corrects the barometer is turned the wrong way round: flying east while facing east counts as airspeed from behind.',
     H+'''int main() {
	Ekf *e = new Ekf; e->_air_density = 1.2f; e->_params.static_pressure_coef_xp = 0.5f; e->_params.static_pressure_coef_xn = -0.25f; e->_params.max_correction_airspeed = 30.f;
	for (float yaw : {0.f, 1.5707963f, -0.7f, 3.1f}) {
		e->_output_new.quat_nominal = Quatf(Eulerf(0.f, 0.f, yaw));
		e->_output_new.vel = Vector3f(10.f * cosf(yaw), 10.f * sinf(yaw), 0.f); e->_vel_imu_rel_body_ned.zero(); e->_state.wind_vel.zero();
		const float h = e->compensateBaroForDynamicPressure(100.f), want = 100.f + 0.5f * 100.f * 0.5f / 9.80665f;
		if (!(fabsf(h - want) < 1e-2f)) { std::printf("yaw %f: %f not %f\\n", (double)yaw, (double)h, (double)want); return 1; }
	}
	return 0;
}
''')
    mk('b81','S02',[[HP,"matrix::min(airspeed_body.emult(airspeed_body), sq(_params.max_correction_airspeed))","matrix::min(airspeed_body.emult(airspeed_body), _params.max_correction_airspeed)"]],
     'an airspeed whose square exceeds the limit but which does not exceed it itself','The limit on the airspeed is compared with the square of the airspeed.',
     H+'''int main() {
	Ekf *e = new Ekf; e->_air_density = 1.2f; e->_params.static_pressure_coef_xp = 0.5f; e->_params.max_correction_airspeed = 20.f;
	e->_output_new.quat_nominal = Quatf(); e->_vel_imu_rel_body_ned.zero(); e->_state.wind_vel.zero();
	for (float v : {2.f, 4.f, 15.f, 20.f, 40.f}) {
		e->_output_new.vel = Vector3f(v, 0.f, 0.f);
		const float m = v < 20.f ? v : 20.f, h = e->compensateBaroForDynamicPressure(0.f), want = 0.5f * m * m * 0.5f / 9.80665f;
		if (!(fabsf(h - want) < 1e-2f)) { std::printf("%f: %f not %f\\n", (double)v, (double)h, (double)want); return 1; }
	}
	return 0;
}
''')
    from mkseed import make
    from s6 import EK
    def mkb(*a): make(*a, srcs=EK, shim=True, flags='-O0 -g0 -fsanitize=bounds -fno-sanitize-recover=all')
    mkb('b82','P06',[['EKF/EKFGSF_yaw.cpp',"			for (uint8_t model_index = 0; model_index < N_MODELS_EKFGSF; model_index ++) {\n				_ahrs_ekf_gsf[model_index].gyro_bias = imu_gyro_bias;","			for (uint8_t model_index = 0; model_index <= N_MODELS_EKFGSF; model_index ++) {\n				_ahrs_ekf_gsf[model_index].gyro_bias = imu_gyro_bias;"]],
     'the first GPS velocity handed to the yaw estimator after its attitude filters have aligned','The gyro bias is also written to a sixth attitude filter, which is the memory behind the five there are.',
     H+'''int main() {
	EKFGSF_yaw *y = new EKFGSF_yaw;
	for (int i = 1; i < 200; i++) { y->setVelocity(matrix::Vector2f(1.f, 0.f), 0.5f); y->update(imu(i * 5000), i > 100, 0.f, Vector3f(0.01f, 0.f, 0.f)); }
	if (!y->_ekf_gsf_vel_fuse_started) { std::printf("setup\\n"); }
	for (int m = 0; m < N_MODELS_EKFGSF; m++) if (!std::isfinite(y->_ahrs_ekf_gsf[m].gyro_bias(0))) return 1;
	return 0;
}
''')
    mkb('b83','P06',[['EKF/covariance.cpp',"	if (!_control_status.flags.wind) {\n		P.uncorrelateCovarianceSetVariance<2>(22, 0.0f);","	if (!_control_status.flags.wind) {\n		P.uncorrelateCovarianceSetVariance<3>(22, 0.0f);"]],
     'a vehicle that does not estimate wind','Clearing the covariance of the unused wind states also clears a third one, in memory behind the matrix.',
     H+'''int main() {
	Ekf *e = new Ekf; step(e, 400);
	e->_control_status.flags.wind = false; e->P(22, 3) = 0.1f;
	e->_last_vel_obs = Vector3f(1.f, 2.f, 3.f); e->_last_vel_obs_var = Vector3f(4.f, 5.f, 6.f); e->fixCovarianceErrors(true);
	if (e->_last_vel_obs(1) != 2.f || e->_last_vel_obs_var(2) != 6.f) { std::printf("%f %f\\n", (double)e->_last_vel_obs(1), (double)e->_last_vel_obs_var(2)); return 1; }
	for (int i = 0; i < 24; i++) if (e->P(22, i) != 0.f || e->P(i, 23) != 0.f) { std::printf("%d\\n", i); return 1; }
	return 0;
}
''')
    mkb('b84','P06',[['EKF/EKFGSF_yaw.cpp',"""		for (uint8_t model_index = 0; model_index < N_MODELS_EKFGSF; model_index++) {
			yaw[model_index] = _ekf_gsf[model_index].X(2);""","""		for (uint8_t n = 1; n <= N_MODELS_EKFGSF; n++) {
			const uint8_t model_index = n - (n > 2 ? 0 : 1);
			yaw[model_index] = _ekf_gsf[model_index].X(2);"""]],
     'the log data of the yaw estimator read after it has started','The models are numbered from one half way through: the last is read from behind the array and one is left out.',
     H+'''int main() {
	EKFGSF_yaw *y = new EKFGSF_yaw; y->_ekf_gsf_vel_fuse_started = true;
	for (int m = 0; m < N_MODELS_EKFGSF; m++) { y->_ekf_gsf[m].X(2) = 0.1f * (m + 1); }
	float c, v, yaw[16] {}, a[16] {}, b[16] {}, w[16] {};
	y->getLogData(&c, &v, yaw, a, b, w);
	for (int m = 0; m < N_MODELS_EKFGSF; m++) if (yaw[m] != 0.1f * (m + 1)) { std::printf("%d\\n", m); return 1; }
	return 0;
}
''')
    mk('b85','P04',[['EKF/RingBuffer.h',"""	// no copy, assignment, move, move assignment
	RingBuffer(const RingBuffer &) = delete;
	RingBuffer &operator=(const RingBuffer &) = delete;
	RingBuffer(RingBuffer &&) = delete;
	RingBuffer &operator=(RingBuffer &&) = delete;

""",""]],
     'a copy of an estimator, or of one of its buffers','Buffers, and with them whole estimators, can be copied: original and copy then write to the same storage and both release it.',
     H+'''#include <type_traits>
template<class B, bool copies = std::is_copy_constructible<B>::value> struct Try { static int go() { return 0; } };
template<class B> struct Try<B, true> { static int go() {
	B *a = new B; a->allocate(3); estimator::baroSample s; s.hgt = 1.f; s.time_us = 1000; a->push(s);
	B *b = new B(*a); s.hgt = 2.f; s.time_us = 2000; b->push(s); b->push(s); b->push(s);
	if (a->get_newest().hgt != 1.f) { std::printf("shared\\n"); return 1; }
	return 0;
} };
int main() { return Try<RingBuffer<estimator::baroSample>>::go(); }
''')
