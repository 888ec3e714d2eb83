import sys; sys.path.insert(0,'.'); import os; sys.path.insert(0,os.path.dirname(os.path.abspath(__file__)))
from s6 import mk, H, HP, I
CO='EKF/covariance.cpp'
if __name__ == '__main__':
    mk('b31','F02',[[CO,"const float PS113 = -P(2,10)*PS9 - P(2,11)*PS34 + P(2,12)*PS6 + P(2,2) + PS112 + PS31 - PS90;","const float PS113 = -P(2,10)*PS9 - P(2,11)*PS34 + P(2,12)*PS6 + P(2,2) + PS112 + PS31 + PS90;"]],
     'rotation about the body z axis together with correlated x and y attitude errors','One of the 187 intermediate terms of the covariance prediction has a wrong sign: the attitude variance is turned the wrong way.',
     H+'''int main() {
	Ekf *e = new Ekf; step(e, 1000); e->P.setZero(); for (int i = 0; i < 24; i++) e->P(i, i) = i < 4 ? 1e-3f : 1e-8f; e->P(1, 2) = e->P(2, 1) = 9e-4f;
	e->_state.delta_ang_bias.setZero(); e->_imu_sample_delayed.delta_ang = Vector3f(0.f, 0.f, 0.4f);
	float p11 = e->P(1, 1), p22 = e->P(2, 2), p12 = e->P(1, 2); float a = 0.2f;
	// q2' = q2 - a q1 + ..., the other terms are tiny here
	e->predictCovariance(); float r = p22 - 2 * a * p12 + a * a * p11;
	if (fabsf(e->P(2, 2) - r) > 0.1f * r) { std::printf("%g instead of %g\\n", (double)e->P(2, 2), (double)r); return 1; }
	return 0;
}
''')
    mk('b32','F02',[[CO,"""				_prev_dvel_bias_var(index) = P(stateIndex, stateIndex);
				_accel_bias_inhibit[index] = true;
			}
""","""				_prev_dvel_bias_var(index) = P(stateIndex, stateIndex);
			}
			_accel_bias_inhibit[index] = do_inhibit_all_axes || !is_bias_observable;
"""]],
     'an accelerometer axis that clips while its bias is being learned','Clipping of one axis no longer stops the learning of its bias (the variance is remembered, but the axis is not inhibited).',
     H+'''int main() {
	Ekf *e = new Ekf; step(e, 1000); e->_control_status.flags.in_air = true; e->_fault_status.flags.bad_acc_vertical = false; e->_ang_rate_magnitude_filt = 0; e->_accel_magnitude_filt = 0;
	for (int k = 0; k < 3; k++) { e->_accel_bias_inhibit[k] = false; e->_imu_sample_delayed.delta_vel_clipping[k] = false; }
	e->_imu_sample_delayed.delta_vel_clipping[1] = true; e->predictCovariance();
	if (!e->_accel_bias_inhibit[1] || e->_accel_bias_inhibit[0]) { std::printf("clipping axis is learned\\n"); return 1; }
	return 0;
}
''')
    mk('b33','F03',[[CO,"				     ||   (down_dvel_bias * _rng_hgt_innov(2) < 0.0f && _control_status.flags.rng_hgt)","				     ||   (down_dvel_bias * _baro_hgt_innov(2) < 0.0f && _control_status.flags.rng_hgt)"]],
     'accelerometer bias at its limit while the range finder is the height source and the barometer agrees','With the range finder as height source the accelerometer bias is checked against the barometer innovation: the fault is missed or raised wrongly.',
     H+'''int main() {
	Ekf *e = new Ekf; step(e, 1000); for (int k = 0; k < 3; k++) e->_accel_bias_inhibit[k] = false;
	e->_R_to_earth = Dcmf(); e->_state.delta_vel_bias = Vector3f(0.f, 0.f, 0.01f); e->_params.acc_bias_lim = 0.4f; e->_dt_ekf_avg = 0.01f;
	auto &f = e->_control_status.flags; f.gps = true; f.ev_vel = f.gps_hgt = f.baro_hgt = f.ev_hgt = false; f.rng_hgt = true;
	e->_gps_vel_innov(2) = -1.f; e->_rng_hgt_innov(2) = -1.f; e->_baro_hgt_innov(2) = 1.f;
	e->_time_last_imu = 100000000; e->_time_acc_bias_check = e->_time_last_imu;
	e->fixCovarianceErrors(false); if (!e->_fault_status.flags.bad_acc_bias) { std::printf("missed\\n"); return 1; }
	return 0;
}
''')
    mk('b34','F03',[[CO,"""		if (P(i, i) < KHP(i, i)) {
			P.uncorrelateCovarianceSetVariance<1>(i, 0.0f);
			healthy = false;
		}""","""		if (P(i, i) < KHP(i, i)) {
			P.uncorrelateCovarianceSetVariance<1>(i, 0.0f);
			healthy = false;
			break;
		}"""]],
     'an update that would make the variances of two states negative at once','Only the first state whose variance would get negative is repaired.',
     H+'''int main() {
	Ekf *e = new Ekf; step(e, 1000); Ekf::SquareMatrix24f K; K.setZero(); K(3, 3) = 1e9f; K(20, 20) = 1e9f; e->P(20, 20) = 0.1f; e->P(3, 3) = 0.1f;
	bool r = e->checkAndFixCovarianceUpdate(K); if (r || e->P(3, 3) > 0.f || e->P(20, 20) > 0.f) { std::printf("not repaired\\n"); return 1; }
	return 0;
}
''')
