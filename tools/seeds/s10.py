import sys; sys.path.insert(0,'.'); import os; sys.path.insert(0,os.path.dirname(os.path.abspath(__file__)))
from s6 import mk, H, HP, I
if __name__ == '__main__':
    mk('b35','F04',[['EKF/ekf.h',"""		for (unsigned i = 0; i < 3; i++) {
			if (_accel_bias_inhibit[i]) {
				K(13 + i) = 0.0f;
			}
		}

		// apply covariance correction via P_new = (I -K*H)*P
		// first calculate expression for KHP
		// then calculate P - KHP
		const SquareMatrix24f KHP = computeKHP(K, H);
""","""		// apply covariance correction via P_new = (I -K*H)*P
		// first calculate expression for KHP
		// then calculate P - KHP
		const SquareMatrix24f KHP = computeKHP(K, H);

		for (unsigned i = 0; i < 3; i++) {
			if (_accel_bias_inhibit[i]) {
				K(13 + i) = 0.0f;
			}
		}
"""]],
     'a measurement correlated with an accelerometer bias that is not being learned','The gain of an inhibited accelerometer bias is zeroed only after the covariance reduction was computed with it: its variance shrinks although the state is not corrected.',
     H+'''int main() {
	Ekf *e = new Ekf; step(e, 1000); e->P.setZero(); for (int i = 0; i < 24; i++) e->P(i, i) = 1e-3f;
	e->_accel_bias_inhibit[0] = false; e->_accel_bias_inhibit[1] = true; e->_accel_bias_inhibit[2] = false;
	for (int i = 13; i < 16; i++) e->P(i, i) = 1e-6f; e->P(14, 4) = e->P(4, 14) = 2e-5f; float v = e->P(14, 14);
	Ekf::SparseVector24f<4> Hf; Hf.at<4>() = 1.f; Ekf::Vector24f K; for (int i = 0; i < 24; i++) K(i) = e->P(i, 4) / 2e-3f;
	if (!e->measurementUpdate(K, Hf, 0.1f)) { std::printf("not fused\\n"); return 1; }
	if (fabsf(e->P(14, 14) - v) > 1e-9f) { std::printf("%g instead of %g\\n", (double)e->P(14, 14), (double)v); return 1; }
	return 0;
}
''')
    mk('b36','F05',[['EKF/airspeed_fusion.cpp',"		for (unsigned row = 7; row <= 21; row++) {","		for (unsigned row = 7; row < 21; row++) {"]],
     'dead reckoning on airspeed with a correlated body field','When airspeed carries the navigation one state (the z body field) does not get its gain, while its covariance is reduced as if it had.',
     H+'''int main() {
	Ekf *e = new Ekf; step(e, 1000); e->_is_wind_dead_reckoning = true; e->P.setZero(); for (int i = 0; i < 24; i++) e->P(i, i) = 1e-2f;
	e->_control_status.flags.wind = true; e->_control_status.flags.mag_3D = true; e->_state.vel = Vector3f(10.f, 0.f, 0.f); e->_state.wind_vel.setZero();
	e->P(4, 4) = 1.f; e->P(21, 4) = e->P(4, 21) = 0.05f; e->_airspeed_sample_delayed.true_airspeed = 10.5f; e->_airspeed_sample_delayed.eas2tas = 1.f;
	float b = e->_state.mag_B(2); e->fuseAirspeed();
	if (fabsf(e->_state.mag_B(2) - b) < 1e-4f) { std::printf("state not corrected\\n"); return 1; }
	return 0;
}
''')
    mk('b37','F06',[['EKF/mag_fusion.cpp',"""			// Calculate Y axis observation jacobians
			Hfusion.setZero();
""","""			// Calculate Y axis observation jacobians
"""]],
     'three axis fusion with uncertain body field states','The derivative of the x axis with respect to its body field state is left in place while the y axis is fused.',
     H+'''int main() {
	Ekf *e = new Ekf; step(e, 1000); e->P.setZero(); for (int i = 0; i < 24; i++) e->P(i, i) = 1e-8f;
	e->_control_status.flags.mag_3D = true; e->_control_status.flags.synthetic_mag_z = false; e->_state.quat_nominal = Quatf(1.f, 0.f, 0.f, 0.f);
	e->P(19, 19) = e->P(20, 20) = 0.5f; e->_params.mag_noise = 0.5f; e->_state.mag_I = Vector3f(0.2f, 0.f, 0.4f); e->_state.mag_B.setZero();
	e->_mag_sample_delayed.mag = Vector3f(0.2f, 0.f, 0.4f); e->fuseMag();
	if (fabsf(e->P(20, 19)) > 1e-3f) { std::printf("%g\\n", (double)e->P(20, 19)); return 1; }
	return 0;
}
''')
    mk('b38','F07',[['EKF/mag_fusion.cpp',"""					fuse_zero_innov = true;
					R_YAW = 0.25f;

				}
				_last_static_yaw = predicted_hdg;

			} else {
				// Vehicle is at rest so use the last moving prediction as an observation
				// to prevent the heading from drifting and to enable yaw gyro bias learning
				// before takeoff.
				measured_hdg = _last_static_yaw;

			}
		} else {
			_last_static_yaw = predicted_hdg;

		}

		fuseYaw312(""","""					fuse_zero_innov = true;
					R_YAW = 0.25f;
					_last_static_yaw = predicted_hdg;
				}

			} else {
				// Vehicle is at rest so use the last moving prediction as an observation
				// to prevent the heading from drifting and to enable yaw gyro bias learning
				// before takeoff.
				measured_hdg = _last_static_yaw;

			}
		} else {
			_last_static_yaw = predicted_hdg;

		}

		fuseYaw312("""]],
     'yaw fusion inhibited, a pitched vehicle that turns with a certain attitude and then stops','With more pitch than roll the yaw kept for a vehicle at rest is only updated while the attitude is uncertain: on stopping, the heading is pulled back to an old one.',
     H+'''int main() {
	Ekf *e = new Ekf; step(e, 1000); e->_is_yaw_fusion_inhibited = true; e->_control_status.flags.vehicle_at_rest = false; e->_last_static_yaw = -1.f;
	e->_state.quat_nominal = Quatf(Eulerf(0.f, 0.3f, 0.7f)); for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) e->P(i, j) = i == j ? 1e-6f : 0.f;
	e->fuseHeading(); if (fabsf(e->_last_static_yaw - 0.7f) > 1e-2f) { std::printf("%g\\n", (double)e->_last_static_yaw); return 1; }
	return 0;
}
''')
    mk('b39','F08',[['EKF/optflow_fusion.cpp',"""		_flow_sample_delayed.gyro_xyz = -_imu_del_ang_of;
		_flow_gyro_bias.zero();
""","""		_flow_sample_delayed.gyro_xyz = -_imu_del_ang_of;
"""]],
     'a flow sensor whose gyro data stop after a bias was learned','The gyro bias of the flow sensor is still applied when the body rate comes from the IMU.',
     H+'''int main() {
	Ekf *e = new Ekf; e->_flow_gyro_bias.setZero(); e->_flow_sample_delayed.dt = 0.1f;
	for (int i = 0; i < 200; i++) { e->_delta_time_of = 0.1f; e->_imu_del_ang_of.setZero(); e->_flow_sample_delayed.gyro_xyz = Vector3f(0.005f, 0.f, 0.f); e->calcOptFlowBodyRateComp(); }
	if (fabsf(e->_flow_gyro_bias(0)) < 0.01f) { std::printf("nothing learned\\n"); return 1; }
	e->_delta_time_of = 0.1f; e->_imu_del_ang_of = Vector3f(0.01f, 0.f, 0.f); e->_flow_sample_delayed.gyro_xyz = Vector3f(NAN, NAN, NAN); e->calcOptFlowBodyRateComp();
	if (fabsf(e->_flow_gyro_bias(0)) > 1e-6f) { std::printf("%g\\n", (double)e->_flow_gyro_bias(0)); return 1; }
	return 0;
}
''')
    mk('b40','F09',[['EKF/drag_fusion.cpp',"_drag_sample_delayed.accelXY(axis_index)  - _state.delta_vel_bias(axis_index) / _dt_ekf_avg","_drag_sample_delayed.accelXY(axis_index)  - _state.delta_vel_bias(0) / _dt_ekf_avg"]],
     'different accelerometer biases in x and y','The y axis force is corrected with the bias of the x axis.',
     H+'''int main() {
	Ekf *e = new Ekf; step(e, 1000); e->_params.bcoef_x = e->_params.bcoef_y = 25.f; e->_state.vel.setZero(); e->_state.wind_vel.setZero(); e->_control_status.flags.wind = true;
	e->_drag_sample_delayed.accelXY = matrix::Vector2f(0.f, 0.f); e->_state.delta_vel_bias = Vector3f(0.02f, 0.f, 0.f); e->_dt_ekf_avg = 0.01f; e->fuseDrag();
	if (fabsf(e->_drag_innov(1)) > 0.1f) { std::printf("%g\\n", (double)e->_drag_innov(1)); return 1; }
	return 0;
}
''')
