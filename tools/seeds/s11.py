import sys; sys.path.insert(0,'.'); import os; sys.path.insert(0,os.path.dirname(os.path.abspath(__file__)))
from s6 import mk, H, HP, I
if __name__ == '__main__':
    mk('b41','Q01',[['EKF/gps_checks.cpp',"""	if (_last_gps_fail_us == 0) {
		_last_gps_fail_us = _time_last_imu;
	}
""","""	if (_last_gps_fail_us == 0 && _gps_check_fail_status.value != 0) {
		_last_gps_fail_us = _time_last_imu;
	}
"""]],
     'a receiver whose first fix passes every check, connected after the health period has already run','The first fix does not count as a failure any more: a receiver plugged in late is accepted with its very first fix instead of after ten seconds of good checks.',
     H+'''int main() {
	Ekf *e = new Ekf; step(e, 1000); e->_time_last_imu = 60000000; e->_params.req_nsats = 6;
	gps_message g{}; g.time_usec = 60000000; g.lat = 473566094; g.lon = 85190237; g.alt = 422056; g.fix_type = 3; g.eph = 0.5f; g.epv = 0.8f; g.sacc = 0.2f; g.nsats = 16; g.pdop = 1.f; g.vel_ned_valid = true;
	if (e->gps_is_good(g)) { std::printf("good with the first fix\\n"); return 1; }
	return 0;
}
''')
    mk('b42','Q02',[['EKF/gps_checks.cpp',"map_projection_reproject(&_pos_ref, -_state.pos(0), -_state.pos(1), &est_lat, &est_lon);","map_projection_reproject(&_pos_ref, -_state.pos(0), _state.pos(1), &est_lat, &est_lon);"]],
     'an origin set in flight while another source is aiding, with a position east of the start','The origin is put on the wrong side of the fix in east direction: the vehicle seems to jump by twice its east position in global coordinates.',
     H+'''int main() {
	Ekf *e = new Ekf; step(e, 1000); e->_time_last_imu = 60000000; e->_control_status.flags.ev_pos = true; e->_state.pos = Vector3f(0.f, 100.f, 0.f); e->_last_gps_fail_us = 1; e->_params.gps_check_mask = 0;
	gps_message g{}; g.time_usec = 60000000; g.lat = 473566094; g.lon = 85190237; g.alt = 422056; g.fix_type = 3; g.eph = 0.5f; g.epv = 0.8f; g.sacc = 0.2f; g.nsats = 16; g.pdop = 1.f; g.vel_ned_valid = true;
	e->collect_gps(g); if (!e->_NED_origin_initialised) { std::printf("no origin\\n"); return 1; }
	double la, lo; map_projection_reproject(&e->_pos_ref, 0.f, 100.f, &la, &lo);
	if (fabs(lo - 8.5190237) > 1e-5) { std::printf("east position %.6f\\n", lo); return 1; }
	return 0;
}
''')
    mk('b43','T01',[['EKF/terrain_estimator.cpp',"""	if (!_control_status.flags.in_air) {
		_last_on_ground_posD = _state.pos(2);
	}
""","""	if (!_control_status.flags.in_air && !_terrain_initialised) {
		_last_on_ground_posD = _state.pos(2);
	}
"""]],
     'a landing at another height, followed by a flight without any height above ground sensor','The height of the last ground contact is only recorded until the estimator has first been initialised: after a landing elsewhere the reported terrain is that of the first start.',
     H+'''int main() {
	Ekf *e = new Ekf; step(e, 1000);
	e->_control_status.flags.in_air = false; e->_state.pos(2) = -20.f; e->runTerrainEstimator();
	e->_hagl_valid = false; float z = e->getTerrainVPos();
	if (fabsf(z + 20.f) > 0.01f) { std::printf("%f\\n", (double)z); return 1; }
	return 0;
}
''')
    mk('b44','T02',[['EKF/terrain_estimator.cpp',"flow_test_ratio = sq(_flow_innov(1)) / (sq(gate_size) * _flow_innov_var(1));","flow_test_ratio = sq(_flow_innov(1)) / (sq(gate_size) * _flow_innov_var(0));"]],
     'flow in forward flight, where the innovation variances of the two axes differ','The gate of the second flow axis uses the innovation variance of the first: consistent data is rejected or inconsistent data accepted.',
     H+'''int main() {
	Ekf *e = new Ekf; step(e, 1000); e->_state.quat_nominal = Quatf(1.f, 0.f, 0.f, 0.f); e->_R_to_earth.setIdentity(); e->_state.vel = Vector3f(0.f, 10.f, 0.f); e->_state.pos(2) = -10.f; e->_terrain_vpos = 0.f; e->_terrain_var = 100.f;
	e->_flow_sample_delayed.dt = 0.1f; e->_flow_sample_delayed.quality = 255; e->_flow_sample_delayed.gyro_xyz.setZero(); e->_flow_gyro_bias.setZero();
	e->_flow_compensated_XY_rad = matrix::Vector2f(0.1f, 0.3f);	// the second axis is not explained by the motion
	e->_time_last_imu = 100; e->_time_last_flow_terrain_fuse = 0;
	e->_params.flow_noise = e->_params.flow_noise_qual_min = 0.1f; float gate = fmaxf(e->_params.flow_innov_gate, 1.f), in, tr;

	// feed only the second axis: make the first one inconsistent
	e->_terrain_vpos = 0.f; e->_terrain_var = 40.f; e->_flow_compensated_XY_rad = matrix::Vector2f(100.f, 0.12f); e->_time_last_flow_terrain_fuse = 0; e->fuseFlowForTerrain();
	bool used = e->_time_last_flow_terrain_fuse != 0;
	in = e->_flow_innov(1); tr = in * in / (gate * gate * e->_flow_innov_var(1));
	if (used != (tr <= 1.f)) { std::printf("ratio %f used %d\\n", (double)tr, used); return 1; }
	return 0;
}
''')
    mk('b45','Y01',[['EKF/EKFGSF_yaw.cpp',"""	_ekf_gsf[model_index].P(0,1) = -P12*S4 + S5*S6 + S8;
	_ekf_gsf[model_index].P(1,1) = P11 + P12*S6 + S1*dvyVar + S3*dvxVar + S6*S9;
	_ekf_gsf[model_index].P(0,2) = S5;
	_ekf_gsf[model_index].P(1,2) = S9;
""","""	_ekf_gsf[model_index].P(0,2) = S5;
	_ekf_gsf[model_index].P(1,2) = S9;
	_ekf_gsf[model_index].P(0,1) = -P12*S4 + S5*S6 + S8;
	_ekf_gsf[model_index].P(1,1) = P11 + P12*S6 + S1*dvyVar + S3*dvxVar + S6*S9;
"""]],
     'a model with correlated yaw and velocity that accelerates','Two covariances are written before expressions that still refer to them by reference: the predicted velocity covariance is formed from already predicted terms.',
     H+'''int main() {
	EKFGSF_yaw *y = new EKFGSF_yaw; y->_ekf_gsf_vel_fuse_started = true; y->_ahrs_ekf_gsf_tilt_aligned = true; y->_ahrs_ekf_gsf[0].R.setIdentity(); y->_delta_ang_dt = y->_delta_vel_dt = 0.01f; y->_delta_vel = Vector3f(1.f, 0.f, 0.f); y->_delta_ang.setZero();
	auto &P = y->_ekf_gsf[0].P; P.setZero(); P(0,0) = P(1,1) = 1.f; P(2,2) = 2.f; P(1,2) = P(2,1) = 0.5f; y->predictEKF(0);
	float want = 1.f + 2.f * 0.5f + 2.f;	// P11 + 2 dv P12 + dv^2 P22
	if (fabsf(P(1,1) - want) > 0.01f) { std::printf("%f instead of %f\\n", (double)P(1,1), (double)want); return 1; }
	return 0;
}
''')
    mk('b46','Y03',[['EKF/EKFGSF_yaw.cpp',"""	// prevent the same velocity data being used more than once
	_vel_data_updated = false;
""",""""""],['EKF/EKFGSF_yaw.cpp',"""	if (_run_ekf_gsf && _vel_data_updated) {
""","""	if (_run_ekf_gsf && _vel_data_updated) {
		// prevent the same velocity data being used more than once
		_vel_data_updated = false;

"""]],
     'a velocity received on ground, then a takeoff without GPS','A velocity received while the estimator is not running stays pending and is used as a fresh measurement at the next takeoff.',
     H+'''int main() {
	EKFGSF_yaw *y = new EKFGSF_yaw; uint64_t tt = 0; auto im = [&]() { tt += 5000; return imu(tt); };
	for (int i = 0; i < 10; i++) y->update(im(), false, 0.f, Vector3f());
	y->setVelocity(matrix::Vector2f(3.f, 0.f), 0.5f); for (int i = 0; i < 1000; i++) y->update(im(), false, 0.f, Vector3f());
	y->update(im(), true, 0.f, Vector3f());
	float a, b; if (y->getYawData(&a, &b)) { std::printf("old velocity used\\n"); return 1; }
	return 0;
}
''')
    mk('b47','Y02',[['EKF/EKFGSF_yaw.cpp',"""		_ahrs_ekf_gsf[model_index].gyro_bias -= tilt_correction * (_gyro_bias_gain * _delta_ang_dt);
""","""		_ahrs_ekf_gsf[0].gyro_bias -= tilt_correction * (_gyro_bias_gain * _delta_ang_dt);
"""]],
     'a tilt error at low rates','Every model learns its gyro bias into the first one: the other biases stay zero and the first is wrong.',
     H+'''int main() {
	EKFGSF_yaw *y = new EKFGSF_yaw; for (int i = 0; i < 5; i++) y->_ahrs_ekf_gsf[i].R.setIdentity();
	y->_delta_ang_dt = y->_delta_vel_dt = 0.01f; y->_delta_ang.setZero(); y->_ahrs_accel = Vector3f(1.f, 0.f, -9.75f); y->_ahrs_accel_norm = 9.8f; y->_ahrs_accel_fusion_gain = 0.2f;
	y->ahrsPredict(2);
	if (y->_ahrs_ekf_gsf[2].gyro_bias.norm() < 1e-7f || y->_ahrs_ekf_gsf[0].gyro_bias.norm() > 1e-7f) { std::printf("wrong model\\n"); return 1; }
	return 0;
}
''')
