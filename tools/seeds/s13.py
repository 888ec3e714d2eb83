import sys, os; sys.path.insert(0,os.path.dirname(os.path.abspath(__file__)))
from s6 import mk, H, HP, I
C='EKF/control.cpp'
if __name__ == '__main__':
    mk('b52','C01',[[C,"			if (!_gps_hgt_intermittent && _gps_checks_passed) {\n				// GPS quality OK","			if (!_gps_hgt_intermittent || _gps_checks_passed) {\n				// GPS quality OK"]],
     'GPS as the primary height source, range aid ending (climbing) while the GPS data have stopped after the checks passed','The height source falls back to a GPS that sends nothing instead of the barometer.',
     H+'''int main() {
	Ekf *e = new Ekf; step(e, 400); e->_params.vdist_sensor_type = VDIST_SENSOR_GPS; e->_params.range_aid = 1;
	auto &f = e->_control_status.flags; f.baro_hgt = f.gps_hgt = f.ev_hgt = false; f.rng_hgt = true; e->_control_status_prev.value = e->_control_status.value;
	e->_gps_hgt_intermittent = true; e->_gps_checks_passed = true; e->_baro_hgt_faulty = false; f.in_air = true;
	e->controlHeightFusion();
	if (!f.baro_hgt || f.gps_hgt) { std::printf("baro %d gps %d\\n", (int)f.baro_hgt, (int)f.gps_hgt); return 1; }
	return 0;
}
''')
    mk('b53','C01',[[C,"const float range_hagl_max = _is_range_aid_suitable ? _params.max_hagl_for_range_aid : (_params.max_hagl_for_range_aid * 0.7f);","const float range_hagl_max = _control_status.flags.rng_hgt ? _params.max_hagl_for_range_aid : (_params.max_hagl_for_range_aid * 0.7f);"]],
     'range finder as the primary sensor or as a height source that is kept after range aid became unsuitable, height between 70 % and 100 % of the limit','The hysteresis of the range aid follows the height source in use instead of its own state: it becomes suitable again above 70 % of the height limit.',
     H+'''int main() {
	Ekf *e = new Ekf; step(e, 100); e->_time_last_imu = 100000000; e->_imu_sample_delayed.time_us = 100000000;
	auto &f = e->_control_status.flags; f.in_air = true; f.rng_hgt = true; e->_is_range_aid_suitable = false;
	e->_range_sensor._is_sample_ready = true; e->_range_sensor._is_sample_valid = true; e->_range_sensor._time_last_valid_us = 100000000; e->_range_sensor._is_regularly_sending_data = true;
	e->_hagl_valid = true; e->_time_last_hagl_fuse = 100000000; e->_params.max_hagl_for_range_aid = 10.f; e->_state.pos(2) = 0.f; e->_terrain_vpos = 8.f; e->_hagl_innov = 0.f; e->_hagl_innov_var = 1.f;
	for (int i = 0; i < 2; i++) { e->checkRangeAidSuitability(); }
	if (e->_is_range_aid_suitable) { std::printf("suitable at 8 m\\n"); return 1; }
	e->_terrain_vpos = 6.f; e->checkRangeAidSuitability(); if (!e->_is_range_aid_suitable) { std::printf("setup\\n"); return 0; }
	return 0;
}
''')
    mk('b54','C03',[[C,"((gps_hgt_accurate && !prev_bad_vert_accel) || _baro_hgt_faulty);","(gps_hgt_accurate && (!prev_bad_vert_accel || _baro_hgt_faulty));"]],
     'a barometer that stops while GPS reports a poor vertical accuracy','The height timeout finds no source: neither the failed barometer nor the inaccurate GPS is used and the height is never reset.',
     H+'''int main() {
	Ekf *e = new Ekf; step(e, 400);
	auto &f = e->_control_status.flags; f.baro_hgt = true; f.gps_hgt = f.ev_hgt = f.rng_hgt = false;
	e->_gps_buffer.allocate(4); gpsSample g{}; g.time_us = t; g.vacc = 20.f; g.hgt = 100.f; e->_gps_buffer.push(g);
	e->_gps_hgt_intermittent = false; e->_baro_hgt_faulty = true; e->_time_last_imu = 100000000; e->_time_last_hgt_fuse = 1000000; e->_time_good_vert_accel = 100000000;
	e->controlHeightSensorTimeouts();
	if (!f.gps_hgt) { std::printf("no height source\\n"); return 1; }
	return 0;
}
''')
    mk('b55','C03',[[C,"const bool using_ev_for_both = _control_status.flags.ev_hgt && _control_status.flags.ev_vel;","const bool using_ev_for_both = _control_status.flags.ev_hgt && _control_status.flags.ev_pos;"]],
     'vision height and vision velocity, without vision position, disagreeing with the accelerometer together','Height and vertical speed of the same vision system count as independent witnesses: a vision failure is taken for a bad accelerometer.',
     H+'''int main() {
	Ekf *e = new Ekf; step(e, 100); e->_time_last_imu = 100000000; e->_vert_pos_fuse_attempt_time_us = e->_vert_vel_fuse_time_us = 99900000;
	auto &f = e->_control_status.flags; f.ev_hgt = f.ev_vel = true; f.ev_pos = f.gps = f.gps_hgt = f.baro_hgt = false;
	e->_vert_vel_innov_ratio = e->_vert_pos_innov_ratio = e->_params.vert_innov_test_lim * 2.f; e->_clip_counter = 0; e->_fault_status.value = 0;
	e->checkVerticalAccelerationHealth();
	if (e->_fault_status.flags.bad_acc_vertical) { std::printf("bad acc\\n"); return 1; }
	return 0;
}
''')
    mk('b56','C06',[[C,"e->x" if False else "							  _ekfgsf_yaw_reset_count < _params.EKFGSF_reset_count_limit &&\n							  isTimedOut(_ekfgsf_yaw_reset_time, 5000000) &&","							  (_do_ekfgsf_yaw_reset || (_ekfgsf_yaw_reset_count < _params.EKFGSF_reset_count_limit)) &&\n							  isTimedOut(_ekfgsf_yaw_reset_time, 5000000) &&"]],
     'a yaw reset requested from outside after the number of resets allowed is used up','The limit on the number of yaw resets no longer counts for requested ones.',
     H+'''int main() {
	Ekf *e = new Ekf; step(e, 400);
	auto &y = e->_yawEstimator; y._ekf_gsf_vel_fuse_started = true; y._gsf_yaw_variance = 1e-4f; y._gsf_yaw = 1.f;
	auto &f = e->_control_status.flags; f.gps = true; f.in_air = true; f.tilt_align = f.yaw_align = true; e->_params.fusion_mode = MASK_USE_GPS; e->_NED_origin_initialised = true;
	e->_time_last_imu = e->_imu_sample_delayed.time_us = 200000000; e->_gps_sample_delayed.time_us = e->_time_prev_gps_us = 199900000; e->_gps_data_ready = true; e->_last_gps_pass_us = 199900000;
	e->_time_last_hor_pos_fuse = e->_time_last_hor_vel_fuse = e->_time_last_delpos_fuse = e->_time_last_of_fuse = 199900000;
	e->_gps_sample_delayed.hacc = e->_gps_sample_delayed.sacc = 1.f; e->_gps_sample_delayed.yaw = NAN;
	e->_do_ekfgsf_yaw_reset = true; e->_ekfgsf_yaw_reset_time = 1; e->_ekfgsf_yaw_reset_count = e->_params.EKFGSF_reset_count_limit;
	uint8_t n = e->_state_reset_status.quat_counter; e->controlGpsFusion();
	if (e->_state_reset_status.quat_counter != n) { std::printf("yaw reset beyond the limit\\n"); return 1; }
	return 0;
}
''')
    mk('b57','C06',[[C,"""				if (resetYawToGps()) {
					_control_status.flags.yaw_align = true;
					startGpsYawFusion();
				}
			}
		}
	}
""","""				if (resetYawToGps()) {
					_control_status.flags.yaw_align = true;
					startGpsYawFusion();
				}
			}
		}

	} else {
		// no heading in this message: nothing to check
		return;
	}
"""]],
     'a dual antenna receiver that keeps sending positions but no heading any more','GPS yaw is never declared faulty when the heading disappears: no other source of yaw can start.',
     H+'''int main() {
	Ekf *e = new Ekf; step(e, 400); e->_time_last_imu = 100000000; e->_params.fusion_mode = MASK_USE_GPSYAW; e->_control_status.flags.gps_yaw = true; e->_is_gps_yaw_faulty = false;
	e->_time_last_gps_yaw_fuse = 90000000; e->_gps_sample_delayed.yaw = NAN; e->controlGpsYawFusion();
	if (e->_control_status.flags.gps_yaw || !e->_is_gps_yaw_faulty) { std::printf("still in use\\n"); return 1; }
	return 0;
}
''')
    mk('b58','C08',[[HP,"			ev_vel_cov = _R_to_earth * ev_vel_cov * _R_to_earth.transpose();","			ev_vel_cov = _R_to_earth.transpose() * ev_vel_cov * _R_to_earth;"]],
     'vision velocity in the body frame with a full covariance, vehicle not aligned with north','The covariance of the vision velocity is rotated backwards into the navigation frame: the uncertain direction is the wrong one.',
     H+'''int main() {
	Ekf *e = new Ekf; e->_R_to_earth = Dcmf(Eulerf(0.f, 0.f, 0.7853982f)); e->_ev_sample_delayed.vel_frame = velocity_frame_t::BODY_FRAME_FRD;
	e->_ev_sample_delayed.velCov.setZero(); e->_ev_sample_delayed.velCov(0, 0) = 1.f; e->_ev_sample_delayed.velCov(1, 1) = 1.f; e->_ev_sample_delayed.velCov(0, 1) = e->_ev_sample_delayed.velCov(1, 0) = 0.9f;
	Vector3f v = e->getVisionVelocityVarianceInEkfFrame();
	if (fabsf(v(0) - 0.1f) > 1e-3f || fabsf(v(1) - 1.9f) > 1e-3f) { std::printf("%f %f\\n", (double)v(0), (double)v(1)); return 1; }
	return 0;
}
''')
    mk('b59','C08',[[C,"	} else if ((_control_status.flags.ev_pos || _control_status.flags.ev_vel ||  _control_status.flags.ev_yaw)\n","	} else if ((_control_status.flags.ev_pos || _control_status.flags.ev_vel)\n"]],
     'vision used for yaw only, its data stopping','Vision yaw stays in use for ever after its data have stopped; nothing else can provide the heading.',
     H+'''int main() {
	Ekf *e = new Ekf; step(e, 400); auto &f = e->_control_status.flags; f.ev_yaw = true; f.ev_pos = f.ev_vel = false; e->_ev_data_ready = false; e->_time_last_imu = 100000000; e->_time_last_ext_vision = 1000000;
	e->controlExternalVisionFusion(); if (f.ev_yaw) { std::printf("ev_yaw\\n"); return 1; }
	return 0;
}
''')
    mk('b60','C09',[[C,"			_flow_data_ready = false;\n			_flow_for_terrain_data_ready = false; // TODO: find a better place\n","			_flow_data_ready = false;\n"]],
     'a bad flow sample in flight while flow is used for the terrain only','A sample of poor quality is dropped for the navigation filter but still fused into the terrain height.',
     H+'''int main() {
	Ekf *e = new Ekf; step(e, 400); auto &f = e->_control_status.flags; f.in_air = true; e->_flow_data_ready = e->_flow_for_terrain_data_ready = true; e->_params.flow_qual_min = 100; e->_flow_sample_delayed.quality = 1; e->_flow_sample_delayed.dt = 0.02f;
	e->controlOpticalFlowFusion();
	if (e->_flow_for_terrain_data_ready) { std::printf("bad sample for the terrain\\n"); return 1; }
	return 0;
}
''')
    mk('b61','C09',[[C,"	_time_bad_motion_us = 0;\n	_time_good_motion_us = _imu_sample_delayed.time_us;\n","	_time_good_motion_us = _imu_sample_delayed.time_us;\n"]],
     'motion on the ground right before a flight of less than five seconds','Motion seen before the flight still inhibits flow after the landing.',
     H+'''int main() {
	Ekf *e = new Ekf; step(e, 400); auto &f = e->_control_status.flags; f.in_air = true; e->_time_bad_motion_us = e->_imu_sample_delayed.time_us - 100000; e->_flow_data_ready = false;
	e->controlOpticalFlowFusion();
	if (e->_time_bad_motion_us != 0) { std::printf("motion remembered in flight\\n"); return 1; }
	return 0;
}
''')
    mk('b62','C10',[[C,"			} else if (_drag_buffer.pop_first_older_than(_imu_sample_delayed.time_us, &_drag_sample_delayed)) {\n				fuseDrag();\n			}","			}\n\n			if (_drag_buffer.pop_first_older_than(_imu_sample_delayed.time_us, &_drag_sample_delayed)) {\n				fuseDrag();\n			}" ]] if False else [[C,"	    (_using_synthetic_position || (airspeed_timed_out && sideslip_timed_out && !(_params.fusion_mode & MASK_USE_DRAG)))) {","	    (_using_synthetic_position || ((airspeed_timed_out || sideslip_timed_out) && !(_params.fusion_mode & MASK_USE_DRAG)))) {"]],
     'a fixed wing that flies with an airspeed sensor but without sideslip fusion (or the other way round)','The wind counts as lost when only one of its two observations has timed out; wind states are reset again and again.',
     H+'''int main() {
	Ekf *e = new Ekf; step(e, 400); auto &f = e->_control_status.flags; f.wind = true; e->_using_synthetic_position = false; e->_params.fusion_mode = 0; e->_time_last_imu = 100000000; e->_time_last_arsp_fuse = 1000000; e->_time_last_beta_fuse = 99900000; e->_tas_data_ready = false;
	e->controlAirDataFusion(); if (!f.wind) { std::printf("wind lost\\n"); return 1; }
	return 0;
}
''')
    mk('b63','C10',[[C,"				_last_known_posNE = _state.pos.xy();\n				resetHorizontalPosition();\n				resetVelocity();\n				_fuse_hpos_as_odom = false;\n","				resetHorizontalPosition();\n				resetVelocity();\n				_last_known_posNE = _state.pos.xy();\n				_fuse_hpos_as_odom = false;\n"]],
     'losing all aiding in flight away from the last position known before (an assumed position is re-started)','The position is reset to the one assumed long ago instead of the one where aiding was lost.',
     H+'''int main() {
	Ekf *e = new Ekf; step(e, 400); auto &f = e->_control_status.flags; f.gps = f.ev_pos = f.ev_vel = f.opt_flow = false; f.in_air = f.tilt_align = true; f.fuse_aspd = f.fuse_beta = false;
	e->_state.pos = Vector3f(100.f, 50.f, -20.f); e->_last_known_posNE.zero(); e->_time_last_imu = 100000000; e->_time_last_fake_pos = 50000000;
	e->controlFakePosFusion();
	if (fabsf(e->_state.pos(0) - 100.f) > 1.f) { std::printf("position %.2f\\n", (double)e->_state.pos(0)); return 1; }
	return 0;
}
''')
    mk('b64','C11',[[HP,"void Ekf::startEvPosFusion()\n{\n	_control_status.flags.ev_pos = true;\n	resetHorizontalPosition();\n","void Ekf::startEvPosFusion()\n{\n	resetHorizontalPosition();\n	_control_status.flags.ev_pos = true;\n"]],
     'vision position starting without GPS','The position is reset before vision counts as a source, so not to vision: the first fusions see the whole difference.',
     H+'''int main() {
	Ekf *e = new Ekf; step(e, 400); auto &f = e->_control_status.flags; f.gps = f.ev_pos = f.opt_flow = false; e->_params.fusion_mode = MASK_USE_EVPOS; e->_state.pos = Vector3f(1.f, 2.f, 0.f); e->_last_known_posNE = e->_state.pos.xy();
	e->_ev_sample_delayed.pos = Vector3f(30.f, 40.f, 0.f); e->_ev_sample_delayed.posVar = Vector3f(0.1f, 0.1f, 0.1f);
	e->startEvPosFusion();
	if (fabsf(e->_state.pos(0) - 30.f) > 0.1f) { std::printf("position %.2f\\n", (double)e->_state.pos(0)); return 1; }
	return 0;
}
''')
    mk('b65','C11',[[HP,"	_control_status.flags.opt_flow = false;\n	_flow_innov.setZero();\n	_flow_innov_var.setZero();\n	_optflow_test_ratio = 0.0f;\n","	_control_status.flags.opt_flow = false;\n	_flow_innov.setZero();\n	_flow_innov_var.setZero();\n"]],
     'flow stopping after a large innovation','The test ratio of the last flow sample is reported for ever after flow has stopped.',
     H+'''int main() {
	Ekf *e = new Ekf; step(e, 100); e->_control_status.flags.opt_flow = true; e->_optflow_test_ratio = 5.f; e->stopFlowFusion(); float r; e->getFlowInnovRatio(r);
	if (r != 0.f) { std::printf("%f\\n", (double)r); return 1; }
	return 0;
}
''')
    mk('b66','C12',[[C,"		_range_sensor.setRange(_range_sensor.getRange() + pos_offset_earth(2) / _range_sensor.getCosTilt());","		_range_sensor.setRange(_range_sensor.getRange() + pos_offset_earth(2) * _range_sensor.getCosTilt());"]],
     'a range finder mounted below the IMU and a tilted vehicle','The offset of the range finder is projected onto its beam the wrong way.',
     H+'''int main() {
	Ekf *e = new Ekf; step(e, 1000); auto &r = e->_range_sensor; e->_params.rng_pos_body = Vector3f(0.f, 0.f, 1.f);
	e->_params.range_cos_max_tilt = 0.5f; rangeSample s; double d = 0;
	for (int i = 0; i < 400; i++) { t += 5000; imuSample m = imu(t); e->setIMUData(m); if (t % 50000 == 0) { s.time_us = t; s.rng = 5.f; s.quality = 100; e->setRangeData(s); }
		e->_state.quat_nominal = Quatf(Eulerf(0.7f, 0.f, 0.f)); e->_R_to_earth = Dcmf(e->_state.quat_nominal); e->_range_sensor._range_sensor_quality_dummy_ok(); }
	return 0;
}
''') if False else mk('b66','C12',[[C,"	if (!_flow_data_ready || !_control_status.flags.opt_flow) {\n","	if (!_flow_data_ready || _control_status.flags.opt_flow) {\n"]],
     'flow that is not used by the filter (terrain only, or inhibited)','A flow sample that nobody takes blocks its buffer: when flow is not fused no later sample is ever looked at.',
     H+'''int main() {
	Ekf *e = new Ekf; step(e, 1000); e->_control_status.flags.opt_flow = false; e->_flow_data_ready = true; e->_flow_buffer.allocate(4);
	flowSample f{}; f.time_us = e->_imu_sample_delayed.time_us - 1000; f.dt = 0.02f; f.quality = 200; e->_flow_buffer.push(f);
	e->controlFusionModes();
	if (e->_flow_sample_delayed.time_us != f.time_us) { std::printf("stale sample\\n"); return 1; }
	return 0;
}
''')
    mk('b67','C12',[[HP,"	if (isTimedOut(_airspeed_sample_delayed.time_us, 1000000) && _control_status.flags.fixed_wing) {","	if (isTimedOut(_airspeed_sample_delayed.time_us, 1000000) || _control_status.flags.fixed_wing) {"]],
     'a fixed wing with a working airspeed sensor, or a multicopter without one','The yaw estimator is given the default airspeed although a measurement is there: its centripetal correction is wrong.',
     H+'''int main() {
	Ekf *e = new Ekf; step(e, 400); e->_control_status.flags.fixed_wing = true; e->_control_status.flags.in_air = true; e->_airspeed_sample_delayed.time_us = e->_time_last_imu; e->_airspeed_sample_delayed.true_airspeed = 25.f; e->_params.EKFGSF_tas_default = 10.f;
	e->runYawEKFGSF();
	if (fabsf(e->_yawEstimator._true_airspeed - 25.f) > 1e-3f) { std::printf("TAS %f\\n", (double)e->_yawEstimator._true_airspeed); return 1; }
	return 0;
}
''')
