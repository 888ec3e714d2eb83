C='EKF/control.cpp'; H='EKF/ekf.h'; HP='EKF/ekf_helper.cpp'
R = {
'yawfail': [(C, """			bool is_yaw_failure = false;
			if ((recent_takeoff_nav_failure || inflight_nav_failure) && _time_last_hor_vel_fuse > 0) {
				// Do sanity check to see if the innovation failures is likely caused by a yaw angle error
				// by measuring the angle between the velocity estimate and the last velocity observation
				// Only use those vectors if their norm if they are larger than 4 times their noise standard deviation
				const float vel_obs_xy_norm_sq = _last_vel_obs.xy().norm_squared();
				const float vel_state_xy_norm_sq = _state.vel.xy().norm_squared();

				const float vel_obs_threshold_sq = fmaxf(sq(4.f) * (_last_vel_obs_var(0) + _last_vel_obs_var(1)), 1.f);
				const float vel_state_threshold_sq = fmaxf(sq(4.f) * (P(4, 4) + P(5, 5)), 1.f);

				if (vel_obs_xy_norm_sq > vel_obs_threshold_sq && vel_state_xy_norm_sq > vel_state_threshold_sq) {
					const float obs_dot_vel = Vector2f(_last_vel_obs).dot(_state.vel.xy());
					const float cos_sq = sq(obs_dot_vel) / (vel_state_xy_norm_sq * vel_obs_xy_norm_sq);

					if (cos_sq < sq(cosf(math::radians(25.f))) || obs_dot_vel < 0.f) {
						// The angle between the observation and the velocity estimate is greater than 25 degrees
						is_yaw_failure = true;
					}
				}
			}
""", """			const bool is_yaw_failure = (recent_takeoff_nav_failure || inflight_nav_failure) && (_time_last_hor_vel_fuse > 0)
						    && isYawFailure();
"""),
 (C, "void Ekf::controlGpsYawFusion()\n{", """bool Ekf::isYawFailure() const
{
	const Vector2f obs(_last_vel_obs);
	const Vector2f est(_state.vel);
	const float obs_sq = obs.norm_squared();
	const float est_sq = est.norm_squared();

	if (obs_sq <= fmaxf(16.f * (_last_vel_obs_var(0) + _last_vel_obs_var(1)), 1.f)
	    || est_sq <= fmaxf(16.f * (P(4, 4) + P(5, 5)), 1.f)) {
		return false;
	}

	const float dot = obs(0) * est(0) + obs(1) * est(1);

	if (dot < 0.f) {
		return true;
	}

	const float cos_lim = cosf(math::radians(25.f));
	return (dot * dot) / (est_sq * obs_sq) < cos_lim * cos_lim;
}

void Ekf::controlGpsYawFusion()
{"""),
 (H, "	void controlGpsYawFusion();\n", "	void controlGpsYawFusion();\n	bool isYawFailure() const;\n")],
'rangedata': [(C, """	{
	// Get range data from buffer and check validity
	const bool is_rng_data_ready = _range_buffer.pop_first_older_than(_imu_sample_delayed.time_us, _range_sensor.getSampleAddress());
	_range_sensor.setDataReadiness(is_rng_data_ready);

	// update range sensor angle parameters in case they have changed
	_range_sensor.setPitchOffset(_params.rng_sens_pitch);
	_range_sensor.setCosMaxTilt(_params.range_cos_max_tilt);
	_range_sensor.setQualityHysteresis(_params.range_valid_quality_s);

	_range_sensor.runChecks(_imu_sample_delayed.time_us, _R_to_earth);
	}

	if (_range_sensor.isDataHealthy()) {
		// correct the range data for position offset relative to the IMU
		const Vector3f pos_offset_body = _params.rng_pos_body - _params.imu_pos_body;
		const Vector3f pos_offset_earth = _R_to_earth * pos_offset_body;
		_range_sensor.setRange(_range_sensor.getRange() + pos_offset_earth(2) / _range_sensor.getCosTilt());
	}
""", "	updateRangeData();\n"),
 (C, "void Ekf::controlExternalVisionFusion()\n{", """void Ekf::updateRangeData()
{
	const uint64_t now = _imu_sample_delayed.time_us;

	// update range sensor angle parameters in case they have changed
	_range_sensor.setQualityHysteresis(_params.range_valid_quality_s);
	_range_sensor.setCosMaxTilt(_params.range_cos_max_tilt);
	_range_sensor.setPitchOffset(_params.rng_sens_pitch);

	// Get range data from buffer and check validity
	_range_sensor.setDataReadiness(_range_buffer.pop_first_older_than(now, _range_sensor.getSampleAddress()));
	_range_sensor.runChecks(now, _R_to_earth);

	if (!_range_sensor.isDataHealthy()) {
		return;
	}

	// correct the range data for position offset relative to the IMU
	const Vector3f d = _params.rng_pos_body - _params.imu_pos_body;
	const float offset_down = _R_to_earth(2, 0) * d(0) + _R_to_earth(2, 1) * d(1) + _R_to_earth(2, 2) * d(2);
	const float range = _range_sensor.getRange() + offset_down / _range_sensor.getCosTilt();
	_range_sensor.setRange(range);
}

void Ekf::controlExternalVisionFusion()
{"""),
 (H, "	void controlGpsYawFusion();\n", "	void updateRangeData();\n	void controlGpsYawFusion();\n")],
'order': [(C, """	_ev_data_ready = _ext_vision_buffer.pop_first_older_than(_imu_sample_delayed.time_us, &_ev_sample_delayed);
	_tas_data_ready = _airspeed_buffer.pop_first_older_than(_imu_sample_delayed.time_us, &_airspeed_sample_delayed);
""", """	_tas_data_ready = _airspeed_buffer.pop_first_older_than(_imu_sample_delayed.time_us, &_airspeed_sample_delayed);
	_ev_data_ready = _ext_vision_buffer.pop_first_older_than(_imu_sample_delayed.time_us, &_ev_sample_delayed);
"""), (C, """	if (!_flow_for_terrain_data_ready && _flow_data_ready && _control_status.flags.in_air) {
		// TODO: WARNING, _flow_data_ready can be modified in controlOpticalFlowFusion
		// due to some checks failing
		// only fuse flow for terrain if range data hasn't been fused for 5 seconds
		_flow_for_terrain_data_ready = isTimedOut(_time_last_hagl_fuse, (uint64_t)5E6);
		// only fuse flow for terrain if the main filter is not fusing flow and we are using gps
		_flow_for_terrain_data_ready &= (!_control_status.flags.opt_flow && _control_status.flags.gps);
	}
""", """	const auto &flags = _control_status.flags;

	if (_flow_data_ready && !_flow_for_terrain_data_ready && flags.in_air) {
		const bool only_gps = flags.gps && !flags.opt_flow;
		_flow_for_terrain_data_ready = only_gps && isTimedOut(_time_last_hagl_fuse, (uint64_t)5000000);
	}
"""), (C, """	// check for intermittent data (before pop_first_older_than)
	const baroSample &baro_init = _baro_buffer.get_newest();
	_baro_hgt_faulty = !isRecent(baro_init.time_us, 2 * BARO_MAX_INTERVAL);

	const gpsSample &gps_init = _gps_buffer.get_newest();
	_gps_hgt_intermittent = !isRecent(gps_init.time_us, 2 * GPS_MAX_INTERVAL);
""", """	// check for intermittent data (before pop_first_older_than)
	_gps_hgt_intermittent = !isRecent(_gps_buffer.get_newest().time_us, 2 * GPS_MAX_INTERVAL);
	_baro_hgt_faulty = !isRecent(_baro_buffer.get_newest().time_us, 2 * BARO_MAX_INTERVAL);
""")],
'fakepos': [(C, """	if (!isHorizontalAidingActive()
	    && !(_control_status.flags.fuse_aspd && _control_status.flags.fuse_beta)) {

		// We now need to use a synthetic position observation to prevent unconstrained drift of the INS states.
		_using_synthetic_position = true;

		// Fuse synthetic position observations every 200msec
		if (isTimedOut(_time_last_fake_pos, (uint64_t)2e5)) {

			// Reset position and velocity states if we re-commence this aiding method
			if (isTimedOut(_time_last_fake_pos, (uint64_t)4e5)) {
				_last_known_posNE = _state.pos.xy();
				resetHorizontalPosition();
				resetVelocity();
				_fuse_hpos_as_odom = false;

				if (_time_last_fake_pos != 0) {
					_warning_events.flags.stopping_navigation = true;
					ECL_WARN("stopping navigation");
				}

			}
			_time_last_fake_pos = _time_last_imu;

			Vector3f fake_pos_obs_var;

			if (_control_status.flags.in_air && _control_status.flags.tilt_align) {
				fake_pos_obs_var(0) = fake_pos_obs_var(1) = sq(fmaxf(_params.pos_noaid_noise, _params.gps_pos_noise));

			} else if (_control_status.flags.vehicle_at_rest) {
				// Accelerate tilt fine alignment by fusing more
				// aggressively when the vehicle is at rest
				fake_pos_obs_var(0) = fake_pos_obs_var(1) = sq(0.1f);

			} else {
				fake_pos_obs_var(0) = fake_pos_obs_var(1) = sq(0.5f);
			}

			_gps_pos_innov.xy() = Vector2f(_state.pos) - _last_known_posNE;

			const Vector2f fake_pos_innov_gate(3.0f, 3.0f);

			fuseHorizontalPosition(_gps_pos_innov, fake_pos_innov_gate, fake_pos_obs_var,
						_gps_pos_innov_var, _gps_pos_test_ratio, true);
		}

	} else {
		_using_synthetic_position = false;
	}
""", """	const bool aided_by_air_data = _control_status.flags.fuse_aspd && _control_status.flags.fuse_beta;
	_using_synthetic_position = !(isHorizontalAidingActive() || aided_by_air_data);

	if (!_using_synthetic_position || !isTimedOut(_time_last_fake_pos, (uint64_t)200000)) {
		return;
	}

	// Reset position and velocity states if we re-commence this aiding method
	if (isTimedOut(_time_last_fake_pos, (uint64_t)400000)) {
		restartFakePosFusion();
	}

	_time_last_fake_pos = _time_last_imu;

	float obs_std = 0.5f;

	if (_control_status.flags.in_air && _control_status.flags.tilt_align) {
		obs_std = math::max(_params.pos_noaid_noise, _params.gps_pos_noise);

	} else if (_control_status.flags.vehicle_at_rest) {
		obs_std = 0.1f;
	}

	Vector3f fake_pos_obs_var;
	fake_pos_obs_var(0) = sq(obs_std);
	fake_pos_obs_var(1) = fake_pos_obs_var(0);

	for (int i = 0; i < 2; i++) {
		_gps_pos_innov(i) = _state.pos(i) - _last_known_posNE(i);
	}

	fuseHorizontalPosition(_gps_pos_innov, Vector2f(3.0f, 3.0f), fake_pos_obs_var,
			       _gps_pos_innov_var, _gps_pos_test_ratio, true);
"""), (C, "void Ekf::controlAuxVelFusion()\n{", """void Ekf::restartFakePosFusion()
{
	_fuse_hpos_as_odom = false;
	_last_known_posNE = _state.pos.xy();
	resetHorizontalPosition();
	resetVelocity();

	if (_time_last_fake_pos != 0) {
		_warning_events.flags.stopping_navigation = true;
		ECL_WARN("stopping navigation");
	}
}

void Ekf::controlAuxVelFusion()
{"""), (H, "	void controlGpsYawFusion();\n", "	void restartFakePosFusion();\n	void controlGpsYawFusion();\n")],
'wind': [(C, """		// If starting wind state estimation, reset the wind states and covariances before fusing any data
		if (!_control_status.flags.wind) {
			// activate the wind states
			_control_status.flags.wind = true;
			// reset the timout timer to prevent repeated resets
			_time_last_arsp_fuse = _time_last_imu;
			// reset the wind speed states and corresponding covariances
			resetWindStates();
			resetWindCovariance();
		}

		fuseAirspeed();
""", """		startWindEstimation(_time_last_arsp_fuse);
		fuseAirspeed();
"""), (C, """		// If starting wind state estimation, reset the wind states and covariances before fusing any data
		if (!_control_status.flags.wind) {
			// activate the wind states
			_control_status.flags.wind = true;
			// reset the timeout timers to prevent repeated resets
			_time_last_beta_fuse = _time_last_imu;
			// reset the wind speed states and corresponding covariances
			resetWindStates();
			resetWindCovariance();
		}

		fuseSideslip();
""", """		startWindEstimation(_time_last_beta_fuse);
		fuseSideslip();
"""), (C, "void Ekf::controlBetaFusion()\n{", """void Ekf::startWindEstimation(uint64_t &time_last_fuse)
{
	if (_control_status.flags.wind) {
		return;
	}

	time_last_fuse = _time_last_imu;
	resetWindStates();
	resetWindCovariance();
	_control_status.flags.wind = true;
}

void Ekf::controlBetaFusion()
{"""), (H, "	void controlGpsYawFusion();\n", "	void startWindEstimation(uint64_t &time_last_fuse);\n	void controlGpsYawFusion();\n")],
'drag': [(C, """	if ((_params.fusion_mode & MASK_USE_DRAG) &&
	    !_using_synthetic_position &&
	    _control_status.flags.in_air &&
	    !_mag_inhibit_yaw_reset_req) {
			if (!_control_status.flags.wind) {
				// reset the wind states and covariances when starting drag accel fusion
				_control_status.flags.wind = true;
				resetWindStates();
				resetWindCovariance();

			} else if (_drag_buffer.pop_first_older_than(_imu_sample_delayed.time_us, &_drag_sample_delayed)) {
				fuseDrag();
			}

	}
""", """	const bool enabled = (_params.fusion_mode & MASK_USE_DRAG) != 0;

	if (!enabled || _using_synthetic_position || !_control_status.flags.in_air || _mag_inhibit_yaw_reset_req) {
		return;
	}

	if (_control_status.flags.wind) {
		const bool ready = _drag_buffer.pop_first_older_than(_imu_sample_delayed.time_us, &_drag_sample_delayed);

		if (ready) {
			fuseDrag();
		}

		return;
	}

	// reset the wind states and covariances when starting drag accel fusion
	resetWindStates();
	_control_status.flags.wind = true;
	resetWindCovariance();
""")],
'height': [(C, """	if (fuse_height) {
		if (_control_status.flags.baro_hgt) {
			Vector2f baro_hgt_innov_gate;
			Vector3f baro_hgt_obs_var;
""", """	if (!fuse_height) {
		return;
	}

	fuseHeightSource();
}

void Ekf::fuseHeightSource()
{
	{
		if (_control_status.flags.baro_hgt) {
			Vector2f baro_hgt_innov_gate;
			Vector3f baro_hgt_obs_var;
"""), (H, "	void controlGpsYawFusion();\n", "	void fuseHeightSource();\n	void controlGpsYawFusion();\n"),
 (C, """				if (_baro_hgt_innov(2) < -deadzone_start) {
					if (_baro_hgt_innov(2) <= -deadzone_end) {
						_baro_hgt_innov(2) += deadzone_end;

					} else {
						_baro_hgt_innov(2) = -deadzone_start;
					}
				}
""", """				float &innov = _baro_hgt_innov(2);

				if (innov <= -deadzone_end) {
					innov += (innov < -deadzone_start) ? deadzone_end : 0.f;

				} else if (innov < 0.f) {
					innov = 0.f;
				}
"""), (C, """		if (_control_status.flags.gps_hgt && _gps_data_ready) {
			fuse_height = true;
		} else if (_control_status.flags.rng_hgt && _range_sensor.isDataHealthy()) {
			fuse_height = true;
		} else if (_control_status.flags.baro_hgt && _baro_data_ready && !_baro_hgt_faulty) {
			fuse_height = true;
		}
""", """		fuse_height = (_control_status.flags.gps_hgt && _gps_data_ready)
			      || (_control_status.flags.rng_hgt && _range_sensor.isDataHealthy())
			      || (_control_status.flags.baro_hgt && _baro_data_ready && !_baro_hgt_faulty);
""")],
'acc': [(C, """	if (bad_vert_accel) {
		_time_bad_vert_accel =  _time_last_imu;

	} else {
		_time_good_vert_accel = _time_last_imu;
	}

	// declare a bad vertical acceleration measurement and make the declaration persist
	// for a minimum of BADACC_PROBATION seconds
	if (_fault_status.flags.bad_acc_vertical) {
		_fault_status.flags.bad_acc_vertical = isRecent(_time_bad_vert_accel, BADACC_PROBATION);

	} else {
		_fault_status.flags.bad_acc_vertical = bad_vert_accel;
	}
""", """	uint64_t &stamp = bad_vert_accel ? _time_bad_vert_accel : _time_good_vert_accel;
	stamp = _time_last_imu;

	// declare a bad vertical acceleration measurement and make the declaration persist
	// for a minimum of BADACC_PROBATION seconds
	const bool was_bad = _fault_status.flags.bad_acc_vertical;
	_fault_status.flags.bad_acc_vertical = was_bad ? isRecent(_time_bad_vert_accel, BADACC_PROBATION) : bad_vert_accel;
"""), (C, """	const bool is_clipping = _imu_sample_delayed.delta_vel_clipping[0] ||
				 _imu_sample_delayed.delta_vel_clipping[1] ||
				 _imu_sample_delayed.delta_vel_clipping[2];
	if (is_clipping &&_clip_counter < clip_count_limit) {
		_clip_counter++;
	} else if (_clip_counter > 0) {
		_clip_counter--;
	}
""", """	bool is_clipping = false;

	for (bool axis_clipping : _imu_sample_delayed.delta_vel_clipping) {
		is_clipping |= axis_clipping;
	}

	if (is_clipping && (_clip_counter < clip_count_limit)) {
		_clip_counter += 1;

	} else if (_clip_counter != 0) {
		_clip_counter -= 1;
	}
""")],
'flow': [(C, """		const bool is_quality_good = (_flow_sample_delayed.quality >= _params.flow_qual_min);
		const bool is_magnitude_good = !_flow_sample_delayed.flow_xy_rad.longerThan(_flow_sample_delayed.dt * _flow_max_rate);
		const bool is_tilt_good = (_R_to_earth(2, 2) > _params.range_cos_max_tilt);

		const float delta_time_min = fmaxf(0.8f * _delta_time_of, 0.001f);
		const float delta_time_max = fminf(1.2f * _delta_time_of, 0.2f);
		const bool is_delta_time_good = _flow_sample_delayed.dt >= delta_time_min
		                                && _flow_sample_delayed.dt <= delta_time_max;
		const bool is_body_rate_comp_available = calcOptFlowBodyRateComp();

		if (is_quality_good
		    && is_magnitude_good
		    && is_tilt_good
		    && is_body_rate_comp_available
		    && is_delta_time_good) {
			// compensate for body motion to give a LOS rate
			_flow_compensated_XY_rad = _flow_sample_delayed.flow_xy_rad - _flow_sample_delayed.gyro_xyz.xy();

		} else if (!_control_status.flags.in_air && is_body_rate_comp_available) {

			if (!is_delta_time_good) {
				// handle special case of SITL and PX4Flow where dt is forced to
				// zero when the quaity is 0
				_flow_sample_delayed.dt = delta_time_min;
			}

			// when on the ground with poor flow quality,
			// assume zero ground relative velocity and LOS rate
			_flow_compensated_XY_rad.setZero();

		} else {
			// don't use this flow data and wait for the next data to arrive
			_flow_data_ready = false;
			_flow_for_terrain_data_ready = false; // TODO: find a better place
		}
""", """		const flowSample &flow = _flow_sample_delayed;
		const float delta_time_min = fmaxf(0.8f * _delta_time_of, 0.001f);
		const float delta_time_max = fminf(1.2f * _delta_time_of, 0.2f);
		const bool is_delta_time_good = (flow.dt <= delta_time_max) && (flow.dt >= delta_time_min);
		const bool is_sample_good = flow.quality >= _params.flow_qual_min
					    && !flow.flow_xy_rad.longerThan(flow.dt * _flow_max_rate)
					    && _R_to_earth(2, 2) > _params.range_cos_max_tilt
					    && is_delta_time_good;

		if (!calcOptFlowBodyRateComp() || (!is_sample_good && _control_status.flags.in_air)) {
			// don't use this flow data and wait for the next data to arrive
			_flow_for_terrain_data_ready = false;
			_flow_data_ready = false;

		} else if (is_sample_good) {
			// compensate for body motion to give a LOS rate
			_flow_compensated_XY_rad(0) = flow.flow_xy_rad(0) - flow.gyro_xyz(0);
			_flow_compensated_XY_rad(1) = flow.flow_xy_rad(1) - flow.gyro_xyz(1);

		} else {
			if (!is_delta_time_good) {
				_flow_sample_delayed.dt = delta_time_min;
			}

			_flow_compensated_XY_rad = Vector2f();
		}
""")],
}
