C='EKF/control.cpp'; H='EKF/ekf.h'; HP='EKF/ekf_helper.cpp'
R = {
# wind start-up shared by three callers through a lambda-free helper; early returns; switch to local references
'windstart': [
 (C, "void Ekf::controlAirDataFusion()\n{", """void Ekf::startWindEstimation(uint64_t *timer)
{
	auto &flags = _control_status.flags;

	if (flags.wind) {
		return;
	}

	flags.wind = true;

	if (timer != nullptr) {
		*timer = _time_last_imu;
	}

	resetWindStates();
	resetWindCovariance();
}

void Ekf::controlAirDataFusion()
{"""),
 (C, """		// If starting wind state estimation, reset the wind states and covariances before fusing any data
		if (!_control_status.flags.wind) {
			// activate the wind states
			_control_status.flags.wind = true;
			// reset the timout timer to prevent repeated resets
			_time_last_arsp_fuse = _time_last_imu;
			// reset the wind speed states and corresponding covariances
			resetWindStates();
			resetWindCovariance();
		}

		fuseAirspeed();
""", "		startWindEstimation(&_time_last_arsp_fuse);\n		fuseAirspeed();\n"),
 (C, """		// If starting wind state estimation, reset the wind states and covariances before fusing any data
		if (!_control_status.flags.wind) {
			// activate the wind states
			_control_status.flags.wind = true;
			// reset the timeout timers to prevent repeated resets
			_time_last_beta_fuse = _time_last_imu;
			// reset the wind speed states and corresponding covariances
			resetWindStates();
			resetWindCovariance();
		}

		fuseSideslip();
""", "		startWindEstimation(&_time_last_beta_fuse);\n		fuseSideslip();\n"),
 (C, """	if ((_params.fusion_mode & MASK_USE_DRAG) &&
	    !_using_synthetic_position &&
	    _control_status.flags.in_air &&
	    !_mag_inhibit_yaw_reset_req) {
			if (!_control_status.flags.wind) {
				// reset the wind states and covariances when starting drag accel fusion
				_control_status.flags.wind = true;
				resetWindStates();
				resetWindCovariance();

			} else if (_drag_buffer.pop_first_older_than(_imu_sample_delayed.time_us, &_drag_sample_delayed)) {
				fuseDrag();
			}

	}
""", """	const bool enabled = (_params.fusion_mode & MASK_USE_DRAG) != 0;
	const bool allowed = !_using_synthetic_position && !_mag_inhibit_yaw_reset_req;

	if (!(enabled && allowed && _control_status.flags.in_air)) {
		return;
	}

	if (!_control_status.flags.wind) {
		startWindEstimation(nullptr);
		return;
	}

	const bool have_sample = _drag_buffer.pop_first_older_than(_imu_sample_delayed.time_us, &_drag_sample_delayed);

	if (have_sample) {
		fuseDrag();
	}
"""),
 (H, "	void controlGpsYawFusion();\n", "	void controlGpsYawFusion();\n	void startWindEstimation(uint64_t *timer);\n")],
'rangeaid': [(C, """	if (_control_status.flags.in_air
	    && _range_sensor.isHealthy()
	    && isTerrainEstimateValid()) {
		// check if we can use range finder measurements to estimate height, use hysteresis to avoid rapid switching
		// Note that the 0.7 coefficients and the innovation check are arbitrary values but work well in practice
		const float range_hagl = _terrain_vpos - _state.pos(2);
		const float range_hagl_max = _is_range_aid_suitable ? _params.max_hagl_for_range_aid : (_params.max_hagl_for_range_aid * 0.7f);
		const bool is_in_range = range_hagl < range_hagl_max;

		const float hagl_test_ratio = (_hagl_innov * _hagl_innov / (sq(_params.range_aid_innov_gate) * _hagl_innov_var));
		const bool is_hagl_stable = _is_range_aid_suitable ? (hagl_test_ratio < 1.f) : (hagl_test_ratio < 0.01f);

		if (isHorizontalAidingActive()) {
			const float max_vel = _is_range_aid_suitable ? _params.max_vel_for_range_aid : (_params.max_vel_for_range_aid * 0.7f);
			const bool is_below_max_speed = !_state.vel.xy().longerThan(max_vel);

			_is_range_aid_suitable = is_in_range && is_hagl_stable && is_below_max_speed;

		} else {
			_is_range_aid_suitable = is_in_range && is_hagl_stable;
		}

	} else {
		_is_range_aid_suitable = false;
	}
""", """	const bool was_suitable = _is_range_aid_suitable;
	_is_range_aid_suitable = false;

	if (!_control_status.flags.in_air || !_range_sensor.isHealthy() || !isTerrainEstimateValid()) {
		return;
	}

	struct Limits {
		float hagl;
		float speed;
		float ratio;
	};
	Limits limits{_params.max_hagl_for_range_aid, _params.max_vel_for_range_aid, 1.f};

	if (!was_suitable) {
		limits.hagl *= 0.7f;
		limits.speed *= 0.7f;
		limits.ratio = 0.01f;
	}

	if (!(_terrain_vpos - _state.pos(2) < limits.hagl)) {
		return;
	}

	const float gate_sq = sq(_params.range_aid_innov_gate) * _hagl_innov_var;

	if (!(sq(_hagl_innov) / gate_sq < limits.ratio)) {
		return;
	}

	_is_range_aid_suitable = !isHorizontalAidingActive() || !_state.vel.xy().longerThan(limits.speed);
""")],
'evpos': [(C, """			// Use an incremental position fusion method for EV position data if GPS is also used
			if (_params.fusion_mode & MASK_USE_GPS) {
				_fuse_hpos_as_odom = true;
			} else {
				_fuse_hpos_as_odom = false;
			}
""", "			_fuse_hpos_as_odom = (_params.fusion_mode & MASK_USE_GPS) != 0;\n"),
 (C, """					// use the change in position since the last measurement
					_ev_pos_innov(0) = _state.pos(0) - _hpos_pred_prev(0) - ev_delta_pos(0);
					_ev_pos_innov(1) = _state.pos(1) - _hpos_pred_prev(1) - ev_delta_pos(1);

					// observation 1-STD error, incremental pos observation is expected to have more uncertainty
					Matrix3f ev_pos_var = matrix::diag(_ev_sample_delayed.posVar);
					ev_pos_var = _R_ev_to_ekf * ev_pos_var * _R_ev_to_ekf.transpose();
					ev_pos_obs_var(0) = fmaxf(ev_pos_var(0, 0), sq(0.5f));
					ev_pos_obs_var(1) = fmaxf(ev_pos_var(1, 1), sq(0.5f));
""", """					const Matrix3f ev_pos_var = _R_ev_to_ekf * matrix::diag(_ev_sample_delayed.posVar) * _R_ev_to_ekf.transpose();

					for (int axis = 0; axis < 2; axis++) {
						const float moved = _state.pos(axis) - _hpos_pred_prev(axis);
						_ev_pos_innov(axis) = moved - ev_delta_pos(axis);
						ev_pos_obs_var(axis) = ev_pos_var(axis, axis) > 0.25f ? ev_pos_var(axis, axis) : 0.25f;
					}
"""),
 (C, """				_ev_pos_innov(0) = _state.pos(0) - ev_pos_meas(0);
				_ev_pos_innov(1) = _state.pos(1) - ev_pos_meas(1);
""", "				_ev_pos_innov.xy() = Vector2f(_state.pos - ev_pos_meas);\n"),
 (C, """		// if the ev data is not in a NED reference frame, then the transformation between EV and EKF navigation frames
		// needs to be calculated and the observations rotated into the EKF frame of reference
		if ((_params.fusion_mode & MASK_ROTATE_EV) && ((_params.fusion_mode & MASK_USE_EVPOS) || (_params.fusion_mode & MASK_USE_EVVEL)) && !_control_status.flags.ev_yaw) {
""", """		const auto selected = [this](int mask) { return (_params.fusion_mode & mask) != 0; };

		if (selected(MASK_ROTATE_EV) && selected(MASK_USE_EVPOS | MASK_USE_EVVEL) && !_control_status.flags.ev_yaw) {
"""),
 (C, """			if (isRecent(_time_last_ext_vision, 2 * EV_MAX_INTERVAL)) {
				// turn on use of external vision measurements for position
				if (_params.fusion_mode & MASK_USE_EVPOS && !_control_status.flags.ev_pos) {
					startEvPosFusion();
				}

				// turn on use of external vision measurements for velocity
				if (_params.fusion_mode & MASK_USE_EVVEL && !_control_status.flags.ev_vel) {
					startEvVelFusion();
				}
			}
""", """			const bool regular = isRecent(_time_last_ext_vision, 2 * EV_MAX_INTERVAL);
			const bool start_pos = regular && selected(MASK_USE_EVPOS) && !_control_status.flags.ev_pos;
			const bool start_vel = regular && selected(MASK_USE_EVVEL) && !_control_status.flags.ev_vel;

			if (start_pos) {
				startEvPosFusion();
			}

			if (start_vel) {
				startEvVelFusion();
			}
""")],
'fakepos2': [(C, """			Vector3f fake_pos_obs_var;

			if (_control_status.flags.in_air && _control_status.flags.tilt_align) {
				fake_pos_obs_var(0) = fake_pos_obs_var(1) = sq(fmaxf(_params.pos_noaid_noise, _params.gps_pos_noise));

			} else if (_control_status.flags.vehicle_at_rest) {
				// Accelerate tilt fine alignment by fusing more
				// aggressively when the vehicle is at rest
				fake_pos_obs_var(0) = fake_pos_obs_var(1) = sq(0.1f);

			} else {
				fake_pos_obs_var(0) = fake_pos_obs_var(1) = sq(0.5f);
			}

			_gps_pos_innov.xy() = Vector2f(_state.pos) - _last_known_posNE;
""", """			float noise = 0.5f;

			if (_control_status.flags.in_air && _control_status.flags.tilt_align) {
				noise = math::max(_params.pos_noaid_noise, _params.gps_pos_noise);

			} else if (_control_status.flags.vehicle_at_rest) {
				noise = 0.1f;
			}

			const Vector3f fake_pos_obs_var(noise * noise, noise * noise, 0.f);

			for (unsigned i = 0; i < 2; ++i) {
				_gps_pos_innov(i) = _state.pos(i) - _last_known_posNE(i);
			}
"""),
 (C, """		// Fuse synthetic position observations every 200msec
		if (isTimedOut(_time_last_fake_pos, (uint64_t)2e5)) {
""", """		constexpr uint64_t interval_us = 200000;

		if (isTimedOut(_time_last_fake_pos, interval_us)) {
"""),
 (C, "			if (isTimedOut(_time_last_fake_pos, (uint64_t)4e5)) {", "			if (isTimedOut(_time_last_fake_pos, 2 * interval_us)) {"),
 (C, """	if (!isHorizontalAidingActive()
	    && !(_control_status.flags.fuse_aspd && _control_status.flags.fuse_beta)) {

		// We now need to use a synthetic position observation to prevent unconstrained drift of the INS states.
		_using_synthetic_position = true;
""", """	const bool wind_relative_aiding = _control_status.flags.fuse_aspd && _control_status.flags.fuse_beta;

	_using_synthetic_position = !(isHorizontalAidingActive() || wind_relative_aiding);

	if (_using_synthetic_position) {
"""),
 (C, """
	} else {
		_using_synthetic_position = false;
	}

}

void Ekf::controlAuxVelFusion()
""", """	}
}

void Ekf::controlAuxVelFusion()
""")],
'aux2': [(C, """	const bool data_ready = _auxvel_buffer.pop_first_older_than(_imu_sample_delayed.time_us, &_auxvel_sample_delayed);

	if (data_ready && isHorizontalAidingActive()) {

		const Vector2f aux_vel_innov_gate(_params.auxvel_gate, _params.auxvel_gate);

		_last_vel_obs = _auxvel_sample_delayed.vel;
		_aux_vel_innov = _state.vel - _last_vel_obs;
		_last_vel_obs_var = _auxvel_sample_delayed.velVar;

		fuseHorizontalVelocity(_aux_vel_innov, aux_vel_innov_gate, _auxvel_sample_delayed.velVar,
				_aux_vel_innov_var, _aux_vel_test_ratio);
""", """	auxVelSample &sample = _auxvel_sample_delayed;

	if (!_auxvel_buffer.pop_first_older_than(_imu_sample_delayed.time_us, &sample)) {
		return;
	}

	if (isHorizontalAidingActive()) {
		Vector2f gate;
		gate.setAll(_params.auxvel_gate);

		_aux_vel_innov = _state.vel;
		_aux_vel_innov -= sample.vel;
		_last_vel_obs = sample.vel;
		_last_vel_obs_var = sample.velVar;

		fuseHorizontalVelocity(_aux_vel_innov, gate, _last_vel_obs_var, _aux_vel_innov_var, _aux_vel_test_ratio);
""")],
'flowterr': [(C, """	if (!_flow_for_terrain_data_ready && _flow_data_ready && _control_status.flags.in_air) {
		// TODO: WARNING, _flow_data_ready can be modified in controlOpticalFlowFusion
		// due to some checks failing
		// only fuse flow for terrain if range data hasn't been fused for 5 seconds
		_flow_for_terrain_data_ready = isTimedOut(_time_last_hagl_fuse, (uint64_t)5E6);
		// only fuse flow for terrain if the main filter is not fusing flow and we are using gps
		_flow_for_terrain_data_ready &= (!_control_status.flags.opt_flow && _control_status.flags.gps);
	}
""", """	if (_flow_data_ready && !_flow_for_terrain_data_ready && _control_status.flags.in_air) {
		const bool gps_without_flow = _control_status.flags.gps && !_control_status.flags.opt_flow;

		if (gps_without_flow && isTimedOut(_time_last_hagl_fuse, (uint64_t)5000000)) {
			_flow_for_terrain_data_ready = true;
		}
	}
"""),
 (C, """	_delta_time_baro_us = _baro_sample_delayed.time_us;
	_baro_data_ready = _baro_buffer.pop_first_older_than(_imu_sample_delayed.time_us, &_baro_sample_delayed);

	// if we have a new baro sample save the delta time between this sample and the last sample which is
	// used below for baro offset calculations
	if (_baro_data_ready) {
		_delta_time_baro_us = _baro_sample_delayed.time_us - _delta_time_baro_us;
	}
""", """	const uint64_t baro_time_prev = _baro_sample_delayed.time_us;
	_baro_data_ready = _baro_buffer.pop_first_older_than(_imu_sample_delayed.time_us, &_baro_sample_delayed);
	_delta_time_baro_us = _baro_data_ready ? (_baro_sample_delayed.time_us - baro_time_prev) : baro_time_prev;
"""),
 (C, """	// check for intermittent data (before pop_first_older_than)
	const baroSample &baro_init = _baro_buffer.get_newest();
	_baro_hgt_faulty = !isRecent(baro_init.time_us, 2 * BARO_MAX_INTERVAL);

	const gpsSample &gps_init = _gps_buffer.get_newest();
	_gps_hgt_intermittent = !isRecent(gps_init.time_us, 2 * GPS_MAX_INTERVAL);

	// check for arrival of new sensor data at the fusion time horizon
	_time_prev_gps_us = _gps_sample_delayed.time_us;
""", """	_gps_hgt_intermittent = !isRecent(_gps_buffer.get_newest().time_us, 2 * GPS_MAX_INTERVAL);
	_baro_hgt_faulty = !isRecent(_baro_buffer.get_newest().time_us, 2 * BARO_MAX_INTERVAL);

	_time_prev_gps_us = _gps_sample_delayed.time_us;
"""),
 (C, """			_control_status.flags.tilt_align = true;
			_control_status.flags.yaw_align = resetMagHeading(_mag_lpf.getState()); // TODO: is this needed?

			// send alignment status message to the console
			const char* height_source = nullptr;
			if (_control_status.flags.baro_hgt) {
				height_source = "baro";

			} else if (_control_status.flags.ev_hgt) {
				height_source = "ev";

			} else if (_control_status.flags.gps_hgt) {
				height_source = "gps";

			} else if (_control_status.flags.rng_hgt) {
				height_source = "rng";

			} else {
				height_source = "unknown";

			}
			if (height_source){
				ECL_INFO("%llu: EKF aligned, (%s hgt, IMU buf: %i, OBS buf: %i)",
					(unsigned long long)_imu_sample_delayed.time_us, height_source, (int)_imu_buffer_length, (int)_obs_buffer_length);
			}
""", """			_control_status.flags.tilt_align = true;
			const bool heading_ok = resetMagHeading(_mag_lpf.getState());
			_control_status.flags.yaw_align = heading_ok;
			ECL_INFO("%llu: EKF aligned, (%s hgt)", (unsigned long long)_imu_sample_delayed.time_us, heightSourceName());
"""),
 (C, "void Ekf::controlFusionModes()\n{", """const char *Ekf::heightSourceName() const
{
	return _control_status.flags.baro_hgt ? "baro"
	       : _control_status.flags.ev_hgt ? "ev"
	       : _control_status.flags.gps_hgt ? "gps"
	       : _control_status.flags.rng_hgt ? "rng" : "unknown";
}

void Ekf::controlFusionModes()
{"""),
 (H, "	void controlGpsYawFusion();\n", "	void controlGpsYawFusion();\n	const char *heightSourceName() const;\n")],
}
