I='EKF/estimator_interface.cpp'; IH='EKF/estimator_interface.h'; H='EKF/ekf.h'; HP='EKF/ekf_helper.cpp'; T='EKF/terrain_estimator.cpp'; K='EKF/ekf.cpp'
def al(buf, nm):
    return f"""	if (!_initialised || _{buf}_buffer_fail) {{
		return;
	}}

	// Allocate the required buffer size if not previously done
	// Do not retry if allocation has failed previously
	if (_{buf}_buffer.get_length() < _obs_buffer_length) {{
		_{buf}_buffer_fail = !_{buf}_buffer.allocate(_obs_buffer_length);

		if (_{buf}_buffer_fail) {{
			printBufferAllocationFailed("{nm}");
			return;
		}}
	}}
"""
R = {
# one template instead of the repeated allocation code
'allocT': [(I, al(b, n), f"	if (!prepareBuffer(_{b}_buffer, _{b}_buffer_fail, \"{n}\")) {{\n		return;\n	}}\n") for b, n in (('mag','mag'),('gps','GPS'),('baro','baro'),('airspeed','airspeed'),('range','range'))]
 + [(IH, "	virtual bool init(uint64_t timestamp) = 0;", """	template <typename Sample>
	bool prepareBuffer(RingBuffer<Sample> &buffer, bool &failed, const char *name)
	{
		if (_initialised && !failed) {
			if (buffer.get_length() < _obs_buffer_length) {
				failed = !buffer.allocate(_obs_buffer_length);

				if (failed) {
					printBufferAllocationFailed(name);
				}
			}

			return !failed;
		}

		return false;
	}

	virtual bool init(uint64_t timestamp) = 0;""")],
'avg': [(IH, "	virtual bool init(uint64_t timestamp) = 0;", "	static int64_t delayOf(const float delay_ms);\n	virtual bool init(uint64_t timestamp) = 0;"),
 (I, """		magSample mag_sample_new;

		// Use the time in the middle of the downsampling interval for the sample
		mag_sample_new.time_us = 1000 * (_mag_timestamp_sum / _mag_sample_count);
		mag_sample_new.time_us -= static_cast<int64_t>(_params.mag_delay_ms * 1000);
		mag_sample_new.time_us -= FILTER_UPDATE_PERIOD_MS * 1000 / 2;

		mag_sample_new.mag = _mag_data_sum / _mag_sample_count;

		_mag_buffer.push(mag_sample_new);

		_mag_sample_count = 0;
		_mag_data_sum.setZero();
		_mag_timestamp_sum = 0;
""", """		const uint64_t mean_time = 1000 * (_mag_timestamp_sum / _mag_sample_count);
		const Vector3f mean = _mag_data_sum / _mag_sample_count;

		_mag_data_sum = Vector3f();
		_mag_timestamp_sum = _mag_sample_count = 0;

		magSample averaged{};
		averaged.mag = mean;
		averaged.time_us = mean_time - delayOf(_params.mag_delay_ms);
		_mag_buffer.push(averaged);
"""),
 (I, """		const float baro_alt_avg = _baro_alt_sum / (float)_baro_sample_count;

		baroSample baro_sample_new;
		baro_sample_new.hgt = compensateBaroForDynamicPressure(baro_alt_avg);

		// Use the time in the middle of the downsampling interval for the sample
		baro_sample_new.time_us = 1000 * (_baro_timestamp_sum / _baro_sample_count);
		baro_sample_new.time_us -= static_cast<int64_t>(_params.baro_delay_ms * 1000);
		baro_sample_new.time_us -= FILTER_UPDATE_PERIOD_MS * 1000 / 2;
""", """		const float baro_alt_avg = _baro_alt_sum / (float)_baro_sample_count;

		baroSample baro_sample_new;
		baro_sample_new.time_us = 1000 * (_baro_timestamp_sum / _baro_sample_count) - delayOf(_params.baro_delay_ms);
		baro_sample_new.hgt = compensateBaroForDynamicPressure(baro_alt_avg);
"""),
 (I, "// Accumulate imu data and store to buffer at desired rate\n", """int64_t EstimatorInterface::delayOf(const float delay_ms)
{
	return static_cast<int64_t>(delay_ms * 1000) + FILTER_UPDATE_PERIOD_MS * 500;
}

// Accumulate imu data and store to buffer at desired rate
"""),
 (I, """		if (ISFINITE(gps.yaw_offset)) {
			_gps_yaw_offset = gps.yaw_offset;

		} else {
			_gps_yaw_offset = 0.0f;
		}

		// Only calculate the relative position if the WGS-84 location of the origin is set
		if (collect_gps(gps)) {
			float lpos_x = 0.0f;
			float lpos_y = 0.0f;
			map_projection_project(&_pos_ref, (gps.lat / 1.0e7), (gps.lon / 1.0e7), &lpos_x, &lpos_y);
			gps_sample_new.pos(0) = lpos_x;
			gps_sample_new.pos(1) = lpos_y;

		} else {
			gps_sample_new.pos(0) = 0.0f;
			gps_sample_new.pos(1) = 0.0f;
		}
""", """		_gps_yaw_offset = ISFINITE(gps.yaw_offset) ? gps.yaw_offset : 0.0f;
		gps_sample_new.pos.setZero();

		if (collect_gps(gps)) {
			const double lat = gps.lat / 1.0e7;
			const double lon = gps.lon / 1.0e7;
			map_projection_project(&_pos_ref, lat, lon, &gps_sample_new.pos(0), &gps_sample_new.pos(1));
		}
""")],
'vibe2': [(I, """	// calculate a metric which indicates the amount of coning vibration
	Vector3f temp = imu.delta_ang % _delta_ang_prev;
	_vibe_metrics(0) = 0.99f * _vibe_metrics(0) + 0.01f * temp.norm();

	// calculate a metric which indicates the amount of high frequency gyro vibration
	temp = imu.delta_ang - _delta_ang_prev;
	_delta_ang_prev = imu.delta_ang;
	_vibe_metrics(1) = 0.99f * _vibe_metrics(1) + 0.01f * temp.norm();

	// calculate a metric which indicates the amount of high frequency accelerometer vibration
	temp = imu.delta_vel - _delta_vel_prev;
	_delta_vel_prev = imu.delta_vel;
	_vibe_metrics(2) = 0.99f * _vibe_metrics(2) + 0.01f * temp.norm();
""", """	const float level[3] = {
		imu.delta_ang.cross(_delta_ang_prev).norm(),
		(imu.delta_ang - _delta_ang_prev).norm(),
		(imu.delta_vel - _delta_vel_prev).norm()
	};

	for (unsigned i = 0; i < 3; i++) {
		_vibe_metrics(i) = 0.99f * _vibe_metrics(i) + 0.01f * level[i];
	}

	_delta_vel_prev = imu.delta_vel;
	_delta_ang_prev = imu.delta_ang;
"""),
 (I, """	if (!_control_status.flags.in_air) {
		if ((_vibe_metrics(1) * 4.0E4f > _params.is_moving_scaler)
		    || (_vibe_metrics(2) * 2.1E2f > _params.is_moving_scaler)
		    || ((imu.delta_ang.norm() / dt) > 0.05f * _params.is_moving_scaler)) {

			_time_last_move_detect_us = imu.time_us;
		}

		return ((imu.time_us - _time_last_move_detect_us) > (uint64_t)1E6);

	} else {
		_time_last_move_detect_us = imu.time_us;
		return false;
	}
""", """	const float limit = _params.is_moving_scaler;
	const bool vibrating = (_vibe_metrics(1) * 4.0E4f > limit) || (_vibe_metrics(2) * 2.1E2f > limit);
	const bool moving = _control_status.flags.in_air || vibrating || ((imu.delta_ang.norm() / dt) > 0.05f * limit);

	if (moving) {
		_time_last_move_detect_us = imu.time_us;
		return false;
	}

	return (imu.time_us - _time_last_move_detect_us) > 1000000ULL;
""")],
'hagl': [(T, """	bool initialized = false;

	if (!_control_status.flags.in_air) {
		// if on ground, do not trust the range sensor, but assume a ground clearance
		_terrain_vpos = _state.pos(2) + _params.rng_gnd_clearance;
		// use the ground clearance value as our uncertainty
		_terrain_var = sq(_params.rng_gnd_clearance);
		_time_last_fake_hagl_fuse = _time_last_imu;
		initialized = true;

	} else if (shouldUseRangeFinderForHagl()
		   && _range_sensor.isDataHealthy()) {
		// if we have a fresh measurement, use it to initialise the terrain estimator
		_terrain_vpos = _state.pos(2) + _range_sensor.getDistBottom();
		// initialise state variance to variance of measurement
		_terrain_var = sq(_params.range_noise);
		// success
		initialized = true;

	} else if (shouldUseOpticalFlowForHagl()
		   && _flow_for_terrain_data_ready) {
		// initialise terrain vertical position to origin as this is the best guess we have
		_terrain_vpos = fmaxf(0.0f,  _state.pos(2));
		_terrain_var = 100.0f;
		initialized = true;

	} else {
		// no information - cannot initialise
	}

	if (initialized) {
		// has initialized with valid data
		_time_last_hagl_fuse = _time_last_imu;
	}

	return initialized;
""", """	const bool use_range = shouldUseRangeFinderForHagl() && _range_sensor.isDataHealthy();
	const bool use_flow = _flow_for_terrain_data_ready && shouldUseOpticalFlowForHagl();
	float variance;

	if (!_control_status.flags.in_air) {
		_time_last_fake_hagl_fuse = _time_last_imu;
		_terrain_vpos = _params.rng_gnd_clearance + _state.pos(2);
		variance = sq(_params.rng_gnd_clearance);

	} else if (use_range) {
		_terrain_vpos = _range_sensor.getDistBottom() + _state.pos(2);
		variance = sq(_params.range_noise);

	} else if (use_flow) {
		_terrain_vpos = fmaxf(_state.pos(2), 0.0f);
		variance = 10.0f * 10.0f;

	} else {
		return false;
	}

	_terrain_var = variance;
	_time_last_hagl_fuse = _time_last_imu;
	return true;
"""),
 (T, """	if (_hagl_test_ratio <= 1.0f) {
		// calculate the Kalman gain
		const float gain = _terrain_var / _hagl_innov_var;
		// correct the state
		_terrain_vpos -= gain * _hagl_innov;
		// correct the variance
		_terrain_var = fmaxf(_terrain_var * (1.0f - gain), 0.0f);
		// record last successful fusion event
		_time_last_hagl_fuse = _time_last_imu;
		_innov_check_fail_status.flags.reject_hagl = false;

	} else {
		// If we have been rejecting range data for too long, reset to measurement
		if (isTimedOut(_time_last_hagl_fuse, (uint64_t)10E6)) {
			_terrain_vpos = _state.pos(2) + meas_hagl;
			_terrain_var = obs_variance;

		} else {
			_innov_check_fail_status.flags.reject_hagl = true;
		}
	}
""", """	const bool rejected = !(_hagl_test_ratio <= 1.0f);

	if (rejected && isTimedOut(_time_last_hagl_fuse, (uint64_t)10E6)) {
		_terrain_var = obs_variance;
		_terrain_vpos = meas_hagl + _state.pos(2);
		return;
	}

	_innov_check_fail_status.flags.reject_hagl = rejected;

	if (rejected) {
		return;
	}

	const float gain = _terrain_var / _hagl_innov_var;
	_terrain_vpos = _terrain_vpos - gain * _hagl_innov;
	_terrain_var = fmaxf(_terrain_var - gain * _terrain_var, 0.0f);
	_time_last_hagl_fuse = _time_last_imu;
"""),
 (T, """		if (_terrain_vpos - _state.pos(2) < _params.rng_gnd_clearance) {
			_terrain_vpos = _params.rng_gnd_clearance + _state.pos(2);
		}
""", """		_terrain_vpos = fmaxf(_terrain_vpos, _params.rng_gnd_clearance + _state.pos(2));
""")],
'flowloop': [(T, """	// Calculate observation matrix for flow around the vehicle x axis
	const float Hx = vel_body(1) * t0 * pred_hagl_inv * pred_hagl_inv;

	// Constrain terrain variance to be non-negative
	_terrain_var = fmaxf(_terrain_var, 0.0f);

	// Cacluate innovation variance
	_flow_innov_var(0) = Hx * Hx * _terrain_var + R_LOS;

	// calculate the kalman gain for the flow x measurement
	const float Kx = _terrain_var * Hx / _flow_innov_var(0);

	// calculate prediced optical flow about x axis
	const float pred_flow_x = vel_body(1) * earth_to_body(2, 2) * pred_hagl_inv;

	// calculate flow innovation (x axis)
	_flow_innov(0) = pred_flow_x - opt_flow_rate(0);

	// calculate correction term for terrain variance
	const float KxHxP =  Kx * Hx * _terrain_var;

	// innovation consistency check
	const float gate_size = fmaxf(_params.flow_innov_gate, 1.0f);
	float flow_test_ratio = sq(_flow_innov(0)) / (sq(gate_size) * _flow_innov_var(0));

	// do not perform measurement update if badly conditioned
	if (flow_test_ratio <= 1.0f) {
		_terrain_vpos += Kx * _flow_innov(0);
		// guard against negative variance
		_terrain_var = fmaxf(_terrain_var - KxHxP, 0.0f);
		_time_last_flow_terrain_fuse = _time_last_imu;
	}

	// Calculate observation matrix for flow around the vehicle y axis
	const float Hy = -vel_body(0) * t0 * pred_hagl_inv * pred_hagl_inv;

	// Calculuate innovation variance
	_flow_innov_var(1) = Hy * Hy * _terrain_var + R_LOS;

	// calculate the kalman gain for the flow y measurement
	const float Ky = _terrain_var * Hy / _flow_innov_var(1);

	// calculate prediced optical flow about y axis
	const float pred_flow_y = -vel_body(0) * earth_to_body(2, 2) * pred_hagl_inv;

	// calculate flow innovation (y axis)
	_flow_innov(1) = pred_flow_y - opt_flow_rate(1);

	// calculate correction term for terrain variance
	const float KyHyP =  Ky * Hy * _terrain_var;

	// innovation consistency check
	flow_test_ratio = sq(_flow_innov(1)) / (sq(gate_size) * _flow_innov_var(1));

	if (flow_test_ratio <= 1.0f) {
		_terrain_vpos += Ky * _flow_innov(1);
		// guard against negative variance
		_terrain_var = fmaxf(_terrain_var - KyHyP, 0.0f);
		_time_last_flow_terrain_fuse = _time_last_imu;
	}
""", """	_terrain_var = fmaxf(_terrain_var, 0.0f);

	const float gate_size = fmaxf(_params.flow_innov_gate, 1.0f);
	const float speed[2] = {vel_body(1), -vel_body(0)};

	for (int axis = 0; axis < 2; axis++) {
		const float H = speed[axis] * t0 * sq(pred_hagl_inv);

		_flow_innov(axis) = speed[axis] * earth_to_body(2, 2) * pred_hagl_inv - opt_flow_rate(axis);
		_flow_innov_var(axis) = sq(H) * _terrain_var + R_LOS;

		if (sq(_flow_innov(axis)) / (sq(gate_size) * _flow_innov_var(axis)) <= 1.0f) {
			const float gain = _terrain_var * H / _flow_innov_var(axis);
			_terrain_vpos += gain * _flow_innov(axis);
			_terrain_var = fmaxf(_terrain_var - gain * H * _terrain_var, 0.0f);
			_time_last_flow_terrain_fuse = _time_last_imu;
		}
	}
""")],
'veltoflow': [(HP, """	if ((range - _params.rng_gnd_clearance) > 0.3f) {
		// we should have reliable OF measurements so
		// calculate X and Y body relative velocities from OF measurements
		Vector3f vel_optflow_body;
		vel_optflow_body(0) = - range * _flow_compensated_XY_rad(1) / _flow_sample_delayed.dt;
		vel_optflow_body(1) =   range * _flow_compensated_XY_rad(0) / _flow_sample_delayed.dt;
		vel_optflow_body(2) = 0.0f;

		// rotate from body to earth frame
		const Vector3f vel_optflow_earth = _R_to_earth * vel_optflow_body;

		resetHorizontalVelocityTo(Vector2f(vel_optflow_earth));

	} else {
		resetHorizontalVelocityTo(Vector2f{0.f, 0.f});
	}
""", """	Vector2f new_vel;

	if (range - _params.rng_gnd_clearance > 0.3f) {
		const Vector2f rate = _flow_compensated_XY_rad / _flow_sample_delayed.dt;
		new_vel = Vector2f(_R_to_earth * Vector3f(-rate(1) * range, rate(0) * range, 0.0f));
	}

	resetHorizontalVelocityTo(new_vel);
"""),
 (HP, """	for (uint8_t index = 0; index < _output_buffer.get_length(); index++) {
		_output_buffer[index].vel.xy() += delta_horz_vel;
	}

	_output_new.vel.xy() += delta_horz_vel;

	_state_reset_status.velNE_change = delta_horz_vel;
	_state_reset_status.velNE_counter++;
""", """	_state_reset_status.velNE_counter += 1;
	_state_reset_status.velNE_change = delta_horz_vel;

	const auto shift = [&delta_horz_vel](outputSample &out) {
		out.vel(0) += delta_horz_vel(0);
		out.vel(1) += delta_horz_vel(1);
	};

	shift(_output_new);

	for (int index = _output_buffer.get_length() - 1; index >= 0; index--) {
		shift(_output_buffer[index]);
	}
"""),
 (HP, """	float q0,q1,q2,q3;
	if (_state.quat_nominal(0) >= 0.0f) {
		q0 = _state.quat_nominal(0);
		q1 = _state.quat_nominal(1);
		q2 = _state.quat_nominal(2);
		q3 = _state.quat_nominal(3);

	} else {
		q0 = -_state.quat_nominal(0);
		q1 = -_state.quat_nominal(1);
		q2 = -_state.quat_nominal(2);
		q3 = -_state.quat_nominal(3);
	}
	float delta = 2.0f*acosf(q0);
""", """	const float sign = (_state.quat_nominal(0) >= 0.0f) ? 1.0f : -1.0f;
	const float q0 = sign * _state.quat_nominal(0);
	const float q1 = sign * _state.quat_nominal(1);
	const float q2 = sign * _state.quat_nominal(2);
	const float q3 = sign * _state.quat_nominal(3);
	float delta = 2.0f*acosf(q0);
""")],
'predict2': [(K, """	const Vector3f corrected_delta_vel = _imu_sample_delayed.delta_vel - _state.delta_vel_bias;
	const Vector3f corrected_delta_vel_ef = _R_to_earth * corrected_delta_vel;
""", """	const Vector3f corrected_delta_vel_ef = toEarth(_imu_sample_delayed.delta_vel - _state.delta_vel_bias);
"""),
 (K, """	const Vector3f vel_last = _state.vel;

	// calculate the increment in velocity using the current orientation
	_state.vel += corrected_delta_vel_ef;

	// compensate for acceleration due to gravity
	_state.vel(2) += CONSTANTS_ONE_G * _imu_sample_delayed.delta_vel_dt;

	// predict position states via trapezoidal integration of velocity
	_state.pos += (vel_last + _state.vel) * _imu_sample_delayed.delta_vel_dt * 0.5f;
""", """	const float dt = _imu_sample_delayed.delta_vel_dt;
	Vector3f delta_vel = corrected_delta_vel_ef;
	delta_vel(2) += dt * CONSTANTS_ONE_G;

	// trapezoidal integration
	_state.pos += _state.vel * dt + delta_vel * (dt / 2.f);
	_state.vel += delta_vel;
"""),
 (H, "	void controlGpsYawFusion();\n", "	void controlGpsYawFusion();\n	inline Vector3f toEarth(const Vector3f &body) const { return _R_to_earth * body; }\n"),
 (K, """	if (accel_norm < 0.8f * CONSTANTS_ONE_G ||
	    accel_norm > 1.2f * CONSTANTS_ONE_G ||
	    gyro_norm > math::radians(15.0f)) {
		return false;
	}
""", """	const float g_ratio = accel_norm / CONSTANTS_ONE_G;
	const bool one_g = g_ratio >= 0.8f && g_ratio <= 1.2f;
	const bool still = gyro_norm <= math::radians(15.0f);

	if (!(one_g && still)) {
		return false;
	}
"""),
 (K, """	input = math::constrain(input, 0.5f * FILTER_UPDATE_PERIOD_S, 2.0f * FILTER_UPDATE_PERIOD_S);
	_dt_ekf_avg = 0.99f * _dt_ekf_avg + 0.01f * input;
""", """	input = math::constrain(input, FILTER_UPDATE_PERIOD_S / 2, FILTER_UPDATE_PERIOD_S * 2);
	_dt_ekf_avg += 0.01f * (input - _dt_ekf_avg);
""")],
}
