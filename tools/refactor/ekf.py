E='EKF/ekf.cpp'; H='EKF/ekf.h'
R = {
'reset': [(E, """	_state.vel.setZero();
	_state.pos.setZero();
	_state.delta_ang_bias.setZero();
	_state.delta_vel_bias.setZero();
	_state.mag_I.setZero();
	_state.mag_B.setZero();
	_state.wind_vel.setZero();
	_state.quat_nominal.setIdentity();
""", """	resetStates();
"""), (E, "void Ekf::reset()\n{", """void Ekf::resetStates()
{
	for (Vector3f *v : {&_state.vel, &_state.pos, &_state.delta_ang_bias, &_state.delta_vel_bias, &_state.mag_I, &_state.mag_B}) {
		v->zero();
	}

	_state.wind_vel = Vector2f(0.f, 0.f);
	_state.quat_nominal = Quatf(1.f, 0.f, 0.f, 0.f);
}

void Ekf::reset()
{"""), (H, "	bool initialiseFilter(void);\n", "	bool initialiseFilter(void);\n	void resetStates();\n"), (E, "#include <mathlib/mathlib.h>\n", "#include <mathlib/mathlib.h>\n#include <initializer_list>\n")],
'reset2': [(E, """	_state.vel.setZero();
	_state.pos.setZero();
	_state.delta_ang_bias.setZero();
	_state.delta_vel_bias.setZero();
	_state.mag_I.setZero();
	_state.mag_B.setZero();
	_state.wind_vel.setZero();
	_state.quat_nominal.setIdentity();

	// TODO: who resets the output buffer content?
	_output_new.vel.setZero();
	_output_new.pos.setZero();
	_output_new.quat_nominal.setIdentity();
""", """	_state = stateSample{};
	_state.quat_nominal.setIdentity();

	// TODO: who resets the output buffer content?
	_output_new.quat_nominal = _state.quat_nominal;
	_output_new.vel = _state.vel;
	_output_new.pos = _output_new.vel;
"""), (E, "	_control_status.value = 0;\n	_control_status_prev.value = 0;\n", "	_control_status.value = _control_status_prev.value = 0;\n")],
'update': [(E, """	if (!_filter_initialised) {
		_filter_initialised = initialiseFilter();

		if (!_filter_initialised) {
			return false;
		}
	}

	// Only run the filter if IMU data in the buffer has been updated
	if (_imu_updated) {
""", """	if (!_filter_initialised && !(_filter_initialised = initialiseFilter())) {
		return false;
	}

	const bool new_imu_data = _imu_updated;

	// Only run the filter if IMU data in the buffer has been updated
	if (new_imu_data) {
"""), (E, "		updated = true;\n\n", ""), (E, "	return updated;\n", "	return new_imu_data;\n"), (E, "	bool updated = false;\n\n", "")],
'init': [(E, """	if (_is_first_imu_sample) {
		_accel_lpf.reset(imu_init.delta_vel / imu_init.delta_vel_dt);
		_gyro_lpf.reset(imu_init.delta_ang / imu_init.delta_ang_dt);
		_is_first_imu_sample = false;

	} else {
		_accel_lpf.update(imu_init.delta_vel / imu_init.delta_vel_dt);
		_gyro_lpf.update(imu_init.delta_ang / imu_init.delta_ang_dt);
	}
""", """	const Vector3f accel = imu_init.delta_vel / imu_init.delta_vel_dt;
	const Vector3f gyro = imu_init.delta_ang * (1.f / imu_init.delta_ang_dt);

	if (!_is_first_imu_sample) {
		_gyro_lpf.update(gyro);
		_accel_lpf.update(accel);

	} else {
		_is_first_imu_sample = false;
		_gyro_lpf.reset(gyro);
		_accel_lpf.reset(accel);
	}
"""), (E, """	if (_mag_buffer.pop_first_older_than(_imu_sample_delayed.time_us, &_mag_sample_delayed)) {
		if (_mag_sample_delayed.time_us != 0) {
			if (_mag_counter == 0) {
				_mag_lpf.reset(_mag_sample_delayed.mag);

			} else {
				_mag_lpf.update(_mag_sample_delayed.mag);
			}

			_mag_counter++;
		}
	}
""", """	const bool new_mag = _mag_buffer.pop_first_older_than(_imu_sample_delayed.time_us, &_mag_sample_delayed);

	if (new_mag && _mag_sample_delayed.time_us > 0) {
		const auto &mag = _mag_sample_delayed.mag;
		_mag_counter++ == 0 ? (void)_mag_lpf.reset(mag) : (void)_mag_lpf.update(mag);
	}
"""), (E, """			if (_baro_counter == 0) {
				_baro_hgt_offset = _baro_sample_delayed.hgt;

			} else {
				_baro_hgt_offset = 0.9f * _baro_hgt_offset + 0.1f * _baro_sample_delayed.hgt;
			}

			_baro_counter++;
""", """			const float weight = (_baro_counter == 0) ? 1.f : 0.1f;
			_baro_hgt_offset = (1.f - weight) * _baro_hgt_offset + weight * _baro_sample_delayed.hgt;
			_baro_counter += 1;
"""), (E, """	if (_params.mag_fusion_type <= MAG_FUSE_TYPE_3D) {
		if (_mag_counter < _obs_buffer_length) {
			// not enough mag samples accumulated
			return false;
		}
	}

	if (_baro_counter < _obs_buffer_length) {
		// not enough baro samples accumulated
		return false;
	}
""", """	const bool use_mag = _params.mag_fusion_type <= MAG_FUSE_TYPE_3D;
	const bool enough_mag = !use_mag || _mag_counter >= _obs_buffer_length;
	const bool enough_baro = _baro_counter >= _obs_buffer_length;

	if (!(enough_baro && enough_mag)) {
		// not enough samples accumulated
		return false;
	}
"""), (E, """	// update the yaw angle variance using the variance of the measurement
	if (_params.mag_fusion_type <= MAG_FUSE_TYPE_3D) {
		// using magnetic heading tuning parameter
		increaseQuatYawErrVariance(sq(fmaxf(_params.mag_heading_noise, 1.0e-2f)));
	}
""", """	// update the yaw angle variance using the variance of the measurement
	if (use_mag) {
		// using magnetic heading tuning parameter
		const float heading_noise = _params.mag_heading_noise > 0.01f ? _params.mag_heading_noise : 0.01f;
		increaseQuatYawErrVariance(heading_noise * heading_noise);
	}
"""), (E, """	_time_last_hgt_fuse = _time_last_imu;
	_time_last_hor_pos_fuse = _time_last_imu;
	_time_last_delpos_fuse = _time_last_imu;
	_time_last_hor_vel_fuse = _time_last_imu;
	_time_last_hagl_fuse = _time_last_imu;
	_time_last_flow_terrain_fuse = _time_last_imu;
	_time_last_of_fuse = _time_last_imu;
""", """	uint64_t *const times[] = {&_time_last_of_fuse, &_time_last_flow_terrain_fuse, &_time_last_hagl_fuse, &_time_last_hor_vel_fuse,
				   &_time_last_delpos_fuse, &_time_last_hor_pos_fuse, &_time_last_hgt_fuse};

	for (uint64_t *t : times) {
		*t = _time_last_imu;
	}
""")],
'tilt': [(E, """	if (accel_norm < 0.8f * CONSTANTS_ONE_G ||
	    accel_norm > 1.2f * CONSTANTS_ONE_G ||
	    gyro_norm > math::radians(15.0f)) {
		return false;
	}

	// get initial roll and pitch estimate from delta velocity vector, assuming vehicle is static
	const Vector3f gravity_in_body = _accel_lpf.getState().normalized();
	const float pitch = asinf(gravity_in_body(0));
	const float roll = atan2f(-gravity_in_body(1), -gravity_in_body(2));
""", """	const bool accel_ok = (accel_norm >= 0.8f * CONSTANTS_ONE_G) && (accel_norm <= 1.2f * CONSTANTS_ONE_G);
	const bool gyro_ok = gyro_norm <= math::radians(15.0f);

	if (!accel_ok || !gyro_ok) {
		return false;
	}

	// get initial roll and pitch estimate from delta velocity vector, assuming vehicle is static
	const Vector3f gravity_in_body = _accel_lpf.getState() / accel_norm;
	const float roll = atan2f(-gravity_in_body(1), -gravity_in_body(2));
	const float pitch = asinf(gravity_in_body(0));
""")],
'predict': [(E, """	Vector3f corrected_delta_ang = _imu_sample_delayed.delta_ang - _state.delta_ang_bias;

	// subtract component of angular rate due to earth rotation
	corrected_delta_ang -= _R_to_earth.transpose() * _earth_rate_NED * _imu_sample_delayed.delta_ang_dt;

	const Quatf dq(AxisAnglef{corrected_delta_ang});

	// rotate the previous quaternion by the delta quaternion using a quaternion multiplication
	_state.quat_nominal = (_state.quat_nominal * dq).normalized();
""", """	const imuSample &imu = _imu_sample_delayed;
	const Vector3f earth_rotation = _R_to_earth.transpose() * (_earth_rate_NED * imu.delta_ang_dt);
	const Quatf dq(AxisAnglef{imu.delta_ang - (_state.delta_ang_bias + earth_rotation)});

	// rotate the previous quaternion by the delta quaternion using a quaternion multiplication
	_state.quat_nominal = _state.quat_nominal * dq;
	_state.quat_nominal.normalize();
"""), (E, """	const Vector3f vel_last = _state.vel;

	// calculate the increment in velocity using the current orientation
	_state.vel += corrected_delta_vel_ef;

	// compensate for acceleration due to gravity
	_state.vel(2) += CONSTANTS_ONE_G * _imu_sample_delayed.delta_vel_dt;

	// predict position states via trapezoidal integration of velocity
	_state.pos += (vel_last + _state.vel) * _imu_sample_delayed.delta_vel_dt * 0.5f;
""", """	const Vector3f gravity(0.f, 0.f, CONSTANTS_ONE_G);
	const Vector3f delta = corrected_delta_vel_ef + gravity * imu.delta_vel_dt;

	// predict position states via trapezoidal integration of velocity
	_state.pos += (_state.vel + delta * 0.5f) * imu.delta_vel_dt;

	// calculate the increment in velocity using the current orientation
	_state.vel += delta;
"""), (E, """	float input = 0.5f * (_imu_sample_delayed.delta_vel_dt + _imu_sample_delayed.delta_ang_dt);

	// filter and limit input between -50% and +100% of nominal value
	input = math::constrain(input, 0.5f * FILTER_UPDATE_PERIOD_S, 2.0f * FILTER_UPDATE_PERIOD_S);
	_dt_ekf_avg = 0.99f * _dt_ekf_avg + 0.01f * input;
""", """	float input = (imu.delta_vel_dt + imu.delta_ang_dt) / 2.f;

	// filter and limit input between -50% and +100% of nominal value
	input = fminf(fmaxf(input, 0.5f * FILTER_UPDATE_PERIOD_S), 2.0f * FILTER_UPDATE_PERIOD_S);
	_dt_ekf_avg += 0.01f * (input - _dt_ekf_avg);
"""), (E, """	if (_imu_sample_delayed.delta_ang_dt > 0.25f * FILTER_UPDATE_PERIOD_S) {
		_ang_rate_delayed_raw = _imu_sample_delayed.delta_ang / _imu_sample_delayed.delta_ang_dt;
	}
""", """	_ang_rate_delayed_raw = (imu.delta_ang_dt > 0.25f * FILTER_UPDATE_PERIOD_S) ? Vector3f(imu.delta_ang / imu.delta_ang_dt) : _ang_rate_delayed_raw;
""")],
'output': [(E, "	const Vector3f delta_angle(imu.delta_ang - _state.delta_ang_bias * dt_scale_correction + _delta_angle_corr);\n", "	Vector3f delta_angle(imu.delta_ang);\n	delta_angle -= dt_scale_correction * _state.delta_ang_bias;\n	delta_angle += _delta_angle_corr;\n"),
 (E, "	const float spin_del_ang_D = delta_angle.dot(Vector3f(_R_to_earth_now.row(2)));\n	_yaw_delta_ef += spin_del_ang_D;\n", """	float spin_del_ang_D = 0.f;

	for (uint8_t i = 0; i < 3; i++) {
		spin_del_ang_D += delta_angle(i) * _R_to_earth_now(2, i);
	}

	_yaw_delta_ef = _yaw_delta_ef + spin_del_ang_D;
"""), (E, """	if (_imu_updated) {
		_output_buffer.push(_output_new);
		_output_vert_buffer.push(_output_vert_new);
""", """	if (!_imu_updated) {
		return;
	}

	{
		_output_vert_buffer.push(_output_vert_new);
		_output_buffer.push(_output_new);
"""), (E, """		const float scalar = (q_error(0) >= 0.0f) ? -2.f : 2.f;

		const Vector3f delta_ang_error{scalar * q_error(1), scalar * q_error(2), scalar * q_error(3)};
""", """		Vector3f delta_ang_error{2.f * q_error(1), 2.f * q_error(2), 2.f * q_error(3)};

		if (q_error(0) >= 0.0f) {
			delta_ang_error = -delta_ang_error;
		}
"""), (E, """		const Vector3f vel_err(_state.vel - output_delayed.vel);
		const Vector3f pos_err(_state.pos - output_delayed.pos);

		_output_tracking_error(1) = vel_err.norm();
		_output_tracking_error(2) = pos_err.norm();

		// calculate a velocity correction that will be applied to the output state history
		_vel_err_integ += vel_err;
		const Vector3f vel_correction = vel_err * vel_gain + _vel_err_integ * sq(vel_gain) * 0.1f;

		// calculate a position correction that will be applied to the output state history
		_pos_err_integ += pos_err;
		const Vector3f pos_correction = pos_err * pos_gain + _pos_err_integ * sq(pos_gain) * 0.1f;

		applyCorrectionToOutputBuffer(vel_correction, pos_correction);
""", """		const Vector3f vel_correction = trackingCorrection(_state.vel - output_delayed.vel, vel_gain, _vel_err_integ, _output_tracking_error(1));
		const Vector3f pos_correction = trackingCorrection(_state.pos - output_delayed.pos, pos_gain, _pos_err_integ, _output_tracking_error(2));

		applyCorrectionToOutputBuffer(vel_correction, pos_correction);
"""), (E, "void Ekf::calculateOutputStates(const imuSample &imu)\n{", """static Vector3f trackingCorrection(const Vector3f &error, const float gain, Vector3f &integral, float &magnitude)
{
	magnitude = error.norm();
	integral += error;
	return error * gain + integral * (gain * gain * 0.1f);
}

void Ekf::calculateOutputStates(const imuSample &imu)
{"""), (E, """	for (uint8_t index = 0; index < _output_buffer.get_length(); index++) {
		// a constant velocity correction is applied
		_output_buffer[index].vel += vel_correction;

		// a constant position correction is applied
		_output_buffer[index].pos += pos_correction;
	}
""", """	uint8_t index = _output_buffer.get_length();

	while (index > 0) {
		index--;
		outputSample &sample = _output_buffer[index];

		// a constant position correction is applied
		sample.pos = sample.pos + pos_correction;

		// a constant velocity correction is applied
		sample.vel = sample.vel + vel_correction;
	}
""")],
'vert': [(E, """		const uint8_t index_next = (index + 1) % size;
		outputVert &current_state = _output_vert_buffer[index];
""", """		const uint8_t index_next = (index + 1 < size) ? index + 1 : 0;
		outputVert &current_state = _output_vert_buffer[index];
"""), (E, "		index = (index + 1) % size;\n", "		index = index_next;\n"),
 (E, """		// correct the velocity
		if (counter == 0) {
			current_state.vert_vel += vert_vel_correction;
		}
""", ""), (E, """	for (uint8_t counter = 0; counter < (size - 1); counter++) {
""", """	if (size > 1) {
		_output_vert_buffer[index].vert_vel += vert_vel_correction;
	}

	for (uint8_t counter = 1; counter < size; counter++) {
""")],
'quat': [(E, """	return Quatf{_output_new.quat_nominal * AxisAnglef{delta_angle}}.unit();""", """	Quatf q = _output_new.quat_nominal * Quatf(AxisAnglef{delta_angle});
	q.normalize();
	return q;""")],
}
