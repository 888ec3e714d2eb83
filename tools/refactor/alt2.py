V='EKF/vel_pos_fusion.cpp'; H='EKF/ekf.h'; D='EKF/imu_down_sampler.cpp'; DH='EKF/imu_down_sampler.hpp'; R_='EKF/RingBuffer.h'; S='EKF/sensor_range_finder.cpp'; SH='EKF/sensor_range_finder.hpp'; G='EKF/gps_checks.cpp'
R = {
'velpos3': [
 (V, """	// if there is bad vertical acceleration data, then don't reject measurement,
	// but limit innovation to prevent spikes that could destabilise the filter
	float innovation;
	if (_bad_vert_accel_detected && !innov_check_pass) {
		const float innov_limit = innov_gate(1) * sqrtf(innov_var(2));
		innovation = math::constrain(innov(2), -innov_limit, innov_limit);
		innov_check_pass = true;
	} else {
		innovation = innov(2);
	}

	if (innov_check_pass) {
		_time_last_ver_vel_fuse = _time_last_imu;
		_innov_check_fail_status.flags.reject_ver_vel = false;

		fuseVelPosHeight(innovation, innov_var(2), 2);

		return true;

	} else {
		_innov_check_fail_status.flags.reject_ver_vel = true;
		return false;
	}
""", """	float innovation = innov(2);

	if (!innov_check_pass && _bad_vert_accel_detected) {
		limitInnovation(innovation, innov_gate(1), innov_var(2));
		innov_check_pass = true;
	}

	_innov_check_fail_status.flags.reject_ver_vel = !innov_check_pass;

	if (innov_check_pass) {
		fuseVelPosHeight(innovation, innov_var(2), 2);
		_time_last_ver_vel_fuse = _time_last_imu;
	}

	return innov_check_pass;
"""),
 (V, """	// if there is bad vertical acceleration data, then don't reject measurement,
	// but limit innovation to prevent spikes that could destabilise the filter
	float innovation;
	if (_bad_vert_accel_detected && !innov_check_pass) {
		const float innov_limit = innov_gate(1) * sqrtf(innov_var(2));
		innovation = math::constrain(innov(2), -innov_limit, innov_limit);
		innov_check_pass = true;
	} else {
		innovation = innov(2);
	}

	if (innov_check_pass) {
		_time_last_hgt_fuse = _time_last_imu;
""", """	float innovation = innov(2);

	if (!innov_check_pass && _bad_vert_accel_detected) {
		limitInnovation(innovation, innov_gate(1), innov_var(2));
		innov_check_pass = true;
	}

	if (innov_check_pass) {
		_time_last_hgt_fuse = _time_last_imu;
"""),
 (V, """bool Ekf::fuseHorizontalVelocity(const""", """static void limitInnovation(float &innovation, const float gate, const float variance)
{
	const float limit = gate * sqrtf(variance);

	if (innovation > limit) {
		innovation = limit;

	} else if (innovation < -limit) {
		innovation = -limit;
	}
}

bool Ekf::fuseHorizontalVelocity(const"""),
 (V, """	Vector24f Kfusion;  // Kalman gain vector for any single observation - sequential fusion is used.
	const unsigned state_index = obs_index + 4;  // we start with vx and this is the 4. state

	// calculate kalman gain K = PHS, where S = 1/innovation variance
	for (int row = 0; row < _k_num_states; row++) {
		Kfusion(row) = P(row, state_index) / innov_var;
	}

	SquareMatrix24f KHP;

	for (unsigned row = 0; row < _k_num_states; row++) {
		for (unsigned column = 0; column < _k_num_states; column++) {
			KHP(row, column) = Kfusion(row) * P(state_index, column);
		}
	}
""", """	const unsigned state_index = obs_index + 4;
	Vector24f Kfusion;
	SquareMatrix24f KHP;

	for (unsigned row = 0; row < _k_num_states; row++) {
		const float gain = P(row, state_index) / innov_var;
		Kfusion(row) = gain;

		unsigned column = 0;

		while (column < _k_num_states) {
			KHP(row, column) = gain * P(state_index, column);
			++column;
		}
	}
"""),
 (V, """	if (index == 0) {
		_fault_status.flags.bad_vel_N = status;

	} else if (index == 1) {
		_fault_status.flags.bad_vel_E = status;

	} else if (index == 2) {
		_fault_status.flags.bad_vel_D = status;

	} else if (index == 3) {
		_fault_status.flags.bad_pos_N = status;

	} else if (index == 4) {
		_fault_status.flags.bad_pos_E = status;

	} else if (index == 5) {
		_fault_status.flags.bad_pos_D = status;
	}
""", """	auto &faults = _fault_status.flags;

	switch (index) {
	case 0: faults.bad_vel_N = status; break;

	case 1: faults.bad_vel_E = status; break;

	case 2: faults.bad_vel_D = status; break;

	case 3: faults.bad_pos_N = status; break;

	case 4: faults.bad_pos_E = status; break;

	case 5: faults.bad_pos_D = status; break;

	default:
		break;
	}
""")],
'hvel': [(V, """	innov_var(0) = P(4, 4) + obs_var(0);
	innov_var(1) = P(5, 5) + obs_var(1);
	test_ratio(0) = fmaxf(sq(innov(0)) / (sq(innov_gate(0)) * innov_var(0)),
			      sq(innov(1)) / (sq(innov_gate(0)) * innov_var(1)));

	const bool innov_check_pass = (test_ratio(0) <= 1.0f);

	if (innov_check_pass) {
		_time_last_hor_vel_fuse = _time_last_imu;
		_innov_check_fail_status.flags.reject_hor_vel = false;

		fuseVelPosHeight(innov(0), innov_var(0), 0);
		fuseVelPosHeight(innov(1), innov_var(1), 1);

		return true;

	} else {
		_last_fail_hvel_innov(0) = innov(0);
		_last_fail_hvel_innov(1) = innov(1);
		_innov_check_fail_status.flags.reject_hor_vel = true;
		return false;
	}
""", """	const float gate_sq = sq(innov_gate(0));
	float ratio[2];

	for (int axis = 0; axis < 2; axis++) {
		innov_var(axis) = P(4 + axis, 4 + axis) + obs_var(axis);
		ratio[axis] = sq(innov(axis)) / (gate_sq * innov_var(axis));
	}

	test_ratio(0) = fmaxf(ratio[0], ratio[1]);

	if (!(test_ratio(0) <= 1.0f)) {
		_innov_check_fail_status.flags.reject_hor_vel = true;
		_last_fail_hvel_innov = Vector2f(innov);
		return false;
	}

	_innov_check_fail_status.flags.reject_hor_vel = false;
	_time_last_hor_vel_fuse = _time_last_imu;

	for (int axis = 0; axis < 2; axis++) {
		fuseVelPosHeight(innov(axis), innov_var(axis), axis);
	}

	return true;
""")],
'sampler': [(D, """	_imu_down_sampled.delta_ang.setZero();
	_imu_down_sampled.delta_vel.setZero();
	_imu_down_sampled.delta_ang_dt = 0.0f;
	_imu_down_sampled.delta_vel_dt = 0.0f;
	_imu_down_sampled.delta_vel_clipping[0] = false;
	_imu_down_sampled.delta_vel_clipping[1] = false;
	_imu_down_sampled.delta_vel_clipping[2] = false;
	_delta_angle_accumulated.setIdentity();
""", """	imuSample &acc = _imu_down_sampled;
	acc.delta_ang = acc.delta_vel = Vector3f();
	acc.delta_ang_dt = acc.delta_vel_dt = 0.0f;

	for (bool &clipped : acc.delta_vel_clipping) {
		clipped = false;
	}

	_delta_angle_accumulated = Quatf();
"""),
 (D, """	_imu_down_sampled.delta_vel = delta_R * _imu_down_sampled.delta_vel;

	// accumulate the most recent delta velocity data at the updated rotation frame
	// assume effective sample time is halfway between the previous and current rotation frame
	_imu_down_sampled.delta_vel += (imu_sample_new.delta_vel + delta_R * imu_sample_new.delta_vel) * 0.5f;
""", """	const Vector3f half = imu_sample_new.delta_vel / 2.f;
	_imu_down_sampled.delta_vel = delta_R * (_imu_down_sampled.delta_vel + half) + half;
"""),
 (D, """		_imu_collection_time_adj += 0.01f * (_imu_down_sampled.delta_ang_dt - _target_dt);
		_imu_collection_time_adj = math::constrain(_imu_collection_time_adj, -0.5f * _target_dt,
							   0.5f * _target_dt);

		_imu_down_sampled.delta_ang = AxisAnglef(_delta_angle_accumulated);

		return true;

	} else {

		return false;
	}
""", """		const float excess = _imu_down_sampled.delta_ang_dt - _target_dt;
		const float limit = _target_dt / 2.f;
		_imu_collection_time_adj = math::constrain(_imu_collection_time_adj + excess * 0.01f, -limit, limit);
		_imu_down_sampled.delta_ang = AxisAnglef(_delta_angle_accumulated);
		return true;
	}

	return false;
""")],
'ring': [(R_, """		// start looking from newest observation data
		for (uint8_t i = 0; i < _size; i++) {
			int index = (_head - i);
			index = index < 0 ? _size + index : index;

			if (timestamp >= _buffer[index].time_us && timestamp < _buffer[index].time_us + (uint64_t)1e5) {
				*sample = _buffer[index];

				// Now we can set the tail to the item which
				// comes after the one we removed since we don't
				// want to have any older data in the buffer
				if (index == _head) {
					_tail = _head;
					_first_write = true;

				} else {
					_tail = (index + 1) % _size;
				}

				_buffer[index].time_us = 0;

				return true;
			}

			if (index == _tail) {
				// we have reached the tail and haven't got a
				// match
				return false;
			}
		}

		return false;
""", """		constexpr uint64_t max_age_us = 100000;
		uint8_t index = _head;
		uint8_t left = _size;

		while (left-- > 0) {
			data_type &item = _buffer[index];
			const bool in_time = item.time_us <= timestamp && timestamp < item.time_us + max_age_us;

			if (in_time) {
				*sample = item;
				item.time_us = 0;
				_first_write = (index == _head);
				_tail = _first_write ? _head : next(index);
				return true;
			}

			if (index == _tail) {
				break;
			}

			index = (index == 0) ? _size - 1 : index - 1;
		}

		return false;
"""),
 (R_, """		uint8_t head_new = _head;

		if (!_first_write) {
			head_new = (_head + 1) % _size;
		}

		_buffer[head_new] = sample;
		_head = head_new;

		// move tail if we overwrite it
		if (_head == _tail && !_first_write) {
			_tail = (_tail + 1) % _size;

		} else {
			_first_write = false;
		}
""", """		if (_first_write) {
			_buffer[_head] = sample;
			_first_write = false;
			return;
		}

		_head = next(_head);
		_buffer[_head] = sample;

		if (_tail == _head) {
			_tail = next(_tail);
		}
"""),
 (R_, """private:
	data_type *_buffer{nullptr};
""", """private:
	uint8_t next(const uint8_t index) const { return (index + 1 < _size) ? index + 1 : 0; }

	data_type *_buffer{nullptr};
"""),
 (R_, """		if (_buffer != nullptr) {
			delete[] _buffer;
		}

		_buffer = new data_type[size]{};
""", """		delete[] _buffer;
		_buffer = new data_type[size]{};
""")],
'range2': [(S, """	// Don't run the checks unless we have retrieved new data from the buffer
	if (_is_sample_ready) {
		_is_sample_valid = false;

		if (_sample.quality == 0) {
			_time_bad_quality_us = current_time_us;

		} else if (current_time_us - _time_bad_quality_us > _quality_hyst_us) {
			// We did not receive bad quality data for some time

			if (isTiltOk() && isDataInRange()) {
				updateStuckCheck();

				if (!_is_stuck) {
					_is_sample_valid = true;
					_time_last_valid_us = _sample.time_us;
				}
			}
		}
	}
""", """	if (!_is_sample_ready) {
		return;
	}

	_is_sample_valid = passesChecks(current_time_us);

	if (_is_sample_valid) {
		_time_last_valid_us = _sample.time_us;
	}
"""),
 (S, "void SensorRangeFinder::updateDtDataLpf(", """bool SensorRangeFinder::passesChecks(const uint64_t now)
{
	const bool bad_quality = (_sample.quality == 0);

	if (bad_quality) {
		_time_bad_quality_us = now;
	}

	const bool settled = !bad_quality && (now - _time_bad_quality_us > _quality_hyst_us);

	if (!settled || !isTiltOk() || !isDataInRange()) {
		return false;
	}

	updateStuckCheck();
	return !_is_stuck;
}

void SensorRangeFinder::updateDtDataLpf("""),
 (SH, "	void updateDtDataLpf(uint64_t current_time_us);", "	bool passesChecks(const uint64_t now);\n	void updateDtDataLpf(uint64_t current_time_us);"),
 (S, """	float alpha = 0.5f * _dt_update;
	_dt_data_lpf = _dt_data_lpf * (1.0f - alpha) + alpha * (current_time_us - _sample.time_us);

	// Apply spike protection to the filter state.
	_dt_data_lpf = fminf(_dt_data_lpf, 4e6f);
""", """	const float alpha = _dt_update / 2.0f;
	const float blended = (1.0f - alpha) * _dt_data_lpf + alpha * (current_time_us - _sample.time_us);
	constexpr float spike_limit = 4000000.0f;
	_dt_data_lpf = fminf(spike_limit, blended);
"""),
 (S, """	if (((_sample.time_us - _time_last_valid_us) > (uint64_t)10e6)) {

		// require a variance of rangefinder values to check for "stuck" measurements
		if (_stuck_max_val - _stuck_min_val > _stuck_threshold) {
			_stuck_min_val = 0.0f;
			_stuck_max_val = 0.0f;
			_is_stuck = false;

		} else {
			if (_sample.rng > _stuck_max_val) {
				_stuck_max_val = _sample.rng;
			}

			if (_stuck_min_val < 0.1f || _sample.rng < _stuck_min_val) {
				_stuck_min_val = _sample.rng;
			}

			_is_stuck = true;
		}
	}
""", """	if (_sample.time_us - _time_last_valid_us <= 10000000ULL) {
		return;
	}

	_is_stuck = !(_stuck_max_val - _stuck_min_val > _stuck_threshold);

	if (!_is_stuck) {
		_stuck_min_val = _stuck_max_val = 0.0f;
		return;
	}

	const bool new_min = (_stuck_min_val < 0.1f) || (_sample.rng < _stuck_min_val);
	_stuck_max_val = (_sample.rng > _stuck_max_val) ? _sample.rng : _stuck_max_val;
	_stuck_min_val = new_min ? _sample.rng : _stuck_min_val;
""")],
'collect2': [(G, """		const bool declination_was_valid = ISFINITE(_mag_declination_gps);

		// set the magnetic field data returned by the geo library using the current GPS position
		_mag_declination_gps = get_mag_declination_radians(lat, lon);
		_mag_inclination_gps = get_mag_inclination_radians(lat, lon);
		_mag_strength_gps = get_mag_strength_gauss(lat, lon);

		// request a reset of the yaw using the new declination
		if (_params.mag_fusion_type == MAG_FUSE_TYPE_NONE) {
""", """		const bool declination_was_valid = updateMagTables(lat, lon);

		// request a reset of the yaw using the new declination
		if (_params.mag_fusion_type == MAG_FUSE_TYPE_NONE) {
"""),
 (G, """			const bool declination_was_valid = ISFINITE(_mag_declination_gps);

			// If we have good GPS data set the origin's WGS-84 position to the last gps fix
			const double lat = gps.lat * 1.0e-7;
			const double lon = gps.lon * 1.0e-7;

			// set the magnetic field data returned by the geo library using the current GPS position
			_mag_declination_gps = get_mag_declination_radians(lat, lon);
			_mag_inclination_gps = get_mag_inclination_radians(lat, lon);
			_mag_strength_gps = get_mag_strength_gauss(lat, lon);

			// request mag yaw reset if there's a mag declination for the first time
			if (_params.mag_fusion_type != MAG_FUSE_TYPE_NONE) {
				if (!declination_was_valid && ISFINITE(_mag_declination_gps)) {
					_mag_yaw_reset_req = true;
				}
			}
""", """			const double lat = gps.lat * 1.0e-7;
			const double lon = gps.lon * 1.0e-7;
			const bool first = !updateMagTables(lat, lon) && ISFINITE(_mag_declination_gps);
			_mag_yaw_reset_req = _mag_yaw_reset_req || (first && _params.mag_fusion_type != MAG_FUSE_TYPE_NONE);
"""),
 (G, "bool Ekf::collect_gps(const gps_message &gps)\n{", """bool Ekf::updateMagTables(const double lat, const double lon)
{
	const bool was_valid = ISFINITE(_mag_declination_gps);
	_mag_strength_gps = get_mag_strength_gauss(lat, lon);
	_mag_inclination_gps = get_mag_inclination_radians(lat, lon);
	_mag_declination_gps = get_mag_declination_radians(lat, lon);
	return was_valid;
}

bool Ekf::collect_gps(const gps_message &gps)
{"""),
 (H, "	void controlGpsYawFusion();\n", "	void controlGpsYawFusion();\n	bool updateMagTables(const double lat, const double lon);\n"),
 (G, """	// Check the fix type
	_gps_check_fail_status.flags.fix = (gps.fix_type < 3);

	// Check the number of satellites
	_gps_check_fail_status.flags.nsats = (gps.nsats < _params.req_nsats);

	// Check the position dilution of precision
	_gps_check_fail_status.flags.pdop = (gps.pdop > _params.req_pdop);

	// Check the reported horizontal and vertical position accuracy
	_gps_check_fail_status.flags.hacc = (gps.eph > _params.req_hacc);
	_gps_check_fail_status.flags.vacc = (gps.epv > _params.req_vacc);

	// Check the reported speed accuracy
	_gps_check_fail_status.flags.sacc = (gps.sacc > _params.req_sacc);
""", """	auto &fail = _gps_check_fail_status.flags;
	const auto exceeds = [](const float value, const float limit) { return value > limit; };

	fail.fix = (gps.fix_type <= 2);
	fail.nsats = (gps.nsats < _params.req_nsats);
	fail.pdop = exceeds(gps.pdop, _params.req_pdop);
	fail.hacc = exceeds(gps.eph, _params.req_hacc);
	fail.vacc = exceeds(gps.epv, _params.req_vacc);
	fail.sacc = exceeds(gps.sacc, _params.req_sacc);
"""),
 (G, """		_gps_velNE_filt = gps_velNE * filter_coef + _gps_velNE_filt * (1.0f - filter_coef);
""", """		_gps_velNE_filt += (gps_velNE - _gps_velNE_filt) * filter_coef;
"""),
 (G, """	_gps_error_norm = fmaxf((gps.eph / _params.req_hacc), (gps.epv / _params.req_vacc));
	_gps_error_norm = fmaxf(_gps_error_norm, (gps.sacc / _params.req_sacc));
""", """	const float worst_pos = fmaxf((gps.eph / _params.req_hacc), (gps.epv / _params.req_vacc));
	_gps_error_norm = fmaxf((gps.sacc / _params.req_sacc), worst_pos);
""")],
}
