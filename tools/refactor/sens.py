RB='EKF/RingBuffer.h'; RF='EKF/sensor_range_finder.cpp'; DS='EKF/imu_down_sampler.cpp'; EI='EKF/estimator_interface.cpp'; EIH='EKF/estimator_interface.h'; GM='geo_lookup/geo_mag_declination.cpp'; W='airdata/WindEstimator.cpp'; WH='airdata/WindEstimator.hpp'
R = {
'ring_next': [(RB, "			head_new = (_head + 1) % _size;", "			head_new = next(_head);"),
 (RB, "			_tail = (_tail + 1) % _size;", "			_tail = next(_tail);"),
 (RB, "					_tail = (index + 1) % _size;", "					_tail = next(index);"),
 (RB, "private:\n	data_type *_buffer{nullptr};", "private:\n	uint8_t next(uint8_t i) const { return (i + 1 >= _size) ? 0 : i + 1; }\n\n	data_type *_buffer{nullptr};")],
'ring_pop': [(RB, """			int index = (_head - i);
			index = index < 0 ? _size + index : index;

			if (timestamp >= _buffer[index].time_us && timestamp < _buffer[index].time_us + (uint64_t)1e5) {
				*sample = _buffer[index];
""", """			const int index = (i <= _head) ? _head - i : _head + _size - i;
			data_type &entry = _buffer[index];
			const bool too_new = timestamp < entry.time_us;
			const bool too_old = timestamp >= entry.time_us + (uint64_t)1e5;

			if (!too_new && !too_old) {
				*sample = entry;
"""), (RB, "				_buffer[index].time_us = 0;\n", "				entry.time_us = 0;\n"),
 (RB, """			if (index == _tail) {
				// we have reached the tail and haven't got a
				// match
				return false;
			}
""", """			if (index == _tail) { break; }
""")],
'ring_pop2': [(RB, """		for (uint8_t i = 0; i < _size; i++) {
			int index = (_head - i);
			index = index < 0 ? _size + index : index;
""", """		uint8_t remaining = _size;
		int index = _head;

		while (remaining-- > 0) {
"""), (RB, """				// match
				return false;
			}
""", """				// match
				return false;
			}

			index = (index == 0) ? _size - 1 : index - 1;
""")],
'ring_push': [(RB, """		uint8_t head_new = _head;

		if (!_first_write) {
			head_new = (_head + 1) % _size;
		}

		_buffer[head_new] = sample;
		_head = head_new;

		// move tail if we overwrite it
		if (_head == _tail && !_first_write) {
			_tail = (_tail + 1) % _size;

		} else {
			_first_write = false;
		}
""", """		if (_first_write) {
			_buffer[_head] = sample;
			_first_write = false;
			return;
		}

		if (++_head >= _size) {
			_head = 0;
		}

		_buffer[_head] = sample;

		// move tail if we overwrite it
		if (_head == _tail && ++_tail == _size) {
			_tail = 0;
		}
""")],
'rng': [(RF, """	if (isSampleOutOfDate(current_time_us) || !isDataContinuous()) {
		_is_sample_valid = false;
		_is_regularly_sending_data = false;
		return;
	}

	_is_regularly_sending_data = true;

	// Don't run the checks unless we have retrieved new data from the buffer
	if (_is_sample_ready) {
		_is_sample_valid = false;

		if (_sample.quality == 0) {
			_time_bad_quality_us = current_time_us;

		} else if (current_time_us - _time_bad_quality_us > _quality_hyst_us) {
			// We did not receive bad quality data for some time

			if (isTiltOk() && isDataInRange()) {
				updateStuckCheck();

				if (!_is_stuck) {
					_is_sample_valid = true;
					_time_last_valid_us = _sample.time_us;
				}
			}
		}
	}
""", """	_is_regularly_sending_data = isDataContinuous() && !isSampleOutOfDate(current_time_us);

	if (!_is_regularly_sending_data) {
		_is_sample_valid = false;
		return;
	}

	// Don't run the checks unless we have retrieved new data from the buffer
	if (!_is_sample_ready) {
		return;
	}

	_is_sample_valid = false;

	if (_sample.quality == 0) {
		_time_bad_quality_us = current_time_us;
		return;
	}

	const uint64_t elapsed = current_time_us - _time_bad_quality_us;
	const bool quality_ok = elapsed > _quality_hyst_us;

	if (!quality_ok || !isDataInRange() || !isTiltOk()) {
		return;
	}

	updateStuckCheck();
	_is_sample_valid = !_is_stuck;

	if (_is_sample_valid) {
		_time_last_valid_us = _sample.time_us;
	}
"""), (RF, """	if (((_sample.time_us - _time_last_valid_us) > (uint64_t)10e6)) {

		// require a variance of rangefinder values to check for "stuck" measurements
		if (_stuck_max_val - _stuck_min_val > _stuck_threshold) {
			_stuck_min_val = 0.0f;
			_stuck_max_val = 0.0f;
			_is_stuck = false;

		} else {
			if (_sample.rng > _stuck_max_val) {
				_stuck_max_val = _sample.rng;
			}

			if (_stuck_min_val < 0.1f || _sample.rng < _stuck_min_val) {
				_stuck_min_val = _sample.rng;
			}

			_is_stuck = true;
		}
	}
""", """	constexpr uint64_t no_valid_timeout_us = 10 * 1000 * 1000;

	if (_sample.time_us - _time_last_valid_us <= no_valid_timeout_us) {
		return;
	}

	// require a variance of rangefinder values to check for "stuck" measurements
	const float spread = _stuck_max_val - _stuck_min_val;
	_is_stuck = spread <= _stuck_threshold || !(spread == spread);

	if (_is_stuck) {
		_stuck_max_val = fmaxf(_stuck_max_val, _sample.rng);
		_stuck_min_val = (_stuck_min_val < 0.1f) ? _sample.rng : fminf(_stuck_min_val, _sample.rng);

	} else {
		_stuck_min_val = _stuck_max_val = 0.0f;
	}
"""), (RF, "	_dt_data_lpf = _dt_data_lpf * (1.0f - alpha) + alpha * (current_time_us - _sample.time_us);\n\n	// Apply spike protection to the filter state.\n	_dt_data_lpf = fminf(_dt_data_lpf, 4e6f);",
 "	const float age = current_time_us - _sample.time_us;\n	_dt_data_lpf += alpha * (age - _dt_data_lpf);\n\n	if (_dt_data_lpf > 4e6f) {\n		_dt_data_lpf = 4e6f;\n	}")],
'ds': [(DS, """	// accumulate time deltas
	_imu_down_sampled.delta_ang_dt += imu_sample_new.delta_ang_dt;
	_imu_down_sampled.delta_vel_dt += imu_sample_new.delta_vel_dt;
	_imu_down_sampled.time_us = imu_sample_new.time_us;
	_imu_down_sampled.delta_vel_clipping[0] += imu_sample_new.delta_vel_clipping[0];
	_imu_down_sampled.delta_vel_clipping[1] += imu_sample_new.delta_vel_clipping[1];
	_imu_down_sampled.delta_vel_clipping[2] += imu_sample_new.delta_vel_clipping[2];
""", """	auto &acc = _imu_down_sampled;
	acc.time_us = imu_sample_new.time_us;

	for (int i = 0; i < 3; i++) {
		acc.delta_vel_clipping[i] = acc.delta_vel_clipping[i] || imu_sample_new.delta_vel_clipping[i];
	}

	// accumulate time deltas
	acc.delta_ang_dt += imu_sample_new.delta_ang_dt;
	acc.delta_vel_dt = acc.delta_vel_dt + imu_sample_new.delta_vel_dt;
"""), (DS, """	_imu_down_sampled.delta_vel = delta_R * _imu_down_sampled.delta_vel;

	// accumulate the most recent delta velocity data at the updated rotation frame
	// assume effective sample time is halfway between the previous and current rotation frame
	_imu_down_sampled.delta_vel += (imu_sample_new.delta_vel + delta_R * imu_sample_new.delta_vel) * 0.5f;
""", """	const Vector3f half = 0.5f * imu_sample_new.delta_vel;
	acc.delta_vel = delta_R * (acc.delta_vel + half) + half;
"""), (DS, """	if (_imu_down_sampled.delta_ang_dt >= _target_dt - _imu_collection_time_adj) {
		// accumulate the amount of time to advance the IMU collection time so that we meet the
		// average EKF update rate requirement
		_imu_collection_time_adj += 0.01f * (_imu_down_sampled.delta_ang_dt - _target_dt);
		_imu_collection_time_adj = math::constrain(_imu_collection_time_adj, -0.5f * _target_dt,
							   0.5f * _target_dt);

		_imu_down_sampled.delta_ang = AxisAnglef(_delta_angle_accumulated);

		return true;

	} else {

		return false;
	}
""", """	const bool done = !(acc.delta_ang_dt < _target_dt - _imu_collection_time_adj);

	if (done) {
		acc.delta_ang = AxisAnglef(_delta_angle_accumulated);

		const float lim = 0.5f * _target_dt;
		const float adj = _imu_collection_time_adj + 0.01f * (acc.delta_ang_dt - _target_dt);
		_imu_collection_time_adj = adj > lim ? lim : (adj < -lim ? -lim : adj);
	}

	return done;
"""), (DS, """	_imu_down_sampled.delta_vel_clipping[0] = false;
	_imu_down_sampled.delta_vel_clipping[1] = false;
	_imu_down_sampled.delta_vel_clipping[2] = false;
""", """	for (bool &clip : _imu_down_sampled.delta_vel_clipping) {
		clip = false;
	}

""")],
'interface': [(EI, """	// downsample to highest possible sensor rate
	// by taking the average of incoming sample
	_mag_sample_count++;
	_mag_data_sum += mag_sample.mag;
	_mag_timestamp_sum += mag_sample.time_us / 1000; // Dividing by 1000 to avoid overflow

	// limit data rate to prevent data being lost
	if ((mag_sample.time_us - _time_last_mag) > _min_obs_interval_us) {
		_time_last_mag = mag_sample.time_us;

		magSample mag_sample_new;
""", """	_mag_timestamp_sum += mag_sample.time_us / 1000; // Dividing by 1000 to avoid overflow
	_mag_data_sum = _mag_data_sum + mag_sample.mag;
	++_mag_sample_count;

	// limit data rate to prevent data being lost
	if ((mag_sample.time_us - _time_last_mag) <= _min_obs_interval_us) {
		return;
	}

	_time_last_mag = mag_sample.time_us;

	{
		magSample mag_sample_new;
"""), (EI, """		mag_sample_new.time_us = 1000 * (_mag_timestamp_sum / _mag_sample_count);
		mag_sample_new.time_us -= static_cast<int64_t>(_params.mag_delay_ms * 1000);
		mag_sample_new.time_us -= FILTER_UPDATE_PERIOD_MS * 1000 / 2;

		mag_sample_new.mag = _mag_data_sum / _mag_sample_count;

		_mag_buffer.push(mag_sample_new);

		_mag_sample_count = 0;
		_mag_data_sum.setZero();
		_mag_timestamp_sum = 0;
""", """		mag_sample_new.mag = _mag_data_sum * (1.f / _mag_sample_count);
		mag_sample_new.time_us = delayed(1000 * (_mag_timestamp_sum / _mag_sample_count), _params.mag_delay_ms, FILTER_UPDATE_PERIOD_MS * 1000 / 2);
		_mag_buffer.push(mag_sample_new);

		_mag_data_sum.zero();
		_mag_timestamp_sum = _mag_sample_count = 0;
"""), (EI, "		airspeed_sample_new.time_us -= static_cast<int64_t>(_params.airspeed_delay_ms * 1000);\n		airspeed_sample_new.time_us -= FILTER_UPDATE_PERIOD_MS * 1000 / 2;", "		airspeed_sample_new.time_us = delayed(airspeed_sample.time_us, _params.airspeed_delay_ms, FILTER_UPDATE_PERIOD_MS * 1000 / 2);"),
 (EI, "		range_sample_new.time_us -= static_cast<int64_t>(_params.range_delay_ms * 1000);\n		range_sample_new.time_us -= FILTER_UPDATE_PERIOD_MS * 1000 / 2;", "		range_sample_new.time_us = delayed(range_sample_new.time_us, _params.range_delay_ms, FILTER_UPDATE_PERIOD_MS * 1000 / 2);"),
 (EI, "		optflow_sample_new.time_us -= static_cast<int64_t>(_params.flow_delay_ms * 1000);\n		optflow_sample_new.time_us -= FILTER_UPDATE_PERIOD_MS * 1000 / 2;", "		optflow_sample_new.time_us = delayed(optflow_sample_new.time_us, _params.flow_delay_ms, FILTER_UPDATE_PERIOD_MS * 1000 / 2);"),
 (EI, "// Accumulate imu data and store to buffer", """// time stamp of the middle of the integration period of a sample
static uint64_t delayed(uint64_t time_us, float delay_ms, uint64_t half_period_us)
{
	const int64_t delay_us = static_cast<int64_t>(delay_ms * 1000);
	return time_us - delay_us - half_period_us;
}

// Accumulate imu data and store to buffer"""),
 (EI, """		const float baro_alt_avg = _baro_alt_sum / (float)_baro_sample_count;

		baroSample baro_sample_new;
		baro_sample_new.hgt = compensateBaroForDynamicPressure(baro_alt_avg);
""", """		baroSample baro_sample_new;
		baro_sample_new.hgt = _baro_alt_sum / _baro_sample_count;
		baro_sample_new.hgt = compensateBaroForDynamicPressure(baro_sample_new.hgt);
"""), (EI, """	const bool need_gps = (_params.fusion_mode & MASK_USE_GPS) || (_params.vdist_sensor_type == VDIST_SENSOR_GPS);

	// TODO: remove checks that are not timing related
	if (((gps.time_usec - _time_last_gps) > _min_obs_interval_us) && need_gps && gps.fix_type > 2) {
""", """	const bool gps_unused = !(_params.fusion_mode & MASK_USE_GPS) && (_params.vdist_sensor_type != VDIST_SENSOR_GPS);

	// TODO: remove checks that are not timing related
	if (gps_unused || gps.fix_type < 3) {
		return;
	}

	const uint64_t since_last = gps.time_usec - _time_last_gps;

	if (since_last > _min_obs_interval_us) {
"""), (EI, """		if (ISFINITE(gps.yaw_offset)) {
			_gps_yaw_offset = gps.yaw_offset;

		} else {
			_gps_yaw_offset = 0.0f;
		}

		// Only calculate the relative position if the WGS-84 location of the origin is set
		if (collect_gps(gps)) {
			float lpos_x = 0.0f;
			float lpos_y = 0.0f;
			map_projection_project(&_pos_ref, (gps.lat / 1.0e7), (gps.lon / 1.0e7), &lpos_x, &lpos_y);
			gps_sample_new.pos(0) = lpos_x;
			gps_sample_new.pos(1) = lpos_y;

		} else {
			gps_sample_new.pos(0) = 0.0f;
			gps_sample_new.pos(1) = 0.0f;
		}
""", """		_gps_yaw_offset = ISFINITE(gps.yaw_offset) ? gps.yaw_offset : 0.0f;

		// Only calculate the relative position if the WGS-84 location of the origin is set
		gps_sample_new.pos.setZero();

		if (collect_gps(gps)) {
			const double lat = gps.lat * 1.0e-7;
			const double lon = gps.lon * 1.0e-7;
			map_projection_project(&_pos_ref, lat, lon, &gps_sample_new.pos(0), &gps_sample_new.pos(1));
		}
"""),
],
'vibe': [(EI, """	Vector3f temp = imu.delta_ang % _delta_ang_prev;
	_vibe_metrics(0) = 0.99f * _vibe_metrics(0) + 0.01f * temp.norm();

	// calculate a metric which indicates the amount of high frequency gyro vibration
	temp = imu.delta_ang - _delta_ang_prev;
	_delta_ang_prev = imu.delta_ang;
	_vibe_metrics(1) = 0.99f * _vibe_metrics(1) + 0.01f * temp.norm();

	// calculate a metric which indicates the amount of high frequency accelerometer vibration
	temp = imu.delta_vel - _delta_vel_prev;
	_delta_vel_prev = imu.delta_vel;
	_vibe_metrics(2) = 0.99f * _vibe_metrics(2) + 0.01f * temp.norm();
""", """	const Vector3f level((imu.delta_ang % _delta_ang_prev).norm(),
			     (imu.delta_ang - _delta_ang_prev).norm(),
			     (imu.delta_vel - _delta_vel_prev).norm());

	_vibe_metrics = _vibe_metrics * 0.99f + level * 0.01f;

	_delta_ang_prev = imu.delta_ang;
	_delta_vel_prev = imu.delta_vel;
"""), (EI, """	if (!_control_status.flags.in_air) {
		if ((_vibe_metrics(1) * 4.0E4f > _params.is_moving_scaler)
		    || (_vibe_metrics(2) * 2.1E2f > _params.is_moving_scaler)
		    || ((imu.delta_ang.norm() / dt) > 0.05f * _params.is_moving_scaler)) {

			_time_last_move_detect_us = imu.time_us;
		}

		return ((imu.time_us - _time_last_move_detect_us) > (uint64_t)1E6);

	} else {
		_time_last_move_detect_us = imu.time_us;
		return false;
	}
""", """	bool moving = _control_status.flags.in_air;

	if (!moving) {
		const float &limit = _params.is_moving_scaler;
		const float rate = imu.delta_ang.norm() / dt;
		moving = _vibe_metrics(1) * 4.0E4f > limit;
		moving = moving || _vibe_metrics(2) * 2.1E2f > limit;
		moving |= rate > 0.05f * limit;
	}

	if (moving) {
		_time_last_move_detect_us = imu.time_us;
	}

	return !_control_status.flags.in_air && (imu.time_us - _time_last_move_detect_us > 1000000U);
""")],
'drag': [(EI, """	if ((_params.fusion_mode & MASK_USE_DRAG) && !_drag_buffer_fail) {

		// Allocate""", """	if (_drag_buffer_fail || (_params.fusion_mode & MASK_USE_DRAG) == 0) {
		return;
	}

	{
		// Allocate"""),
 (EI, """		uint8_t min_sample_ratio = (uint8_t) ceilf((float)_imu_buffer_length / _obs_buffer_length);

		if (min_sample_ratio < 5) {
			min_sample_ratio = 5;
		}
""", """		const uint8_t min_sample_ratio = math::max((uint8_t) ceilf((float)_imu_buffer_length / _obs_buffer_length), (uint8_t)5);
"""), (EI, """		_drag_down_sampled.accelXY(0) += imu.delta_vel(0);
		_drag_down_sampled.accelXY(1) += imu.delta_vel(1);
""", """		_drag_down_sampled.accelXY += imu.delta_vel.xy();
"""), (EI, """			_drag_down_sampled.accelXY(0) /= _drag_sample_time_dt;
			_drag_down_sampled.accelXY(1) /= _drag_sample_time_dt;
""", """			_drag_down_sampled.accelXY = _drag_down_sampled.accelXY / _drag_sample_time_dt;
""")],
'ifinit': [(EI, """	float max_time_delay_ms = math::max(_params.baro_delay_ms,
					math::max(_params.auxvel_delay_ms,
						_params.airspeed_delay_ms));
""", """	float max_time_delay_ms = _params.baro_delay_ms;
	const auto raise = [&max_time_delay_ms](float delay_ms) {
		if (delay_ms > max_time_delay_ms) { max_time_delay_ms = delay_ms; }
	};
	raise(_params.airspeed_delay_ms);
	raise(_params.auxvel_delay_ms);
"""), (EI, "		max_time_delay_ms = math::max(_params.mag_delay_ms, max_time_delay_ms);", "		raise(_params.mag_delay_ms);"),
 (EI, "		max_time_delay_ms = math::max(_params.flow_delay_ms, max_time_delay_ms);", "		raise(_params.flow_delay_ms);"),
 (EI, "	_imu_buffer_length = ceilf(max_time_delay_ms / FILTER_UPDATE_PERIOD_MS) + 1;", "	_imu_buffer_length = 1 + static_cast<uint8_t>(ceilf(max_time_delay_ms / FILTER_UPDATE_PERIOD_MS));"),
 (EI, "	_obs_buffer_length = math::max(math::min(obs_buffer_length, (float)_imu_buffer_length), 2.0f);", "	_obs_buffer_length = math::constrain(obs_buffer_length, 2.0f, math::max((float)_imu_buffer_length, 2.0f));"),
 (EI, """	if (!_imu_buffer.allocate(_imu_buffer_length) || !_output_buffer.allocate(_imu_buffer_length) || !_output_vert_buffer.allocate(_imu_buffer_length)) {""", """	const bool allocated = _imu_buffer.allocate(_imu_buffer_length)
			       && _output_buffer.allocate(_imu_buffer_length)
			       && _output_vert_buffer.allocate(_imu_buffer_length);

	if (!allocated) {"""),
 (EI, """	return int(_control_status.flags.gps)
	       + int(_control_status.flags.opt_flow)
	       + int(_control_status.flags.ev_pos)
	       + int(_control_status.flags.ev_vel)
	       // Combined airspeed and sideslip fusion allows sustained wind relative dead reckoning
	       // and so is treated as a single aiding source.
	       + int(_control_status.flags.fuse_aspd && _control_status.flags.fuse_beta);
""", """	const auto &flags = _control_status.flags;
	int count = 0;

	const bool active[] = {bool(flags.gps), bool(flags.opt_flow), bool(flags.ev_pos), bool(flags.ev_vel)};

	for (bool a : active) {
		if (a) { count++; }
	}

	// Combined airspeed and sideslip fusion allows sustained wind relative dead reckoning
	// and so is treated as a single aiding source.
	if (flags.fuse_aspd && flags.fuse_beta) {
		count++;
	}

	return count;
""")],
'alloc': [(EI, """	if (!_initialised || _range_buffer_fail) {
		return;
	}

	// Allocate the required buffer size if not previously done
	// Do not retry if allocation has failed previously
	if (_range_buffer.get_length() < _obs_buffer_length) {
		_range_buffer_fail = !_range_buffer.allocate(_obs_buffer_length);

		if (_range_buffer_fail) {
			printBufferAllocationFailed("range");
			return;
		}
	}
""", """	if (!prepare(_range_buffer, _range_buffer_fail, "range")) {
		return;
	}
"""), (EI, """	if (!_initialised || _baro_buffer_fail) {
		return;
	}

	// Allocate the required buffer size if not previously done
	// Do not retry if allocation has failed previously
	if (_baro_buffer.get_length() < _obs_buffer_length) {
		_baro_buffer_fail = !_baro_buffer.allocate(_obs_buffer_length);

		if (_baro_buffer_fail) {
			printBufferAllocationFailed("baro");
			return;
		}
	}
""", """	if (!prepare(_baro_buffer, _baro_buffer_fail, "baro")) {
		return;
	}
"""), (EIH, "	void printBufferAllocationFailed(const char *buffer_name);\n", """	void printBufferAllocationFailed(const char *buffer_name);

	template<typename T>
	bool prepare(RingBuffer<T> &buffer, bool &failed, const char *name)
	{
		if (!_initialised || failed) {
			return false;
		}

		if (buffer.get_length() < _obs_buffer_length) {
			failed = !buffer.allocate(_obs_buffer_length);

			if (failed) {
				printBufferAllocationFailed(name);
			}
		}

		return !failed;
	}
""")],
'lookup': [(GM, """	lat = math::constrain(lat, SAMPLING_MIN_LAT, SAMPLING_MAX_LAT);

	if (lon > SAMPLING_MAX_LON) {
		lon -= 360;
	}

	if (lon < SAMPLING_MIN_LON) {
		lon += 360;
	}
""", """	if (lon > SAMPLING_MAX_LON) {
		lon -= 360.f;

	} else if (lon < SAMPLING_MIN_LON) {
		lon += 360.f;
	}

	lat = lat < SAMPLING_MIN_LAT ? SAMPLING_MIN_LAT : (lat > SAMPLING_MAX_LAT ? SAMPLING_MAX_LAT : lat);
"""), (GM, """	const float data_min = lon_scale * (data_se - data_sw) + data_sw;
	const float data_max = lon_scale * (data_ne - data_nw) + data_nw;

	return lat_scale * (data_max - data_min) + data_min;
""", """	return interpolate(interpolate(data_sw, data_se, lon_scale), interpolate(data_nw, data_ne, lon_scale), lat_scale);
"""), (GM, "static constexpr float get_table_data(", """static constexpr float interpolate(float from, float to, float scale)
{
	return from + scale * (to - from);
}

static constexpr float get_table_data("""),
 (GM, """	const float data_sw = table[min_lat_index][min_lon_index];
	const float data_se = table[min_lat_index][min_lon_index + 1];
	const float data_ne = table[min_lat_index + 1][min_lon_index + 1];
	const float data_nw = table[min_lat_index + 1][min_lon_index];
""", """	const int16_t *south = table[min_lat_index];
	const int16_t *north = table[min_lat_index + 1];

	const float data_sw = south[min_lon_index];
	const float data_se = south[min_lon_index + 1];
	const float data_ne = north[min_lon_index + 1];
	const float data_nw = north[min_lon_index];
""")],
'wind': [(W, """	const float HH0 = sqrtf(v_d * v_d + (v_e - _state(INDEX_W_E)) * (v_e - _state(INDEX_W_E)) + (v_n - _state(INDEX_W_N)) * (v_n - _state(INDEX_W_N)));
	const float HH1 = k_tas / HH0;

	matrix::Matrix<float, 1, 3> H_tas;
	H_tas(0, 0) = HH1 * (-v_n + _state(INDEX_W_N));
	H_tas(0, 1) = HH1 * (-v_e + _state(INDEX_W_E));
	H_tas(0, 2) = HH0;

	matrix::Matrix<float, 3, 1> K = _P * H_tas.transpose();

	const matrix::Matrix<float, 1, 1> S = H_tas * _P * H_tas.transpose() + _tas_var;

	K /= S(0,0);
	// compute innovation
	const float airspeed_pred = k_tas * sqrtf((v_n - _state(INDEX_W_N)) * (v_n - _state(INDEX_W_N)) + (v_e - _state(INDEX_W_E)) *
				    (v_e - _state(INDEX_W_E)) + v_d * v_d);

	_tas_innov = true_airspeed - airspeed_pred;

	// innovation variance
	_tas_innov_var = S(0,0);
""", """	const float rel_n = v_n - _state(INDEX_W_N);
	const float rel_e = v_e - _state(INDEX_W_E);
	const float HH0 = sqrtf(rel_n * rel_n + rel_e * rel_e + v_d * v_d);
	const float HH1 = k_tas / HH0;

	matrix::Matrix<float, 1, 3> H_tas;
	H_tas(0, 0) = -HH1 * rel_n;
	H_tas(0, 1) = -HH1 * rel_e;
	H_tas(0, 2) = HH0;

	const matrix::Matrix<float, 3, 1> PHt = _P * H_tas.transpose();

	// innovation variance
	_tas_innov_var = (H_tas * PHt)(0, 0) + _tas_var;

	const matrix::Matrix<float, 3, 1> K = PHt / _tas_innov_var;

	// compute innovation
	_tas_innov = true_airspeed - k_tas * HH0;
"""), (W, """	_state(INDEX_W_N) += _tas_innov * K(0, 0);
	_state(INDEX_W_E) += _tas_innov * K(1, 0);
	_state(INDEX_TAS_SCALE) += _tas_innov * K(2, 0);

	// update covariance matrix
	_P = _P - K * H_tas * _P;
""", """	for (unsigned i = 0; i < 3; i++) {
		_state(i) += K(i, 0) * _tas_innov;
	}

	// update covariance matrix
	_P -= K * (H_tas * _P);
"""), (W, """	for (unsigned i = 0; i < 3; i++) {
		if (_P(i, i) < 0.0f) {
			// ill-conditioned covariance matrix, reset filter
			_initialised = false;
			return;
		}

		// limit covariance diagonals if they grow too large
		if (i < 2) {
			_P(i, i) = _P(i, i) > 25.0f ? 25.0f : _P(i, i);

		} else if (i == 2) {
			_P(i, i) = _P(i, i) > 0.1f ? 0.1f : _P(i, i);
		}
	}
""", """	const float var_max[3] = {25.0f, 25.0f, 0.1f};

	for (unsigned i = 0; i < 3; i++) {
		float &var = _P(i, i);

		if (var < 0.0f) {
			// ill-conditioned covariance matrix, reset filter
			_initialised = false;
			return;
		}

		// limit covariance diagonals if they grow too large
		if (var > var_max[i]) {
			var = var_max[i];
		}
	}
"""), (W, """	for (unsigned row = 0; row < 3; row++) {
		for (unsigned column = 0; column < row; column++) {
			float tmp = (_P(row, column) + _P(column, row)) / 2;
			_P(row, column) = tmp;
			_P(column, row) = tmp;
		}
	}
""", """	_P = (_P + _P.transpose()) * 0.5f;
"""), (W, """	if (innov * innov > gate_size * gate_size * innov_var) {
		time_meas_rejected = time_meas_rejected == 0 ? time_now : time_meas_rejected;

	} else {
		time_meas_rejected = 0;
	}

	reinit_filter = time_now - time_meas_rejected > 5 * 1000 * 1000 && time_meas_rejected != 0;

	return time_meas_rejected != 0;
""", """	const bool outside_gate = innov * innov > gate_size * gate_size * innov_var;

	if (!outside_gate) {
		time_meas_rejected = 0;

	} else if (time_meas_rejected == 0) {
		time_meas_rejected = time_now;
	}

	const bool rejected = (time_meas_rejected != 0);
	reinit_filter = rejected && (time_now - time_meas_rejected > 5000000);
	return rejected;
"""), (W, """	if (time_now - _time_last_update < 1000 * 1000 || _time_last_update == 0) {
		if (_time_last_update == 0) {
			_time_last_update = time_now;
		}

		return;
	}
""", """	if (_time_last_update == 0) {
		_time_last_update = time_now;
		return;
	}

	if (time_now - _time_last_update < 1000 * 1000) {
		return;
	}
"""), (W, """	float SPP0 = dt * dt;
	float SPP1 = SPP0 * q_w;
	float SPP2 = SPP1 + _P(0, 1);

	matrix::Matrix3f P_next;

	P_next(0, 0) = SPP1 + _P(0, 0);
	P_next(0, 1) = SPP2;
	P_next(0, 2) = _P(0, 2);
	P_next(1, 0) = SPP2;
	P_next(1, 1) = SPP1 + _P(1, 1);
	P_next(1, 2) = _P(1, 2);
	P_next(2, 0) = _P(0, 2);
	P_next(2, 1) = _P(1, 2);
	P_next(2, 2) = SPP0 * q_k_tas + _P(2, 2);
	_P = P_next;
""", """	const float dt_sq = dt * dt;
	const float wind_noise = dt_sq * q_w;

	_P(0, 0) += wind_noise;
	_P(0, 1) += wind_noise;
	_P(1, 1) += wind_noise;
	_P(2, 2) += dt_sq * q_k_tas;

	_P(1, 0) = _P(0, 1);
	_P(2, 0) = _P(0, 2);
	_P(2, 1) = _P(1, 2);
"""), (W, """	matrix::Matrix3f L;
	L.setZero();
	L(0, 0) = 1.0f - L0 * L3;
	L(0, 1) = L4;
	L(1, 0) = L4;
	L(1, 1) = 1.0f - L1 * L3;
	L(2, 2) = 1.0f;
""", """	matrix::Matrix3f L;
	L.setIdentity();
	L(0, 0) -= L0 * L3;
	L(1, 1) -= L1 * L3;
	L(0, 1) = L(1, 0) = L4;
""")],
}
