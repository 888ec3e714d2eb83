G, Y, T, H = 'EKF/gps_checks.cpp', 'EKF/gps_yaw_fusion.cpp', 'EKF/terrain_estimator.cpp', 'EKF/ekf.h'
_s = {f: open('/repo/' + f).read() for f in (G, Y, T)}


def body(f, name):
    i = _s[f].index(name)
    j = _s[f].index('\n}\n', i) + 3 if '\n}\n' in _s[f][i:] else len(_s[f])
    return _s[f][i:j]


def rep(f, name, *pairs):
    b = body(f, name); n = b
    for o, w in pairs:
        assert n.count(o) == 1, (name, o, n.count(o))
        n = n.replace(o, w)
    return (f, b, n)


def sec(f, a, b):
    i = _s[f].index(a)
    return _s[f][i:_s[f].index(b, i)]


R = {
'collect': [
  (G, body(G, 'bool Ekf::collect_gps('), """struct GeoField {
	float declination;
	float inclination;
	float strength;
};

static GeoField lookupField(double lat, double lon)
{
	GeoField field{};
	field.strength = get_mag_strength_gauss(lat, lon);
	field.inclination = get_mag_inclination_radians(lat, lon);
	field.declination = get_mag_declination_radians(lat, lon);
	return field;
}

bool Ekf::collect_gps(const gps_message &gps)
{
	_gps_checks_passed = gps_is_good(gps);

	if (!_NED_origin_initialised) {
		const double lat = gps.lat * 1.0e-7;
		const double lon = gps.lon * 1.0e-7;
		const bool set_origin = _filter_initialised && _gps_checks_passed;
		const bool rough_fix = gps.fix_type >= 2 && gps.eph < 1000;

		if (set_origin) {
			if (!map_projection_initialized(&_pos_ref)) {
				map_projection_init_timestamped(&_pos_ref, lat, lon, _time_last_imu);

				if (isHorizontalAidingActive()) {
					double origin_lat;
					double origin_lon;
					map_projection_reproject(&_pos_ref, -_state.pos(0), -_state.pos(1), &origin_lat, &origin_lon);
					map_projection_init_timestamped(&_pos_ref, origin_lat, origin_lon, _time_last_imu);
				}
			}

			_gps_alt_ref = _state.pos(2) + 1e-3f * (float)gps.alt;
		}

		if (set_origin || rough_fix) {
			const bool declination_was_valid = ISFINITE(_mag_declination_gps);
			const GeoField field = lookupField(lat, lon);
			_mag_declination_gps = field.declination;
			_mag_inclination_gps = field.inclination;
			_mag_strength_gps = field.strength;
			const bool use_mag = _params.mag_fusion_type != MAG_FUSE_TYPE_NONE;

			if (use_mag && !declination_was_valid && (set_origin || ISFINITE(_mag_declination_gps))) {
				_mag_yaw_reset_req = true;
			}

			_earth_rate_NED = calcEarthRateNED(set_origin ? (float)_pos_ref.lat_rad : (float)math::radians(lat));
		}

		if (set_origin) {
			_NED_origin_initialised = true;
			_last_gps_origin_time_us = _time_last_imu;
			_gps_origin_epv = gps.epv;
			_gps_origin_eph = gps.eph;
			_information_events.flags.gps_checks_passed = true;

			if (_params.mag_fusion_type == MAG_FUSE_TYPE_NONE) {
				_ekfgsf_yaw_reset_time = 0;
				_do_ekfgsf_yaw_reset = true;
			}

			if (_params.vdist_sensor_type == VDIST_SENSOR_GPS) {
				startGpsHgtFusion();
			}
		}
	}

	return gps.fix_type >= 3 && _NED_origin_initialised;
}
"""),
],
'good': [
  (G, sec(G, "	_gps_error_norm = fmaxf((gps.eph", "	// Calculate time lapsed"), """	const float ratios[3] = {gps.eph / _params.req_hacc, gps.epv / _params.req_vacc, gps.sacc / _params.req_sacc};
	_gps_error_norm = ratios[0];

	for (int i = 1; i < 3; i++) {
		if (ratios[i] > _gps_error_norm) {
			_gps_error_norm = ratios[i];
		}
	}

"""),
  (G, sec(G, "	if (!_control_status.flags.in_air && _control_status.flags.vehicle_at_rest) {", "	// save GPS fix for next time"), """	auto lowpass = [filter_coef](float old, float now) { return old + (now - old) * filter_coef; };
	const bool in_air = _control_status.flags.in_air;
	_gps_drift_updated = !in_air;

	if (in_air) {
		_gps_check_fail_status.flags.hspeed = false;
		_gps_check_fail_status.flags.hdrift = false;
		_gps_check_fail_status.flags.vdrift = false;
	}

	if (in_air || !_control_status.flags.vehicle_at_rest) {
		resetGpsDriftCheckFilters();

	} else {
		const float alt = 1e-3f * (float)gps.alt;
		Vector3f change{};

		if (_gps_pos_prev.timestamp == 0) {
			map_projection_init_timestamped(&_gps_pos_prev, lat, lon, _time_last_imu);
			_gps_alt_prev = alt;

		} else {
			map_projection_project(&_gps_pos_prev, lat, lon, &change(0), &change(1));
		}

		change(2) = _gps_alt_prev - alt;

		for (int i = 0; i < 3; i++) {
			const float limit = 10.0f * (i < 2 ? _params.req_hdrift : _params.req_vdrift);
			_gps_pos_deriv_filt(i) = lowpass(_gps_pos_deriv_filt(i), math::constrain(change(i) / dt, -limit, limit));
		}

		for (int i = 0; i < 2; i++) {
			const float limit = 10.0f * _params.req_hdrift;
			_gps_velNE_filt(i) = lowpass(_gps_velNE_filt(i), math::constrain(gps.vel_ned(i), -limit, limit));
		}

		_gps_drift_metrics[0] = sqrtf(sq(_gps_pos_deriv_filt(0)) + sq(_gps_pos_deriv_filt(1)));
		_gps_drift_metrics[1] = _gps_pos_deriv_filt(2) < 0.f ? -_gps_pos_deriv_filt(2) : _gps_pos_deriv_filt(2);
		_gps_drift_metrics[2] = sqrtf(_gps_velNE_filt(0) * _gps_velNE_filt(0) + _gps_velNE_filt(1) * _gps_velNE_filt(1));
		_gps_check_fail_status.flags.hdrift = _gps_drift_metrics[0] > _params.req_hdrift;
		_gps_check_fail_status.flags.vdrift = _gps_drift_metrics[1] > _params.req_vdrift;
		_gps_check_fail_status.flags.hspeed = _gps_drift_metrics[2] > _params.req_hdrift;
	}

"""),
  (G, sec(G, "	// assume failed first time through", "	// continuous period without fail"), """	auto selected = [this](int mask) { return (_params.gps_check_mask & mask) != 0; };
	const auto &fail = _gps_check_fail_status.flags;
	bool failed = fail.fix;
	failed = failed || (selected(MASK_GPS_NSATS) && fail.nsats);
	failed = failed || (selected(MASK_GPS_PDOP) && fail.pdop);
	failed = failed || (selected(MASK_GPS_HACC) && fail.hacc);
	failed = failed || (selected(MASK_GPS_VACC) && fail.vacc);
	failed = failed || (selected(MASK_GPS_SACC) && fail.sacc);
	failed = failed || (selected(MASK_GPS_HDRIFT) && fail.hdrift);
	failed = failed || (selected(MASK_GPS_VDRIFT) && fail.vdrift);
	failed = failed || (selected(MASK_GPS_HSPD) && fail.hspeed);
	failed = failed || (selected(MASK_GPS_VSPD) && fail.vspeed);

	if (!failed) {
		_last_gps_pass_us = _time_last_imu;
	}

	if (failed || _last_gps_fail_us == 0) {
		_last_gps_fail_us = _time_last_imu;
	}

"""),
],
'yaw': [
  rep(Y, 'void Ekf::fuseGpsYaw()', ("""	if (_heading_innov_var < R_YAW) {
""", """	const bool badly_conditioned = _heading_innov_var < R_YAW;
	_fault_status.flags.bad_hdg = badly_conditioned;

	if (badly_conditioned) {
"""), ("""		_fault_status.flags.bad_hdg = true;

		// we""", """		// we"""), ("""	_fault_status.flags.bad_hdg = false;
	const float HK32""", """	const float HK32"""), ("""	const float innov_gate = math::max(_params.heading_innov_gate, 1.0f);
	_heading_innov = predicted_hdg - measured_hdg;

	// wrap the innovation to the interval between +-pi
	_heading_innov = wrap_pi(_heading_innov);

	// innovation test ratio
	_yaw_test_ratio = sq(_heading_innov) / (sq(innov_gate) * _heading_innov_var);
""", """	const float innov_gate = fmaxf(_params.heading_innov_gate, 1.0f);
	const float innov = wrap_pi(predicted_hdg - measured_hdg);
	_heading_innov = innov;
	_yaw_test_ratio = innov * innov / sq(innov_gate) / _heading_innov_var;
"""), ("""	if (_yaw_test_ratio > 1.0f) {
		_innov_check_fail_status.flags.reject_yaw = true;

""", """	const bool rejected = _yaw_test_ratio > 1.0f;
	_innov_check_fail_status.flags.reject_yaw = rejected;

	if (rejected) {
"""), ("""			return;

		} else {
			// constrain the innovation to the maximum set by the gate
			const float gate_limit = sqrtf((sq(innov_gate) * _heading_innov_var));
			_heading_innov = math::constrain(_heading_innov, -gate_limit, gate_limit);
		}

	} else {
		_innov_check_fail_status.flags.reject_yaw = false;
	}
""", """			return;
		}

		const float gate_limit = innov_gate * sqrtf(_heading_innov_var);
		_heading_innov = (_heading_innov > 0.f) ? math::min(_heading_innov, gate_limit) : math::max(_heading_innov, -gate_limit);
	}
"""), ("""	Kfusion(0) = HK27*HK32;
	Kfusion(1) = HK28*HK32;
	Kfusion(2) = HK30*HK32;
	Kfusion(3) = HK31*HK32;
	for (unsigned row = 4; row <= 23; row++) {
		Kfusion(row) =""", """	for (unsigned row = 0; row < _k_num_states; row++) {
		Kfusion(row) ="""), ("""	if (fabsf(HK19_inverse) < 1e-6f) {
		return;
	}
""", ""), ("""	const Vector3f ant_vec_bf = {cosf(_gps_yaw_offset), sinf(_gps_yaw_offset), 0.0f};
	const Vector3f ant_vec_ef = _R_to_earth * ant_vec_bf;

	// check if antenna array vector is within 30 degrees of vertical and therefore unable to provide a reliable heading
	if (fabsf(ant_vec_ef(2)) > cosf(math::radians(30.0f)))  {
		return;
	}
""", """	Vector3f ant_vec_ef;

	if (!antennaVector(ant_vec_ef)) {
		return;
	}
""")),
  (Y, body(Y, 'bool Ekf::resetYawToGps()'), """bool Ekf::antennaVector(Vector3f &ant_vec_ef) const
{
	const float c = cosf(_gps_yaw_offset);
	const float s = sinf(_gps_yaw_offset);

	for (int i = 0; i < 3; i++) {
		ant_vec_ef(i) = _R_to_earth(i, 0) * c + _R_to_earth(i, 1) * s;
	}

	return !(fabsf(ant_vec_ef(2)) > cosf(math::radians(30.0f)));
}

bool Ekf::resetYawToGps()
{
	Vector3f ant_vec_ef;
	const bool possible = antennaVector(ant_vec_ef);

	if (possible) {
		_time_last_gps_yaw_fuse = _time_last_imu;
		resetQuatStateYaw(_gps_sample_delayed.yaw, sq(math::max(_params.mag_heading_noise, 1.0e-2f)), true);
	}

	return possible;
}
"""),
  (H, "	bool resetYawToGps();", "	bool resetYawToGps();\n	bool antennaVector(Vector3f &ant_vec_ef) const;"),
],
'terrain': [
  (T, body(T, 'bool Ekf::initHagl()'), """bool Ekf::initHagl()
{
	if (!_control_status.flags.in_air) {
		_time_last_hagl_fuse = _time_last_fake_hagl_fuse = _time_last_imu;
		_terrain_var = _params.rng_gnd_clearance * _params.rng_gnd_clearance;
		_terrain_vpos = _params.rng_gnd_clearance + _state.pos(2);
		return true;
	}

	const bool use_range = shouldUseRangeFinderForHagl() && _range_sensor.isDataHealthy();

	if (use_range) {
		_terrain_vpos = _range_sensor.getDistBottom() + _state.pos(2);
		_terrain_var = sq(_params.range_noise);

	} else if (_flow_for_terrain_data_ready && shouldUseOpticalFlowForHagl()) {
		_terrain_vpos = _state.pos(2) > 0.f ? _state.pos(2) : 0.f;
		_terrain_var = 100.0f;

	} else {
		return false;
	}

	_time_last_hagl_fuse = _time_last_imu;
	return true;
}
"""),
  (T, body(T, 'void Ekf::runTerrainEstimator()'), """void Ekf::runTerrainEstimator()
{
	const bool in_air = _control_status.flags.in_air;

	if (!in_air) {
		_last_on_ground_posD = _state.pos(2);
	}

	if (_terrain_initialised && in_air) {
		const float dt = _imu_sample_delayed.delta_vel_dt;
		const float speed_sq = _state.vel(0) * _state.vel(0) + _state.vel(1) * _state.vel(1);
		const float growth = sq(_params.terrain_p_noise) + sq(_params.terrain_gradient) * speed_sq;
		_terrain_var = math::max(0.f, math::min(_terrain_var + dt * dt * growth, 1e4f));

		if (_range_sensor.isDataHealthy() && shouldUseRangeFinderForHagl()) {
			fuseHagl();
		}

		if (_flow_for_terrain_data_ready && shouldUseOpticalFlowForHagl()) {
			_flow_for_terrain_data_ready = false;
			fuseFlowForTerrain();
		}

		_terrain_vpos = math::max(_terrain_vpos, _state.pos(2) + _params.rng_gnd_clearance);

	} else {
		_terrain_initialised = initHagl();
	}

	updateTerrainValidity();
}
"""),
  (T, body(T, 'void Ekf::fuseHagl()'), """void Ekf::fuseHagl()
{
	const float meas_hagl = _range_sensor.getDistBottom();
	const float noise = _params.range_noise_scaler * _range_sensor.getRange();
	const float obs_variance = _params.range_noise * _params.range_noise + noise * noise
				   + math::max(P(9,9) * _params.vehicle_variance_scaler, 0.0f);

	_hagl_innov = (_terrain_vpos - meas_hagl) - _state.pos(2);
	_hagl_innov_var = obs_variance + math::max(_terrain_var, 0.f);

	const float gate_sq = sq(math::max(_params.range_innov_gate, 1.0f));
	_hagl_test_ratio = _hagl_innov * _hagl_innov / (gate_sq * _hagl_innov_var);

	if (_hagl_test_ratio > 1.0f) {
		const bool reset = isTimedOut(_time_last_hagl_fuse, (uint64_t)10E6);

		if (reset) {
			_terrain_var = obs_variance;
			_terrain_vpos = meas_hagl + _state.pos(2);
			return;
		}

		_innov_check_fail_status.flags.reject_hagl = true;
		return;
	}

	const float gain = _terrain_var / _hagl_innov_var;
	_terrain_vpos = _terrain_vpos - gain * _hagl_innov;
	_terrain_var = math::max(_terrain_var - gain * _terrain_var, 0.0f);
	_innov_check_fail_status.flags.reject_hagl = false;
	_time_last_hagl_fuse = _time_last_imu;
}
"""),
  (T, sec(T, "	// Calculate observation matrix for flow around the vehicle x axis", "void Ekf::updateTerrainValidity()"), """	// Constrain terrain variance to be non-negative
	_terrain_var = fmaxf(_terrain_var, 0.0f);
	const float gate_size = fmaxf(_params.flow_innov_gate, 1.0f);

	for (int axis = 0; axis < 2; axis++) {
		// the flow about one axis is seen as a velocity along the other
		const float vel = (axis == 0) ? vel_body(1) : -vel_body(0);
		const float H = vel * t0 * pred_hagl_inv * pred_hagl_inv;

		_flow_innov_var(axis) = H * H * _terrain_var + R_LOS;
		_flow_innov(axis) = vel * earth_to_body(2, 2) * pred_hagl_inv - opt_flow_rate(axis);

		const float gain = _terrain_var * H / _flow_innov_var(axis);
		const float ratio = sq(_flow_innov(axis)) / (sq(gate_size) * _flow_innov_var(axis));

		if (ratio > 1.0f) {
			continue;
		}

		_time_last_flow_terrain_fuse = _time_last_imu;
		_terrain_vpos += gain * _flow_innov(axis);
		_terrain_var = math::max(_terrain_var * (1.f - gain * H), 0.0f);
	}
}

"""),
  rep(T, 'void Ekf::updateTerrainValidity()', ("	_hagl_valid = (_terrain_initialised && (recent_range_fusion || recent_flow_for_terrain_fusion));\n", """	_hagl_valid = false;

	if (_terrain_initialised) {
		_hagl_valid = recent_flow_for_terrain_fusion || recent_range_fusion;
	}
"""), ("""	_hagl_sensor_status.flags.range_finder = shouldUseRangeFinderForHagl()
						 && recent_range_fusion
						 && (_time_last_fake_hagl_fuse != _time_last_hagl_fuse);
""", """	const bool fake = _time_last_fake_hagl_fuse == _time_last_hagl_fuse;
	_hagl_sensor_status.flags.range_finder = recent_range_fusion && !fake && shouldUseRangeFinderForHagl();
""")),
],
}
