M, C, H = 'EKF/mag_fusion.cpp', 'EKF/mag_control.cpp', 'EKF/ekf.h'
_src = open('/repo/' + M).read()


def body(name, src=None):
    s = src or _src
    i = s.index(name)
    j = s.index('\n}\n', i) + 3
    return s[i:j]


_hd = body('void Ekf::fuseHeading()')
_lim = body('void Ekf::limitDeclination()')
_uq = body('void Ekf::updateQuaternion(')
R = {
'heading': [(M, _hd, """void Ekf::fuseHeading()
{
	// update transformation matrix from body to world frame using the current state estimate
	_R_to_earth = Dcmf(_state.quat_nominal);

	const bool use_321 = shouldUse321RotationSequence(_R_to_earth);
	const float predicted_hdg = use_321 ? getEuler321Yaw(_R_to_earth) : getEuler312Yaw(_R_to_earth);

	float measured_hdg = predicted_hdg;
	float R_YAW = 0.01f;

	if (_control_status.flags.mag_hdg) {
		R_YAW = sq(_params.mag_heading_noise);

		// Rotate the measurements into earth frame using the zero yaw angle
		const Dcmf R_to_earth = use_321 ? updateEuler321YawInRotMat(0.f, _R_to_earth) : updateEuler312YawInRotMat(0.f, _R_to_earth);
		const Vector3f mag_earth_pred = R_to_earth * (_mag_sample_delayed.mag - _state.mag_B);

		// the angle of the projection onto the horizontal gives the yaw angle
		measured_hdg = getMagDeclination() - atan2f(mag_earth_pred(1), mag_earth_pred(0));

	} else if (_control_status.flags.ev_yaw) {
		R_YAW = _ev_sample_delayed.angVar;
		measured_hdg = use_321 ? getEuler321Yaw(_ev_sample_delayed.quat) : getEuler312Yaw(_ev_sample_delayed.quat);
	}

	// handle special case where yaw measurement is unavailable
	bool fuse_zero_innov = false;

	if (_is_yaw_fusion_inhibited && _control_status.flags.vehicle_at_rest) {
		measured_hdg = _last_static_yaw;

	} else {
		_last_static_yaw = predicted_hdg;

		if (_is_yaw_fusion_inhibited) {
			float sumQuatVar = 0.f;

			for (int i = 0; i < 4; i++) {
				sumQuatVar += P(i, i);
			}

			fuse_zero_innov = sumQuatVar > _params.quat_max_variance;

			if (fuse_zero_innov) {
				R_YAW = 0.25f;
			}
		}
	}

	if (use_321) {
		fuseYaw321(measured_hdg, R_YAW, fuse_zero_innov);

	} else {
		fuseYaw312(measured_hdg, R_YAW, fuse_zero_innov);
	}
}
""")],
'limit': [(M, _lim, """static void setPolar(Vector3f &field, float length, float angle)
{
	field(0) = length * cosf(angle);
	field(1) = length * sinf(angle);
}

void Ekf::limitDeclination()
{
	// get a reference value for the earth field declinaton and minimum plausible horizontal field strength
	// set to 50% of the horizontal strength from geo tables if location is known
	float decl_reference = math::radians(_params.mag_declination_deg);
	float h_field_min = 0.001f;
	const bool use_geo = (_params.mag_declination_source & MASK_USE_GEO_DECL) != 0;

	if (use_geo && (_NED_origin_initialised || ISFINITE(_mag_declination_gps))) {
		const float expected = _mag_strength_gps * cosf(_mag_inclination_gps);
		decl_reference = _mag_declination_gps;
		h_field_min = math::max(h_field_min, 0.5f * expected);
	}

	Vector3f &field = _state.mag_I;
	float h_field = sqrtf(sq(field(0)) + sq(field(1)));

	if (h_field < h_field_min) {
		if (h_field > 0.001f * h_field_min) {
			field(0) *= h_field_min / h_field;
			field(1) *= h_field_min / h_field;

		} else {
			// too small to scale radially so set to expected value
			setPolar(field, 2.0f * h_field_min, getMagDeclination());
		}

		h_field = h_field_min;
	}

	// do not allow the declination estimate to vary too much relative to the reference value
	constexpr float decl_tolerance = 0.5f;
	const float decl_estimate = atan2f(field(1), field(0));
	const float decl_limited = math::constrain(decl_estimate, decl_reference - decl_tolerance, decl_reference + decl_tolerance);

	if (decl_limited < decl_estimate || decl_limited > decl_estimate) {
		setPolar(field, h_field, decl_limited);
	}
}
""")],
'quat': [(M, _uq, """void Ekf::updateQuaternion(const float innovation, const float variance, const float gate_sigma, const Vector4f& yaw_jacobian)
{
	// P * H^T
	Vector24f PHt;

	for (unsigned row = 0; row < _k_num_states; row++) {
		PHt(row) = P(row, 0) * yaw_jacobian(0) + P(row, 1) * yaw_jacobian(1) + P(row, 2) * yaw_jacobian(2) + P(row, 3) * yaw_jacobian(3);
	}

	float state_var = 0.f;

	for (unsigned i = 0; i < 4; i++) {
		state_var += yaw_jacobian(i) * PHt(i);
	}

	_heading_innov_var = state_var + variance;
	_fault_status.flags.bad_hdg = _heading_innov_var < variance;

	if (_fault_status.flags.bad_hdg) {
		initialiseCovariance();
		ECL_ERR("mag yaw fusion numerical error - covariance reset");
		return;
	}

	// only calculate gains for states we are using
	Vector24f Kfusion;

	for (uint8_t row = 0; row < _k_num_states; row++) {
		const bool used = row <= 15 || (row >= 22 && _control_status.flags.wind);

		if (used) {
			Kfusion(row) = PHt(row) / _heading_innov_var;
		}
	}

	// innovation test ratio
	const float gate_var = sq(gate_sigma) * _heading_innov_var;
	_yaw_test_ratio = sq(innovation) / gate_var;

	// we are no longer using 3-axis fusion so set the reported test levels to zero
	_mag_test_ratio.setZero();

	const bool failed = _yaw_test_ratio > 1.0f;
	_innov_check_fail_status.flags.reject_yaw = failed;

	if (failed) {
		if (_control_status.flags.in_air || !isTimedOut(_time_last_in_air, (uint64_t)5e6)) {
			return;
		}

		const float gate_limit = sqrtf(gate_var);
		_heading_innov = math::constrain(innovation, -gate_limit, gate_limit);

	} else {
		_heading_innov = innovation;
	}

	// apply covariance correction via P_new = (I -K*H)*P
	SquareMatrix24f KHP;

	for (unsigned column = 0; column < _k_num_states; column++) {
		float HP = 0.f;

		for (unsigned i = 0; i < 4; i++) {
			HP += yaw_jacobian(i) * P(i, column);
		}

		for (unsigned row = 0; row < _k_num_states; row++) {
			KHP(row, column) = Kfusion(row) * HP;
		}
	}

	_fault_status.flags.bad_hdg = !checkAndFixCovarianceUpdate(KHP);

	if (_fault_status.flags.bad_hdg) {
		return;
	}

	P -= KHP;
	fixCovarianceErrors(true);
	fuse(Kfusion, _heading_innov);
}
""")],
'decl': [(M, """	if (innovation_variance > R_DECL) {
		HK9 = HK4/innovation_variance;
	} else {
		// variance calculation is badly conditioned
		return;
	}
""", """	if (!(innovation_variance > R_DECL)) {
		// variance calculation is badly conditioned
		return;
	}

	HK9 = HK4/innovation_variance;
"""), (M, """	for (unsigned row = 0; row <= 15; row++) {
		Kfusion(row) = -HK9*(HK5*P(row,16) - P(row,17));
	}

	Kfusion(16) = -HK8*HK9;
	Kfusion(17) = -HK6*HK9;

	for (unsigned row = 18; row <= 23; row++) {
		Kfusion(row) = -HK9*(HK5*P(16,row) - P(17,row));
	}
""", """	for (unsigned row = 0; row < _k_num_states; row++) {
		if (row == 16) {
			Kfusion(row) = -HK8*HK9;

		} else if (row == 17) {
			Kfusion(row) = -HK6*HK9;

		} else if (row < 16) {
			Kfusion(row) = HK9*(P(row,17) - HK5*P(row,16));

		} else {
			Kfusion(row) = HK9*(P(17,row) - HK5*P(16,row));
		}
	}
"""), (M, """	const bool is_fused = measurementUpdate(Kfusion, Hfusion, innovation);

	_fault_status.flags.bad_mag_decl = !is_fused;

	if (is_fused) {
		limitDeclination();
	}
""", """	if (measurementUpdate(Kfusion, Hfusion, innovation)) {
		_fault_status.flags.bad_mag_decl = false;
		limitDeclination();
		return;
	}

	_fault_status.flags.bad_mag_decl = true;
"""), (M, """	const float mag_z_abs = sqrtf(math::max(sq(mag_earth_predicted.length()) - sq(mag_meas(0)) - sq(mag_meas(1)), 0.0f));
""", """	const float mag_hor_sq = Vector2f(mag_meas).norm_squared();
	const float mag_z_abs = sqrtf(fmaxf(0.0f, mag_earth_predicted.norm_squared() - mag_hor_sq));
"""), (M, """	const float mag_z_body_pred = mag_earth_predicted.dot(_R_to_earth.col(2));

	return (mag_z_body_pred < 0) ? -mag_z_abs : mag_z_abs;
""", """	float mag_z_body_pred = 0.f;

	for (int i = 0; i < 3; i++) {
		mag_z_body_pred += mag_earth_predicted(i) * _R_to_earth(i, 2);
	}

	if (mag_z_body_pred >= 0.f) {
		return mag_z_abs;
	}

	return -mag_z_abs;
""")],
'fusemag': [(M, """	bool all_innovation_checks_passed = true;
""", """	uint8_t num_failed = 0;
"""), (M, "			all_innovation_checks_passed = false;\n", "			num_failed++;\n"), (M, "	if (!all_innovation_checks_passed) {\n", "	if (num_failed != 0) {\n"),
 (M, """		_mag_test_ratio(index) = sq(_mag_innov(index)) / (sq(math::max(_params.mag_innov_gate, 1.0f)) * _mag_innov_var(index));

		if (_mag_test_ratio(index) > 1.0f) {""", """		const float gate = fmaxf(1.0f, _params.mag_innov_gate);
		const float ratio = _mag_innov(index) * _mag_innov(index) / (gate * gate * _mag_innov_var(index));
		_mag_test_ratio(index) = ratio;

		if (ratio > 1.0f) {"""),
 (M, """		if (index == 0) {
			_fault_status.flags.bad_mag_x = !is_fused;

		} else if (index == 1) {
			_fault_status.flags.bad_mag_y = !is_fused;

		} else if (index == 2) {
			_fault_status.flags.bad_mag_z = !is_fused;
		}

		if (is_fused) {
			limitDeclination();
		}
""", """		switch (index) {
		case 0:
			_fault_status.flags.bad_mag_x = !is_fused;
			break;

		case 1:
			_fault_status.flags.bad_mag_y = !is_fused;
			break;

		default:
			_fault_status.flags.bad_mag_z = !is_fused;
		}

		if (!is_fused) {
			continue;
		}

		limitDeclination();
"""), (M, """	const Dcmf R_to_body = quatToInverseRotMat(_state.quat_nominal);
""", """	const Dcmf R_to_body = Dcmf(_state.quat_nominal).transpose();
"""), (M, """	const bool update_all_states = ((_imu_sample_delayed.time_us - _flt_mag_align_start_time) > (uint64_t)5e6);
""", """	constexpr uint64_t settle_time = 5000000;
	const bool update_all_states = !(_imu_sample_delayed.time_us - _flt_mag_align_start_time <= settle_time);
""")],
'ctl': [(C, """		switch (_params.mag_fusion_type) {
		case MAG_FUSE_TYPE_AUTO:
			selectMagAuto();
			break;

		case MAG_FUSE_TYPE_INDOOR:
		/* fallthrough */
		case MAG_FUSE_TYPE_HEADING:
			startMagHdgFusion();
			break;

		case MAG_FUSE_TYPE_3D:
			startMag3DFusion();
			break;

		default:
			selectMagAuto();
			break;
		}
""", """		const auto type = _params.mag_fusion_type;

		if (type == MAG_FUSE_TYPE_3D) {
			startMag3DFusion();

		} else if (type == MAG_FUSE_TYPE_HEADING || type == MAG_FUSE_TYPE_INDOOR) {
			startMagHdgFusion();

		} else {
			selectMagAuto();
		}
"""), (C, """	return !_control_status.flags.ev_yaw && !_control_status.flags.gps_yaw;
""", """	const auto &flags = _control_status.flags;
	return !(flags.ev_yaw || flags.gps_yaw);
"""), (C, """	_yaw_angle_observable = _yaw_angle_observable
				? _accel_lpf_NE.norm() > _params.mag_acc_gate
				: _accel_lpf_NE.norm() > 2.0f * _params.mag_acc_gate;

	_yaw_angle_observable = _yaw_angle_observable
				&& (_control_status.flags.gps || _control_status.flags.ev_pos); // Do we have to add ev_vel here?
""", """	float threshold = _params.mag_acc_gate;

	if (!_yaw_angle_observable) {
		threshold *= 2.0f;
	}

	if (_control_status.flags.gps || _control_status.flags.ev_pos) {
		_yaw_angle_observable = (_accel_lpf_NE.norm() > threshold);

	} else {
		_yaw_angle_observable = false;
	}
"""), (C, """	if (!_mag_bias_observable && (fabsf(_yaw_rate_lpf_ef) > _params.mag_yaw_rate_gate)) {
		// initial yaw motion is detected
		_mag_bias_observable = true;

	} else if (_mag_bias_observable) {
		// require sustained yaw motion of 50% the initial yaw rate threshold
		const float yaw_dt = 1e-6f * (float)(_imu_sample_delayed.time_us - _time_yaw_started);
		const float min_yaw_change_req =  0.5f * _params.mag_yaw_rate_gate * yaw_dt;
		_mag_bias_observable = fabsf(_yaw_delta_ef) > min_yaw_change_req;
	}

	_yaw_delta_ef = 0.0f;
	_time_yaw_started = _imu_sample_delayed.time_us;
""", """	const uint64_t now = _imu_sample_delayed.time_us;

	if (_mag_bias_observable) {
		// require sustained yaw motion of 50% the initial yaw rate threshold
		const float yaw_dt = static_cast<float>(now - _time_yaw_started) * 1e-6f;
		_mag_bias_observable = fabsf(_yaw_delta_ef) > 0.5f * _params.mag_yaw_rate_gate * yaw_dt;

	} else {
		_mag_bias_observable = fabsf(_yaw_rate_lpf_ef) > _params.mag_yaw_rate_gate;
	}

	_time_yaw_started = now;
	_yaw_delta_ef = 0.0f;
"""), (C, """	canUse3DMagFusion() ? startMag3DFusion() : startMagHdgFusion();
""", """
	if (!canUse3DMagFusion()) {
		startMagHdgFusion();
		return;
	}

	startMag3DFusion();
""")],
'ctl2': [(C, """	if (!_mag_decl_cov_reset) {
		// After""", """	const bool decl_first = !_mag_decl_cov_reset;

	if (decl_first) {
		// After"""), (C, """		_mag_decl_cov_reset = true;
		fuseMag();

	} else {
		// The normal sequence is to fuse the magnetometer data first before fusing
		// declination angle at a higher uncertainty to allow some learning of
		// declination angle over time.
		fuseMag();
		if (_control_status.flags.mag_dec) {
			fuseDeclination(0.5f);
		}
	}
""", """		_mag_decl_cov_reset = true;
	}

	fuseMag();

	if (!decl_first && _control_status.flags.mag_dec) {
		fuseDeclination(0.5f);
	}
"""), (C, """    bool result = noOtherYawAidingThanMag() && _non_mag_yaw_aiding_running_prev;

    _non_mag_yaw_aiding_running_prev = !noOtherYawAidingThanMag();

    return  result;
""", """	const bool was_running = _non_mag_yaw_aiding_running_prev;
	const bool only_mag = noOtherYawAidingThanMag();
	_non_mag_yaw_aiding_running_prev = !only_mag;
	return was_running && only_mag;
"""), (C, """	if (_params.check_mag_strength) {
		_control_status.flags.mag_field_disturbed = _NED_origin_initialised
							    ? !isMeasuredMatchingGpsMagStrength()
							    : !isMeasuredMatchingAverageMagStrength();

	} else {
		_control_status.flags.mag_field_disturbed = false;
	}
""", """	bool matching = true;

	if (_params.check_mag_strength) {
		if (_NED_origin_initialised) {
			matching = isMeasuredMatchingGpsMagStrength();

		} else {
			matching = isMeasuredMatchingAverageMagStrength();
		}
	}

	_control_status.flags.mag_field_disturbed = !matching;
"""), (C, """	return (measured >= expected - gate)
		&& (measured <= expected + gate);
""", """	return fabsf(measured - expected) <= gate;
"""), (C, """		bool has_realigned_yaw = false;

		if (canRealignYawUsingGps()) { has_realigned_yaw = realignYawGPS(); }
		else if (canResetMagHeading()) { has_realigned_yaw = resetMagHeading(_mag_lpf.getState()); }

		_mag_yaw_reset_req = !has_realigned_yaw;
		_control_status.flags.mag_aligned_in_flight = has_realigned_yaw;
""", """		const bool has_realigned_yaw = canRealignYawUsingGps() ? realignYawGPS()
					       : canResetMagHeading() && resetMagHeading(_mag_lpf.getState());

		_control_status.flags.mag_aligned_in_flight = has_realigned_yaw;
		_mag_yaw_reset_req = !has_realigned_yaw;
"""), (C, """		const bool has_realigned_yaw = canResetMagHeading()
					       ? resetMagHeading(_mag_lpf.getState())
					       : false;

		_mag_yaw_reset_req = !has_realigned_yaw;
""", """		_mag_yaw_reset_req = !(canResetMagHeading() && resetMagHeading(_mag_lpf.getState()));
"""), (C, """	if (!_control_status.flags.mag_aligned_in_flight) {
		// Check if height""", """	if (!_control_status.flags.mag_aligned_in_flight && !_mag_yaw_reset_req) {
		// Check if height"""), (C, "		_mag_yaw_reset_req = _mag_yaw_reset_req || above_mag_anomalies;\n", "		_mag_yaw_reset_req = above_mag_anomalies;\n"),
 (C, """	const bool user_selected = (_params.mag_declination_source & MASK_FUSE_DECL);
	const bool not_using_ne_aiding = !_control_status.flags.gps;
	_control_status.flags.mag_dec = (_control_status.flags.mag_3D && (not_using_ne_aiding || user_selected));
""", """	const bool user_selected = (_params.mag_declination_source & MASK_FUSE_DECL) != 0;
	bool use_declination = false;

	if (_control_status.flags.mag_3D) {
		use_declination = user_selected || !_control_status.flags.gps;
	}

	_control_status.flags.mag_dec = use_declination;
"""), (C, """	const bool user_selected = (_params.mag_fusion_type == MAG_FUSE_TYPE_INDOOR);

	const bool heading_not_required_for_navigation = !_control_status.flags.gps
							 && !_control_status.flags.ev_pos
							 && !_control_status.flags.ev_vel;

	return (user_selected && heading_not_required_for_navigation)
	       || isStrongMagneticDisturbance();
""", """	if (isStrongMagneticDisturbance()) {
		return true;
	}

	if (_params.mag_fusion_type != MAG_FUSE_TYPE_INDOOR) {
		return false;
	}

	const bool heading_required_for_navigation = _control_status.flags.gps || _control_status.flags.ev_pos || _control_status.flags.ev_vel;
	return !heading_required_for_navigation;
"""), (C, """	_is_yaw_fusion_inhibited = shouldInhibitMag();
	if (!_is_yaw_fusion_inhibited) {
		_mag_use_not_inhibit_us = _imu_sample_delayed.time_us;
	}

	// If magnetometer use has been inhibited continuously then a yaw reset is required for a valid heading
	if (uint32_t(_imu_sample_delayed.time_us - _mag_use_not_inhibit_us) > (uint32_t)5e6) {
		_mag_inhibit_yaw_reset_req = true;
	}
""", """	const bool inhibit = shouldInhibitMag();
	_is_yaw_fusion_inhibited = inhibit;

	if (!inhibit) {
		_mag_use_not_inhibit_us = _imu_sample_delayed.time_us;
	}

	// If magnetometer use has been inhibited continuously then a yaw reset is required for a valid heading
	const auto inhibited_for = static_cast<uint32_t>(_imu_sample_delayed.time_us - _mag_use_not_inhibit_us);
	_mag_inhibit_yaw_reset_req = _mag_inhibit_yaw_reset_req || inhibited_for > 5000000u;
""")],
}
