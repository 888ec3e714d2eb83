M = 'EKF/mag_control.cpp'
EH = 'EKF/ekf.h'
R = {}
R['maginline'] = [
 (M, """			checkHaglYawResetReq();
			runInAirYawReset();
			runVelPosReset();
""", """			checkHaglYawResetReq();

			if (_mag_yaw_reset_req && isYawResetAuthorized()) {
				bool realigned = false;

				if (canRealignYawUsingGps()) {
					realigned = realignYawGPS();

				} else if (canResetMagHeading()) {
					realigned = resetMagHeading(_mag_lpf.getState());
				}

				_mag_yaw_reset_req = !realigned;
				_control_status.flags.mag_aligned_in_flight = realigned;
			}

			if (_velpos_reset_request) {
				_velpos_reset_request = false;
				resetVelocity();
				resetHorizontalPosition();
			}
"""),
 (M, """void Ekf::runInAirYawReset()
{
	if (_mag_yaw_reset_req && isYawResetAuthorized()) {
		bool has_realigned_yaw = false;

		if (canRealignYawUsingGps()) { has_realigned_yaw = realignYawGPS(); }
		else if (canResetMagHeading()) { has_realigned_yaw = resetMagHeading(_mag_lpf.getState()); }

		_mag_yaw_reset_req = !has_realigned_yaw;
		_control_status.flags.mag_aligned_in_flight = has_realigned_yaw;
	}
}

void Ekf::runVelPosReset()
{
	if (_velpos_reset_request) {
		resetVelocity();
		resetHorizontalPosition();
		_velpos_reset_request = false;
	}
}
""", ""),
 (EH, "	void runInAirYawReset();\n", ""), (EH, "	void runVelPosReset();\n", ""),
]
R['magsel'] = [
 (M, """		switch (_params.mag_fusion_type) {
		case MAG_FUSE_TYPE_AUTO:
			selectMagAuto();
			break;

		case MAG_FUSE_TYPE_INDOOR:
		/* fallthrough */
		case MAG_FUSE_TYPE_HEADING:
			startMagHdgFusion();
			break;

		case MAG_FUSE_TYPE_3D:
			startMag3DFusion();
			break;

		default:
			selectMagAuto();
			break;
		}
""", """		const bool heading_only = _params.mag_fusion_type == MAG_FUSE_TYPE_INDOOR || _params.mag_fusion_type == MAG_FUSE_TYPE_HEADING;
		bool three_axis = _params.mag_fusion_type == MAG_FUSE_TYPE_3D;

		if (!heading_only && !three_axis) {
			check3DMagFusionSuitability();
			three_axis = canUse3DMagFusion();
		}

		if (three_axis) {
			startMag3DFusion();

		} else {
			startMagHdgFusion();
		}
"""),
 (M, """void Ekf::selectMagAuto()
{
	check3DMagFusionSuitability();
	canUse3DMagFusion() ? startMag3DFusion() : startMagHdgFusion();
}

""", ""), (EH, "	void selectMagAuto();\n", "")]
R['magobs'] = [
 (M, """	_yaw_angle_observable = _yaw_angle_observable
				? _accel_lpf_NE.norm() > _params.mag_acc_gate
				: _accel_lpf_NE.norm() > 2.0f * _params.mag_acc_gate;

	_yaw_angle_observable = _yaw_angle_observable
				&& (_control_status.flags.gps || _control_status.flags.ev_pos); // Do we have to add ev_vel here?
""", """	const bool earth_frame_aiding = _control_status.flags.gps || _control_status.flags.ev_pos;
	const float threshold = (_yaw_angle_observable ? 1.0f : 2.0f) * _params.mag_acc_gate;

	_yaw_angle_observable = earth_frame_aiding && (_accel_lpf_NE.norm() > threshold);
"""),
 (M, """	if (!_mag_bias_observable && (fabsf(_yaw_rate_lpf_ef) > _params.mag_yaw_rate_gate)) {
		// initial yaw motion is detected
		_mag_bias_observable = true;

	} else if (_mag_bias_observable) {
		// require sustained yaw motion of 50% the initial yaw rate threshold
		const float yaw_dt = 1e-6f * (float)(_imu_sample_delayed.time_us - _time_yaw_started);
		const float min_yaw_change_req =  0.5f * _params.mag_yaw_rate_gate * yaw_dt;
		_mag_bias_observable = fabsf(_yaw_delta_ef) > min_yaw_change_req;
	}

	_yaw_delta_ef = 0.0f;
	_time_yaw_started = _imu_sample_delayed.time_us;
""", """	const uint64_t started = _time_yaw_started;
	const float change = fabsf(_yaw_delta_ef);

	_time_yaw_started = _imu_sample_delayed.time_us;
	_yaw_delta_ef = 0.0f;

	if (_mag_bias_observable) {
		// require sustained yaw motion of 50% the initial yaw rate threshold
		const float yaw_dt = (float)(_imu_sample_delayed.time_us - started) * 1e-6f;
		_mag_bias_observable = change > yaw_dt * _params.mag_yaw_rate_gate * 0.5f;

	} else {
		_mag_bias_observable = fabsf(_yaw_rate_lpf_ef) > _params.mag_yaw_rate_gate;
	}
"""),
 (M, """	const bool user_selected = (_params.mag_declination_source & MASK_FUSE_DECL);
	const bool not_using_ne_aiding = !_control_status.flags.gps;
	_control_status.flags.mag_dec = (_control_status.flags.mag_3D && (not_using_ne_aiding || user_selected));
""", """	bool required = false;

	if (_control_status.flags.mag_3D) {
		required = !_control_status.flags.gps || ((_params.mag_declination_source & MASK_FUSE_DECL) != 0);
	}

	_control_status.flags.mag_dec = required;
""")]
R['maginhib'] = [
 (M, """	_is_yaw_fusion_inhibited = shouldInhibitMag();
	if (!_is_yaw_fusion_inhibited) {
		_mag_use_not_inhibit_us = _imu_sample_delayed.time_us;
	}

	// If magnetometer use has been inhibited continuously then a yaw reset is required for a valid heading
	if (uint32_t(_imu_sample_delayed.time_us - _mag_use_not_inhibit_us) > (uint32_t)5e6) {
		_mag_inhibit_yaw_reset_req = true;
	}
""", """	const bool inhibit = shouldInhibitMag();
	const auto &now_us = _imu_sample_delayed.time_us;

	_mag_use_not_inhibit_us = inhibit ? _mag_use_not_inhibit_us : now_us;

	// If magnetometer use has been inhibited continuously then a yaw reset is required for a valid heading
	constexpr uint32_t limit_us = 5000000;
	_mag_inhibit_yaw_reset_req = _mag_inhibit_yaw_reset_req || (uint32_t(now_us - _mag_use_not_inhibit_us) > limit_us);
	_is_yaw_fusion_inhibited = inhibit;
"""),
 (M, """	const bool user_selected = (_params.mag_fusion_type == MAG_FUSE_TYPE_INDOOR);

	const bool heading_not_required_for_navigation = !_control_status.flags.gps
							 && !_control_status.flags.ev_pos
							 && !_control_status.flags.ev_vel;

	return (user_selected && heading_not_required_for_navigation)
	       || isStrongMagneticDisturbance();
""", """	if (isStrongMagneticDisturbance()) {
		return true;
	}

	const auto &f = _control_status.flags;
	const bool navigating = f.gps || f.ev_pos || f.ev_vel;
	return _params.mag_fusion_type == MAG_FUSE_TYPE_INDOOR && !navigating;
"""),
 (M, """	if (_params.check_mag_strength) {
		_control_status.flags.mag_field_disturbed = _NED_origin_initialised
							    ? !isMeasuredMatchingGpsMagStrength()
							    : !isMeasuredMatchingAverageMagStrength();

	} else {
		_control_status.flags.mag_field_disturbed = false;
	}
""", """	const float measured = _mag_sample_delayed.mag.norm();
	const float expected = _NED_origin_initialised ? _mag_strength_gps : 0.45f;
	const float gate = _NED_origin_initialised ? 0.2f : 0.40f;
	const bool matches = measured >= expected - gate && measured <= expected + gate;
	_control_status.flags.mag_field_disturbed = _params.check_mag_strength && !matches;
"""),
 (M, """bool Ekf::isMeasuredMatchingGpsMagStrength() const
{
	constexpr float wmm_gate_size = 0.2f; // +/- Gauss
	return isMeasuredMatchingExpected(_mag_sample_delayed.mag.length(), _mag_strength_gps, wmm_gate_size);
}

bool Ekf::isMeasuredMatchingAverageMagStrength() const
{
	constexpr float average_earth_mag_field_strength = 0.45f; // Gauss
	constexpr float average_earth_mag_gate_size = 0.40f; // +/- Gauss
	return isMeasuredMatchingExpected(_mag_sample_delayed.mag.length(),
					  average_earth_mag_field_strength,
					  average_earth_mag_gate_size);
}

bool Ekf::isMeasuredMatchingExpected(const float measured, const float expected, const float gate)
{
	return (measured >= expected - gate)
		&& (measured <= expected + gate);
}

""", ""),
 (EH, "	bool isMeasuredMatchingGpsMagStrength() const;\n", ""), (EH, "	bool isMeasuredMatchingAverageMagStrength() const;\n", ""), (EH, "	static bool isMeasuredMatchingExpected(float measured, float expected, float gate);\n", "")]
R['magrun'] = [
 (M, """	if (!_mag_decl_cov_reset) {
		// After any magnetic field covariance reset event the earth field state
		// covariances need to be corrected to incorporate knowledge of the declination
		// before fusing magnetomer data to prevent rapid rotation of the earth field
		// states for the first few observations.
		fuseDeclination(0.02f);
		_mag_decl_cov_reset = true;
		fuseMag();

	} else {
		// The normal sequence is to fuse the magnetometer data first before fusing
		// declination angle at a higher uncertainty to allow some learning of
		// declination angle over time.
		fuseMag();
		if (_control_status.flags.mag_dec) {
			fuseDeclination(0.5f);
		}
	}
""", """	const bool declination_first = !_mag_decl_cov_reset;

	if (declination_first) {
		fuseDeclination(0.02f);
		_mag_decl_cov_reset = true;
	}

	fuseMag();

	if (!declination_first && _control_status.flags.mag_dec) {
		fuseDeclination(0.5f);
	}
"""),
 (M, """    // detect rising edge of noOtherYawAidingThanMag()
    bool result = noOtherYawAidingThanMag() && _non_mag_yaw_aiding_running_prev;

    _non_mag_yaw_aiding_running_prev = !noOtherYawAidingThanMag();

    return  result;
""", """	const bool running = _control_status.flags.ev_yaw || _control_status.flags.gps_yaw;
	const bool was_running = _non_mag_yaw_aiding_running_prev;
	_non_mag_yaw_aiding_running_prev = running;
	return was_running && !running;
"""),
 (M, "	_mag_yaw_reset_req |= otherHeadingSourcesHaveStopped();\n", "	if (otherHeadingSourcesHaveStopped()) {\n		_mag_yaw_reset_req = true;\n	}\n"),
 (M, """	if (_params.mag_fusion_type == MAG_FUSE_TYPE_NONE) {
		if (noOtherYawAidingThanMag())
		{
			_is_yaw_fusion_inhibited = true;
			fuseHeading();
		}
		return;
	}
""", """	if (_params.mag_fusion_type == MAG_FUSE_TYPE_NONE && !noOtherYawAidingThanMag()) {
		return;
	}

	if (_params.mag_fusion_type == MAG_FUSE_TYPE_NONE) {
		_is_yaw_fusion_inhibited = true;
		fuseHeading();
		return;
	}
""")]
