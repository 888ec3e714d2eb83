HL, H = 'EKF/ekf_helper.cpp', 'EKF/ekf.h'
_src = open('/repo/' + HL).read()


def body(name):
    i = _src.index(name)
    j = _src.index('\n}\n', i) + 3
    return _src[i:j]


def rep(name, *pairs):
    b = body(name); n = b
    for o, w in pairs:
        assert n.count(o) == 1, (name, o, n.count(o))
        n = n.replace(o, w)
    return (HL, b, n)


R = {
'velreset': [
  (HL, body('void Ekf::resetHorizontalVelocityToOpticalFlow()'), """static Vector2f flowVelocity(const Matrix3f &R, float range, const Vector2f &rate)
{
	return Vector2f(R * Vector3f(-range * rate(1), range * rate(0), 0.f));
}

void Ekf::resetHorizontalVelocityToOpticalFlow()
{
	_information_events.flags.reset_vel_to_flow = true;

	float height_above_ground = _terrain_vpos - _state.pos(2);

	if (!(height_above_ground > _params.rng_gnd_clearance)) {
		height_above_ground = _params.rng_gnd_clearance;
	}

	const float range = height_above_ground / _range_sensor.getCosTilt();
	Vector2f vel_new{};

	if ((range - _params.rng_gnd_clearance) > 0.3f) {
		vel_new = flowVelocity(_R_to_earth, range, _flow_compensated_XY_rad / _flow_sample_delayed.dt);
	}

	resetHorizontalVelocityTo(vel_new);
	const float var = calcOptFlowMeasVar() * range * range;
	P.uncorrelateCovarianceSetVariance<2>(4, var);
}
"""),
  (HL, body('void Ekf::resetHorizontalVelocityTo('), """void Ekf::resetHorizontalVelocityTo(const Vector2f &new_horz_vel)
{
	Vector2f &change = _state_reset_status.velNE_change;
	change = new_horz_vel - _state.vel.xy();

	for (unsigned axis = 0; axis < 2; axis++) {
		_state.vel(axis) = new_horz_vel(axis);
		_output_new.vel(axis) += change(axis);

		for (int k = _output_buffer.get_length() - 1; k >= 0; k--) {
			_output_buffer[k].vel(axis) += change(axis);
		}
	}

	++_state_reset_status.velNE_counter;
}
"""),
  (HL, body('void Ekf::resetVerticalVelocityTo('), """void Ekf::resetVerticalVelocityTo(float new_vert_vel)
{
	const float delta = new_vert_vel - _state.vel(2);
	const uint8_t length = _output_buffer.get_length();

	for (uint8_t i = 0; i < length; i++) {
		outputSample &s = _output_buffer[i];
		s.vel(2) = s.vel(2) + delta;
	}

	for (uint8_t i = 0; i < length; i++) {
		_output_vert_buffer[i].vert_vel += delta;
	}

	_output_new.vel(2) += delta;
	_output_vert_new.vert_vel += delta;
	_state.vel(2) = new_vert_vel;
	_state_reset_status.velD_counter = _state_reset_status.velD_counter + 1;
	_state_reset_status.velD_change = delta;
}
"""),
  (HL, body('void Ekf::resetVelocityTo('), """void Ekf::resetVelocityTo(const Vector3f &new_vel)
{
	const Vector2f horizontal{new_vel(0), new_vel(1)};
	resetVerticalVelocityTo(new_vel(2));
	resetHorizontalVelocityTo(horizontal);
}
"""),
],
'posreset': [
  (HL, body('void Ekf::resetHorizontalPosition()'), """void Ekf::resetHorizontalPosition()
{
	if (_control_status.flags.gps) {
		resetHorizontalPositionToGps();
		return;
	}

	if (_control_status.flags.ev_pos) {
		resetHorizontalPositionToVision();
		return;
	}

	_information_events.flags.reset_pos_to_last_known = true;
	const bool flow = _control_status.flags.opt_flow;
	const bool on_ground_flow = flow && !_control_status.flags.in_air;

	resetHorizontalPositionTo(on_ground_flow ? Vector2f(0.f, 0.f) : _last_known_posNE);
	P.uncorrelateCovarianceSetVariance<2>(7, flow ? 0.0f : _params.pos_noaid_noise * _params.pos_noaid_noise);
}
"""),
  (HL, body('void Ekf::resetHorizontalPositionToVision()'), """void Ekf::resetHorizontalPositionToVision()
{
	_information_events.flags.reset_pos_to_vision = true;
	const bool rotate = (_params.fusion_mode & MASK_ROTATE_EV) != 0;
	const Vector3f ev_pos = rotate ? _R_ev_to_ekf * _ev_sample_delayed.pos : _ev_sample_delayed.pos;
	const Vector2f var(_ev_sample_delayed.posVar(0), _ev_sample_delayed.posVar(1));
	P.uncorrelateCovarianceSetVariance<2>(7, var);
	resetHorizontalPositionTo(ev_pos.xy());
}
"""),
  (HL, body('void Ekf::resetVerticalPositionTo('), """void Ekf::resetVerticalPositionTo(const float &new_vert_pos)
{
	const float change = new_vert_pos - _state.pos(2);

	_output_new.pos(2) += change;

	uint8_t i = 0;

	while (i < _output_buffer.get_length()) {
		_output_buffer[i].pos(2) += change;
		_output_vert_buffer[i].vert_vel_integ += change;
		++i;
	}

	_output_vert_new.vert_vel_integ = new_vert_pos;
	_state.pos(2) = new_vert_pos;
	_state_reset_status.posD_change = change;
	_state_reset_status.posD_counter += 1;
}
"""),
  (HL, body('void Ekf::resetHeight()'), """static float sqr(float v)
{
	return v * v;
}

void Ekf::resetHeight()
{
	const auto &gps = _gps_buffer.get_newest();
	const auto &baro = _baro_buffer.get_newest();

	if (_control_status.flags.rng_hgt) {
		resetVerticalPositionTo(_hgt_sensor_offset - _range_sensor.getDistBottom());
		_baro_hgt_offset = _state.pos(2) + baro.hgt;
		P.uncorrelateCovarianceSetVariance<1>(9, sqr(_params.range_noise));

	} else if (_control_status.flags.baro_hgt) {
		if (!_baro_hgt_faulty) {
			P.uncorrelateCovarianceSetVariance<1>(9, sqr(_params.baro_noise));
			resetVerticalPositionTo(_baro_hgt_offset - baro.hgt);
		}

	} else if (_control_status.flags.gps_hgt && !_gps_hgt_intermittent) {
		const float height = gps.hgt - _gps_alt_ref;
		resetVerticalPositionTo(_hgt_sensor_offset - height);
		P.uncorrelateCovarianceSetVariance<1>(9, sqr(gps.vacc));
		_baro_hgt_offset = baro.hgt + _state.pos(2);

	} else if (!_control_status.flags.gps_hgt && _control_status.flags.ev_hgt) {
		const extVisionSample &ev_newest = _ext_vision_buffer.get_newest();
		const extVisionSample &ev = (ev_newest.time_us < _ev_sample_delayed.time_us) ? _ev_sample_delayed : ev_newest;
		resetVerticalPositionTo(ev.pos(2));
	}

	const bool use_gps = _control_status.flags.gps && !_gps_hgt_intermittent;
	const float vel = use_gps ? gps.vel(2) : 0.f;
	const float var = use_gps ? sqr(1.5f * gps.sacc) : 10.f;
	resetVerticalVelocityTo(vel);
	P.uncorrelateCovarianceSetVariance<1>(6, var);
}
"""),
  (HL, body('void Ekf::alignOutputFilter()'), """void Ekf::alignOutputFilter()
{
	const outputSample oldest = _output_buffer.get_oldest();
	const Quatf q_delta = (_state.quat_nominal * oldest.quat_nominal.inversed()).normalized();
	const Vector3f vel_delta = _state.vel - oldest.vel;
	const Vector3f pos_delta = _state.pos - oldest.pos;

	for (uint8_t i = 0; i < _output_buffer.get_length(); i++) {
		outputSample &sample = _output_buffer[i];
		const Quatf aligned = q_delta * sample.quat_nominal;
		sample.quat_nominal = aligned.normalized();
		sample.vel = sample.vel + vel_delta;
		sample.pos = sample.pos + pos_delta;
	}

	_output_new = _output_buffer.get_newest();
}
"""),
],
'yawgps': [
  rep('bool Ekf::realignYawGPS()',
   ("	const float gpsSpeed = sqrtf(sq(_gps_sample_delayed.vel(0)) + sq(_gps_sample_delayed.vel(1)));\n", "	const Vector2f gps_vel(_gps_sample_delayed.vel);\n	const float gpsSpeed = gps_vel.norm();\n"),
   ("""	const bool gps_yaw_alignment_possible = (gpsSpeed > 5.0f) && (_gps_sample_delayed.sacc < (0.15f * gpsSpeed));

	if (!gps_yaw_alignment_possible) {
""", """	if (gpsSpeed <= 5.0f || _gps_sample_delayed.sacc >= 0.15f * gpsSpeed) {
"""),
   ("	const float gpsCOG = atan2f(_gps_sample_delayed.vel(1), _gps_sample_delayed.vel(0));\n", "	const float gpsCOG = atan2f(gps_vel(1), gps_vel(0));\n"),
   ("""	if (badMagYaw) {
		_num_bad_flight_yaw_events ++;
	}
""", """	_num_bad_flight_yaw_events += badMagYaw ? 1 : 0;
"""),
   ("""		if (!_control_status.flags.mag_aligned_in_flight) {
			// This""", """		const bool first = !_control_status.flags.mag_aligned_in_flight;

		if (first) {
			// This"""),
   ("""			yaw_new = atan2f((_gps_sample_delayed.vel(1) - _state.wind_vel(1)),
					 (_gps_sample_delayed.vel(0) - _state.wind_vel(0)));
""", """			const Vector2f rel = gps_vel - _state.wind_vel;
			yaw_new = atan2f(rel(1), rel(0));
"""),
   ("""			yaw_new = atan2f(_gps_sample_delayed.vel(1), _gps_sample_delayed.vel(0));

		}
""", """			yaw_new = gpsCOG;
		}
"""),
   ("""		const float sineYawError = math::constrain(sqrtf(SpdErrorVariance) / gpsSpeed, 0.0f, 1.0f);
		const float yaw_variance_new = sq(asinf(sineYawError));
""", """		float sineYawError = sqrtf(SpdErrorVariance) / gpsSpeed;

		if (sineYawError > 1.f) {
			sineYawError = 1.f;
		}

		const float yaw_error = asinf(sineYawError);
		const float yaw_variance_new = yaw_error * yaw_error;
"""),
   ("""		_state.mag_B.zero();
		_R_to_earth = Dcmf(_state.quat_nominal);
		_state.mag_I = _R_to_earth * _mag_sample_delayed.mag;

		resetMagCov();

		// record the start time for the magnetic field alignment
		_flt_mag_align_start_time = _imu_sample_delayed.time_us;

		// If heading was bad, then we also need to reset the velocity and position states
		_velpos_reset_request = badMagYaw;

		return true;

	} else {
		// align mag states only

		// calculate initial earth magnetic field states
		_state.mag_I = _R_to_earth * _mag_sample_delayed.mag;

		resetMagCov();

		// record the start time for the magnetic field alignment
		_flt_mag_align_start_time = _imu_sample_delayed.time_us;

		return true;
	}
""", """		_state.mag_B.zero();
		_R_to_earth = Dcmf(_state.quat_nominal);
		_velpos_reset_request = badMagYaw;
	}

	_state.mag_I = _R_to_earth * _mag_sample_delayed.mag;
	resetMagCov();
	_flt_mag_align_start_time = _imu_sample_delayed.time_us;
	return true;
"""),
  ),
  (HL, body('bool Ekf::resetMagHeading('), """bool Ekf::resetMagHeading(const Vector3f &mag_init, bool increase_yaw_var, bool update_buffer)
{
	const bool done = (_imu_sample_delayed.time_us == _flt_mag_align_start_time);

	if (done) {
		return true;
	}

	if (_params.mag_fusion_type >= MAG_FUSE_TYPE_NONE) {
		stopMagFusion();
		return false;
	}

	float yaw = 0.f;
	float variance = 0.f;

	if (_control_status.flags.ev_yaw) {
		yaw = getEuler312Yaw(_ev_sample_delayed.quat);
		variance = math::max(_ev_sample_delayed.angVar, 1.0e-2f * 1.0e-2f);

	} else if (_params.mag_fusion_type > MAG_FUSE_TYPE_3D) {
		return (_params.mag_fusion_type == MAG_FUSE_TYPE_INDOOR) && _is_yaw_fusion_inhibited;

	} else {
		const Vector3f field = updateYawInRotMat(0.f, _R_to_earth) * mag_init;
		yaw = getMagDeclination() - atan2f(field(1), field(0));
		variance = sq(math::max(_params.mag_heading_noise, 1.0e-2f));
	}

	resetQuatStateYaw(yaw, increase_yaw_var ? variance : 0.f, update_buffer);
	_flt_mag_align_start_time = _imu_sample_delayed.time_us;
	_state.mag_I = _R_to_earth * mag_init;
	resetMagCov();
	return true;
}
"""),
  (HL, body('float Ekf::getMagDeclination()'), """float Ekf::getMagDeclination()
{
	if (_control_status.flags.mag_aligned_in_flight) {
		return atan2f(_state.mag_I(1), _state.mag_I(0));
	}

	const bool use_geo = (_params.mag_declination_source & MASK_USE_GEO_DECL)
			     && (_NED_origin_initialised || ISFINITE(_mag_declination_gps));

	return use_geo ? _mag_declination_gps : math::radians(_params.mag_declination_deg);
}
"""),
  (HL, body('void Ekf::resetQuatStateYaw('), """void Ekf::resetQuatStateYaw(float yaw, float yaw_variance, bool update_buffer)
{
	_R_to_earth = updateYawInRotMat(yaw, Dcmf(_state.quat_nominal));

	const Quatf quat_new(_R_to_earth);
	Quatf change = quat_new * _state.quat_nominal.inversed();
	change.normalize();

	uncorrelateQuatFromOtherStates();
	_state.quat_nominal = quat_new;

	if (yaw_variance > FLT_EPSILON) {
		increaseQuatYawErrVariance(yaw_variance);
	}

	_state_reset_status.quat_change = change;
	_state_reset_status.quat_counter++;

	if (!update_buffer) {
		return;
	}

	auto rotate = [&change](outputSample & s) { s.quat_nominal = change * s.quat_nominal; };

	for (uint8_t i = 0; i < _output_buffer.get_length(); i++) {
		rotate(_output_buffer[i]);
	}

	rotate(_output_new);
}
"""),
  rep('bool Ekf::resetYawToEKFGSF()', ("""	if (!_yawEstimator.getYawData(&new_yaw, &new_yaw_variance)) {
		return false;
	}

	const bool has_converged = new_yaw_variance < sq(_params.EKFGSF_yaw_err_max);

	if (!has_converged) {
		return false;
	}
""", """	if (!_yawEstimator.getYawData(&new_yaw, &new_yaw_variance) || !(new_yaw_variance < sq(_params.EKFGSF_yaw_err_max))) {
		return false;
	}
"""), ("""	if (_params.mag_fusion_type == MAG_FUSE_TYPE_NONE) {
		_information_events.flags.yaw_aligned_to_imu_gps = true;
		ECL_INFO("Yaw aligned using IMU and GPS");

	} else {
""", """	const bool no_mag = _params.mag_fusion_type == MAG_FUSE_TYPE_NONE;
	_information_events.flags.yaw_aligned_to_imu_gps = _information_events.flags.yaw_aligned_to_imu_gps || no_mag;

	if (!no_mag) {
""")),
  rep('void Ekf::runYawEKFGSF()', ("""	float TAS;

	if (isTimedOut(_airspeed_sample_delayed.time_us, 1000000) && _control_status.flags.fixed_wing) {
		TAS = _params.EKFGSF_tas_default;

	} else {
		TAS = _airspeed_sample_delayed.true_airspeed;
	}
""", """	const bool arsp_recent = _airspeed_sample_delayed.time_us + (uint64_t)1e6 >= _time_last_imu;
	const float TAS = (arsp_recent || !_control_status.flags.fixed_wing) ? _airspeed_sample_delayed.true_airspeed : _params.EKFGSF_tas_default;
"""), ("""	if (_gps_data_ready && _gps_sample_delayed.sacc > FLT_EPSILON &&
	    ISFINITE(_gps_sample_delayed.vel(0)) && ISFINITE(_gps_sample_delayed.vel(1))) {
		_yawEstimator.setVelocity(_gps_sample_delayed.vel.xy(), _gps_sample_delayed.sacc);
	}
""", """	if (!_gps_data_ready || !(_gps_sample_delayed.sacc > FLT_EPSILON)) {
		return;
	}

	const Vector2f v(_gps_sample_delayed.vel(0), _gps_sample_delayed.vel(1));

	if (ISFINITE(v(0)) && ISFINITE(v(1))) {
		_yawEstimator.setVelocity(v, _gps_sample_delayed.sacc);
	}
""")),
],
'states': [
  (HL, body('void Ekf::constrainStates()'), """template<typename V>
static void limit(V &v, float bound)
{
	v = matrix::constrain(v, -bound, bound);
}

void Ekf::constrainStates()
{
	limit(_state.quat_nominal, 1.0f);
	limit(_state.vel, 1000.0f);

	for (int i = 0; i < 3; i++) {
		_state.pos(i) = math::constrain(_state.pos(i), -1.e6f, 1.e6f);
	}

	limit(_state.delta_ang_bias, math::radians(20.f) * _dt_ekf_avg);
	limit(_state.delta_vel_bias, _params.acc_bias_lim * _dt_ekf_avg);
	limit(_state.mag_I, 1.0f);
	limit(_state.mag_B, 0.5f);
	limit(_state.wind_vel, 100.0f);
}
"""),
  (HL, body('float Ekf::compensateBaroForDynamicPressure('), """float Ekf::compensateBaroForDynamicPressure(const float baro_alt_uncompensated) const
{
	Vector3f airspeed_earth = _output_new.vel - _vel_imu_rel_body_ned;
	airspeed_earth(0) -= _state.wind_vel(0);
	airspeed_earth(1) -= _state.wind_vel(1);

	const matrix::Dcmf R_to_earth(_output_new.quat_nominal);
	const Vector3f airspeed_body = R_to_earth.transpose() * airspeed_earth;
	const float limit = sq(_params.max_correction_airspeed);
	const float coef[3] = {
		(airspeed_body(0) < 0.0f) ? _params.static_pressure_coef_xn : _params.static_pressure_coef_xp,
		(airspeed_body(1) < 0.0f) ? _params.static_pressure_coef_yn : _params.static_pressure_coef_yp,
		_params.static_pressure_coef_z
	};

	float sum = 0.f;

	for (int i = 0; i < 3; i++) {
		sum += math::min(sq(airspeed_body(i)), limit) * coef[i];
	}

	const float pstatic_err = 0.5f * sum * _air_density;
	return baro_alt_uncompensated + pstatic_err / (CONSTANTS_ONE_G * _air_density);
}
"""),
  (HL, body('void Ekf::fuse('), """void Ekf::fuse(const Vector24f &K, float innovation)
{
	const Vector24f corr = K * innovation;

	for (int i = 0; i < 3; i++) {
		_state.vel(i) -= corr(4 + i);
		_state.pos(i) -= corr(7 + i);
		_state.delta_ang_bias(i) -= corr(10 + i);
		_state.delta_vel_bias(i) -= corr(13 + i);
		_state.mag_I(i) -= corr(16 + i);
		_state.mag_B(i) -= corr(19 + i);
	}

	_state.wind_vel(0) -= corr(22);
	_state.wind_vel(1) -= corr(23);

	for (int i = 0; i < 4; i++) {
		_state.quat_nominal(i) -= corr(i);
	}

	_state.quat_nominal.normalize();
}
"""),
  (HL, body('void Ekf::uncorrelateQuatFromOtherStates()'), """void Ekf::uncorrelateQuatFromOtherStates()
{
	for (int row = 0; row < 4; row++) {
		for (int col = 4; col < _k_num_states; col++) {
			P(row, col) = P(col, row) = 0.f;
		}
	}
}
"""),
  rep('Vector3f Ekf::calcRotVecVariances()', ("""	float q0, q1, q2, q3;

	if (_state.quat_nominal(0) >= 0.0f) {
		q0 = _state.quat_nominal(0);
		q1 = _state.quat_nominal(1);
		q2 = _state.quat_nominal(2);
		q3 = _state.quat_nominal(3);

	} else {
		q0 = -_state.quat_nominal(0);
		q1 = -_state.quat_nominal(1);
		q2 = -_state.quat_nominal(2);
		q3 = -_state.quat_nominal(3);
	}
""", """	const float sign = (_state.quat_nominal(0) >= 0.0f) ? 1.f : -1.f;
	const float q0 = sign * _state.quat_nominal(0);
	const float q1 = sign * _state.quat_nominal(1);
	const float q2 = sign * _state.quat_nominal(2);
	const float q3 = sign * _state.quat_nominal(3);
"""), ("	if ((t4 > 1e-9f) && (t5 < -1e-9f)) {", "	if (t4 > 1e-9f) {")),
  (HL, body('void Ekf::increaseQuatYawErrVariance('), """void Ekf::increaseQuatYawErrVariance(float yaw_variance)
{
	const float q0 = _state.quat_nominal(0);
	const float q1 = _state.quat_nominal(1);
	const float q2 = _state.quat_nominal(2);
	const float q3 = _state.quat_nominal(3);

	const float SG0 = sq(q0) - sq(q1) - sq(q2) + sq(q3);
	const float SG1 = 2.f * (q0 * q2 - q1 * q3);
	const float SG2 = 2.f * (q0 * q1 + q2 * q3);

	// derivative of the quaternion with respect to the yaw angle
	const float G[4] = {
		-0.5f * (q3 * SG0 - q1 * SG1 + q2 * SG2),
		-0.5f * (q0 * SG1 - q2 * SG0 + q3 * SG2),
		-0.5f * (q1 * SG0 - q0 * SG2 + q3 * SG1),
		 0.5f * (q0 * SG0 + q1 * SG2 + q2 * SG1)
	};

	const float var = math::min(yaw_variance, 1.0e-2f);

	for (int row = 0; row < 4; row++) {
		for (int col = 0; col < 4; col++) {
			P(row, col) += var * G[row] * G[col];
		}
	}
}
"""),
],
'report': [
  (HL, "#include <cstdlib>\n", "#include <cstdlib>\n#include <initializer_list>\n"),
  (HL, body('matrix::Vector<float, 24> Ekf::getStateAtFusionHorizonAsVector()'), """matrix::Vector<float, 24> Ekf::getStateAtFusionHorizonAsVector() const
{
	matrix::Vector<float, 24> state;
	unsigned k = 0;

	for (int i = 0; i < 4; i++) {
		state(k++) = _state.quat_nominal(i);
	}

	const Vector3f *parts[] = {&_state.vel, &_state.pos, &_state.delta_ang_bias, &_state.delta_vel_bias, &_state.mag_I, &_state.mag_B};

	for (const Vector3f *p : parts) {
		for (int i = 0; i < 3; i++) {
			state(k++) = (*p)(i);
		}
	}

	state(22) = _state.wind_vel(0);
	state(23) = _state.wind_vel(1);
	return state;
}
"""),
  (HL, body('bool Ekf::setEkfGlobalOrigin('), """bool Ekf::setEkfGlobalOrigin(const double latitude, const double longitude, const float altitude)
{
	const bool keep_position = map_projection_initialized(&_pos_ref) && isHorizontalAidingActive();
	double lat = 0.0;
	double lon = 0.0;
	const float alt = _gps_alt_ref - _state.pos(2);

	if (keep_position) {
		map_projection_reproject(&_pos_ref, _state.pos(0), _state.pos(1), &lat, &lon);
	}

	if (map_projection_init_timestamped(&_pos_ref, latitude, longitude, _time_last_imu) != 0) {
		return false;
	}

	_gps_alt_ref = altitude;

	if (!keep_position) {
		return true;
	}

	float north = 0.f;
	float east = 0.f;
	map_projection_project(&_pos_ref, lat, lon, &north, &east);
	resetVerticalPositionTo(altitude - alt);
	resetHorizontalPositionTo(Vector2f(north, east));
	return true;
}
"""),
  (HL, body('bool Ekf::get_gps_drift_metrics('), """bool Ekf::get_gps_drift_metrics(float drift[3], bool *blocked)
{
	for (int i = 0; i < 3; i++) {
		drift[i] = _gps_drift_metrics[i];
	}

	*blocked = _control_status.flags.vehicle_at_rest ? false : true;
	const bool updated = _gps_drift_updated;
	_gps_drift_updated = false;
	return updated;
}
"""),
  (HL, body('void Ekf::get_ekf_gpos_accuracy('), """void Ekf::get_ekf_gpos_accuracy(float *ekf_eph, float *ekf_epv) const
{
	float eph = sqrtf(P(7, 7) + P(8, 8) + _gps_origin_eph * _gps_origin_eph);

	if (_is_dead_reckoning) {
		if (_control_status.flags.gps) {
			eph = fmaxf(eph, _gps_pos_innov.xy().norm());

		} else if (_control_status.flags.ev_pos) {
			eph = fmaxf(eph, Vector2f(_ev_pos_innov).norm());
		}
	}

	*ekf_epv = sqrtf(P(9, 9) + _gps_origin_epv * _gps_origin_epv);
	*ekf_eph = eph;
}
"""),
  (HL, body('void Ekf::get_ekf_vel_accuracy('), """void Ekf::get_ekf_vel_accuracy(float *ekf_evh, float *ekf_evv) const
{
	*ekf_evv = sqrtf(P(6, 6));
	*ekf_evh = sqrtf(P(4, 4) + P(5, 5));

	if (!_deadreckon_time_exceeded) {
		return;
	}

	auto atLeast = [ekf_evh](float v) { *ekf_evh = math::max(*ekf_evh, v); };

	if (_control_status.flags.opt_flow) {
		const float clearance = _params.rng_gnd_clearance > 0.1f ? _params.rng_gnd_clearance : 0.1f;
		atLeast(math::max(_terrain_vpos - _state.pos(2), clearance) * sqrtf(sq(_flow_innov(0)) + sq(_flow_innov(1))));
	}

	if (_control_status.flags.gps) {
		atLeast(sqrtf(sq(_gps_pos_innov(0)) + sq(_gps_pos_innov(1))));

	} else if (_control_status.flags.ev_pos) {
		atLeast(sqrtf(sq(_ev_pos_innov(0)) + sq(_ev_pos_innov(1))));
	}

	if (_control_status.flags.ev_vel) {
		atLeast(sqrtf(sq(_ev_vel_innov(0)) + sq(_ev_vel_innov(1))));
	}
}
"""),
  (HL, body('void Ekf::get_ekf_ctrl_limits('), """void Ekf::get_ekf_ctrl_limits(float *vxy_max, float *vz_max, float *hagl_min, float *hagl_max) const
{
	*vxy_max = *vz_max = *hagl_min = *hagl_max = NAN;

	const float rng_min = _range_sensor.getValidMinVal();
	const float rng_max = _range_sensor.getValidMaxVal() * 0.75f;

	if (isOnlyActiveSourceOfHorizontalAiding(_control_status.flags.opt_flow)) {
		const float v = 0.5f * _flow_max_rate * (_terrain_vpos - _state.pos(2));
		*vxy_max = v > 0.f ? v : 0.f;
		*hagl_min = math::max(rng_min, _flow_min_distance);
		*hagl_max = math::min(rng_max, _flow_max_distance);

	} else if (_control_status.flags.rng_hgt && !_params.range_aid) {
		*hagl_min = rng_min;
		*hagl_max = rng_max;
	}
}
"""),
  (HL, body('void Ekf::get_innovation_test_status('), """void Ekf::get_innovation_test_status(uint16_t &status, float &mag, float &vel, float &pos, float &hgt, float &tas,
				     float &hagl, float &beta) const
{
	status = _innov_check_fail_status.value;

	const float worst_mag = math::max(math::max(_mag_test_ratio(0), _mag_test_ratio(1)), _mag_test_ratio(2));
	mag = math::max(sqrtf(_yaw_test_ratio), sqrtf(worst_mag));
	const float vels[] = {_gps_vel_test_ratio(0), _gps_vel_test_ratio(1), _ev_vel_test_ratio(0), _ev_vel_test_ratio(1)};
	float worst = vels[0];

	for (float v : vels) {
		worst = math::max(worst, v);
	}

	vel = sqrtf(worst);
	pos = sqrtf(math::max(_gps_pos_test_ratio(0), _ev_pos_test_ratio(0)));
	hgt = NAN;

	if (_control_status.flags.baro_hgt) {
		hgt = sqrtf(_baro_hgt_test_ratio(1));

	} else if (_control_status.flags.gps_hgt) {
		hgt = sqrtf(_gps_pos_test_ratio(1));

	} else if (_control_status.flags.rng_hgt) {
		hgt = sqrtf(_rng_hgt_test_ratio(1));

	} else if (_control_status.flags.ev_hgt) {
		hgt = sqrtf(_ev_pos_test_ratio(1));
	}

	tas = sqrtf(_tas_test_ratio);
	hagl = sqrtf(_hagl_test_ratio);
	beta = sqrtf(_beta_test_ratio);
}
"""),
  (HL, body('void Ekf::get_ekf_soln_status('), """void Ekf::get_ekf_soln_status(uint16_t *status) const
{
	const bool healthy = _fault_status.value == 0;
	const auto &f = _control_status.flags;
	ekf_solution_status soln{};

	if (healthy) {
		const bool abs_pos = f.gps || f.ev_pos;
		soln.flags.attitude = f.tilt_align && f.yaw_align;
		soln.flags.velocity_horiz = isHorizontalAidingActive() || (f.fuse_beta && f.fuse_aspd);
		soln.flags.velocity_vert = f.baro_hgt || f.ev_hgt || f.gps_hgt || f.rng_hgt;
		soln.flags.pos_vert_abs = soln.flags.velocity_vert;
		soln.flags.pos_horiz_rel = abs_pos || f.opt_flow;
		soln.flags.pos_horiz_abs = abs_pos;
		soln.flags.pred_pos_horiz_abs = abs_pos;
		soln.flags.pred_pos_horiz_rel = abs_pos || f.opt_flow;
	}

	soln.flags.const_pos_mode = !soln.flags.velocity_horiz;
	soln.flags.pos_vert_agl = isTerrainEstimateValid();
	soln.flags.accel_error = _fault_status.flags.bad_acc_vertical;

	const bool gps_bad = math::max(_gps_vel_test_ratio(0), _gps_vel_test_ratio(1)) > 1.0f || _gps_pos_test_ratio(0) > 1.0f;
	const bool mag_good = _mag_test_ratio(0) < 1.f && _mag_test_ratio(1) < 1.f && _mag_test_ratio(2) < 1.f && _yaw_test_ratio < 1.0f;
	soln.flags.gps_glitch = gps_bad && mag_good;

	*status = soln.value;
}
"""),
  (HL, body('void Ekf::update_deadreckoning_status()'), """void Ekf::update_deadreckoning_status()
{
	auto recent = [this](uint64_t t) { return isRecent(t, _params.no_aid_timeout_max); };

	bool aided = _control_status.flags.opt_flow && recent(_time_last_of_fuse);

	if (_control_status.flags.gps || _control_status.flags.ev_pos || _control_status.flags.ev_vel) {
		for (uint64_t t : {_time_last_hor_pos_fuse, _time_last_hor_vel_fuse, _time_last_delpos_fuse}) {
			aided |= recent(t);
		}
	}

	const bool air_data = _control_status.flags.wind && recent(_time_last_arsp_fuse) && recent(_time_last_beta_fuse);

	_is_wind_dead_reckoning = air_data && !aided;
	_is_dead_reckoning = !(aided || air_data);

	if (aided || air_data) {
		_time_last_aiding = _time_last_imu - _params.no_aid_timeout_max;
	}

	_deadreckon_time_exceeded = true;

	if (_time_last_aiding != 0) {
		_deadreckon_time_exceeded = isTimedOut(_time_last_aiding, (uint64_t)_params.valid_timeout_max);
	}
}
"""),
],
'startstop': [
  (HL, body('void Ekf::setControlBaroHeight()'), """static void setOnly(filter_control_status_u &status, bool baro, bool rng, bool gps, bool ev)
{
	status.flags.baro_hgt = baro;
	status.flags.rng_hgt = rng;
	status.flags.gps_hgt = gps;
	status.flags.ev_hgt = ev;
}

void Ekf::setControlBaroHeight()
{
	setOnly(_control_status, true, false, false, false);
}
"""),
  (HL, body('void Ekf::setControlRangeHeight()'), "void Ekf::setControlRangeHeight()\n{\n	setOnly(_control_status, false, true, false, false);\n}\n"),
  (HL, body('void Ekf::setControlGPSHeight()'), "void Ekf::setControlGPSHeight()\n{\n	setOnly(_control_status, false, false, true, false);\n}\n"),
  (HL, body('void Ekf::setControlEVHeight()'), "void Ekf::setControlEVHeight()\n{\n	setOnly(_control_status, false, false, false, true);\n}\n"),
  (HL, body('void Ekf::startMag3DFusion()'), """void Ekf::startMag3DFusion()
{
	if (_control_status.flags.mag_3D) {
		return;
	}

	_control_status.flags.mag_3D = true;
	zeroMagCov();
	loadMagCovData();
	stopMagHdgFusion();
}
"""),
  (HL, body('void Ekf::startBaroHgtFusion()'), """void Ekf::startBaroHgtFusion()
{
	_hgt_sensor_offset = 0.0f;

	_control_status.flags.gnd_effect = _control_status.flags.gnd_effect && !isTimedOut(_time_last_gnd_effect_on, GNDEFFECT_TIMEOUT);
	setControlBaroHeight();
}
"""),
  (HL, body('void Ekf::updateBaroHgtOffset()'), """void Ekf::updateBaroHgtOffset()
{
	if (_control_status.flags.baro_hgt || !_baro_data_ready) {
		return;
	}

	const float dt = math::constrain(1e-6f * _delta_time_baro_us, 0.0f, 1.0f);
	const float offset = _baro_sample_delayed.hgt + _state.pos(2);
	const float rate = 0.1f * (offset - _baro_hgt_offset);

	if (rate > 0.1f) {
		_baro_hgt_offset += dt * 0.1f;

	} else if (rate < -0.1f) {
		_baro_hgt_offset -= dt * 0.1f;

	} else {
		_baro_hgt_offset += dt * rate;
	}
}
"""),
  (HL, body('float Ekf::getGpsHeightVariance()'), """float Ekf::getGpsHeightVariance()
{
	const float ratio = 1.5f;
	const float lower = math::max(ratio * _params.gps_pos_noise, 0.01f);
	const float upper = math::max(ratio * _params.pos_noaid_noise, lower);
	const float vacc = _gps_sample_delayed.vacc;
	const float std = (vacc < lower) ? lower : ((vacc > upper) ? upper : vacc);
	return std * std;
}
"""),
  (HL, body('Vector3f Ekf::getVisionVelocityInEkfFrame()'), """Vector3f Ekf::getVisionVelocityInEkfFrame() const
{
	const Vector3f vel_offset_body = _ang_rate_delayed_raw.cross(_params.ev_pos_body - _params.imu_pos_body);

	if (_ev_sample_delayed.vel_frame == velocity_frame_t::BODY_FRAME_FRD) {
		return _R_to_earth * _ev_sample_delayed.vel - _R_to_earth * vel_offset_body;
	}

	if (_ev_sample_delayed.vel_frame != velocity_frame_t::LOCAL_FRAME_FRD) {
		return Vector3f{};
	}

	Vector3f vel = _ev_sample_delayed.vel;

	if (_params.fusion_mode & MASK_ROTATE_EV) {
		vel = _R_ev_to_ekf * vel;
	}

	return vel - _R_to_earth * vel_offset_body;
}
"""),
  (HL, body('Vector3f Ekf::getVisionVelocityVarianceInEkfFrame()'), """Vector3f Ekf::getVisionVelocityVarianceInEkfFrame() const
{
	const bool local = _ev_sample_delayed.vel_frame == velocity_frame_t::LOCAL_FRAME_FRD;
	Matrix3f R;
	R.setIdentity();

	if (_ev_sample_delayed.vel_frame == velocity_frame_t::BODY_FRAME_FRD) {
		R = _R_to_earth;

	} else if (local && (_params.fusion_mode & MASK_ROTATE_EV)) {
		R = _R_ev_to_ekf;
	}

	const Matrix3f rotated = R * _ev_sample_delayed.velCov * R.transpose();
	return rotated.diag();
}
"""),
  (HL, body('void Ekf::saveMagCovData()'), """void Ekf::saveMagCovData()
{
	for (int row = 0; row < 2; row++) {
		for (int col = 0; col < 2; col++) {
			_saved_mag_ef_covmat(row, col) = P(16 + row, 16 + col);
		}
	}

	for (unsigned k = 18; k < 22; k++) {
		_saved_mag_bf_variance[k - 18] = P(k, k);
	}
}
"""),
  (HL, body('void Ekf::startGpsFusion()'), """void Ekf::startGpsFusion()
{
	if (!_control_status.flags.opt_flow) {
		resetVelocityToGps();
	}

	resetHorizontalPositionToGps();
	_control_status.flags.gps = true;
	_information_events.flags.starting_gps_fusion = true;
}
"""),
  (HL, body('void Ekf::stopGpsPosFusion()'), """void Ekf::stopGpsPosFusion()
{
	_gps_pos_innov = Vector3f{};
	_gps_pos_innov_var.zero();
	_gps_pos_test_ratio = Vector2f(0.f, 0.f);

	if (_control_status.flags.gps_hgt) {
		startBaroHgtFusion();
	}

	_control_status.flags.gps = false;
}
"""),
  (HL, body('void Ekf::stopFlowFusion()'), """void Ekf::stopFlowFusion()
{
	_optflow_test_ratio = 0.0f;

	for (int i = 0; i < 2; i++) {
		_flow_innov(i) = 0.f;
		_flow_innov_var(i) = 0.f;
	}

	_control_status.flags.opt_flow = false;
}
"""),
  rep('void Ekf::startEvYawFusion()', ("""	resetQuatStateYaw(yaw, yaw_variance, true);

	// flag the yaw as aligned
	_control_status.flags.yaw_align = true;

	// turn on fusion of external vision yaw measurements and disable all magnetometer fusion
	_control_status.flags.ev_yaw = true;
	_control_status.flags.mag_dec = false;

	stopMagHdgFusion();
	stopMag3DFusion();
""", """	_control_status.flags.mag_dec = false;

	resetQuatStateYaw(yaw, yaw_variance, true);
	stopMag3DFusion();
	stopMagHdgFusion();
	_control_status.flags.yaw_align = true;
	_control_status.flags.ev_yaw = true;
""")),
],
}
