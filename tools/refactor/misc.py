U, UH, AF, W, RF, DS, O, ML = 'EKF/utils.cpp', 'EKF/utils.hpp', 'AlphaFilter/AlphaFilter.hpp', 'airdata/WindEstimator.cpp', 'EKF/sensor_range_finder.cpp', 'EKF/imu_down_sampler.cpp', 'EKF/optflow_fusion.cpp', 'mathlib/mathlib.h'
_s = {f: open('/repo/' + f).read() for f in (U, UH, W, RF, DS, O)}
WH = 'airdata/WindEstimator.hpp'


def body(f, name):
    i = _s[f].index(name)
    return _s[f][i:_s[f].index('\n}\n', i) + 3]


def rep(f, name, *pairs):
    b = body(f, name); n = b
    for o, w in pairs:
        assert n.count(o) == 1, (name, o, n.count(o))
        n = n.replace(o, w)
    return (f, b, n)


def sec(f, a, b):
    i = _s[f].index(a)
    return _s[f][i:_s[f].index(b, i)]


R = {
'utils': [
  (U, body(U, 'matrix::Dcmf quatToInverseRotMat('), """matrix::Dcmf quatToInverseRotMat(const  matrix::Quatf &quat)
{
	const float w = quat(0);
	const float x = quat(1);
	const float y = quat(2);
	const float z = quat(3);

	matrix::Dcmf dcm;
	dcm(0, 0) = w * w + x * x - (y * y + z * z);
	dcm(1, 1) = w * w + y * y - (x * x + z * z);
	dcm(2, 2) = w * w + z * z - (x * x + y * y);

	const float xy = x * y, xz = x * z, yz = y * z;
	const float wx = w * x, wy = w * y, wz = w * z;
	dcm(0, 1) = 2.0f * (wz + xy);
	dcm(1, 0) = 2.0f * xy - 2.0f * wz;
	dcm(0, 2) = -2.0f * (wy - xz);
	dcm(2, 0) = 2.0f * (wy + xz);
	dcm(1, 2) = 2.0f * (wx + yz);
	dcm(2, 1) = (yz - wx) * 2.0f;

	return dcm;
}
"""),
  rep(U, 'float getEuler321Yaw(const matrix::Quatf', ("	const float b = sq(q(0)) + sq(q(1)) - sq(q(2)) - sq(q(3));\n	return atan2f(a, b);", "	const float b = sq(q(0)) - sq(q(3)) + (q(1) + q(2)) * (q(1) - q(2));\n	return atan2f(0.5f * a, 0.5f * b);")),
  rep(U, 'float getEuler312Yaw(const matrix::Quatf', ("	const float a = 2.f * (q(0) * q(3) - q(1) * q(2));\n", "	const float a = q(0) * q(3) * 2.f - 2.f * q(2) * q(1);\n")),
  rep(U, 'float kahanSummation(', ("""	const float y = input - accumulator;
	const float t = sum_previous + y;
	accumulator = (t - sum_previous) - y;
	return t;""", """	const float corrected = input - accumulator;
	const float sum = sum_previous + corrected;
	const float added = sum - sum_previous;
	accumulator = added - corrected;
	return sum;""")),
  rep(U, 'matrix::Dcmf updateEuler312YawInRotMat(', ("""	const matrix::Vector3f rotVec312(yaw,  // yaw
				asinf(rot_in(2, 1)),  // roll
				atan2f(-rot_in(2, 0), rot_in(2, 2)));  // pitch
	return taitBryan312ToRotMat(rotVec312);""", """	matrix::Vector3f rotations;
	rotations(2) = atan2f(-rot_in(2, 0), rot_in(2, 2));
	rotations(1) = asinf(rot_in(2, 1));
	rotations(0) = yaw;
	return taitBryan312ToRotMat(rotations);""")),
  (U, body(U, 'matrix::Dcmf updateYawInRotMat('), """matrix::Dcmf updateYawInRotMat(float yaw, const matrix::Dcmf& rot_in) {
	if (!shouldUse321RotationSequence(rot_in)) {
		return updateEuler312YawInRotMat(yaw, rot_in);
	}

	return updateEuler321YawInRotMat(yaw, rot_in);
}
""") if _s[U].endswith('\n') else rep(U, 'bool shouldUse321', ("return fabsf(R(2, 0)) < fabsf(R(2, 1));", "return !(fabsf(R(2, 1)) <= fabsf(R(2, 0)));")),
  (UH, sec(UH, "	inline float powf", "\n}") , """	inline float powf(float x, int exp)
	{
		float ret = 1.0f;
		const int n = (exp < 0) ? -exp : exp;

		for (int i = 0; i < n; i++) {
			ret *= x;
		}

		return (exp < 0) ? 1.0f / ret : ret;
	}"""),
  (U, sec(U, "		matrix::Dcmf R;\n", "		return R;"), """		matrix::Dcmf R;
		R(2, 1) = s1;
		R(2, 0) = -c1 * s2;
		R(2, 2) = c1 * c2;
		R(0, 0) = c0 * c2 - s1 * s2 * s0;
		R(0, 1) = -(s0 * c1);
		R(0, 2) = c0 * s2 + s0 * (s1 * c2);
		R(1, 0) = s0 * c2 + c0 * (s1 * s2);
		R(1, 1) = c1 * c0;
		R(1, 2) = s0 * s2 - c0 * (s1 * c2);

"""),
],
'alpha': [
  (AF, """		const float denominator = time_constant + sample_interval;

		if (denominator > FLT_EPSILON) {
			setAlpha(sample_interval / denominator);
		}
""", """		const float denominator = sample_interval + time_constant;

		if (!(denominator > FLT_EPSILON)) {
			return;
		}

		_alpha = sample_interval / denominator;
"""),
  (AF, """		_filter_state = updateCalculation(sample);
		return _filter_state;
""", """		reset(updateCalculation(sample));
		return getState();
"""),
  (AF, "{ return (1.f - _alpha) * _filter_state + _alpha * sample; }", "{ return _filter_state + _alpha * (sample - _filter_state); }"),
],
'math': [
  (ML, "	return (val1 < val2) ? val1 : val2;", "	return (val2 > val1) ? val1 : val2;"),
  (ML, "	return (val < min) ? min : ((val > max) ? max : val);", "	return (val < min) ? min : ((max < val) ? max : val);"),
  (ML, "	return (degrees / Type(180)) * Type(M_PI);", "	return degrees * Type(M_PI) / Type(180);"),
],
'wind2': [
  rep(W, 'WindEstimator::initialise(', ("	if (sqrtf(velI(0) * velI(0) + velI(1) * velI(1)) < 3.0f) {\n		return false;\n	}\n\n	const float v_n = velI(0);\n	const float v_e = velI(1);\n",
    "	const float v_n = velI(0);\n	const float v_e = velI(1);\n	const float speed_sq = v_n * v_n + v_e * v_e;\n	const float speed = sqrtf(speed_sq);\n\n	if (speed < 3.0f) {\n		return false;\n	}\n"),
   ("	_state(INDEX_W_N) = velI(INDEX_W_N) - tas_meas * cosf(heading_est);\n	_state(INDEX_W_E) = velI(INDEX_W_E) - tas_meas * sinf(heading_est);\n	_state(INDEX_TAS_SCALE) = 1.0f;\n",
    "	_state = matrix::Vector3f(v_n - tas_meas * cosf(heading_est), v_e - tas_meas * sinf(heading_est), 1.0f);\n"),
   ("	float L0 = v_e * v_e;\n	float L1 = v_n * v_n;\n	float L2 = L0 + L1;\n	float L3 = tas_meas / (L2 * sqrtf(L2));\n	float L4 = L3 * v_e * v_n;\n",
    "	const float L3 = tas_meas / (speed_sq * speed);\n	const float L4 = L3 * v_n * v_e;\n"),
   ("1.0f - L0 * L3", "1.0f - L3 * v_e * v_e"), ("1.0f - L1 * L3", "1.0f - L3 * v_n * v_n"),
   ("""	_P.setZero();
	_P(INDEX_W_N, INDEX_W_N) = velIvar(0);
	_P(INDEX_W_E, INDEX_W_E) = velIvar(1);
	_P(INDEX_TAS_SCALE, INDEX_TAS_SCALE) = 0.0001f;

	_P = L * _P * L.transpose();

	// reset the timestamp for measurement rejection
	_time_rejected_tas = 0;
	_time_rejected_beta = 0;

	_wind_estimator_reset = true;
""", """	_wind_estimator_reset = true;

	matrix::Matrix3f var;
	var.setZero();
	var(0, 0) = velIvar(0);
	var(1, 1) = velIvar(1);
	var(2, 2) = 0.0001f;

	_P = L * (var * L.transpose());

	// reset the timestamp for measurement rejection
	_time_rejected_beta = 0;
	_time_rejected_tas = 0;
""")),
  rep(W, 'WindEstimator::update(', ("""	if (time_now - _time_last_update < 1000 * 1000 || _time_last_update == 0) {
		if (_time_last_update == 0) {
			_time_last_update = time_now;
		}

		return;
	}

	float dt""", """	if (_time_last_update == 0) {
		_time_last_update = time_now;
		return;
	}

	if (time_now - _time_last_update < 1000000) {
		return;
	}

	const float dt"""), (sec(W, "	float SPP0 = dt * dt;", "}\n\nvoid\nWindEstimator::fuse_airspeed"), """	const float dt_sq = dt * dt;
	const float wind_q = dt_sq * q_w;
	const float cross = wind_q + _P(0, 1);

	_P(0, 0) += wind_q;
	_P(1, 1) += wind_q;
	_P(2, 2) += dt_sq * q_k_tas;
	_P(0, 1) = cross;
	_P(1, 0) = cross;
	_P(2, 0) = _P(0, 2);
	_P(2, 1) = _P(1, 2);
""")),
  rep(W, 'WindEstimator::fuse_beta(', (sec(W, "	const float v_n = velI(0);\n	const float v_e = velI(1);\n	const float v_d = velI(2);\n\n	// compute sideslip", "	_beta_innov = 0.0f"), """	const float rel_n = velI(0) - _state(INDEX_W_N);
	const float rel_e = velI(1) - _state(INDEX_W_E);
	const float v_d = velI(2);
	const matrix::Dcmf R_to_body = matrix::Dcmf(q_att).transpose();
	const matrix::Vector3f rel_wind = R_to_body * matrix::Vector3f(rel_n, rel_e, v_d);

	if (fabsf(rel_wind(0)) < 0.1f) {
		return;
	}

	// use small angle approximation, sin(x) = x for small x
	const float beta_pred = rel_wind(1) / rel_wind(0);

	matrix::Matrix<float, 1, 3> H_beta;
	H_beta(0, 0) = (beta_pred * R_to_body(0, 0) - R_to_body(1, 0)) / rel_wind(0);
	H_beta(0, 1) = (beta_pred * R_to_body(0, 1) - R_to_body(1, 1)) / rel_wind(0);
	H_beta(0, 2) = 0;

	// compute kalman gain
	matrix::Matrix<float, 3, 1> K = _P * H_beta.transpose();

	const matrix::Matrix<float, 1, 1> S = H_beta * _P * H_beta.transpose() + _beta_var;

	K /= S(0,0);

"""), ("_beta_innov = 0.0f - beta_pred;", "_beta_innov = -beta_pred;")),
  rep(W, 'WindEstimator::check_if_meas_is_rejected(', ("""	if (innov * innov > gate_size * gate_size * innov_var) {
		time_meas_rejected = time_meas_rejected == 0 ? time_now : time_meas_rejected;

	} else {
		time_meas_rejected = 0;
	}

	reinit_filter = time_now - time_meas_rejected > 5 * 1000 * 1000 && time_meas_rejected != 0;

	return time_meas_rejected != 0;""", """	const bool within_gate = innov * innov <= gate_size * gate_size * innov_var;

	if (within_gate) {
		time_meas_rejected = 0;
		reinit_filter = false;
		return false;
	}

	if (time_meas_rejected == 0) {
		time_meas_rejected = time_now;
	}

	reinit_filter = (time_meas_rejected != 0) && (time_now - time_meas_rejected > 5000000);

	return time_meas_rejected != 0;""")),
],
'wind3': [
  rep(W, 'WindEstimator::fuse_airspeed(', ("	_state(INDEX_W_N) += _tas_innov * K(0, 0);\n	_state(INDEX_W_E) += _tas_innov * K(1, 0);\n	_state(INDEX_TAS_SCALE) += _tas_innov * K(2, 0);\n\n	// update covariance matrix\n	_P = _P - K * H_tas * _P;\n\n	run_sanity_checks();\n", "	apply_correction(K, H_tas, _tas_innov);\n"),
     ("	bool meas_is_rejected = false;\n\n	meas_is_rejected =", "	const bool meas_is_rejected ="), ("	reinit_filter |= _tas_innov_var < 0.0f;\n\n	if (meas_is_rejected || reinit_filter) {\n		if (reinit_filter) {\n			_initialised =	initialise(velI, matrix::Vector2f(0.1f, 0.1f), true_airspeed);\n		}\n\n", "	if (reinit_filter || _tas_innov_var < 0.0f) {\n		_initialised = initialise(velI, matrix::Vector2f(0.1f, 0.1f), true_airspeed);\n		return;\n	}\n\n	if (meas_is_rejected) {\n")),
  rep(W, 'WindEstimator::fuse_beta(', ("	_state(INDEX_W_N) += _beta_innov * K(0, 0);\n	_state(INDEX_W_E) += _beta_innov * K(1, 0);\n	_state(INDEX_TAS_SCALE) += _beta_innov * K(2, 0);\n\n	// update covariance matrix\n	_P = _P - K * H_beta * _P;\n\n	run_sanity_checks();\n", "	apply_correction(K, H_beta, _beta_innov);\n")),
  (W, "void\nWindEstimator::run_sanity_checks()\n", """void
WindEstimator::apply_correction(const matrix::Matrix<float, 3, 1> &K, const matrix::Matrix<float, 1, 3> &H, float innov)
{
	_state(INDEX_W_N) += K(0, 0) * innov;
	_state(INDEX_W_E) += K(1, 0) * innov;
	_state(INDEX_TAS_SCALE) += K(2, 0) * innov;

	// update covariance matrix
	_P = _P - K * H * _P;

	run_sanity_checks();
}

void
WindEstimator::run_sanity_checks()
"""), (WH, "	void run_sanity_checks();", "	void run_sanity_checks();\n	void apply_correction(const matrix::Matrix<float, 3, 1> &K, const matrix::Matrix<float, 1, 3> &H, float innov);"),
],
'rng2': [
  rep(RF, 'void SensorRangeFinder::updateDtDataLpf(', ("""	float alpha = 0.5f * _dt_update;
	_dt_data_lpf = _dt_data_lpf * (1.0f - alpha) + alpha * (current_time_us - _sample.time_us);

	// Apply spike protection to the filter state.
	_dt_data_lpf = fminf(_dt_data_lpf, 4e6f);""", """	const float alpha = 0.5f * _dt_update;
	const float age = current_time_us - _sample.time_us;
	const float filtered = _dt_data_lpf + alpha * (age - _dt_data_lpf);

	// Apply spike protection to the filter state.
	_dt_data_lpf = (filtered < 4e6f) ? filtered : 4e6f;""")),
  rep(RF, 'inline bool SensorRangeFinder::isDataInRange(', ("	return (_sample.rng >= _rng_valid_min_val) && (_sample.rng <= _rng_valid_max_val);", "	const float rng = _sample.rng;\n\n	if (rng < _rng_valid_min_val || rng > _rng_valid_max_val) {\n		return false;\n	}\n\n	return true;")),
  rep(RF, 'void SensorRangeFinder::updateStuckCheck(', ("	if (((_sample.time_us - _time_last_valid_us) > (uint64_t)10e6)) {\n", "	if ((_sample.time_us - _time_last_valid_us) <= (uint64_t)10e6) {\n		return;\n	}\n\n	{\n"),
   ("""		if (_stuck_max_val - _stuck_min_val > _stuck_threshold) {
			_stuck_min_val = 0.0f;
			_stuck_max_val = 0.0f;
			_is_stuck = false;

		} else {
			if (_sample.rng > _stuck_max_val) {
				_stuck_max_val = _sample.rng;
			}

			if (_stuck_min_val < 0.1f || _sample.rng < _stuck_min_val) {
				_stuck_min_val = _sample.rng;
			}

			_is_stuck = true;
		}
""", """		_is_stuck = !(_stuck_max_val - _stuck_min_val > _stuck_threshold);

		if (_is_stuck) {
			_stuck_max_val = fmaxf(_stuck_max_val, _sample.rng);
			_stuck_min_val = (_stuck_min_val < 0.1f) ? _sample.rng : fminf(_stuck_min_val, _sample.rng);

		} else {
			_stuck_min_val = _stuck_max_val = 0.0f;
		}
""")),
],
'flow2': [
  rep(O, 'bool Ekf::calcOptFlowBodyRateComp(', ("""	const bool use_flow_sensor_gyro =  ISFINITE(_flow_sample_delayed.gyro_xyz(0)) && ISFINITE(_flow_sample_delayed.gyro_xyz(1)) && ISFINITE(_flow_sample_delayed.gyro_xyz(2));

	if (use_flow_sensor_gyro) {
""", """	bool has_gyro = true;

	for (int i = 0; i < 3; i++) {
		has_gyro = has_gyro && ISFINITE(_flow_sample_delayed.gyro_xyz(i));
	}

	if (!has_gyro) {
		_flow_gyro_bias.zero();
		_flow_sample_delayed.gyro_xyz = -_imu_del_ang_of;

	} else {
"""), ("""			const Vector3f reference_body_rate(_imu_del_ang_of * (1.0f / _delta_time_of));

			const Vector3f measured_body_rate(_flow_sample_delayed.gyro_xyz * (1.0f / _flow_sample_delayed.dt));

			// calculate the bias estimate using  a combined LPF and spike filter
			_flow_gyro_bias = _flow_gyro_bias * 0.99f + matrix::constrain(measured_body_rate - reference_body_rate, -0.1f, 0.1f) * 0.01f;
""", """			const Vector3f reference_body_rate = _imu_del_ang_of / _delta_time_of;
			const Vector3f measured_body_rate = _flow_sample_delayed.gyro_xyz / _flow_sample_delayed.dt;
			const Vector3f bias = matrix::constrain(measured_body_rate - reference_body_rate, -0.1f, 0.1f);

			// calculate the bias estimate using  a combined LPF and spike filter
			_flow_gyro_bias = 0.99f * _flow_gyro_bias + 0.01f * bias;
"""), (sec(O, "	} else {\n		// Use the EKF gyro data", "	// reset the accumulators\n	_imu_del_ang_of.setZero();\n	_delta_time_of = 0.0f;\n	return true"), "	}\n\n")),
  rep(O, 'void Ekf::fuseOptFlow()', ("	float gndclearance = fmaxf(_params.rng_gnd_clearance, 0.1f);\n", ""),
   ("	float heightAboveGndEst = _terrain_vpos - _state.pos(2);\n", ""), ("	heightAboveGndEst -= pos_offset_earth(2);\n", ""),
   ("	heightAboveGndEst = math::max(heightAboveGndEst, gndclearance);\n", "	const float heightAboveGndEst = fmaxf(_terrain_vpos - _state.pos(2) - pos_offset_earth(2), fmaxf(_params.rng_gnd_clearance, 0.1f));\n"),
   ("Vector3f(-_flow_sample_delayed.gyro_xyz / _flow_sample_delayed.dt) % pos_offset_body;", "pos_offset_body % (_flow_sample_delayed.gyro_xyz / _flow_sample_delayed.dt);"),
   ("	const Vector3f vel_rel_earth = _state.vel + _R_to_earth * vel_rel_imu_body;\n", ""), ("	const Vector3f vel_body = earth_to_body * vel_rel_earth;", "	const Vector3f vel_body = earth_to_body * (_R_to_earth * vel_rel_imu_body + _state.vel);")) ,
],
}
