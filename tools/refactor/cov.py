C, H = 'EKF/covariance.cpp', 'EKF/ekf.h'
_src = open('/repo/' + C).read()


def body(name):
    i = _src.index(name)
    j = _src.index('\n}\n', i) + 3 if '\n}\n' in _src[i:] else len(_src)
    return _src[i:j]


def sec(a, b):
    i = _src.index(a)
    return _src[i:_src.index(b, i)]


_mag = sec("	if (_control_status.flags.mag_3D) {\n", "	// Don't do covariance prediction on wind states")
_wind = sec("	if (_control_status.flags.wind) {\n\n		// calculate", "	// stop position covariance growth")
R = {
'init': [
  (C, body('void Ekf::initialiseCovariance()'), """static float variance(float std)
{
	const float lower = 0.01f;
	const float limited = std < lower ? lower : std;
	return limited * limited;
}

void Ekf::initialiseCovariance()
{
	_delta_vel_bias_var_accum.setZero();
	_delta_angle_bias_var_accum.setZero();

	P = SquareMatrix24f{};
	resetQuatCov();

	const float vel_var = variance(_params.gps_vel_noise);
	const float pos_var = variance(_params.gps_pos_noise);

	for (int i = 0; i < 2; i++) {
		P(4 + i, 4 + i) = vel_var;
		P(7 + i, 7 + i) = pos_var;
		P(22 + i, 22 + i) = sq(_params.initial_wind_uncertainty);
	}

	P(6, 6) = 2.25f * vel_var;

	float hgt_var;

	if (_control_status.flags.rng_hgt) {
		hgt_var = variance(_params.range_noise);

	} else {
		hgt_var = _control_status.flags.gps_hgt ? getGpsHeightVariance() : variance(_params.baro_noise);
	}

	P(9, 9) = hgt_var;

	const float acc_var = sq(_params.switch_on_accel_bias * FILTER_UPDATE_PERIOD_S);

	for (int i = 0; i < 3; i++) {
		P(10 + i, 10 + i) = sq(_params.switch_on_gyro_bias * FILTER_UPDATE_PERIOD_S);
		P(13 + i, 13 + i) = acc_var;
	}

	_prev_dvel_bias_var.setAll(acc_var);

	resetMagCov();
}
"""),
],
'predict': [
  (C, """	for (unsigned stateIndex = 13; stateIndex <= 15; stateIndex++) {
		const unsigned index = stateIndex - 13;

		// When on ground, only consider an accel bias observable if aligned with the gravity vector
		const bool is_bias_observable = (fabsf(_R_to_earth(2, index)) > 0.8f) || _control_status.flags.in_air;
		const bool do_inhibit_axis = do_inhibit_all_axes || !is_bias_observable || _imu_sample_delayed.delta_vel_clipping[index];

		if (do_inhibit_axis) {
			// store the bias state variances to be reinstated later
			if (!_accel_bias_inhibit[index]) {
				_prev_dvel_bias_var(index) = P(stateIndex, stateIndex);
				_accel_bias_inhibit[index] = true;
			}

		} else {
			if (_accel_bias_inhibit[index]) {
				// reinstate the bias state variances
				P(stateIndex, stateIndex) = _prev_dvel_bias_var(index);
				_accel_bias_inhibit[index] = false;
			}
		}
	}
""", """	for (int axis = 0; axis < 3; axis++) {
		bool inhibit = do_inhibit_all_axes || _imu_sample_delayed.delta_vel_clipping[axis];

		if (!_control_status.flags.in_air && !(fabsf(_R_to_earth(2, axis)) > 0.8f)) {
			inhibit = true;
		}

		if (inhibit == _accel_bias_inhibit[axis]) {
			continue;
		}

		float &var = P(13 + axis, 13 + axis);

		if (inhibit) {
			_prev_dvel_bias_var(axis) = var;

		} else {
			var = _prev_dvel_bias_var(axis);
		}

		_accel_bias_inhibit[axis] = inhibit;
	}
"""),
  (C, """	const float alpha = math::constrain((dt / _params.acc_bias_learn_tc), 0.0f, 1.0f);
	const float beta = 1.0f - alpha;
	_ang_rate_magnitude_filt = fmaxf(dt_inv * _imu_sample_delayed.delta_ang.norm(), beta * _ang_rate_magnitude_filt);
	_accel_magnitude_filt = fmaxf(dt_inv * _imu_sample_delayed.delta_vel.norm(), beta * _accel_magnitude_filt);
	_accel_vec_filt = alpha * dt_inv * _imu_sample_delayed.delta_vel + beta * _accel_vec_filt;
""", """	const float alpha = math::constrain((dt / _params.acc_bias_learn_tc), 0.0f, 1.0f);
	const Vector3f rate = _imu_sample_delayed.delta_ang * dt_inv;
	const Vector3f accel = _imu_sample_delayed.delta_vel / dt;
	auto decay = [alpha](float peak, float now) { return math::max(now, peak * (1.0f - alpha)); };
	_ang_rate_magnitude_filt = decay(_ang_rate_magnitude_filt, rate.norm());
	_accel_magnitude_filt = decay(_accel_magnitude_filt, accel.norm());
	_accel_vec_filt += alpha * (accel - _accel_vec_filt);
"""),
  (C, """	float mag_I_sig;

	if (_control_status.flags.mag_3D && (P(16,16) + P(17,17) + P(18,18)) < 0.1f) {
		mag_I_sig = dt * math::constrain(_params.mage_p_noise, 0.0f, 1.0f);

	} else {
		mag_I_sig = 0.0f;
	}
""", """	auto magNoise = [&](unsigned first, float p_noise) {
		float sum = 0.f;

		for (unsigned k = first; k < first + 3; k++) {
			sum += P(k, k);
		}

		return (!_control_status.flags.mag_3D || sum >= 0.1f) ? 0.f : dt * math::constrain(p_noise, 0.0f, 1.0f);
	};
	const float mag_I_sig = magNoise(16, _params.mage_p_noise);
"""),
  (C, """	float mag_B_sig;

	if (_control_status.flags.mag_3D && (P(19,19) + P(20,20) + P(21,21)) < 0.1f) {
		mag_B_sig = dt * math::constrain(_params.magb_p_noise, 0.0f, 1.0f);

	} else {
		mag_B_sig = 0.0f;
	}
""", """	const float mag_B_sig = magNoise(19, _params.magb_p_noise);
"""),
  (C, """	float wind_vel_sig;

""", """	float wind_vel_sig = 0.f;

"""),
  (C, """	_height_rate_lpf = _height_rate_lpf * (1.0f - alpha_height_rate_lpf) + _state.vel(2) * alpha_height_rate_lpf;
""", """	_height_rate_lpf += alpha_height_rate_lpf * (_state.vel(2) - _height_rate_lpf);
"""),
  (C, """ * (1.0f + _params.wind_vel_p_noise_scaler * fabsf(_height_rate_lpf));

	} else {
		wind_vel_sig = 0.0f;
	}
""", """ * (1.0f + _params.wind_vel_p_noise_scaler * fabsf(_height_rate_lpf));
	}
"""),
  (C, """	// delta angle bias states
	process_noise.slice<3,1>(10,0) = sq(d_ang_bias_sig);
	// delta_velocity bias states
	process_noise.slice<3,1>(13,0) = sq(d_vel_bias_sig);
	// earth frame magnetic field states
	process_noise.slice<3,1>(16,0) = sq(mag_I_sig);
	// body frame magnetic field states
	process_noise.slice<3,1>(19,0) = sq(mag_B_sig);
""", """	for (int i = 0; i < 3; i++) {
		process_noise(10 + i) = sq(d_ang_bias_sig);
		process_noise(13 + i) = d_vel_bias_sig * d_vel_bias_sig;
		process_noise(16 + i) = sq(mag_I_sig);
		process_noise(19 + i) = sq(mag_B_sig);
	}

"""),
  (C, sec("	float accel_noise = math::constrain(", "	// predict the covariance\n"), """	// increase the accelerometer process noise if bad accel data is detected or samples were clipped
	const float accel_noise = _fault_status.flags.bad_acc_vertical ? BADACC_BIAS_PNOISE : math::constrain(_params.accel_noise, 0.0f, 1.0f);
	float dvVar[3];
	bool clipped = false;

	for (int i = 0; i < 3; i++) {
		const bool clip = _imu_sample_delayed.delta_vel_clipping[i];
		clipped = clipped || clip;
		dvVar[i] = sq(dt * (clip ? BADACC_BIAS_PNOISE : accel_noise));
	}

	_fault_status.flags.bad_acc_clipping = clipped;
	const float dvxVar = dvVar[0];
	const float dvyVar = dvVar[1];
	const float dvzVar = dvVar[2];

"""),
  (C, """	if ((P(7,7) + P(8,8)) > 1e4f) {
		for (uint8_t i = 7; i <= 8; i++) {
			for (uint8_t j = 0; j < _k_num_states; j++) {
				nextP(i,j) = P(i,j);
				nextP(j,i) = P(j,i);
			}
		}
	}

	// covariance matrix is symmetrical, so copy upper half to lower half
	for (unsigned row = 1; row < _k_num_states; row++) {
		for (unsigned column = 0 ; column < row; column++) {
			P(row,column) = P(column,row) = nextP(column,row);
		}
	}

	// copy variances (diagonals)
	for (unsigned i = 0; i < _k_num_states; i++) {
		P(i,i) = nextP(i,i);
	}
""", """	const bool freeze = P(7, 7) + P(8, 8) > 1e4f;

	for (unsigned col = 0; col < _k_num_states; col++) {
		for (unsigned row = 0; row <= col; row++) {
			const bool is_hpos = row == 7 || row == 8 || col == 7 || col == 8;

			if (freeze && is_hpos) {
				// copy lower half from upper half
				P(col, row) = P(row, col);
				continue;
			}

			P(row, col) = nextP(row, col);
			P(col, row) = nextP(row, col);
		}
	}
"""),
],
'fix': [
  (C, body('void Ekf::fixCovarianceErrors('), """void Ekf::fixCovarianceErrors(bool force_symmetry)
{
	auto limitVar = [this](int first, int last, float lower, float upper) {
		for (int i = first; i <= last; i++) {
			P(i, i) = math::constrain(P(i, i), lower, upper);
		}
	};

	limitVar(0, 3, 0.f, 1.f);
	limitVar(4, 9, 1e-6f, 1e6f);
	limitVar(10, 12, 0.f, 1.f);

	if (force_symmetry) {
		P.makeRowColSymmetric<13>(0);
	}

	const bool all_inhibited = _accel_bias_inhibit[0] && _accel_bias_inhibit[1] && _accel_bias_inhibit[2];

	if (!all_inhibited) {
		const float minSafeStateVar = 1e-9f;
		float maxStateVar = minSafeStateVar;
		bool resetRequired = false;

		for (int k = 0; k < 3; k++) {
			const float var = P(13 + k, 13 + k);

			if (!_accel_bias_inhibit[k]) {
				maxStateVar = math::max(maxStateVar, var);
				resetRequired = resetRequired || var < minSafeStateVar;
			}
		}

		const float lower = math::max(maxStateVar * 0.01f, 5E-8f);
		const float upper = sq(0.1f * CONSTANTS_ONE_G * _dt_ekf_avg);

		for (int k = 0; k < 3; k++) {
			if (!_accel_bias_inhibit[k]) {
				limitVar(13 + k, 13 + k, lower, upper);
			}
		}

		if (resetRequired) {
			P.uncorrelateCovariance<3>(13);
		}

		const float limit = 0.9f * _params.acc_bias_lim * _dt_ekf_avg;
		const float down_bias = _R_to_earth(2, 0) * _state.delta_vel_bias(0) + _R_to_earth(2, 1) * _state.delta_vel_bias(1)
					+ _R_to_earth(2, 2) * _state.delta_vel_bias(2);

		auto opposed = [down_bias](float innov) { return innov * down_bias < 0.f; };

		const auto &f = _control_status.flags;
		const bool vel_bad = (f.gps && opposed(_gps_vel_innov(2))) || (f.ev_vel && opposed(_ev_vel_innov(2)));
		const bool hgt_bad = (f.gps_hgt && opposed(_gps_pos_innov(2)))
				     || (f.baro_hgt && opposed(_baro_hgt_innov(2)))
				     || (f.rng_hgt && opposed(_rng_hgt_innov(2)))
				     || (f.ev_hgt && opposed(_ev_pos_innov(2)));

		_fault_status.flags.bad_acc_bias = fabsf(down_bias) > limit && vel_bad && hgt_bad;

		if (!_fault_status.flags.bad_acc_bias) {
			_time_acc_bias_check = _time_last_imu;
		}

		if (isTimedOut(_time_acc_bias_check, (uint64_t)7e6)) {
			_fault_status.flags.bad_acc_bias = false;
			_time_acc_bias_check = _time_last_imu;
			_warning_events.flags.invalid_accel_bias_cov_reset = true;
			P.uncorrelateCovariance<3>(13);

		} else if (force_symmetry) {
			P.makeRowColSymmetric<3>(13);
		}
	}

	if (_control_status.flags.mag_3D) {
		limitVar(16, 21, 0.f, 1.f);

		if (force_symmetry) {
			P.makeRowColSymmetric<3>(16);
			P.makeRowColSymmetric<3>(19);
		}

	} else {
		zeroMagCov();
	}

	if (_control_status.flags.wind) {
		limitVar(22, 23, 0.f, 1e6f);

		if (force_symmetry) {
			P.makeRowColSymmetric<2>(22);
		}

		return;
	}

	P.uncorrelateCovarianceSetVariance<2>(22, 0.0f);
}
"""),
  (C, body('bool Ekf::checkAndFixCovarianceUpdate('), """bool Ekf::checkAndFixCovarianceUpdate(const SquareMatrix24f& KHP) {
	unsigned unhealthy = 0;
	for (int i = 0; i < _k_num_states; i++) {
		if (P(i, i) >= KHP(i, i)) {
			continue;
		}
		unhealthy++;
		for (int j = 0; j < _k_num_states; j++) {
			P(i, j) = 0.f;
			P(j, i) = 0.f;
		}
	}
	return unhealthy == 0;
}
"""),
],
'mag': [
  (C, body('void Ekf::resetQuatCov('), """void Ekf::resetQuatCov(){
	const float var = sq(_params.initial_tilt_err);
	Vector3f rot_vec_var(var, var, var);
	zeroQuatCov();
	initialiseQuatCovariances(rot_vec_var);
}
"""),
  (C, body('void Ekf::zeroQuatCov('), """void Ekf::zeroQuatCov()
{
	P.uncorrelateCovarianceSetVariance<4>(0, 0.0f);
}
"""),
  (C, body('void Ekf::resetMagCov('), """void Ekf::resetMagCov()
{
	_mag_decl_cov_reset = false;
	P.uncorrelateCovarianceSetVariance<6>(16, _params.mag_noise * _params.mag_noise);

	if (_control_status.flags.mag_3D) {
		return;
	}

	saveMagCovData();
}
"""),
  (C, body('void Ekf::zeroMagCov('), """void Ekf::zeroMagCov()
{
	for (int i = 16; i < 22; i++) {
		P.uncorrelateCovarianceSetVariance<1>(i, 0.0f);
	}
}
"""),
  (C, body('void Ekf::resetWindCovariance('), """void Ekf::resetWindCovariance()
{
	if (!_tas_data_ready || _imu_sample_delayed.time_us - _airspeed_sample_delayed.time_us >= (uint64_t)5e5) {
		// without airspeed, start with a small initial uncertainty to improve the initial estimate
		P.uncorrelateCovarianceSetVariance<2>(22, sq(_params.initial_wind_uncertainty));
		return;
	}

	const float yaw = getEuler321Yaw(_state.quat_nominal);
	const float c = cosf(yaw);
	const float s = sinf(yaw);
	const float std_tas = math::constrain(_params.eas_noise, 0.5f, 5.0f) * math::constrain(_airspeed_sample_delayed.eas2tas, 0.9f, 10.0f);
	const float var_x = sq(std_tas);
	const float var_y = sq(_airspeed_sample_delayed.true_airspeed * sinf(math::radians(15.0f)));
	const float var_yaw = sq(math::radians(10.0f));

	// a change of yaw moves the wind vector sideways
	const float wn = _state.wind_vel(0);
	const float we = _state.wind_vel(1);

	P.uncorrelateCovarianceSetVariance<2>(22, 0.0f);
	const float Wx = wn * c + we * s;
	const float Wy = we * c - wn * s;
	const float dn = -(Wx * s + Wy * c);
	const float de = Wx * c - Wy * s;
	const float cov = (var_x - var_y) * s * c + var_yaw * dn * de;
	P(22, 22) = P(4, 4) + var_x * c * c + var_yaw * dn * dn + var_y * s * s;
	P(23, 23) = P(5, 5) + var_x * s * s + var_yaw * de * de + var_y * c * c;
	P(22, 23) = cov;
	P(23, 22) = cov;
}
"""),
],
'blocks': [
  (C, _mag, """	if (_control_status.flags.mag_3D) {
		// the field states are constants
		for (unsigned k = 16; k <= 21; k++) {
			nextP(0,k) = P(0,k) - P(1,k)*PS11 + P(10,k)*PS6 + P(11,k)*PS7 + P(12,k)*PS9 - P(2,k)*PS12 - P(3,k)*PS13;
			nextP(1,k) = P(0,k)*PS11 + P(1,k) - P(10,k)*PS34 + P(11,k)*PS9 - P(12,k)*PS7 + P(2,k)*PS13 - P(3,k)*PS12;
			nextP(2,k) = P(0,k)*PS12 - P(1,k)*PS13 - P(10,k)*PS9 - P(11,k)*PS34 + P(12,k)*PS6 + P(2,k) + P(3,k)*PS11;
			nextP(3,k) = P(0,k)*PS13 + P(1,k)*PS12 + P(10,k)*PS7 - P(11,k)*PS6 - P(12,k)*PS34 - P(2,k)*PS11 + P(3,k);
			nextP(4,k) = P(0,k)*PS72 + P(1,k)*PS62 - P(13,k)*PS44 + P(14,k)*PS140 - P(15,k)*PS139 + P(2,k)*PS60 - P(3,k)*PS74 + P(4,k);
			nextP(5,k) = P(0,k)*PS74 - P(1,k)*PS60 - P(13,k)*PS162 - P(14,k)*PS65 + P(15,k)*PS160 + P(2,k)*PS62 + P(3,k)*PS72 + P(5,k);
			nextP(6,k) = P(0,k)*PS60 + P(1,k)*PS74 + P(13,k)*PS166 - P(14,k)*PS165 - P(15,k)*PS70 - P(2,k)*PS72 + P(3,k)*PS62 + P(6,k);

			for (unsigned i = 7; i <= 9; i++) {
				nextP(i,k) = P(i - 3,k)*dt + P(i,k);
			}

			for (unsigned i = 10; i <= k; i++) {
				nextP(i,k) = P(i,k);
			}

			nextP(k,k) = nextP(k,k) + process_noise(k);
		}
	}

"""),
  (C, _wind, """	if (_control_status.flags.wind) {
		for (unsigned k = 22; k < 24; k++) {
			nextP(0,k) = P(0,k) - P(1,k)*PS11 + P(10,k)*PS6 + P(11,k)*PS7 + P(12,k)*PS9 - P(2,k)*PS12 - P(3,k)*PS13;
			nextP(1,k) = P(0,k)*PS11 + P(1,k) - P(10,k)*PS34 + P(11,k)*PS9 - P(12,k)*PS7 + P(2,k)*PS13 - P(3,k)*PS12;
			nextP(2,k) = P(0,k)*PS12 - P(1,k)*PS13 - P(10,k)*PS9 - P(11,k)*PS34 + P(12,k)*PS6 + P(2,k) + P(3,k)*PS11;
			nextP(3,k) = P(0,k)*PS13 + P(1,k)*PS12 + P(10,k)*PS7 - P(11,k)*PS6 - P(12,k)*PS34 - P(2,k)*PS11 + P(3,k);
			nextP(4,k) = P(0,k)*PS72 + P(1,k)*PS62 - P(13,k)*PS44 + P(14,k)*PS140 - P(15,k)*PS139 + P(2,k)*PS60 - P(3,k)*PS74 + P(4,k);
			nextP(5,k) = P(0,k)*PS74 - P(1,k)*PS60 - P(13,k)*PS162 - P(14,k)*PS65 + P(15,k)*PS160 + P(2,k)*PS62 + P(3,k)*PS72 + P(5,k);
			nextP(6,k) = P(0,k)*PS60 + P(1,k)*PS74 + P(13,k)*PS166 - P(14,k)*PS165 - P(15,k)*PS70 - P(2,k)*PS72 + P(3,k)*PS62 + P(6,k);

			for (unsigned i = 7; i <= k; i++) {
				nextP(i,k) = P(i,k) + (i < 10 ? P(i - 3,k)*dt : 0.f);
			}

			nextP(k,k) += process_noise(k);
		}
	}

"""),
],
}
