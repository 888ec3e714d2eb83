A = 'EKF/airspeed_fusion.cpp'
EH = 'EKF/ekf.h'
Y = 'EKF/gps_yaw_fusion.cpp'
R = {}
R['arspgain'] = [
 (A, """	if (!update_wind_only) {
		// we have no other source of aiding, so use airspeed measurements to correct states
		for (unsigned row = 0; row <= 3; row++) {
			Kfusion(row) = HK16*(HK0*P(4,row) - HK0*P(row,22) + HK1*P(5,row) - HK1*P(row,23) + P(6,row)*vd);
		}

		Kfusion(4) = HK12*HK16;
		Kfusion(5) = HK16*HK9;
		Kfusion(6) = HK16*HK7;

		for (unsigned row = 7; row <= 21; row++) {
			Kfusion(row) = HK16*(HK0*P(4,row) - HK0*P(row,22) + HK1*P(5,row) - HK1*P(row,23) + P(6,row)*vd);
		}
	}

	Kfusion(22) = HK15*HK16;
	Kfusion(23) = HK14*HK16;
""", """	for (unsigned row = update_wind_only ? 22 : 0; row < _k_num_states; row++) {
		Kfusion(row) = HK16*(HK0*P(row,4) - HK0*P(row,22) + HK1*P(row,5) - HK1*P(row,23) + P(row,6)*vd);
	}
"""),
 (A, """	const float tempvar = sqrtf(sq(_state.vel(0) - _state.wind_vel(0)) + sq(_state.vel(1) - _state.wind_vel(1)) + sq(_state.vel(2)));
	memcpy(tas, &tempvar, sizeof(float));
""", """	const Vector3f wind(_state.wind_vel(0), _state.wind_vel(1), 0.0f);
	*tas = (_state.vel - wind).norm();
""")]
R['arspgate'] = [
 (A, """	if (_tas_test_ratio > 1.0f) {
		_innov_check_fail_status.flags.reject_airspeed = true;
		return;

	} else {
		_innov_check_fail_status.flags.reject_airspeed = false;
	}

	const bool is_fused = measurementUpdate(Kfusion, Hfusion, _airspeed_innov);

	_fault_status.flags.bad_airspeed = !is_fused;

	if (is_fused) {
		_time_last_arsp_fuse = _time_last_imu;
		_control_status.flags.fuse_aspd = true;
	}
""", """	const bool rejected = _tas_test_ratio > 1.0f;
	_innov_check_fail_status.flags.reject_airspeed = rejected;

	if (!rejected) {
		if (measurementUpdate(Kfusion, Hfusion, _airspeed_innov)) {
			_control_status.flags.fuse_aspd = true;
			_time_last_arsp_fuse = _time_last_imu;

		} else {
			_fault_status.flags.bad_airspeed = true;
		}
	}
"""),
 (A, """		const char* action_string = nullptr;
		if (update_wind_only) {
			resetWindStates();
			resetWindCovariance();
			action_string = "wind";

		} else {
			initialiseCovariance();
			_state.wind_vel.setZero();
			action_string = "full";
		}
		ECL_ERR("airspeed badly conditioned - %s covariance reset", action_string);

		_fault_status.flags.bad_airspeed = true;

		return;
	}
	const float HK16 = HK3 / _airspeed_innov_var;
	_fault_status.flags.bad_airspeed = false;
""", """		_fault_status.flags.bad_airspeed = true;

		if (!update_wind_only) {
			initialiseCovariance();
			_state.wind_vel.setZero();
			ECL_ERR("airspeed badly conditioned - %s covariance reset", "full");
			return;
		}

		resetWindStates();
		resetWindCovariance();
		ECL_ERR("airspeed badly conditioned - %s covariance reset", "wind");
		return;
	}

	_fault_status.flags.bad_airspeed = false;
	const float HK16 = HK3 / _airspeed_innov_var;
""")]
R['khp'] = [
 (EH, """		SquareMatrix24f KHP;
		constexpr size_t non_zeros = sizeof...(Idxs);
		float KH[non_zeros];

		for (unsigned row = 0; row < _k_num_states; row++) {
			for (unsigned i = 0; i < H.non_zeros(); i++) {
				KH[i] = K(row) * H.atCompressedIndex(i);
			}

			for (unsigned column = 0; column < _k_num_states; column++) {
				float tmp = 0.f;

				for (unsigned i = 0; i < H.non_zeros(); i++) {
					const size_t index = H.index(i);
					tmp += KH[i] * P(index, column);
				}

				KHP(row, column) = tmp;
			}
		}

		return KHP;
""", """		// one row: H * P
		Vector24f HP;

		for (unsigned column = 0; column < _k_num_states; column++) {
			for (unsigned i = 0; i < H.non_zeros(); i++) {
				HP(column) += H.atCompressedIndex(i) * P(H.index(i), column);
			}
		}

		SquareMatrix24f KHP;

		for (unsigned row = 0; row < _k_num_states; row++) {
			for (unsigned column = 0; column < _k_num_states; column++) {
				KHP(row, column) = K(row) * HP(column);
			}
		}

		return KHP;
"""),
 (EH, """		for (unsigned i = 0; i < 3; i++) {
			if (_accel_bias_inhibit[i]) {
				K(13 + i) = 0.0f;
			}
		}

		// apply covariance correction via P_new = (I -K*H)*P
		// first calculate expression for KHP
		// then calculate P - KHP
		const SquareMatrix24f KHP = computeKHP(K, H);

		const bool is_healthy = checkAndFixCovarianceUpdate(KHP);

		if (is_healthy) {
			// apply the covariance corrections
			P -= KHP;

			fixCovarianceErrors(true);

			// apply the state corrections
			fuse(K, innovation);
		}

		return is_healthy;
""", """		for (unsigned state = 13; state <= 15; state++) {
			K(state) = _accel_bias_inhibit[state - 13] ? 0.0f : K(state);
		}

		const SquareMatrix24f KHP = computeKHP(K, H);

		if (!checkAndFixCovarianceUpdate(KHP)) {
			return false;
		}

		P = P - KHP;
		fixCovarianceErrors(true);
		fuse(K, innovation);

		return true;
""")]
R['gpsyawgate'] = [
 (Y, """	if (_yaw_test_ratio > 1.0f) {
		_innov_check_fail_status.flags.reject_yaw = true;

		// if we are in air we don't want to fuse the measurement
		// we allow to use it when on the ground because the large innovation could be caused
		// by interference or a large initial gyro bias
		if (_control_status.flags.in_air) {
			return;

		} else {
			// constrain the innovation to the maximum set by the gate
			const float gate_limit = sqrtf((sq(innov_gate) * _heading_innov_var));
			_heading_innov = math::constrain(_heading_innov, -gate_limit, gate_limit);
		}

	} else {
		_innov_check_fail_status.flags.reject_yaw = false;
	}
""", """	_innov_check_fail_status.flags.reject_yaw = _yaw_test_ratio > 1.0f;

	if (_innov_check_fail_status.flags.reject_yaw && _control_status.flags.in_air) {
		return;
	}

	if (_innov_check_fail_status.flags.reject_yaw) {
		limitHeadingInnov(innov_gate);
	}
"""),
 (EH, "	bool resetYawToGps();\n", """	bool resetYawToGps();

	void limitHeadingInnov(float gate)
	{
		const float largest = gate * sqrtf(_heading_innov_var);

		if (_heading_innov > largest) {
			_heading_innov = largest;

		} else if (_heading_innov < -largest) {
			_heading_innov = -largest;
		}
	}
"""),
 (Y, """	const Vector3f ant_vec_bf = {cosf(_gps_yaw_offset), sinf(_gps_yaw_offset), 0.0f};
	const Vector3f ant_vec_ef = _R_to_earth * ant_vec_bf;

	// check if antenna array vector is within 30 degrees of vertical and therefore unable to provide a reliable heading
	if (fabsf(ant_vec_ef(2)) > cosf(math::radians(30.0f)))  {
		return false;
	}

	// GPS yaw measurement is alreday compensated for antenna offset in the driver
	const float measured_yaw = _gps_sample_delayed.yaw;

	const float yaw_variance = sq(fmaxf(_params.mag_heading_noise, 1.0e-2f));
	resetQuatStateYaw(measured_yaw, yaw_variance, true);

	_time_last_gps_yaw_fuse = _time_last_imu;

	return true;
""", """	const float down = _R_to_earth(2, 0) * cosf(_gps_yaw_offset) + _R_to_earth(2, 1) * sinf(_gps_yaw_offset);
	const bool usable = !(fabsf(down) > cosf(math::radians(30.0f)));

	if (usable) {
		const float noise = fmaxf(_params.mag_heading_noise, 1.0e-2f);
		_time_last_gps_yaw_fuse = _time_last_imu;
		resetQuatStateYaw(_gps_sample_delayed.yaw, noise * noise, true);
	}

	return usable;
""")]
