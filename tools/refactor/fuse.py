A, VP, H = 'EKF/airspeed_fusion.cpp', 'EKF/vel_pos_fusion.cpp', 'EKF/ekf.h'
R = {
'arsp': [(A, """	if (_tas_test_ratio > 1.0f) {
		_innov_check_fail_status.flags.reject_airspeed = true;
		return;

	} else {
		_innov_check_fail_status.flags.reject_airspeed = false;
	}

	const bool is_fused = measurementUpdate(Kfusion, Hfusion, _airspeed_innov);

	_fault_status.flags.bad_airspeed = !is_fused;

	if (is_fused) {
		_time_last_arsp_fuse = _time_last_imu;
		_control_status.flags.fuse_aspd = true;
	}
""", """	const bool rejected = _tas_test_ratio > 1.0f;
	_innov_check_fail_status.flags.reject_airspeed = rejected;

	if (!rejected) {
		if (measurementUpdate(Kfusion, Hfusion, _airspeed_innov)) {
			_fault_status.flags.bad_airspeed = false;
			_control_status.flags.fuse_aspd = true;
			_time_last_arsp_fuse = _time_last_imu;

		} else {
			_fault_status.flags.bad_airspeed = true;
		}
	}
"""), (A, """	const bool update_wind_only = !_is_wind_dead_reckoning;
""", """	const bool update_all = _is_wind_dead_reckoning;
"""), (A, "		if (update_wind_only) {\n", "		if (!update_all) {\n"), (A, """	if (!update_wind_only) {
		// we have no other source of aiding, so use airspeed measurements to correct states
		for (unsigned row = 0; row <= 3; row++) {
			Kfusion(row) = HK16*(HK0*P(4,row) - HK0*P(row,22) + HK1*P(5,row) - HK1*P(row,23) + P(6,row)*vd);
		}

		Kfusion(4) = HK12*HK16;
		Kfusion(5) = HK16*HK9;
		Kfusion(6) = HK16*HK7;

		for (unsigned row = 7; row <= 21; row++) {
			Kfusion(row) = HK16*(HK0*P(4,row) - HK0*P(row,22) + HK1*P(5,row) - HK1*P(row,23) + P(6,row)*vd);
		}
	}
""", """	if (update_all) {
		// we have no other source of aiding, so use airspeed measurements to correct states
		const auto gain = [&](unsigned row) {
			return HK16 * (HK0 * (P(4, row) - P(row, 22)) + HK1 * (P(5, row) - P(row, 23)) + P(6, row) * vd);
		};

		for (unsigned row = 0; row <= 21; ++row) {
			switch (row) {
			case 4: Kfusion(row) = HK12 * HK16; break;

			case 5: Kfusion(row) = HK16 * HK9; break;

			case 6: Kfusion(row) = HK16 * HK7; break;

			default: Kfusion(row) = gain(row);
			}
		}
	}
"""), (A, """	const float tempvar = sqrtf(sq(_state.vel(0) - _state.wind_vel(0)) + sq(_state.vel(1) - _state.wind_vel(1)) + sq(_state.vel(2)));
	memcpy(tas, &tempvar, sizeof(float));
""", """	const float rel_n = _state.vel(0) - _state.wind_vel(0);
	const float rel_e = _state.vel(1) - _state.wind_vel(1);
	*tas = Vector3f(rel_n, rel_e, _state.vel(2)).norm();
"""), (A, """	if (_tas_data_ready && (_imu_sample_delayed.time_us - _airspeed_sample_delayed.time_us < (uint64_t)5e5)) {
		// estimate wind using zero sideslip assumption and airspeed measurement if airspeed available
		_state.wind_vel(0) = _state.vel(0) - _airspeed_sample_delayed.true_airspeed * cosf(euler_yaw);
		_state.wind_vel(1) = _state.vel(1) - _airspeed_sample_delayed.true_airspeed * sinf(euler_yaw);

	} else {
		// If we don't have an airspeed measurement, then assume the wind is zero
		_state.wind_vel.setZero();
	}
""", """	_state.wind_vel.setZero();

	if (!_tas_data_ready) {
		return;
	}

	const uint64_t age = _imu_sample_delayed.time_us - _airspeed_sample_delayed.time_us;

	if (age < 500000u) {
		const float tas = _airspeed_sample_delayed.true_airspeed;
		const Vector2f air_vel(tas * cosf(euler_yaw), tas * sinf(euler_yaw));
		_state.wind_vel = Vector2f(_state.vel) - air_vel;
	}
""")],
'velpos': [(VP, """	const bool innov_check_pass = (test_ratio(0) <= 1.0f);

	if (innov_check_pass) {
		_time_last_hor_vel_fuse = _time_last_imu;
		_innov_check_fail_status.flags.reject_hor_vel = false;

		fuseVelPosHeight(innov(0), innov_var(0), 0);
		fuseVelPosHeight(innov(1), innov_var(1), 1);

		return true;

	} else {
		_last_fail_hvel_innov(0) = innov(0);
		_last_fail_hvel_innov(1) = innov(1);
		_innov_check_fail_status.flags.reject_hor_vel = true;
		return false;
	}
}
""", """	const bool innov_check_pass = test_ratio(0) <= 1.0f;
	_innov_check_fail_status.flags.reject_hor_vel = !innov_check_pass;

	if (!innov_check_pass) {
		for (int i = 0; i < 2; i++) {
			_last_fail_hvel_innov(i) = innov(i);
		}

		return false;
	}

	_time_last_hor_vel_fuse = _time_last_imu;

	for (int i = 0; i < 2; i++) {
		fuseVelPosHeight(innov(i), innov_var(i), i);
	}

	return true;
}
"""), (VP, """	float innovation;
	if (_bad_vert_accel_detected && !innov_check_pass) {
		const float innov_limit = innov_gate(1) * sqrtf(innov_var(2));
		innovation = math::constrain(innov(2), -innov_limit, innov_limit);
		innov_check_pass = true;
	} else {
		innovation = innov(2);
	}

	if (innov_check_pass) {
		_time_last_ver_vel_fuse = _time_last_imu;
		_innov_check_fail_status.flags.reject_ver_vel = false;

		fuseVelPosHeight(innovation, innov_var(2), 2);

		return true;

	} else {
		_innov_check_fail_status.flags.reject_ver_vel = true;
		return false;
	}
}
""", """	const float innovation = limitSpike(innov(2), innov_gate(1), innov_var(2), innov_check_pass);

	if (!innov_check_pass) {
		_innov_check_fail_status.flags.reject_ver_vel = true;
		return false;
	}

	_innov_check_fail_status.flags.reject_ver_vel = false;
	_time_last_ver_vel_fuse = _time_last_imu;
	fuseVelPosHeight(innovation, innov_var(2), 2);
	return true;
}

float Ekf::limitSpike(float innov, float gate, float innov_var, bool &pass) const
{
	if (pass || !_bad_vert_accel_detected) {
		return innov;
	}

	pass = true;
	const float limit = gate * sqrtf(innov_var);
	return math::constrain(innov, -limit, limit);
}
"""), (VP, """	float innovation;
	if (_bad_vert_accel_detected && !innov_check_pass) {
		const float innov_limit = innov_gate(1) * sqrtf(innov_var(2));
		innovation = math::constrain(innov(2), -innov_limit, innov_limit);
		innov_check_pass = true;
	} else {
		innovation = innov(2);
	}

	if (innov_check_pass) {
		_time_last_hgt_fuse = _time_last_imu;
		_innov_check_fail_status.flags.reject_ver_pos = false;
		fuseVelPosHeight(innovation, innov_var(2), 5);

		return true;

	} else {
		_innov_check_fail_status.flags.reject_ver_pos = true;
		return false;
	}
""", """	const float innovation = limitSpike(innov(2), innov_gate(1), innov_var(2), innov_check_pass);
	auto &flags = _innov_check_fail_status.flags;
	flags.reject_ver_pos = !innov_check_pass;

	if (innov_check_pass) {
		fuseVelPosHeight(innovation, innov_var(2), 5);
		_time_last_hgt_fuse = _time_last_imu;
	}

	return innov_check_pass;
"""), (H, "	void setVelPosFaultStatus(const int index, const bool status);\n", "	void setVelPosFaultStatus(const int index, const bool status);\n	float limitSpike(float innov, float gate, float innov_var, bool &pass) const;\n")],
'velpos2': [(VP, """	if (innov_check_pass || inhibit_gate) {
		if (inhibit_gate && test_ratio(0) > sq(100.0f / innov_gate(0))) {
			// always protect against extreme values that could result in a NaN
			return false;
		}
		if (!_fuse_hpos_as_odom) {
			_time_last_hor_pos_fuse = _time_last_imu;

		} else {
			_time_last_delpos_fuse = _time_last_imu;
		}

		_innov_check_fail_status.flags.reject_hor_pos = false;

		fuseVelPosHeight(innov(0), innov_var(0), 3);
		fuseVelPosHeight(innov(1), innov_var(1), 4);

		return true;

	} else {
		_innov_check_fail_status.flags.reject_hor_pos = true;
		return false;
	}
}
""", """	if (!innov_check_pass && !inhibit_gate) {
		_innov_check_fail_status.flags.reject_hor_pos = true;
		return false;
	}

	if (inhibit_gate) {
		const float extreme = sq(100.0f / innov_gate(0));

		if (test_ratio(0) > extreme) {
			// always protect against extreme values that could result in a NaN
			return false;
		}
	}

	uint64_t &last_fuse = _fuse_hpos_as_odom ? _time_last_delpos_fuse : _time_last_hor_pos_fuse;
	last_fuse = _time_last_imu;

	_innov_check_fail_status.flags.reject_hor_pos = false;

	fuseVelPosHeight(innov(0), innov_var(0), 3);
	fuseVelPosHeight(innov(1), innov_var(1), 4);

	return true;
}
"""), (VP, """	for (int row = 0; row < _k_num_states; row++) {
		Kfusion(row) = P(row, state_index) / innov_var;
	}

	SquareMatrix24f KHP;

	for (unsigned row = 0; row < _k_num_states; row++) {
		for (unsigned column = 0; column < _k_num_states; column++) {
			KHP(row, column) = Kfusion(row) * P(state_index, column);
		}
	}
""", """	SquareMatrix24f KHP;

	for (int row = 0; row < _k_num_states; row++) {
		const float gain = P(row, state_index) / innov_var;
		Kfusion(row) = gain;

		for (unsigned column = 0; column < _k_num_states; column++) {
			KHP(row, column) = gain * P(state_index, column);
		}
	}
"""), (VP, """	bool healthy = true;

	for (int i = 0; i < _k_num_states; i++) {
		if (P(i, i) < KHP(i, i)) {
			// zero rows and columns
			P.uncorrelateCovarianceSetVariance<1>(i, 0.0f);

			healthy = false;
		}
	}

	setVelPosFaultStatus(obs_index, !healthy);

	if (healthy) {
		// apply the covariance corrections
		P -= KHP;

		fixCovarianceErrors(true);

		// apply the state corrections
		fuse(Kfusion, innov);
	}
}
""", """	unsigned num_bad = 0;

	for (int i = _k_num_states - 1; i >= 0; i--) {
		if (KHP(i, i) <= P(i, i)) {
			continue;
		}

		// zero rows and columns
		P.uncorrelateCovarianceSetVariance<1>(i, 0.0f);
		num_bad++;
	}

	if (num_bad > 0) {
		setVelPosFaultStatus(obs_index, true);
		return;
	}

	setVelPosFaultStatus(obs_index, false);

	// apply the covariance corrections
	P = P - KHP;

	fixCovarianceErrors(true);

	// apply the state corrections
	fuse(Kfusion, innov);
}
"""), (VP, """	if (index == 0) {
		_fault_status.flags.bad_vel_N = status;

	} else if (index == 1) {
		_fault_status.flags.bad_vel_E = status;

	} else if (index == 2) {
		_fault_status.flags.bad_vel_D = status;

	} else if (index == 3) {
		_fault_status.flags.bad_pos_N = status;

	} else if (index == 4) {
		_fault_status.flags.bad_pos_E = status;

	} else if (index == 5) {
		_fault_status.flags.bad_pos_D = status;
	}
""", """	auto &flags = _fault_status.flags;

	switch (index) {
	case 0: flags.bad_vel_N = status; break;

	case 1: flags.bad_vel_E = status; break;

	case 2: flags.bad_vel_D = status; break;

	case 3: flags.bad_pos_N = status; break;

	case 4: flags.bad_pos_E = status; break;

	case 5: flags.bad_pos_D = status; break;

	default: break;
	}
""")],
}
S, O, D = 'EKF/sideslip_fusion.cpp', 'EKF/optflow_fusion.cpp', 'EKF/drag_fusion.cpp'
R.update({
'beta': [(S, """	const Vector3f rel_wind_earth(vn - vwn, ve - vwe, vd);
	const Dcmf earth_to_body = quatToInverseRotMat(_state.quat_nominal);
	const Vector3f rel_wind_body = earth_to_body * rel_wind_earth;
""", """	Vector3f rel_wind_earth = _state.vel;
	rel_wind_earth(0) -= vwn;
	rel_wind_earth(1) -= vwe;
	const Vector3f rel_wind_body = quatToInverseRotMat(_state.quat_nominal) * rel_wind_earth;
"""), (S, """			if (update_wind_only) {
				resetWindStates();
				resetWindCovariance();
				action_string = "wind";

			} else {
				initialiseCovariance();
				_state.wind_vel.setZero();
				action_string = "full";
			}
			ECL_ERR("sideslip badly conditioned - %s covariance reset", action_string);
""", """			action_string = update_wind_only ? "wind" : "full";

			if (!update_wind_only) {
				_state.wind_vel.setZero();
				initialiseCovariance();

			} else {
				resetWindStates();
				resetWindCovariance();
			}

			ECL_ERR("sideslip badly conditioned - %s covariance reset", action_string);
"""), (S, """		_beta_test_ratio = sq(_beta_innov) / (sq(fmaxf(_params.beta_innov_gate, 1.0f)) * _beta_innov_var);

		// if the innovation consistency check fails then don't fuse the sample and indicate bad beta health
		if (_beta_test_ratio > 1.0f) {
			_innov_check_fail_status.flags.reject_sideslip = true;
			return;

		} else {
			_innov_check_fail_status.flags.reject_sideslip = false;
		}
""", """		const float gate = math::max(_params.beta_innov_gate, 1.0f);
		_beta_test_ratio = (_beta_innov * _beta_innov) / (gate * gate * _beta_innov_var);

		// if the innovation consistency check fails then don't fuse the sample and indicate bad beta health
		_innov_check_fail_status.flags.reject_sideslip = (_beta_test_ratio > 1.0f);

		if (_innov_check_fail_status.flags.reject_sideslip) {
			return;
		}
"""), (S, """		_fault_status.flags.bad_sideslip = !is_fused;

		if (is_fused) {
			_time_last_beta_fuse = _time_last_imu;
		}
""", """		if (!is_fused) {
			_fault_status.flags.bad_sideslip = true;
			return;
		}

		_time_last_beta_fuse = _time_last_imu;
""")],
'flow': [(O, """	bool flow_fail = false;
	float test_ratio[2];
	test_ratio[0] = sq(_flow_innov(0)) / (sq(math::max(_params.flow_innov_gate, 1.0f)) * _flow_innov_var(0));
	test_ratio[1] = sq(_flow_innov(1)) / (sq(math::max(_params.flow_innov_gate, 1.0f)) * _flow_innov_var(1));
	_optflow_test_ratio = math::max(test_ratio[0],test_ratio[1]);

	for (uint8_t obs_index = 0; obs_index <= 1; obs_index++) {
		if (test_ratio[obs_index] > 1.0f) {
			flow_fail = true;
			_innov_check_fail_status.value |= (1 << (obs_index + 11));

		} else {
			_innov_check_fail_status.value &= ~(1 << (obs_index + 11));

		}
	}

	// if either axis fails we abort the fusion
	if (flow_fail) {
		return;

	}
""", """	const float gate_sq = sq(math::max(_params.flow_innov_gate, 1.0f));
	Vector2f test_ratio;

	for (int i = 0; i < 2; i++) {
		test_ratio(i) = sq(_flow_innov(i)) / (gate_sq * _flow_innov_var(i));
	}

	_optflow_test_ratio = test_ratio.max();

	_innov_check_fail_status.flags.reject_optflow_X = test_ratio(0) > 1.0f;
	_innov_check_fail_status.flags.reject_optflow_Y = test_ratio(1) > 1.0f;

	// if either axis fails we abort the fusion
	if (_innov_check_fail_status.flags.reject_optflow_X || _innov_check_fail_status.flags.reject_optflow_Y) {
		return;
	}
"""), (O, """		if (obs_index == 0) {
			_fault_status.flags.bad_optflow_X = !is_fused;

		} else if (obs_index == 1) {
			_fault_status.flags.bad_optflow_Y = !is_fused;
		}

		if (is_fused) {
			_time_last_of_fuse = _time_last_imu;
		}
""", """		switch (obs_index) {
		case 0:
			_fault_status.flags.bad_optflow_X = !is_fused;
			break;

		default:
			_fault_status.flags.bad_optflow_Y = !is_fused;
			break;
		}

		if (!is_fused) {
			continue;
		}

		_time_last_of_fuse = _time_last_imu;
"""), (O, """	float heightAboveGndEst = _terrain_vpos - _state.pos(2);

	// calculate the sensor position relative to the IMU in earth frame
	const Vector3f pos_offset_earth = _R_to_earth * pos_offset_body;

	// calculate the height above the ground of the optical flow camera. Since earth frame is NED
	// a positive offset in earth frame leads to a smaller height above the ground.
	heightAboveGndEst -= pos_offset_earth(2);

	// constrain minimum height above ground
	heightAboveGndEst = math::max(heightAboveGndEst, gndclearance);
""", """	const float pos_offset_down = Vector3f(_R_to_earth * pos_offset_body)(2);
	const float heightAboveGndEst = fmaxf(_terrain_vpos - (_state.pos(2) + pos_offset_down), gndclearance);
"""), (O, """	// calculate a weighting that varies between 1 when flow quality is best and 0 when flow quality is worst
	float weighting = (255.0f - (float)_params.flow_qual_min);

	if (weighting >= 1.0f) {
		weighting = math::constrain(((float)_flow_sample_delayed.quality - (float)_params.flow_qual_min) / weighting, 0.0f,
					    1.0f);

	} else {
		weighting = 0.0f;
	}

	// take the weighted average of the observation noise for the best and wort flow quality
	const float R_LOS = sq(R_LOS_best * weighting + R_LOS_worst * (1.0f - weighting));

	return R_LOS;
""", """	// calculate a weighting that varies between 1 when flow quality is best and 0 when flow quality is worst
	const float span = 255.0f - static_cast<float>(_params.flow_qual_min);
	const float excess = static_cast<float>(_flow_sample_delayed.quality) - static_cast<float>(_params.flow_qual_min);
	const float weighting = (span < 1.0f) ? 0.0f : math::constrain(excess / span, 0.0f, 1.0f);

	// take the weighted average of the observation noise for the best and wort flow quality
	const float noise = R_LOS_worst + (R_LOS_best - R_LOS_worst) * weighting;
	return noise * noise;
"""), (O, """	const bool use_flow_sensor_gyro =  ISFINITE(_flow_sample_delayed.gyro_xyz(0)) && ISFINITE(_flow_sample_delayed.gyro_xyz(1)) && ISFINITE(_flow_sample_delayed.gyro_xyz(2));

	if (use_flow_sensor_gyro) {
""", """	bool use_flow_sensor_gyro = true;

	for (int i = 0; i < 3; i++) {
		use_flow_sensor_gyro = use_flow_sensor_gyro && ISFINITE(_flow_sample_delayed.gyro_xyz(i));
	}

	if (!use_flow_sensor_gyro) {
		// Use the EKF gyro data if optical flow sensor gyro data is not available
		// for clarification of the sign see definition of flowSample and imuSample in common.h
		_flow_sample_delayed.gyro_xyz = _imu_del_ang_of * -1.f;
		_flow_gyro_bias.setZero();

	} else {
"""), (O, """
	} else {
		// Use the EKF gyro data if optical flow sensor gyro data is not available
		// for clarification of the sign see definition of flowSample and imuSample in common.h
		_flow_sample_delayed.gyro_xyz = -_imu_del_ang_of;
		_flow_gyro_bias.zero();
	}
""", """	}
"""), (O, """			const Vector3f reference_body_rate(_imu_del_ang_of * (1.0f / _delta_time_of));

			const Vector3f measured_body_rate(_flow_sample_delayed.gyro_xyz * (1.0f / _flow_sample_delayed.dt));

			// calculate the bias estimate using  a combined LPF and spike filter
			_flow_gyro_bias = _flow_gyro_bias * 0.99f + matrix::constrain(measured_body_rate - reference_body_rate, -0.1f, 0.1f) * 0.01f;
""", """			const Vector3f rate_error = _flow_sample_delayed.gyro_xyz / _flow_sample_delayed.dt - _imu_del_ang_of / _delta_time_of;

			// calculate the bias estimate using  a combined LPF and spike filter
			for (int axis = 0; axis < 3; axis++) {
				_flow_gyro_bias(axis) = 0.99f * _flow_gyro_bias(axis) + 0.01f * math::constrain(rate_error(axis), -0.1f, 0.1f);
			}
""")],
'drag': [(D, """	if (_params.bcoef_x < 1.0f || _params.bcoef_y < 1.0f) {
		return;
	}

	const Vector2f ballistic_coef_inv_xy(1.f / _params.bcoef_x, 1.f / _params.bcoef_y);
""", """	const bool bcoef_valid = _params.bcoef_x >= 1.0f && _params.bcoef_y >= 1.0f;

	if (!bcoef_valid) {
		return;
	}

	const float ballistic_coef_inv[2] = {1.f / _params.bcoef_x, 1.f / _params.bcoef_y};
"""), (D, """		const float airSpd = sqrtf((2.0f * fabsf(mea_acc)) / (ballistic_coef_inv_xy(axis_index) * rho));
""", """		const float coef = ballistic_coef_inv[axis_index];
		const float airSpd = sqrtf(2.0f * fabsf(mea_acc) / (coef * rho));
"""), (D, """fmaxf(1e-1f, rho * ballistic_coef_inv_xy(axis_index) * airSpd)""", """math::max(coef * rho * airSpd, 1e-1f)"""), (D, """		const float drag_sign = (rel_wind_body(axis_index) >= 0.f) ? 1.f : -1.f;

		const float predAccel = -0.5f * ballistic_coef_inv_xy(axis_index) * rho * sq(rel_wind_body(axis_index)) * drag_sign;
""", """		const float speed = rel_wind_body(axis_index);
		const float predAccel = -0.5f * coef * rho * speed * fabsf(speed);
"""), (D, """		if (_drag_test_ratio(axis_index) <= 1.0f) {
			measurementUpdate(Kfusion, Hfusion, _drag_innov(axis_index));
		}
""", """		if (_drag_test_ratio(axis_index) > 1.0f) {
			continue;
		}

		measurementUpdate(Kfusion, Hfusion, _drag_innov(axis_index));
""")],
})
