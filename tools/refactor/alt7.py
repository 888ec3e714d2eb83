B = 'EKF/sideslip_fusion.cpp'
D = 'EKF/drag_fusion.cpp'
T = 'EKF/terrain_estimator.cpp'
EH = 'EKF/ekf.h'
R = {}
R['beta2'] = [
 (B, """		if (!update_wind_only) {

			Kfusion(0) = HK38*HK52;
			Kfusion(1) = HK50*HK52;
			Kfusion(2) = HK49*HK52;
			Kfusion(3) = HK51*HK52;
			Kfusion(4) = HK48*HK52;
			Kfusion(5) = HK47*HK52;
			Kfusion(6) = HK40*HK52;

			for (unsigned row = 7; row <= 21; row++) {
				Kfusion(row) = HK52*(HK28*P(row,22) - HK28*P(4,row) + HK32*P(row,23) - HK32*P(5,row) + HK33*P(6,row) + HK34*P(2,row) + HK35*P(1,row) - HK36*P(3,row) + HK37*P(0,row));
			}

		}

		Kfusion(22) = HK45*HK52;
		Kfusion(23) = HK42*HK52;
""", """		unsigned row = 22;

		if (!update_wind_only) {
			row = 0;
		}

		while (row < _k_num_states) {
			const float wind_part = HK28*(P(row,22) - P(row,4)) + HK32*(P(row,23) - P(row,5));
			const float other_part = HK33*P(row,6) + HK34*P(row,2) + HK35*P(row,1) - HK36*P(row,3) + HK37*P(row,0);
			Kfusion(row++) = HK52*(wind_part + other_part);
		}
"""),
 (B, """		if (_beta_test_ratio > 1.0f) {
			_innov_check_fail_status.flags.reject_sideslip = true;
			return;

		} else {
			_innov_check_fail_status.flags.reject_sideslip = false;
		}
""", """		const bool rejected = _beta_test_ratio > 1.0f;
		_innov_check_fail_status.flags.reject_sideslip = rejected;

		if (rejected) {
			return;
		}
"""),
 (B, """	if (rel_wind_body.norm() > 7.0f) {
		const float R_BETA""", """	if (!(rel_wind_body.norm() > 7.0f)) {
		return;
	}

	{
		const float R_BETA"""),
]
R['drag2'] = [
 (D, """	if (_params.bcoef_x < 1.0f || _params.bcoef_y < 1.0f) {
		return;
	}

	const Vector2f ballistic_coef_inv_xy(1.f / _params.bcoef_x, 1.f / _params.bcoef_y);
""", """	const bool usable = _params.bcoef_x >= 1.0f && _params.bcoef_y >= 1.0f;

	if (!usable) {
		return;
	}

	Vector2f ballistic_coef_inv_xy;
	ballistic_coef_inv_xy(0) = 1.f / _params.bcoef_x;
	ballistic_coef_inv_xy(1) = 1.f / _params.bcoef_y;
"""),
 (D, """		// calculate the predicted acceleration and innovation measured along body axis
		const float drag_sign = (rel_wind_body(axis_index) >= 0.f) ? 1.f : -1.f;

		const float predAccel = -0.5f * ballistic_coef_inv_xy(axis_index) * rho * sq(rel_wind_body(axis_index)) * drag_sign;
		_drag_innov(axis_index) = predAccel - mea_acc;
""", """		float predAccel = 0.5f * ballistic_coef_inv_xy(axis_index) * rho * sq(rel_wind_body(axis_index));

		if (!(rel_wind_body(axis_index) < 0.f)) {
			predAccel = -predAccel;
		}

		_drag_innov(axis_index) = predAccel - mea_acc;
"""),
 (D, """		if (_drag_test_ratio(axis_index) <= 1.0f) {
			measurementUpdate(Kfusion, Hfusion, _drag_innov(axis_index));
		}
""", """		const bool consistent = _drag_test_ratio(axis_index) <= 1.0f;

		if (!consistent) {
			continue;
		}

		measurementUpdate(Kfusion, Hfusion, _drag_innov(axis_index));
"""),
 (D, "		} else if (axis_index == 1) {", "		} else {"),
 (D, """		const float mea_acc = _drag_sample_delayed.accelXY(axis_index)  - _state.delta_vel_bias(axis_index) / _dt_ekf_avg;
		const float airSpd = sqrtf((2.0f * fabsf(mea_acc)) / (ballistic_coef_inv_xy(axis_index) * rho));
""", """		const float coef = ballistic_coef_inv_xy(axis_index) * rho;
		const float mea_acc = _drag_sample_delayed.accelXY(axis_index)  - _state.delta_vel_bias(axis_index) / _dt_ekf_avg;
		const float airSpd = sqrtf(2.0f * (mea_acc < 0.f ? -mea_acc : mea_acc) / coef);
"""),
]
R['terr3'] = [
 (T, """	if (!_terrain_initialised || !_control_status.flags.in_air) {
		_terrain_initialised = initHagl();

	} else {

		// predict""", """	const bool running = _terrain_initialised && _control_status.flags.in_air;

	if (!running) {
		_terrain_initialised = initHagl();
		updateTerrainValidity();
		return;
	}

	{
		// predict"""),
 (T, """		// process noise due to errors in vehicle height estimate
		_terrain_var += sq(_imu_sample_delayed.delta_vel_dt * _params.terrain_p_noise);

		// process noise due to terrain gradient
		_terrain_var += sq(_imu_sample_delayed.delta_vel_dt * _params.terrain_gradient)
				* (sq(_state.vel(0)) + sq(_state.vel(1)));

		// limit the variance to prevent it becoming badly conditioned
		_terrain_var = math::constrain(_terrain_var, 0.0f, 1e4f);
""", """		const float dt_sq = sq(_imu_sample_delayed.delta_vel_dt);
		const float speed_sq = _state.vel.xy().norm_squared();
		const float grown = _terrain_var + dt_sq * (sq(_params.terrain_p_noise) + sq(_params.terrain_gradient) * speed_sq);
		_terrain_var = fminf(fmaxf(grown, 0.0f), 1e4f);
"""),
 (T, """		if (_terrain_vpos - _state.pos(2) < _params.rng_gnd_clearance) {
			_terrain_vpos = _params.rng_gnd_clearance + _state.pos(2);
		}
""", """		const float height = _terrain_vpos - _state.pos(2);
		const bool below = height < _params.rng_gnd_clearance;
		_terrain_vpos = below ? _state.pos(2) + _params.rng_gnd_clearance : _terrain_vpos;
"""),
]
