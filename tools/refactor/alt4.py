G='EKF/EKFGSF_yaw.cpp'; GH='EKF/EKFGSF_yaw.h'; W='airdata/WindEstimator.cpp'; WH='airdata/WindEstimator.hpp'; O='EKF/optflow_fusion.cpp'
R = {
'gsfw': [(G, """				float total_weight = 0.0f;
				// calculate weighting for each model assuming a normal distribution
				const float min_weight = 1e-5f;
				uint8_t n_weight_clips = 0;
				for (uint8_t model_index = 0; model_index < N_MODELS_EKFGSF; model_index ++) {
					_model_weights(model_index) = gaussianDensity(model_index) * _model_weights(model_index);
					if (_model_weights(model_index) < min_weight) {
						n_weight_clips++;
						_model_weights(model_index) = min_weight;
					}
					total_weight += _model_weights(model_index);
				}

				// normalise the weighting function
				if (n_weight_clips < N_MODELS_EKFGSF) {
					_model_weights /= total_weight;
				} else {
					// all weights have collapsed due to excessive innovation variances so reset filters
					initialiseEKFGSF();
				}
""", """				updateWeights();
"""),
 (G, "void EKFGSF_yaw::ahrsAlignTilt()\n{", """void EKFGSF_yaw::updateWeights()
{
	constexpr float min_weight = 1e-5f;
	bool all_clipped = true;
	float sum = 0.0f;

	for (uint8_t i = 0; i < N_MODELS_EKFGSF; i++) {
		float weight = _model_weights(i) * gaussianDensity(i);
		const bool clipped = weight < min_weight;

		if (clipped) {
			weight = min_weight;
		}

		all_clipped = all_clipped && clipped;
		sum += weight;
		_model_weights(i) = weight;
	}

	if (all_clipped) {
		initialiseEKFGSF();
		return;
	}

	for (uint8_t i = 0; i < N_MODELS_EKFGSF; i++) {
		_model_weights(i) /= sum;
	}
}

void EKFGSF_yaw::ahrsAlignTilt()
{"""),
 (GH, "	void ahrsAlignTilt();", "	void updateWeights();\n	void ahrsAlignTilt();"),
 (G, """			bool bad_update = false;
			for (uint8_t model_index = 0; model_index < N_MODELS_EKFGSF; model_index ++) {
				// subsequent measurements are fused as direct state observations
				if (!updateEKF(model_index)) {
					bad_update = true;
				}
			}

			if (!bad_update) {
""", """			bool all_good = true;

			for (uint8_t model_index = 0; model_index < N_MODELS_EKFGSF; model_index ++) {
				all_good &= updateEKF(model_index);
			}

			if (all_good) {
"""),
 (G, """	_gsf_yaw_variance = 0.0f;
	for (uint8_t model_index = 0; model_index < N_MODELS_EKFGSF; model_index ++) {
		const float yaw_delta = wrap_pi(_ekf_gsf[model_index].X(2) - _gsf_yaw);
		_gsf_yaw_variance += _model_weights(model_index) * (_ekf_gsf[model_index].P(2,2) + yaw_delta * yaw_delta);
	}
""", """	float variance = 0.0f;
	const auto *model = _ekf_gsf;

	for (uint8_t i = 0; i < N_MODELS_EKFGSF; ++i, ++model) {
		const float spread = sq(wrap_pi(model->X(2) - _gsf_yaw));
		variance += _model_weights(i) * (model->P(2, 2) + spread);
	}

	_gsf_yaw_variance = variance;
""")],
'gsfahrs': [(G, """	Vector3f tilt_correction;
	if (_ahrs_accel_fusion_gain > 0.0f) {

		Vector3f accel = _ahrs_accel;

		if (_true_airspeed > FLT_EPSILON) {
			// Calculate body frame centripetal acceleration with assumption X axis is aligned with the airspeed vector
			// Use cross product of body rate and body frame airspeed vector
			const Vector3f centripetal_accel_bf = Vector3f(0.0f, _true_airspeed * ang_rate(2), - _true_airspeed * ang_rate(1));

			// correct measured accel for centripetal acceleration
			accel -= centripetal_accel_bf;
		}

		tilt_correction = (gravity_direction_bf % accel) * _ahrs_accel_fusion_gain / _ahrs_accel_norm;

	}

	// Gyro bias estimation
	constexpr float gyro_bias_limit = 0.05f;
	const float spinRate = ang_rate.length();
	if (spinRate < 0.175f) {
		_ahrs_ekf_gsf[model_index].gyro_bias -= tilt_correction * (_gyro_bias_gain * _delta_ang_dt);
		_ahrs_ekf_gsf[model_index].gyro_bias = matrix::constrain(_ahrs_ekf_gsf[model_index].gyro_bias, -gyro_bias_limit, gyro_bias_limit);
	}

	// delta angle from previous to current frame
	const Vector3f delta_angle_corrected = _delta_ang + (tilt_correction - _ahrs_ekf_gsf[model_index].gyro_bias) * _delta_ang_dt;

	// Apply delta angle to rotation matrix
	_ahrs_ekf_gsf[model_index].R = ahrsPredictRotMat(_ahrs_ekf_gsf[model_index].R, delta_angle_corrected);
""", """	auto &model = _ahrs_ekf_gsf[model_index];
	const Vector3f tilt_correction = ahrsTiltCorrection(gravity_direction_bf, ang_rate);

	if (!ang_rate.longerThan(0.175f) && ang_rate.norm() < 0.175f) {
		const float step = _delta_ang_dt * _gyro_bias_gain;

		for (int axis = 0; axis < 3; axis++) {
			model.gyro_bias(axis) = math::constrain(model.gyro_bias(axis) - tilt_correction(axis) * step, -0.05f, 0.05f);
		}
	}

	model.R = ahrsPredictRotMat(model.R, _delta_ang + tilt_correction * _delta_ang_dt - model.gyro_bias * _delta_ang_dt);
"""),
 (G, "void EKFGSF_yaw::ahrsPredict(const uint8_t model_index)\n{", """Vector3f EKFGSF_yaw::ahrsTiltCorrection(const Vector3f &down, const Vector3f &ang_rate) const
{
	if (!(_ahrs_accel_fusion_gain > 0.0f)) {
		return Vector3f();
	}

	Vector3f accel = _ahrs_accel;

	if (_true_airspeed > FLT_EPSILON) {
		accel(1) -= ang_rate(2) * _true_airspeed;
		accel(2) += ang_rate(1) * _true_airspeed;
	}

	return down.cross(accel) * (_ahrs_accel_fusion_gain / _ahrs_accel_norm);
}

void EKFGSF_yaw::ahrsPredict(const uint8_t model_index)
{"""),
 (GH, "	void ahrsAlignTilt();", "	Vector3f ahrsTiltCorrection(const Vector3f &down, const Vector3f &ang_rate) const;\n	void ahrsAlignTilt();")],
'windfuse': [(W, """	// apply correction to state
	_state(INDEX_W_N) += _tas_innov * K(0, 0);
	_state(INDEX_W_E) += _tas_innov * K(1, 0);
	_state(INDEX_TAS_SCALE) += _tas_innov * K(2, 0);

	// update covariance matrix
	_P = _P - K * H_tas * _P;

	run_sanity_checks();
""", """	apply(K, H_tas, _tas_innov);
"""), (W, """	// apply correction to state
	_state(INDEX_W_N) += _beta_innov * K(0, 0);
	_state(INDEX_W_E) += _beta_innov * K(1, 0);
	_state(INDEX_TAS_SCALE) += _beta_innov * K(2, 0);

	// update covariance matrix
	_P = _P - K * H_beta * _P;

	run_sanity_checks();
""", """	apply(K, H_beta, _beta_innov);
"""), (W, """void
WindEstimator::run_sanity_checks()
{
	for (unsigned i = 0; i < 3; i++) {
		if (_P(i, i) < 0.0f) {
			// ill-conditioned covariance matrix, reset filter
			_initialised = false;
			return;
		}

		// limit covariance diagonals if they grow too large
		if (i < 2) {
			_P(i, i) = _P(i, i) > 25.0f ? 25.0f : _P(i, i);

		} else if (i == 2) {
			_P(i, i) = _P(i, i) > 0.1f ? 0.1f : _P(i, i);
		}
	}

	if (!ISFINITE(_state(INDEX_W_N)) || !ISFINITE(_state(INDEX_W_E)) || !ISFINITE(_state(INDEX_TAS_SCALE))) {
""", """void
WindEstimator::apply(const matrix::Matrix<float, 3, 1> &K, const matrix::Matrix<float, 1, 3> &H, const float innov)
{
	for (unsigned i = 0; i < 3; i++) {
		_state(i) += K(i, 0) * innov;
	}

	const matrix::Matrix3f KH = K * H;
	_P -= KH * _P;
	run_sanity_checks();
}

void
WindEstimator::run_sanity_checks()
{
	static const float limit[3] = {25.0f, 25.0f, 0.1f};

	for (unsigned i = 0; i < 3; i++) {
		float &var = _P(i, i);

		if (var < 0.0f) {
			_initialised = false;
			return;
		}

		if (var > limit[i]) {
			var = limit[i];
		}
	}

	bool finite = true;

	for (unsigned i = 0; i < 3; i++) {
		finite = finite && ISFINITE(_state(i));
	}

	if (!finite) {
"""), (WH, "	void run_sanity_checks();", "	void apply(const matrix::Matrix<float, 3, 1> &K, const matrix::Matrix<float, 1, 3> &H, const float innov);\n	void run_sanity_checks();")],
'windupd': [(W, """	// run covariance prediction at 1Hz
	if (time_now - _time_last_update < 1000 * 1000 || _time_last_update == 0) {
		if (_time_last_update == 0) {
			_time_last_update = time_now;
		}

		return;
	}
""", """	const bool first = (_time_last_update == 0);

	if (first) {
		_time_last_update = time_now;
		return;
	}

	if (time_now - _time_last_update < 1000000) {
		return;
	}
"""), (W, """	float SPP0 = dt * dt;
	float SPP1 = SPP0 * q_w;
	float SPP2 = SPP1 + _P(0, 1);

	matrix::Matrix3f P_next;

	P_next(0, 0) = SPP1 + _P(0, 0);
	P_next(0, 1) = SPP2;
	P_next(0, 2) = _P(0, 2);
	P_next(1, 0) = SPP2;
	P_next(1, 1) = SPP1 + _P(1, 1);
	P_next(1, 2) = _P(1, 2);
	P_next(2, 0) = _P(0, 2);
	P_next(2, 1) = _P(1, 2);
	P_next(2, 2) = SPP0 * q_k_tas + _P(2, 2);
	_P = P_next;
""", """	const float wind = q_w * dt * dt;

	_P(0, 0) += wind;
	_P(0, 1) += wind;
	_P(1, 1) += wind;
	_P(2, 2) += q_k_tas * dt * dt;

	// keep the lower triangle in step
	for (unsigned row = 1; row < 3; row++) {
		for (unsigned col = 0; col < row; col++) {
			_P(row, col) = _P(col, row);
		}
	}
"""), (W, """	if (sqrtf(velI(0) * velI(0) + velI(1) * velI(1)) < 3.0f) {
		return false;
	}
""", """	if (matrix::Vector2f(velI).norm() < 3.0f) {
		return false;
	}
""")],
'flowcomp': [(O, """	const bool use_flow_sensor_gyro =  ISFINITE(_flow_sample_delayed.gyro_xyz(0)) && ISFINITE(_flow_sample_delayed.gyro_xyz(1)) && ISFINITE(_flow_sample_delayed.gyro_xyz(2));

	if (use_flow_sensor_gyro) {
""", """	bool use_flow_sensor_gyro = true;

	for (int axis = 0; axis < 3; axis++) {
		if (!ISFINITE(_flow_sample_delayed.gyro_xyz(axis))) {
			use_flow_sensor_gyro = false;
			break;
		}
	}

	if (use_flow_sensor_gyro) {
"""), (O, """			const Vector3f reference_body_rate(_imu_del_ang_of * (1.0f / _delta_time_of));

			const Vector3f measured_body_rate(_flow_sample_delayed.gyro_xyz * (1.0f / _flow_sample_delayed.dt));

			// calculate the bias estimate using  a combined LPF and spike filter
			_flow_gyro_bias = _flow_gyro_bias * 0.99f + matrix::constrain(measured_body_rate - reference_body_rate, -0.1f, 0.1f) * 0.01f;
""", """			const Vector3f diff = _flow_sample_delayed.gyro_xyz / _flow_sample_delayed.dt - _imu_del_ang_of / _delta_time_of;

			for (int axis = 0; axis < 3; axis++) {
				const float limited = math::constrain(diff(axis), -0.1f, 0.1f);
				_flow_gyro_bias(axis) = 0.99f * _flow_gyro_bias(axis) + 0.01f * limited;
			}
"""), (O, """	float weighting = (255.0f - (float)_params.flow_qual_min);

	if (weighting >= 1.0f) {
		weighting = math::constrain(((float)_flow_sample_delayed.quality - (float)_params.flow_qual_min) / weighting, 0.0f,
					    1.0f);

	} else {
		weighting = 0.0f;
	}

	// take the weighted average of the observation noise for the best and wort flow quality
	const float R_LOS = sq(R_LOS_best * weighting + R_LOS_worst * (1.0f - weighting));

	return R_LOS;
""", """	const float span = (255.0f - (float)_params.flow_qual_min);
	const float excess = (float)_flow_sample_delayed.quality - (float)_params.flow_qual_min;
	const float weighting = (span < 1.0f) ? 0.0f : math::constrain(excess / span, 0.0f, 1.0f);

	return sq(R_LOS_worst + (R_LOS_best - R_LOS_worst) * weighting);
"""), (O, """		if (obs_index == 0) {
			_fault_status.flags.bad_optflow_X = !is_fused;

		} else if (obs_index == 1) {
			_fault_status.flags.bad_optflow_Y = !is_fused;
		}

		if (is_fused) {
			_time_last_of_fuse = _time_last_imu;
		}
""", """		switch (obs_index) {
		case 0:
			_fault_status.flags.bad_optflow_X = !is_fused;
			break;

		case 1:
			_fault_status.flags.bad_optflow_Y = !is_fused;
			break;

		default:
			break;
		}

		_time_last_of_fuse = is_fused ? _time_last_imu : _time_last_of_fuse;
""")],
}
