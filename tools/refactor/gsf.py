F, FH = 'EKF/EKFGSF_yaw.cpp', 'EKF/EKFGSF_yaw.h'
_s = {f: open('/repo/' + f).read() for f in (F, FH)}


def body(f, name):
    i = _s[f].index(name)
    j = _s[f].index('\n}\n', i) + 3 if '\n}\n' in _s[f][i:] else len(_s[f])
    return _s[f][i:j]


def rep(f, name, *pairs):
    b = body(f, name); n = b
    for o, w in pairs:
        assert n.count(o) == 1, (name, o, n.count(o))
        n = n.replace(o, w)
    return (f, b, n)


def sec(f, a, b):
    i = _s[f].index(a)
    return _s[f][i:_s[f].index(b, i)]


HP = """	// generate an attitude solution"""
PRIV = '\tvoid ahrsPredict(const uint8_t model_index);'

R = {
'update': [
  (F, body(F, 'void EKFGSF_yaw::update('), """void EKFGSF_yaw::update(const imuSample& imu_sample, bool run_EKF, float airspeed, const Vector3f &imu_gyro_bias)
{
	_run_ekf_gsf = run_EKF;
	_true_airspeed = airspeed;
	_delta_vel_dt = imu_sample.delta_vel_dt;
	_delta_ang_dt = imu_sample.delta_ang_dt;
	_delta_vel = imu_sample.delta_vel;
	_delta_ang = imu_sample.delta_ang;

	const Vector3f accel = _delta_vel / math::max(_delta_vel_dt, 0.001f);
	float filter_coef = 10.0f * _delta_vel_dt * _tilt_gain;

	if (filter_coef > 1.0f) {
		filter_coef = 1.0f;
	}

	_ahrs_accel += (accel - _ahrs_accel) * filter_coef;

	if (!_ahrs_ekf_gsf_tilt_aligned) {
		const float accel_norm_sq = accel.dot(accel);

		if (accel_norm_sq <= sq(CONSTANTS_ONE_G * 0.9f) || accel_norm_sq >= sq(CONSTANTS_ONE_G * 1.1f)) {
			return;
		}

		initialiseEKFGSF();
		ahrsAlignTilt();
		_ahrs_ekf_gsf_tilt_aligned = true;
		return;
	}

	_ahrs_accel_norm = _ahrs_accel.norm();
	_ahrs_accel_fusion_gain = ahrsCalcAccelGain();

	uint8_t m = 0;

	while (m < N_MODELS_EKFGSF) {
		predictEKF(m);
		m++;
	}

	if (!_run_ekf_gsf) {
		_ekf_gsf_vel_fuse_started = false;

	} else if (_vel_data_updated) {
		if (_ekf_gsf_vel_fuse_started) {
			fuseVelocity();

		} else {
			startVelocityFusion(imu_gyro_bias);
		}
	}

	float north = 0.f;
	float east = 0.f;

	for (m = 0; m < N_MODELS_EKFGSF; m++) {
		const float yaw = _ekf_gsf[m].X(2);
		north += cosf(yaw) * _model_weights(m);
		east += sinf(yaw) * _model_weights(m);
	}

	_gsf_yaw = atan2f(east, north);

	float variance = 0.0f;

	for (m = 0; m < N_MODELS_EKFGSF; m++) {
		variance += _model_weights(m) * (_ekf_gsf[m].P(2,2) + sq(wrap_pi(_ekf_gsf[m].X(2) - _gsf_yaw)));
	}

	_gsf_yaw_variance = variance;
	_vel_data_updated = false;
}

void EKFGSF_yaw::startVelocityFusion(const Vector3f &imu_gyro_bias)
{
	initialiseEKFGSF();
	ahrsAlignYaw();

	for (uint8_t m = 0; m < N_MODELS_EKFGSF; m++) {
		_ahrs_ekf_gsf[m].gyro_bias = imu_gyro_bias;
	}

	_ekf_gsf_vel_fuse_started = true;
}

void EKFGSF_yaw::fuseVelocity()
{
	bool good = true;

	for (uint8_t m = 0; m < N_MODELS_EKFGSF; m++) {
		good = updateEKF(m) && good;
	}

	if (!good) {
		return;
	}

	const float min_weight = 1e-5f;
	bool all_clipped = true;
	float total_weight = 0.0f;

	for (uint8_t m = 0; m < N_MODELS_EKFGSF; m++) {
		const float weight = _model_weights(m) * gaussianDensity(m);

		if (weight < min_weight) {
			_model_weights(m) = min_weight;

		} else {
			_model_weights(m) = weight;
			all_clipped = false;
		}

		total_weight += _model_weights(m);
	}

	if (all_clipped) {
		initialiseEKFGSF();
		return;
	}

	for (uint8_t m = 0; m < N_MODELS_EKFGSF; m++) {
		_model_weights(m) /= total_weight;
	}
}
"""),
  (FH, PRIV, PRIV + "\n\tvoid startVelocityFusion(const Vector3f &imu_gyro_bias);\n\tvoid fuseVelocity();"),
],
'ahrs': [
  (F, body(F, 'void EKFGSF_yaw::ahrsPredict('), """void EKFGSF_yaw::ahrsPredict(const uint8_t model_index)
{
	auto &ahrs = _ahrs_ekf_gsf[model_index];
	const Vector3f ang_rate = _delta_ang / ((_delta_ang_dt > 0.001f) ? _delta_ang_dt : 0.001f) - ahrs.gyro_bias;
	Vector3f tilt_correction;

	if (_ahrs_accel_fusion_gain > 0.0f) {
		const Vector3f gravity_direction_bf(ahrs.R(2, 0), ahrs.R(2, 1), ahrs.R(2, 2));
		Vector3f accel = _ahrs_accel;

		if (_true_airspeed > FLT_EPSILON) {
			accel(1) -= _true_airspeed * ang_rate(2);
			accel(2) += _true_airspeed * ang_rate(1);
		}

		tilt_correction = gravity_direction_bf.cross(accel) * (_ahrs_accel_fusion_gain / _ahrs_accel_norm);
	}

	if (ang_rate.norm() < 0.175f) {
		const float gain = _gyro_bias_gain * _delta_ang_dt;

		for (int i = 0; i < 3; i++) {
			ahrs.gyro_bias(i) = math::constrain(ahrs.gyro_bias(i) - tilt_correction(i) * gain, -0.05f, 0.05f);
		}
	}

	const Vector3f rate_correction = tilt_correction - ahrs.gyro_bias;
	ahrs.R = ahrsPredictRotMat(ahrs.R, rate_correction * _delta_ang_dt + _delta_ang);
}
"""),
  (F, body(F, 'float EKFGSF_yaw::ahrsCalcAccelGain()'), """float EKFGSF_yaw::ahrsCalcAccelGain() const
{
	const bool fixed_wing = _true_airspeed > FLT_EPSILON;
	const float attenuation = (fixed_wing && _ahrs_accel_norm > CONSTANTS_ONE_G) ? 1.f : 2.f;
	const float delta_accel_g = fabsf(_ahrs_accel_norm - CONSTANTS_ONE_G) / CONSTANTS_ONE_G;
	const float reduction = attenuation * delta_accel_g;

	if (reduction >= 1.f) {
		return 0.f;
	}

	return _tilt_gain * sq(1.f - reduction);
}
"""),
  (F, body(F, 'Matrix3f EKFGSF_yaw::ahrsPredictRotMat('), """Matrix3f EKFGSF_yaw::ahrsPredictRotMat(const Matrix3f &R, const Vector3f &g)
{
	Matrix3f ret;

	for (uint8_t r = 0; r < 3; r++) {
		float length_sq = 0.f;

		for (uint8_t c = 0; c < 3; c++) {
			const uint8_t c1 = (c + 1) % 3;
			const uint8_t c2 = (c + 2) % 3;
			ret(r, c) = R(r, c) + R(r, c1) * g(c2) - R(r, c2) * g(c1);
			length_sq += ret(r, c) * ret(r, c);
		}

		if (length_sq > FLT_EPSILON) {
			const float inverse = 1.5f - 0.5f * length_sq;

			for (uint8_t c = 0; c < 3; c++) {
				ret(r, c) *= inverse;
			}
		}
	}

	return ret;
}
"""),
],
'align': [
  (F, body(F, 'void EKFGSF_yaw::ahrsAlignTilt()'), """void EKFGSF_yaw::ahrsAlignTilt()
{
	const Vector3f down_in_bf = _delta_vel.unit() * -1.0f;
	Vector3f north_in_bf = Vector3f(1.0f, 0.0f, 0.0f) - down_in_bf * down_in_bf(0);
	north_in_bf.normalize();
	const Vector3f east_in_bf = down_in_bf.cross(north_in_bf);

	for (uint8_t m = 0; m < N_MODELS_EKFGSF; m++) {
		Dcmf &R = _ahrs_ekf_gsf[m].R;

		for (uint8_t i = 0; i < 3; i++) {
			R(0, i) = north_in_bf(i);
			R(1, i) = east_in_bf(i);
			R(2, i) = down_in_bf(i);
		}
	}
}
"""),
  (F, body(F, 'void EKFGSF_yaw::ahrsAlignYaw()'), """void EKFGSF_yaw::ahrsAlignYaw()
{
	uint8_t m = 0;

	do {
		auto &ahrs = _ahrs_ekf_gsf[m];
		ahrs.aligned = true;
		ahrs.R = updateYawInRotMat(wrap_pi(_ekf_gsf[m].X(2)), ahrs.R);
		m++;
	} while (m < N_MODELS_EKFGSF);
}
"""),
  (F, body(F, 'void EKFGSF_yaw::initialiseEKFGSF()'), """void EKFGSF_yaw::initialiseEKFGSF()
{
	memset(&_ekf_gsf, 0, sizeof(_ekf_gsf));

	const float n = (float)N_MODELS_EKFGSF;
	const float half_increment = _m_pi / n;

	for (uint8_t m = 0; m < N_MODELS_EKFGSF; m++) {
		_model_weights(m) = 1.0f / n;

		_ekf_gsf[m].X(0) = _vel_NE(0);
		_ekf_gsf[m].X(1) = _vel_NE(1);
		_ekf_gsf[m].X(2) = half_increment * (float)(2 * m + 1) - _m_pi;

		_ekf_gsf[m].P(0,0) = _vel_accuracy * _vel_accuracy;
		_ekf_gsf[m].P(1,1) = _vel_accuracy * _vel_accuracy;
		_ekf_gsf[m].P(2,2) = half_increment * half_increment;
	}

	_ekf_gsf_vel_fuse_started = false;
	_gsf_yaw = 0.0f;
	_gsf_yaw_variance = sq(_m_pi2);
}
"""),
  (F, body(F, 'bool EKFGSF_yaw::getLogData('), """bool EKFGSF_yaw::getLogData(float *yaw_composite, float *yaw_variance, float yaw[N_MODELS_EKFGSF], float innov_VN[N_MODELS_EKFGSF], float innov_VE[N_MODELS_EKFGSF], float weight[N_MODELS_EKFGSF]) const
{
	if (!getYawData(yaw_composite, yaw_variance)) {
		return false;
	}

	for (int m = N_MODELS_EKFGSF - 1; m >= 0; m--) {
		weight[m] = _model_weights(m);
		const auto &model = _ekf_gsf[m];
		innov_VE[m] = model.innov(1);
		innov_VN[m] = model.innov(0);
		yaw[m] = model.X(2);
	}

	return true;
}
"""),
],
'predict': [
  rep(F, 'void EKFGSF_yaw::predictEKF(', ("""	_ekf_gsf[model_index].X(2) = shouldUse321RotationSequence(R) ?
					getEuler321Yaw(R) :
					getEuler312Yaw(R);
""", """	float heading;

	if (shouldUse321RotationSequence(R)) {
		heading = getEuler321Yaw(R);

	} else {
		heading = getEuler312Yaw(R);
	}

	_ekf_gsf[model_index].X(2) = heading;
"""), ("""	const float &P00 = _ekf_gsf[model_index].P(0,0);
	const float &P01 = _ekf_gsf[model_index].P(0,1);
	const float &P02 = _ekf_gsf[model_index].P(0,2);
	const float &P11 = _ekf_gsf[model_index].P(1,1);
	const float &P12 = _ekf_gsf[model_index].P(1,2);
	const float &P22 = _ekf_gsf[model_index].P(2,2);
	const float &psi = _ekf_gsf[model_index].X(2);
""", """	auto &P = _ekf_gsf[model_index].P;
	const float P00 = P(0,0);
	const float P01 = P(0,1);
	const float P02 = P(0,2);
	const float P11 = P(1,1);
	const float P12 = P(1,2);
	const float P22 = P(2,2);
	const float psi = heading;
"""), ("""	const float S1 = ecl::powf(S0, 2);
""", """	const float S1 = S0*S0;
"""), ("""	const float S8 = P01 + S7*dvxVar - S7*dvyVar;
""", """	const float S8 = P01;
"""), ("""	_ekf_gsf[model_index].P(0,0) = P00 - P02*S4 + S1*dvxVar + S3*dvyVar - S4*S5;
	_ekf_gsf[model_index].P(0,1) = -P12*S4 + S5*S6 + S8;
	_ekf_gsf[model_index].P(1,1) = P11 + P12*S6 + S1*dvyVar + S3*dvxVar + S6*S9;
	_ekf_gsf[model_index].P(0,2) = S5;
	_ekf_gsf[model_index].P(1,2) = S9;
	_ekf_gsf[model_index].P(2,2) = P22 + dazVar;

	// covariance matrix is symmetrical, so copy upper half to lower half
	_ekf_gsf[model_index].P(1,0) = _ekf_gsf[model_index].P(0,1);
	_ekf_gsf[model_index].P(2,0) = _ekf_gsf[model_index].P(0,2);
	_ekf_gsf[model_index].P(2,1) = _ekf_gsf[model_index].P(1,2);
""", """	P(2,2) = P22 + dazVar;
	P(1,2) = P(2,1) = S9;
	P(0,2) = P(2,0) = S5;
	P(1,1) = P11 + P12*S6 + S1*dvyVar + S3*dvxVar + S6*S9;
	P(0,1) = P(1,0) = S5*S6 - P12*S4 + S8;
	P(0,0) = P00 - P02*S4 + S1*dvxVar + S3*dvyVar - S4*S5;
"""), ("""	for (unsigned index = 0; index < 3; index++) {
		_ekf_gsf[model_index].P(index,index) = fmaxf(_ekf_gsf[model_index].P(index,index),min_var);
	}
""", """	for (unsigned index = 0; index < 3; index++) {
		if (P(index,index) < min_var) {
			P(index,index) = min_var;
		}
	}
"""), ("""	const float dvx =   del_vel_NED(0) * cos_yaw + del_vel_NED(1) * sin_yaw;
	const float dvy = - del_vel_NED(0) * sin_yaw + del_vel_NED(1) * cos_yaw;
""", """	const Vector2f forward(cos_yaw, sin_yaw);
	const Vector2f right(-sin_yaw, cos_yaw);
	const Vector2f dv_NE(del_vel_NED(0), del_vel_NED(1));
	const float dvx = dv_NE * forward;
	const float dvy = dv_NE * right;
""")),
],
'fuse': [
  rep(F, 'bool EKFGSF_yaw::updateEKF(', (sec(F, "	_ekf_gsf[model_index].P(0,0) = P00 - t16*t19", "	// constrain variances"), """	const float KS00 = K(0,0);
	(void)KS00;
	const float N00 = P00 - t16*t19 - t20*t8;
	const float N01 = P01*(t18*t22 - t20*velObsVar + 1);
	const float N11 = P11 - t16*t30 + t22*t26;
	const float N02 = P02 + t19*t24 + t20*t25;
	const float N12 = P12 + t23*t27 + t30*t31;
	const float N22 = P22 - t23*t33 - t25*t36;
	auto &P = _ekf_gsf[model_index].P;
	P(2,2) = N22;
	P(2,1) = P(1,2) = N12;
	P(2,0) = P(0,2) = N02;
	P(1,0) = P(0,1) = N01;
	P(1,1) = N11;
	P(0,0) = N00;

"""), (sec(F, "	// Correct the state vector and capture", "	return true;"), """	const Vector3f correction = (K * _ekf_gsf[model_index].innov) * innov_comp_scale_factor;
	_ekf_gsf[model_index].X -= correction;

	const float c = cosf(correction(2));
	const float s = sinf(correction(2));
	auto &R = _ahrs_ekf_gsf[model_index].R;

	for (unsigned col = 0; col < 3; col++) {
		const float r0 = R(0, col);
		const float r1 = R(1, col);
		R(0, col) = r0 * c + r1 * s;
		R(1, col) = r1 * c - r0 * s;
	}

"""), ("""	const float test_ratio = _ekf_gsf[model_index].innov * (_ekf_gsf[model_index].S_inverse * _ekf_gsf[model_index].innov);
""", """	const Vector2f &innov = _ekf_gsf[model_index].innov;
	const auto &S_inv = _ekf_gsf[model_index].S_inverse;
	const float test_ratio = innov(0) * innov(0) * S_inv(0,0) + 2.0f * innov(0) * innov(1) * S_inv(0,1) + innov(1) * innov(1) * S_inv(1,1);
"""), ("	const float innov_comp_scale_factor = test_ratio > 25.f ? sqrtf(25.0f / test_ratio) : 1.f;", "	const float innov_comp_scale_factor = test_ratio <= 25.f ? 1.f : 5.f / sqrtf(test_ratio);"),
  ("	if (fabsf(t2) < 1e-6f) {", "	if (t2 < 1e-6f && t2 > -1e-6f) {")),
  (F, body(F, 'float EKFGSF_yaw::gaussianDensity('), """float EKFGSF_yaw::gaussianDensity(const uint8_t model_index) const
{
	const auto &m = _ekf_gsf[model_index];
	float normDist = 0.f;

	for (int i = 0; i < 2; i++) {
		for (int j = 0; j < 2; j++) {
			normDist += m.innov(i) * m.S_inverse(i, j) * m.innov(j);
		}
	}

	return sqrtf(m.S_det_inverse) * _m_2pi_inv * expf(normDist / -2.f);
}
"""),
],
}
