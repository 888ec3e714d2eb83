import sys, os; sys.path.insert(0,os.path.dirname(os.path.abspath(__file__)))
from s6 import mk, H, HP, I
from s14 import FRESH
if __name__ == '__main__':
    mk('b76','P04',[['EKF/optflow_fusion.cpp',"""	float weighting = (255.0f - (float)_params.flow_qual_min);

	if (weighting >= 1.0f) {
		weighting = math::constrain(((float)_flow_sample_delayed.quality - (float)_params.flow_qual_min) / weighting, 0.0f,
					    1.0f);

	} else {
		weighting = 0.0f;
	}
""","""	float weighting;
	const float range = 255.0f - (float)_params.flow_qual_min;

	if (range >= 1.0f) {
		weighting = math::constrain(((float)_flow_sample_delayed.quality - (float)_params.flow_qual_min) / range, 0.0f,
					    1.0f);

	} else if (_flow_sample_delayed.quality < _params.flow_qual_min) {
		weighting = 0.0f;
	}
"""]],
     'the highest possible quality demanded of optical flow (flow_qual_min = 255) and reached','The noise of the flow measurement is computed from a weight that nothing has set.',
     H+'''static float __attribute__((noinline)) dirty(float v) { volatile float a[64]; for (int i = 0; i < 64; i++) { a[i] = v; } return a[5]; }
int main() {
	Ekf *e = new Ekf; e->_params.flow_qual_min = 255; e->_flow_sample_delayed.quality = 255; e->_params.flow_noise = 0.1f; e->_params.flow_noise_qual_min = 0.5f;
	for (float v : {0.f, 1.f, 7.f, -3.f}) {
		dirty(v); const float r = e->calcOptFlowMeasVar();
		if (!(fabsf(r - 0.25f) < 1e-5f)) { std::printf("%f\\n", (double)r); return 1; }
	}
	return 0;
}
''')
    mk('b77','P05',[[HP,"	for (uint8_t index = 0; index <= 3; index ++) {\n		P(index + 18, index + 18) = _saved_mag_bf_variance[index];","	for (uint8_t index = 3; index >= 0; index--) {\n		P(index + 18, index + 18) = _saved_mag_bf_variance[index];"]],
     'three axis magnetometer fusion that starts again with saved covariances','The loop counts an unsigned index down to "not less than zero": it never ends.',
     H+'''#include <unistd.h>
#include <signal.h>
static void late(int) { if (write(1, "hangs\\n", 6)) {} _exit(1); }
int main() {
	signal(SIGALRM, late); alarm(10);
	Ekf *e = new Ekf; for (int i = 0; i < 4; i++) e->_saved_mag_bf_variance[i] = 0.01f * (i + 1);
	e->loadMagCovData();
	for (int i = 0; i < 4; i++) if (fabsf(e->P(18 + i, 18 + i) - 0.01f * (i + 1)) > 1e-6f) { std::printf("%d\\n", i); return 1; }
	return 0;
}
''')
    mk('b78','V04',[['EKF/ekf.h',"{ *val = _gps_check_fail_status.value; }","{ *val = _gps_check_fail_status.value & 0xff; }"]],
     'a vehicle that moves too fast (vertically or horizontally) for the GPS checks while everything else passes','The GPS check word loses its upper bits: it reads as if all checks had passed.',
     H+'''int main() {
	Ekf *e = new Ekf; e->_gps_check_fail_status.value = 0; e->_gps_check_fail_status.flags.vspeed = true; e->_gps_check_fail_status.flags.spos = 0;
	uint16_t v = 0; e->get_gps_check_status(&v); if (v != e->_gps_check_fail_status.value) { std::printf("%x\\n", v); return 1; }
	return 0;
}
'''.replace(' e->_gps_check_fail_status.flags.spos = 0;',''))
    mk('b79','P03',[['EKF/EKFGSF_yaw.h',"	float _vel_accuracy{};     // 1-sigma","	float _vel_accuracy;     // 1-sigma"]],
     'storage of the estimator that was used before','The velocity variances of the yaw models start as the square of whatever was in memory.',
     H+FRESH+'''int main() {
	void *p = std::malloc(sizeof(EKFGSF_yaw)); std::memset(p, 0x49, sizeof(EKFGSF_yaw)); EKFGSF_yaw *y = new (p) EKFGSF_yaw;
	for (int i = 1; i < 3; i++) y->update(imu(i * 5000), false, 0.f, Vector3f());
	if (!(y->_ekf_gsf[0].P(0, 0) < 1.f)) { std::printf("%f\\n", (double)y->_ekf_gsf[0].P(0, 0)); return 1; }
	return 0;
}
''')
