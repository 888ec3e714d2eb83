import sys, os; sys.path.insert(0,os.path.dirname(os.path.abspath(__file__)))
from s6 import mk, H, HP, I
EH='EKF/ekf.h'
FRESH='''#include <new>
#include <cstdlib>
'''
if __name__ == '__main__':
    mk('b68','P03',[[EH,"	bool _yaw_angle_observable{false};","	bool _yaw_angle_observable;"]],
     'storage of the estimator that was used before (heap reuse), before the first movement','A new estimator claims that its yaw angle is observable, from whatever was in memory.',
     H+FRESH+'''int main() {
	void *p = std::malloc(sizeof(Ekf)); std::memset(p, 1, sizeof(Ekf)); Ekf *e = new (p) Ekf;
	if (e->isYawAngleObservable()) { std::printf("observable without any data\\n"); return 1; }
	return 0;
}
''')
    mk('b69','P03',[['EKF/EKFGSF_yaw.h',"	bool _vel_data_updated{};","	bool _vel_data_updated;"]],
     'storage of the estimator that was used before, flight before the first GPS velocity','The yaw estimator fuses a velocity that nobody has measured.',
     H+FRESH+"""int main() {
	void *p = std::malloc(sizeof(EKFGSF_yaw)); std::memset(p, 1, sizeof(EKFGSF_yaw)); EKFGSF_yaw *y = new (p) EKFGSF_yaw;
	for (int i = 1; i < 100; i++) y->update(imu(i * 5000), true, 0.f, Vector3f());
	if (y->_ekf_gsf_vel_fuse_started) { std::printf("velocity fused, none given\\n"); return 1; }
	return 0;
}
""")
    mk('b70','V04',[['EKF/common.h',"		uint32_t rng_stuck   : 1; ///< 21 - true when rng data wasn't ready for more than 10s and new rng values haven't changed enough\n		uint32_t gps_yaw     : 1; ///< 22 - true when yaw (not ground course) data fusion from a GPS receiver is intended\n",
     "		uint32_t gps_yaw     : 1; ///< 21 - true when yaw (not ground course) data fusion from a GPS receiver is intended\n		uint32_t rng_stuck   : 1; ///< 22 - true when rng data wasn't ready for more than 10s and new rng values haven't changed enough\n"]],
     'a reader of the control status word (telemetry, log analysis) while GPS yaw is fused or the range finder is stuck','Two bits of the control status word trade places: logs show a stuck range finder for GPS yaw fusion.',
     H+'''int main() {
	filter_control_status_u s{}; s.value = 0; s.flags.gps_yaw = true;
	if (s.value != (1u << 22)) { std::printf("%x\\n", s.value); return 1; }
	return 0;
}
''')
    mk('b71','V04',[['EKF/estimator_interface.h',"	const filter_control_status_u &control_status_prev() const { return _control_status_prev; }","	const filter_control_status_u &control_status_prev() const { return _control_status; }"]],
     'a reader that compares the control status with the one before','The previous control status is the current one: no transition is ever seen.',
     H+'''int main() {
	Ekf *e = new Ekf; e->_control_status.value = 5; e->_control_status_prev.value = 9;
	if (e->control_status_prev().value != 9) { std::printf("%u\\n", e->control_status_prev().value); return 1; }
	return 0;
}
''')
    TWO='''#include <unistd.h>
#include <sys/wait.h>
static imuSample im(uint64_t t, float dt) { imuSample i; i.time_us = t; i.delta_ang_dt = i.delta_vel_dt = dt; i.delta_ang = matrix::Vector3f(); i.delta_vel = matrix::Vector3f(0, 0, -9.80665f * dt); return i; }
static float fly(float dt) { Ekf *e = new Ekf; uint64_t t = 1000000; for (int i = 0; i < 2000; i++) { t += (uint64_t)(dt * 1e6f); e->setIMUData(im(t, dt)); if (i % 4 == 0) { e->setMagData(magSample{t, matrix::Vector3f(0.2f, 0.f, 0.4f)}); e->setBaroData(baroSample{t, 100.f}); }
	e->update(); if (i == 1000) { e->_state.delta_ang_bias = Vector3f(0.001f, 0.f, 0.f); e->_state.delta_vel_bias = Vector3f(0.f, 0.01f, 0.f); } if (i >= 1100) break; }
	return e->_output_new.vel(1) + 10.f * e->_output_new.quat_nominal(1); }
'''
    mk('b72','P04',[[I,"	const float dt_scale_correction = _dt_imu_avg / _dt_ekf_avg;\n\n	// Apply corrections to the delta angle required","	static const float dt_scale_correction = _dt_imu_avg / _dt_ekf_avg;\n\n	// Apply corrections to the delta angle required"]],
     'two estimators with different IMU rates in one process (multi-EKF)','The ratio of the IMU and filter periods is that of the first estimator ever run, for all of them.',
     H+TWO+'''int main() {
	int p[2]; if (pipe(p)) return 0;
	pid_t c = fork();
	if (c == 0) { float r = fly(0.010f); if (write(p[1], &r, sizeof r) < 0) {} _exit(0); }
	float alone = 0.f; if (read(p[0], &alone, sizeof alone) < 0) {} waitpid(c, 0, 0);
	fly(0.0025f); float second = fly(0.010f);
	if (!(fabsf(alone - second) < 1e-6f)) { std::printf("alone %f, after another %f\\n", (double)alone, (double)second); return 1; }
	return 0;
}
''')
    mk('b73','P04',[['geo/geo.cpp',"	const double cos_d_lon = cos(lon_rad - ref->lon_rad);\n\n	const double arg = math::constrain(ref->sin_lat * sin_lat + ref->cos_lat * cos_lat * cos_d_lon, -1.0,  1.0);",
     "	// the trigonometry is only needed for a new longitude\n	static double last_d_lon = 0.0;\n	static double cos_d_lon = 1.0;\n\n	if (fabs(lon_rad - ref->lon_rad - last_d_lon) > 1e-7) {\n		last_d_lon = lon_rad - ref->lon_rad;\n		cos_d_lon = cos(last_d_lon);\n	}\n\n	const double arg = math::constrain(ref->sin_lat * sin_lat + ref->cos_lat * cos_lat * cos_d_lon, -1.0,  1.0);"]],
     'projections of points that differ by little from those asked for before, by any user','The projection of a point depends on the point projected before (by whoever), up to half a metre.',
     H+'''#include <geo/geo.h>
int main() {
	map_projection_reference_s r{}; map_projection_init_timestamped(&r, 60.0, 8.0, 1);
	float x, y, x2, y2; const double a = 30.0, d = 5.5e-6;	// degrees of longitude
	map_projection_project(&r, 61.0, 9.0, &x, &y); map_projection_project(&r, 60.0, 8.0 + a + d, &x, &y);
	map_projection_project(&r, 61.0, 9.0, &x2, &y2); map_projection_project(&r, 60.0, 8.0 + a, &x2, &y2); map_projection_project(&r, 60.0, 8.0 + a + d, &x2, &y2);
	if (fabsf(x - x2) > 0.001f || fabsf(y - y2) > 0.001f) { std::printf("%f %f, %f %f\\n", (double)x, (double)y, (double)x2, (double)y2); return 1; }
	return 0;
}
''')
    mk('b74','P05',[['EKF/gps_yaw_fusion.cpp',"	_heading_innov = wrap_pi(_heading_innov);","	while (_heading_innov > M_PI_F) {\n		_heading_innov -= 2.0f * M_PI_F;\n	}\n\n	while (_heading_innov < -M_PI_F) {\n		_heading_innov += 2.0f * M_PI_F;\n	}"]],
     'a heading of the receiver, or its offset, so large that 2 pi is below its resolution (corrupted data)','The update never returns: subtracting 2 pi no longer changes the number.',
     H+'''#include <unistd.h>
#include <signal.h>
static void late(int) { if (write(1, "hangs\\n", 6)) {} _exit(1); }
int main() {
	signal(SIGALRM, late); alarm(10);
	Ekf *e = new Ekf; step(e, 400);
	e->_gps_sample_delayed.yaw = 0.5f; e->_gps_yaw_offset = -1.f;
	struct Huge { static float yaw() { return 1e30f; } };
	e->_gps_yaw_offset = 0.f; e->_gps_sample_delayed.yaw = Huge::yaw();
	e->_state.quat_nominal = Quatf(1.f, 0.f, 0.f, 0.f); e->_R_to_earth = Dcmf(e->_state.quat_nominal);
	e->fuseGpsYaw();
	return 0;
}
''')
    mk('b75','P05',[[HP,"	_control_status.flags.ev_pos = true;\n	resetHorizontalPosition();\n	_information_events","	_control_status.flags.ev_pos = true;\n	// hold samples over the whole delay and none from before the start\n	_ext_vision_buffer.allocate(_imu_buffer_length + 1);\n	resetHorizontalPosition();\n	_information_events"]],
     'vision position fusion that starts in flight; a heap that is slow, fragmented or exhausted','The cyclic update takes memory from the heap when vision fusion starts.',
     H+'''#include <cstdlib>
#include <new>
static int taken = 0;
void *operator new(std::size_t n) { taken++; return std::malloc(n); }
void operator delete(void *p) noexcept { std::free(p); }
void operator delete(void *p, std::size_t) noexcept { std::free(p); }
void *operator new[](std::size_t n) { taken++; return std::malloc(n); }
void operator delete[](void *p) noexcept { std::free(p); }
void operator delete[](void *p, std::size_t) noexcept { std::free(p); }
int main() {
	Ekf *e = new Ekf; step(e, 400); extVisionSample v{}; v.time_us = t; e->setExtVisionData(v);
	taken = 0; e->startEvPosFusion();
	if (taken) { std::printf("%d allocations\\n", taken); return 1; }
	return 0;
}
''')
