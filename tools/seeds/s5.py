import sys, os; sys.path.insert(0,os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
from mkseed import make
I='EKF/estimator_interface.cpp'
EK='EKF/*.cpp geo/geo.cpp geo_lookup/geo_mag_declination.cpp'
H='''#include <cstdio>
#include <cmath>
#include <cstring>
#include <algorithm>
#define private public
#define protected public
#include "ekf.h"
static imuSample imu(uint64_t t) { imuSample i; i.time_us = t; i.delta_ang_dt = i.delta_vel_dt = 0.005f; i.delta_ang = matrix::Vector3f(); i.delta_vel = matrix::Vector3f(0, 0, -9.80665f * 0.005f); return i; }
'''
make('b15','S01',[[I,"""	// limit data rate to prevent data being lost
	if ((range_sample.time_us - _time_last_range) > _min_obs_interval_us) {
		_time_last_range = range_sample.time_us;

""","""	// limit data rate to prevent data being lost
	const uint64_t interval_us = range_sample.time_us - _time_last_range;
	_time_last_range = range_sample.time_us;

	if (interval_us > _min_obs_interval_us) {
"""]],
 'a range finder that reports faster than the observation buffer allows','Every range sample restarts the rate limit, so that a fast sensor is never stored.',
 H+'''int main() {
	Ekf *e = new Ekf; uint64_t t = 1000000; int n = 0, last = -1; 
	for (int i = 0; i < 400; i++) { t += 5000; e->setIMUData(imu(t)); uint64_t b = e->_range_buffer.get_newest().time_us; e->setRangeData(rangeSample{t, 1.f, 100}); if (e->_range_buffer.get_newest().time_us != b) n++; }
	if (n < 20) { std::printf("%d stored\\n", n); return 1; }
	return 0;
}
''', srcs=EK, shim=True, flags='-O0')
make('b16','S02',[[I,"""			_gps_yaw_offset = gps.yaw_offset;

		} else {
			_gps_yaw_offset = 0.0f;
		}
""","""			_gps_yaw_offset = gps.yaw_offset;
		}
"""]],
 'a GPS receiver that stops reporting the antenna offset','The last reported antenna yaw offset stays in force after the receiver stops reporting one.',
 H+'''int main() {
	Ekf *e = new Ekf; uint64_t t = 1000000; gps_message g{}; g.fix_type = 3; g.yaw = NAN; g.yaw_offset = 0.5f;
	for (int i = 0; i < 400; i++) { t += 5000; e->setIMUData(imu(t)); g.time_usec = t; if (i == 200) g.yaw_offset = NAN; if (i % 40 == 0) e->setGpsData(g); }
	if (e->_gps_yaw_offset != 0.f) { std::printf("%f\\n", (double)e->_gps_yaw_offset); return 1; }
	return 0;
}
''', srcs=EK, shim=True, flags='-O0')
make('b17','S04',[[I,"	if (_params.fusion_mode & (MASK_USE_EVPOS | MASK_USE_EVYAW | MASK_USE_EVVEL)) {\n		max","	if (_params.fusion_mode & (MASK_USE_EVPOS | MASK_USE_EVYAW)) {\n		max"]],
 'external vision used for velocity only','The delay of external vision is ignored when only its velocity is used: the IMU history is too short for it.',
 H+'''int main() {
	Ekf *e = new Ekf; e->getParamHandle()->fusion_mode = MASK_USE_EVVEL; e->getParamHandle()->ev_delay_ms = 250.f;
	uint64_t t = 1000000; for (int i = 0; i < 10; i++) { t += 5000; e->setIMUData(imu(t)); }
	if (e->_imu_buffer_length * 10 < 250) { std::printf("%d\\n", e->_imu_buffer_length); return 1; }
	return 0;
}
''', srcs=EK, shim=True, flags='-O0')
make('b18','S05',[[I,"""	} else {
		_time_last_move_detect_us = imu.time_us;
		return false;
	}""","""	} else {
		return false;
	}"""]],
 'a landing after more than a second of flight','The rest detection does not restart in the air, so the vehicle is at rest the moment it is reported landed.',
 H+'''int main() {
	Ekf *e = new Ekf; uint64_t t = 1000000;
	for (int i = 0; i < 100; i++) { t += 5000; e->setIMUData(imu(t)); }
	e->set_in_air_status(true);
	for (int i = 0; i < 1000; i++) { t += 5000; imuSample s = imu(t); e->setIMUData(s); }
	e->set_in_air_status(false); t += 5000; e->setIMUData(imu(t));
	if (e->isVehicleAtRest()) { std::printf("at rest\\n"); return 1; }
	return 0;
}
''', srcs=EK, shim=True, flags='-O0')
