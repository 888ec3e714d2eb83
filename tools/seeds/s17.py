import sys, os; sys.path.insert(0,os.path.dirname(os.path.abspath(__file__)))
from s6 import mk, H, HP, I
if __name__ == '__main__':
    mk('b86','P03',[['EKF/estimator_interface.h',"	bool _deadreckon_time_exceeded{true};	// true","	bool _deadreckon_time_exceeded{false};	// true"]],
     'the state asked for before the first update','A new estimator calls its local position valid before anything has been measured.',
     H+'''int main() {
	Ekf *e = new Ekf; if (e->local_position_is_valid()) { std::printf("new\\n"); return 1; }
	e->init(0); if (e->local_position_is_valid()) { std::printf("initialised\\n"); return 1; }
	return 0;
}
''')
    mk('b87','P03',[['EKF/ekf.h',"	bool _is_yaw_fusion_inhibited{false};		","	bool _is_yaw_fusion_inhibited{true};		"],
                    ['EKF/ekf.h',"	Vector2f _accel_lpf_NE;			","	Vector2f _accel_lpf_NE{0.5f, 0.f};			"]] if 0 else
     [['EKF/estimator_interface.h',"	bool _auxvel_buffer_fail{false};","	bool _auxvel_buffer_fail{true};"]],
     'a source of velocity beside the usual sensors (a landing target)','A new estimator believes that its buffer for auxiliary velocity could not be had, and never takes a sample of it.',
     H+'''int main() {
	Ekf *e = new Ekf; step(e, 50);
	auxVelSample s{}; s.time_us = t; s.vel = Vector3f(1.f, 2.f, 3.f); s.velVar = Vector3f(1.f, 1.f, 1.f); e->setAuxVelData(s);
	if (e->_auxvel_buffer_fail || e->_auxvel_buffer.get_length() < 2 || e->_auxvel_buffer.get_newest().vel(1) != 2.f) { std::printf("not taken\\n"); return 1; }
	return 0;
}
''')
    mk('b88','T01',[['EKF/terrain_estimator.cpp',"				* (sq(_state.vel(0)) + sq(_state.vel(1)));","				* _state.vel.norm_squared();"]],
     'a climb or descent while the terrain height is estimated','The terrain is taken to change with the whole speed, also when the vehicle moves straight up or down above it.',
     H+'''int main() {
	Ekf *e = new Ekf; step(e, 400);
	for (float vz : {0.f, 5.f}) {
		e->_terrain_initialised = true; e->_control_status.flags.in_air = true; e->_terrain_var = 1.f; e->_terrain_vpos = 100.f;
		e->_state.vel = Vector3f(0.f, 0.f, vz); e->_state.pos(2) = 0.f; e->_imu_sample_delayed.delta_vel_dt = 0.01f; e->_params.terrain_gradient = 10.f; e->_params.terrain_p_noise = 5.f;
		e->_params.terrain_fusion_mode = 0;
		e->runTerrainEstimator();
		if (fabsf(e->_terrain_var - 1.0025f) > 1e-4f) { std::printf("%f: %f\\n", (double)vz, (double)e->_terrain_var); return 1; }
	}
	return 0;
}
''')
