import sys; sys.path.insert(0,'.'); import os; sys.path.insert(0,os.path.dirname(os.path.abspath(__file__)))
from s6 import mk, H, HP, I
if __name__ == '__main__':
    mk('b48','V01',[['EKF/ekf_helper.cpp',"	state.slice<3, 1>(16, 0) = _state.mag_I;\n	state.slice<3, 1>(19, 0) = _state.mag_B;\n","	state.slice<3, 1>(16, 0) = _state.mag_B;\n	state.slice<3, 1>(19, 0) = _state.mag_I;\n"]],
     'a reader of the magnetic field entries of the state vector','The earth field and the magnetometer bias are handed out in each other\'s place in the state vector, which no longer matches the covariance reported beside it.',
     H+'''int main() {
	Ekf *e = new Ekf; step(e, 100); e->_state.mag_I = Vector3f(0.2f, 0.f, 0.4f); e->_state.mag_B = Vector3f(0.01f, 0.02f, 0.03f);
	auto v = e->getStateAtFusionHorizonAsVector();
	if (fabsf(v(16) - 0.2f) > 1e-6f || fabsf(v(21) - 0.03f) > 1e-6f) { std::printf("%.3f %.3f\\n", (double)v(16), (double)v(21)); return 1; }
	return 0;
}
''')
    mk('b49','V02',[['EKF/ekf_helper.cpp',"	if (_control_status.flags.ev_vel) {\n			vel_err_conservative","	else if (_control_status.flags.ev_vel) {\n			vel_err_conservative"]] if False else [['EKF/ekf_helper.cpp',"*hagl_max = fminf(rangefinder_hagl_max, flow_hagl_max);","*hagl_max = fmaxf(rangefinder_hagl_max, flow_hagl_max);"]],
     'flight on optical flow alone with a flow sensor and a range finder of different ranges','Relying on flow alone the vehicle is allowed to climb to the larger of the two ranges, where one of the sensors no longer measures.',
     H+'''int main() {
	Ekf *e = new Ekf; step(e, 100); e->set_rangefinder_limits(0.1f, 8.f); e->set_optical_flow_limits(5.f, 0.3f, 30.f);
	e->_control_status.flags.opt_flow = true; e->_control_status.flags.gps = false; e->_control_status.flags.rng_hgt = true;
	float vxy, vz, lo, hi; e->get_ekf_ctrl_limits(&vxy, &vz, &lo, &hi);
	if (!(hi <= 6.01f)) { std::printf("limit %.2f\\n", (double)hi); return 1; }
	return 0;
}
''')
    mk('b50','V03',[['EKF/ekf_helper.cpp',"""		_time_last_aiding = _time_last_imu - _params.no_aid_timeout_max;
""","""		_time_last_aiding = _time_last_imu;
"""]],
     'a loss of all aiding that lasts longer than the validity timeout but not than both timeouts together','The last aiding is stamped with the time at which it was found to be missing, the solution is reported as valid for the no-aid timeout longer than the parameter allows.',
     H+'''int main() {
	Ekf *e = new Ekf; step(e, 100); e->_time_last_imu = 100000000; e->_control_status.flags.gps = true;
	e->_time_last_hor_pos_fuse = e->_time_last_imu; e->update_deadreckoning_status();
	uint64_t t0 = e->_time_last_imu;
	for (int k = 0; k < 100; k++) { e->_time_last_imu += 100000; e->update_deadreckoning_status(); if (e->_deadreckon_time_exceeded) break; }
	long d = (long)(e->_time_last_imu - t0);
	if (d > (long)e->_params.valid_timeout_max + 200000) { std::printf("valid for %ld us\\n", d); return 1; }
	return 0;
}
''')
    mk('b51','V03',[['EKF/ekf_helper.cpp',"soln_status.flags.pos_horiz_abs = (_control_status.flags.gps || _control_status.flags.ev_pos) && (_fault_status.value == 0);","soln_status.flags.pos_horiz_abs = _control_status.flags.gps || (_control_status.flags.ev_pos && (_fault_status.value == 0));"]],
     'GPS aiding together with a numerical fault','A fault no longer invalidates the absolute position while GPS is used.',
     H+'''int main() {
	Ekf *e = new Ekf; step(e, 100); e->_control_status.flags.gps = true; e->_control_status.flags.ev_pos = false; e->_fault_status.value = 0; e->_fault_status.flags.bad_airspeed = true;
	uint16_t s; e->get_ekf_soln_status(&s);
	if (s & (1 << 4)) { std::printf("%04x\\n", s); return 1; }
	return 0;
}
''')
