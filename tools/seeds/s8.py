import sys, os; sys.path.insert(0,os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
from s6 import mk, H, HP, I
CO='EKF/covariance.cpp'
if __name__ == '__main__':
    mk('b29','F10',[[HP,"""	} else {
		q0 = -_state.quat_nominal(0);
		q1 = -_state.quat_nominal(1);
		q2 = -_state.quat_nominal(2);
		q3 = -_state.quat_nominal(3);
	}
	float t2 = q0*q0;""","""	} else {
		q0 = -_state.quat_nominal(0);
		q1 = -_state.quat_nominal(1);
		q2 = -_state.quat_nominal(2);
		q3 = _state.quat_nominal(3);
	}
	float t2 = q0*q0;"""]],
     'an attitude quaternion with a negative scalar part and a correlated attitude variance','The rotation variance about the vertical is computed with a wrong sign when the quaternion lies in the negative hemisphere.',
     H+'''int main() {
	Ekf *e = new Ekf; step(e, 1000); Quatf q(Eulerf(0.5f, 0.4f, 0.8f)); e->_state.quat_nominal = q; e->P(0, 3) = e->P(3, 0) = 0.02f; e->P(0, 0) = e->P(3, 3) = 0.05f;
	Vector3f a = e->calcRotVecVariances();
	for (int i = 0; i < 4; i++) e->_state.quat_nominal(i) = -q(i);
	Vector3f b = e->calcRotVecVariances();
	for (int i = 0; i < 3; i++) if (fabsf(a(i) - b(i)) > 1e-3f * fabsf(a(i))) { std::printf("%d: %g %g\\n", i, (double)a(i), (double)b(i)); return 1; }
	return 0;
}
''')
    mk('b30','F10',[[CO,"""		P(23,23) = R_TAS*sq(sin_yaw) + R_yaw*sq(Wx*cos_yaw - Wy*sin_yaw) + initial_wind_var_body_y*sq(cos_yaw);

		// Now add""","""		P(23,23) = R_TAS*sq(sin_yaw) + R_yaw*sq(Wx*cos_yaw + Wy*sin_yaw) + initial_wind_var_body_y*sq(cos_yaw);

		// Now add"""]],
     'wind across the nose while wind estimation starts at a heading off the axes','The east wind variance uses the wrong sign of the cross wind: it depends on the direction the wind blows from although the wind vector is the same.',
     H+'''int main() {
	Ekf *e = new Ekf; step(e, 1000); e->_state.quat_nominal = Quatf(Eulerf(0.f, 0.f, 0.8f)); e->_state.wind_vel(0) = 20.f; e->_state.wind_vel(1) = 0.f;
	e->_tas_data_ready = true; e->_airspeed_sample_delayed.time_us = e->_imu_sample_delayed.time_us; e->_airspeed_sample_delayed.true_airspeed = 0.f; e->_airspeed_sample_delayed.eas2tas = 1.f; e->P(5, 5) = 0.f; e->P(4, 4) = 0.f;
	e->resetWindCovariance();
	// a wind from the south: turning it by a small yaw moves it east by 20 m/s per rad
	float r = sq(math::constrain(e->_params.eas_noise, 0.5f, 5.0f)) * sq(sinf(0.8f)) + sq(math::radians(10.0f)) * 400.f;
	if (fabsf(e->P(23, 23) - r) > 0.01f * r) { std::printf("%g instead of %g\\n", (double)e->P(23, 23), (double)r); return 1; }
	return 0;
}
''')
