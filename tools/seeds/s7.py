import sys, os; sys.path.insert(0,os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
from s6 import mk, H, HP, I
MC='EKF/mag_control.cpp'
if __name__ == '__main__':
    mk('b25','C07',[[HP,"		yaw_new = -atan2f(mag_earth_pred(1), mag_earth_pred(0)) + getMagDeclination();","		yaw_new = -atan2f(mag_earth_pred(1), mag_earth_pred(0)) + (increase_yaw_var ? getMagDeclination() : 0.0f);"]],
     'the very first heading, at a place with declination','The initial heading (the one that does not add yaw variance) ignores the magnetic declination.',
     H+'''int main() {
	Ekf *e = new Ekf; e->getParamHandle()->mag_declination_source = 0; e->getParamHandle()->mag_declination_deg = 20.f; 
	for (int i = 0; i < 4000 && !e->_filter_initialised; i++) step(e, 1);
	float y = Eulerf(e->_state.quat_nominal)(2); if (fabsf(y - 0.349f) > 0.02f) { std::printf("%f\\n", (double)y); return 1; }
	return 0;
}
''')
    mk('b26','C07',[[HP,"""			_output_buffer[i].quat_nominal = _state_reset_status.quat_change * _output_buffer[i].quat_nominal;
		}
""","""			_output_buffer[i].quat_nominal = _output_buffer[i].quat_nominal * _state_reset_status.quat_change;
		}
"""]],
     'a yaw reset of a tilted vehicle','The yaw change is applied to the stored outputs in the body frame instead of the earth frame.',
     H+'''int main() {
	Ekf *e = new Ekf; step(e, 1000); Quatf q(Eulerf(0.5f, 0.4f, 0.3f)); e->_state.quat_nominal = q; for (int i = 0; i < e->_output_buffer.get_length(); i++) e->_output_buffer[i].quat_nominal = q; e->_output_new.quat_nominal = q;
	e->resetQuatStateYaw(1.5f, 0.01f, true);
	for (int i = 0; i < e->_output_buffer.get_length(); i++) for (int k = 0; k < 4; k++) if (fabsf(fabsf(e->_output_buffer[i].quat_nominal(k)) - fabsf(e->_state.quat_nominal(k))) > 1e-3f) { std::printf("element %d\\n", i); return 1; }
	return 0;
}
''')
    mk('b27','C02',[[MC,"		_mag_yaw_reset_req = !has_realigned_yaw;\n	}\n}\n\nbool Ekf::canResetMagHeading() const","		_mag_yaw_reset_req = false;\n	}\n}\n\nbool Ekf::canResetMagHeading() const"]],
     'a yaw reset requested on the ground while the magnetic field is disturbed','A requested yaw reset is dropped, instead of postponed, while the field is disturbed.',
     H+'''int main() {
	Ekf *e = new Ekf; step(e, 2000); e->_control_status.flags.yaw_align = true; e->_control_status.flags.mag_fault = false; e->_is_yaw_fusion_inhibited = false; e->_params.check_mag_strength = 1; e->_params.mag_fusion_type = MAG_FUSE_TYPE_HEADING;
	e->_mag_yaw_reset_req = true; e->_mag_data_ready = true; e->_mag_sample_delayed.mag = Vector3f(3.f, 0.f, 0.f);
	e->controlMagFusion();
	if (!e->_mag_yaw_reset_req) { std::printf("request lost\\n"); return 1; }
	return 0;
}
''')
    mk('b28','C02',[[HP,"""	if (!_control_status.flags.mag_3D) {
		stopMagHdgFusion();
		zeroMagCov();
		loadMagCovData();
		_control_status.flags.mag_3D = true;
	}""","""	if (!_control_status.flags.mag_3D) {
		stopMagHdgFusion();
		loadMagCovData();
		zeroMagCov();
		_control_status.flags.mag_3D = true;
	}"""]],
     '3-axis fusion starts again','The restored field covariance is zeroed, so that the field states are never corrected again.',
     H+'''int main() {
	Ekf *e = new Ekf; step(e, 2000); e->_control_status.flags.mag_3D = false; for (int i = 0; i < 4; i++) e->_saved_mag_bf_variance[i] = 0.01f;
	e->startMag3DFusion(); if (!(e->P(20, 20) > 0.005f)) { std::printf("%g\\n", (double)e->P(20, 20)); return 1; }
	return 0;
}
''')
