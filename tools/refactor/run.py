# behaviour-preserving edits aimed at the checks of P03, P04 and P05
R = {
    'static': [('EKF/mag_fusion.cpp', '	const float SA2 = SA0*q0 + SA1*q1;\n	const float SA3 = sq(q0) + sq(q1) - sq(q2) - sq(q3);', '	static const float one = 1.0f;\n	static const Vector3f unused_axis{0.f, 0.f, one};\n	static constexpr float table[3] = {1.f, 2.f, 3.f};\n	const float SA2 = (SA0*q0 + SA1*q1) * table[0];\n	const float SA3 = sq(q0) + sq(q1) - sq(q2) - sq(q3) * unused_axis(2);')],
    'late': [('EKF/vel_pos_fusion.cpp', "bool Ekf::fuseHorizontalVelocity(const Vector3f &innov, const Vector2f &innov_gate, const Vector3f &obs_var,\n				 Vector3f &innov_var, Vector2f &test_ratio)\n{", "bool Ekf::fuseHorizontalVelocity(const Vector3f &innov, const Vector2f &innov_gate, const Vector3f &obs_var,\n				 Vector3f &innov_var, Vector2f &test_ratio)\n{\n	float unused;\n\n	if (innov_gate(0) > 1.f) {\n		unused = innov_gate(0);\n\n	} else {\n		unused = 1.f;\n	}\n\n	(void)unused;\n")],
    'loop': [('EKF/ekf_helper.cpp', '	for (uint8_t i = 0; i < _output_buffer.get_length(); i++) {\n		_output_buffer[i].pos(2)', '	const int n = _output_buffer.get_length();\n	int i = n;\n\n	while (i-- > 0) {\n		_output_buffer[i].pos(2)')],
    'powf': [('EKF/utils.hpp', '		float ret;\n		if (exp > 0) {\n			ret = x;\n			for (int count = 1; count < exp; count++) {\n				ret *= x;\n			}\n			return ret;\n		} else if (exp < 0) {\n			return 1.0f / ecl::powf(x, -exp);\n		}\n		return 1.0f;', '		const bool invert = exp < 0;\n		int n = invert ? -exp : exp;\n		float ret = 1.0f;\n\n		while (n > 0) {\n			ret *= x;\n			n--;\n		}\n\n		return invert ? 1.0f / ret : ret;')],
    'members': [('EKF/ekf.h', '	bool _inhibit_flow_use{false};', '	bool _inhibit_flow_use = false;'), ('EKF/EKFGSF_yaw.h', '	bool _vel_data_updated{};', '	bool _vel_data_updated = {false};')],
}
