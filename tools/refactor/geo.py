F = 'geo/geo.cpp'
_s = open('/repo/' + F).read()


def body(name):
    i = _s.index(name)
    return _s[i:_s.index('\n}\n', i) + 3]


def rep(name, *pairs):
    b = body(name); n = b
    for o, w in pairs:
        assert n.count(o) == 1, (name, o, n.count(o))
        n = n.replace(o, w)
    return (F, b, n)


R = {
'proj': [
  (F, body('int map_projection_project('), """static double arc_scale(double c)
{
	return (fabs(c) > 0) ? c / sin(c) : 1.0;
}

int map_projection_project(const struct map_projection_reference_s *ref, double lat, double lon, float *x, float *y)
{
	if (map_projection_initialized(ref)) {
		const double phi = math::radians(lat);
		const double d_lon = math::radians(lon) - ref->lon_rad;
		const double s = sin(phi);
		const double q = cos(phi);
		const double q_cos = q * cos(d_lon);

		const double c = acos(math::constrain(ref->cos_lat * q_cos + s * ref->sin_lat, -1.0,  1.0));
		const double k = arc_scale(c) * CONSTANTS_RADIUS_OF_EARTH;

		*x = static_cast<float>((s * ref->cos_lat - q_cos * ref->sin_lat) * k);
		*y = static_cast<float>(k * q * sin(d_lon));
		return 0;
	}

	return -1;
}
"""),
  (F, body('int map_projection_reproject('), """int map_projection_reproject(const struct map_projection_reference_s *ref, float x, float y, double *lat, double *lon)
{
	if (!map_projection_initialized(ref)) {
		return -1;
	}

	double lat_rad = ref->lat_rad;
	double lon_rad = ref->lon_rad;

	const double x_rad = (double)x / CONSTANTS_RADIUS_OF_EARTH;
	const double y_rad = (double)y / CONSTANTS_RADIUS_OF_EARTH;
	const double c = sqrt(x_rad * x_rad + y_rad * y_rad);

	if (c > 0) {
		const double sin_c = sin(c);
		const double cos_c = cos(c);

		lat_rad = asin(cos_c * ref->sin_lat + x_rad / c * sin_c * ref->cos_lat);
		lon_rad += atan2(y_rad * sin_c, ref->cos_lat * (c * cos_c) - ref->sin_lat * (x_rad * sin_c));
	}

	*lat = math::degrees(lat_rad);
	*lon = math::degrees(lon_rad);

	return 0;
}
"""),
  rep('int map_projection_init_timestamped(', ("""	ref->lat_rad = math::radians(lat_0);
	ref->lon_rad = math::radians(lon_0);
	ref->sin_lat = sin(ref->lat_rad);
	ref->cos_lat = cos(ref->lat_rad);

	ref->timestamp = timestamp;
	ref->init_done = true;
""", """	const double lat_rad = math::radians(lat_0);

	ref->timestamp = timestamp;
	ref->lon_rad = math::radians(lon_0);
	ref->lat_rad = lat_rad;
	ref->cos_lat = cos(lat_rad);
	ref->sin_lat = sin(lat_rad);

	ref->init_done = true;
""")),
  rep('int map_projection_reference(', ("""	if (!map_projection_initialized(ref)) {
		return -1;
	}

	*ref_lat_rad = ref->lat_rad;
	*ref_lon_rad = ref->lon_rad;

	return 0;""", """	const bool ok = map_projection_initialized(ref);

	if (ok) {
		*ref_lon_rad = ref->lon_rad;
		*ref_lat_rad = ref->lat_rad;
	}

	return ok ? 0 : -1;""")),
],
'dist': [
  (F, body('float get_distance_to_next_waypoint('), """static double central_angle(double lat_a, double lon_a, double lat_b, double lon_b)
{
	const double phi_a = math::radians(lat_a);
	const double phi_b = math::radians(lat_b);
	const double s_lat = sin(0.5 * (phi_b - phi_a));
	const double s_lon = sin(0.5 * (math::radians(lon_b) - math::radians(lon_a)));
	const double hav = s_lat * s_lat + cos(phi_a) * cos(phi_b) * s_lon * s_lon;

	return 2.0 * atan2(sqrt(hav), sqrt(1.0 - hav));
}

float get_distance_to_next_waypoint(double lat_now, double lon_now, double lat_next, double lon_next)
{
	return static_cast<float>(central_angle(lat_now, lon_now, lat_next, lon_next) * CONSTANTS_RADIUS_OF_EARTH);
}
"""),
  (F, body('float get_distance_to_point_global_wgs84('), """float get_distance_to_point_global_wgs84(double lat_now, double lon_now, float alt_now,
		double lat_next, double lon_next, float alt_next,
		float *dist_xy, float *dist_z)
{
	*dist_xy = get_distance_to_next_waypoint(lat_now, lon_now, lat_next, lon_next);
	*dist_z = fabsf(alt_now - alt_next);

	return sqrtf(*dist_xy * *dist_xy + *dist_z * *dist_z);
}
"""),
  rep('float mavlink_wpm_distance_to_point_local(', ("""	float dx = x_now - x_next;
	float dy = y_now - y_next;
	float dz = z_now - z_next;

	*dist_xy = sqrtf(dx * dx + dy * dy);
	*dist_z = fabsf(dz);

	return sqrtf(dx * dx + dy * dy + dz * dz);
""", """	const float dx = x_next - x_now;
	const float dy = y_next - y_now;
	const float dz = z_next - z_now;
	const float xy_sq = dx * dx + dy * dy;

	*dist_z = (dz < 0.0f) ? -dz : dz;
	*dist_xy = sqrtf(xy_sq);

	return sqrtf(xy_sq + dz * dz);
""")),
],
'bear': [
  rep('float get_bearing_to_next_waypoint(', ("""	const double cos_lat_next = cos(lat_next_rad);
	const double d_lon = math::radians(lon_next - lon_now);
""", """	const double d_lon = math::radians(lon_next) - math::radians(lon_now);
	const double cos_lat_next = cos(lat_next_rad);
	const double sin_lat_next = sin(lat_next_rad);
"""), ("sin(lat_next_rad) - sin(lat_now_rad) * cos_lat_next * cos(d_lon));", "sin_lat_next - cos(d_lon) * sin(lat_now_rad) * cos_lat_next);"),
   ("	return wrap_pi(atan2f(y, x));", "	const float bearing = atan2f(y, x);\n\n	return wrap_pi(bearing);")),
  rep('void\nget_vector_to_next_waypoint(', ("	const double d_lon = math::radians(lon_next) - math::radians(lon_now);", "	const double d_lon = math::radians(lon_next - lon_now);\n	const double cos_next = cos(lat_next_rad);"),
   ("sin(lat_now_rad) * cos(lat_next_rad) * cos(d_lon)", "cos_next * sin(lat_now_rad) * cos(d_lon)"), ("CONSTANTS_RADIUS_OF_EARTH * sin(d_lon) * cos(lat_next_rad)", "cos_next * sin(d_lon) * CONSTANTS_RADIUS_OF_EARTH")),
  rep('void\nget_vector_to_next_waypoint_fast(', ("""	double lat_now_rad = math::radians(lat_now);
	double lon_now_rad = math::radians(lon_now);
	double lat_next_rad = math::radians(lat_next);
	double lon_next_rad = math::radians(lon_next);

	double d_lat = lat_next_rad - lat_now_rad;
	double d_lon = lon_next_rad - lon_now_rad;
""", """	const double d_lat = math::radians(lat_next - lat_now);
	const double d_lon = math::radians(lon_next - lon_now);
"""), ("d_lon * cos(lat_now_rad)", "(cos(math::radians(lat_now)) * d_lon)")),
  rep('void add_vector_to_global_position(', ("""	double lat_now_rad = math::radians(lat_now);
	double lon_now_rad = math::radians(lon_now);

	*lat_res = math::degrees(lat_now_rad + (double)v_n / CONSTANTS_RADIUS_OF_EARTH);
	*lon_res = math::degrees(lon_now_rad + (double)v_e / (CONSTANTS_RADIUS_OF_EARTH * cos(lat_now_rad)));
""", """	const double radius_lat = CONSTANTS_RADIUS_OF_EARTH * cos(math::radians(lat_now));

	*lat_res = lat_now + math::degrees((double)v_n / CONSTANTS_RADIUS_OF_EARTH);
	*lon_res = lon_now + math::degrees((double)v_e / radius_lat);
""")),
  rep('void create_waypoint_from_line_and_dist(', ("""	if (fabsf(dist) < FLT_EPSILON) {
		*lat_target = lat_A;
		*lon_target = lon_A;
	} else {
		float heading = get_bearing_to_next_waypoint(lat_A, lon_A, lat_B, lon_B);
		waypoint_from_heading_and_distance(lat_A, lon_A, heading, dist, lat_target, lon_target);
	}
""", """	const bool moves = (dist >= FLT_EPSILON) || (dist <= -FLT_EPSILON);

	if (!moves) {
		*lat_target = lat_A;
		*lon_target = lon_A;
		return;
	}

	waypoint_from_heading_and_distance(lat_A, lon_A, get_bearing_to_next_waypoint(lat_A, lon_A, lat_B, lon_B), dist,
					   lat_target, lon_target);
""")),
  rep('void waypoint_from_heading_and_distance(', ("""	bearing = wrap_2pi(bearing);
	double radius_ratio""", """	const double heading = (double)wrap_2pi(bearing);
	double radius_ratio"""), ("cos((double)bearing));", "cos(heading));"), ("""	*lat_target = asin(""", """	const double lat = asin("""),
   ("""	*lon_target = lon_start_rad + atan2(sin((double)bearing) * sin(radius_ratio) * cos(lat_start_rad),
					    cos(radius_ratio) - sin(lat_start_rad) * sin(*lat_target));

	*lat_target = math::degrees(*lat_target);
	*lon_target = math::degrees(*lon_target);
""", """	const double east = cos(lat_start_rad) * sin(radius_ratio) * sin(heading);
	const double north = cos(radius_ratio) - sin(lat_start_rad) * sin(lat);

	*lat_target = math::degrees(lat);
	*lon_target = math::degrees(atan2(east, north) + lon_start_rad);
""")),
],
'line': [
  rep('int get_distance_to_line(', ("	int return_value = -1;	// Set error flag, cleared when valid result calculated.\n", ""),
   ("	if (bearing_diff > M_PI_2_F || bearing_diff < -M_PI_2_F) {\n		crosstrack_error->past_end = true;\n		return_value = 0;\n		return return_value;\n	}\n", "	crosstrack_error->past_end = fabsf(bearing_diff) > M_PI_2_F;\n\n	if (crosstrack_error->past_end) {\n		return 0;\n	}\n"),
   ("""	crosstrack_error->distance = (dist_to_end) * sinf(bearing_diff);

	if (sinf(bearing_diff) >= 0) {
		crosstrack_error->bearing = wrap_pi(bearing_track - M_PI_2_F);

	} else {
		crosstrack_error->bearing = wrap_pi(bearing_track + M_PI_2_F);
	}

	return_value = 0;

	return return_value;
""", """	const float side = sinf(bearing_diff);

	crosstrack_error->bearing = wrap_pi(bearing_track + ((side < 0) ? M_PI_2_F : -M_PI_2_F));
	crosstrack_error->distance = side * dist_to_end;

	return 0;
""")),
  rep('int get_distance_to_arc(', ("	int return_value = -1;		// Set error flag, cleared when valid result calculated.\n", ""), ("		return return_value;\n	}\n", "		return -1;\n	}\n"), ("	return_value = 0;\n\n	return return_value;\n", "	return 0;\n"),
   ("""		crosstrack_error->past_end = false;
		float dist_to_center = get_distance_to_next_waypoint(lat_now, lon_now, lat_center, lon_center);

		if (dist_to_center <= radius) {
			crosstrack_error->distance = radius - dist_to_center;
			crosstrack_error->bearing = bearing_now + M_PI_F;

		} else {
			crosstrack_error->distance = dist_to_center - radius;
			crosstrack_error->bearing = bearing_now;
		}
""", """		const float outside = get_distance_to_next_waypoint(lat_now, lon_now, lat_center, lon_center) - radius;

		crosstrack_error->distance = fabsf(outside);
		crosstrack_error->bearing = (outside > 0.0f) ? bearing_now : (bearing_now + M_PI_F);
"""),
   ("""		double start_disp_x = (double)radius * sin((double)arc_start_bearing);
		double start_disp_y = (double)radius * cos((double)arc_start_bearing);
		double end_disp_x = (double)radius * sin((double)wrap_pi(arc_start_bearing + arc_sweep));
		double end_disp_y = (double)radius * cos((double)wrap_pi(arc_start_bearing + arc_sweep));
		double lon_start = lon_center + start_disp_x / (111111.0 * cos(math::radians(lat_center)));
		double lat_start = lat_center + start_disp_y / 111111.0;
		double lon_end = lon_center + end_disp_x / (111111.0 * cos(math::radians(lat_center)));
		double lat_end = lat_center + end_disp_y / 111111.0;
""", """		const double metres_per_deg = 111111.0;
		const double metres_per_deg_lon = metres_per_deg * cos(math::radians(lat_center));
		const double arc_end_bearing = (double)wrap_pi(arc_start_bearing + arc_sweep);
		const double lon_start = lon_center + (double)radius * sin((double)arc_start_bearing) / metres_per_deg_lon;
		const double lat_start = lat_center + (double)radius * cos((double)arc_start_bearing) / metres_per_deg;
		const double lon_end = lon_center + (double)radius * sin(arc_end_bearing) / metres_per_deg_lon;
		const double lat_end = lat_center + (double)radius * cos(arc_end_bearing) / metres_per_deg;
"""),
   ("""		if (dist_to_start < dist_to_end) {
			crosstrack_error->distance = dist_to_start;
			crosstrack_error->bearing = get_bearing_to_next_waypoint(lat_now, lon_now, lat_start, lon_start);

		} else {
			crosstrack_error->past_end = true;
			crosstrack_error->distance = dist_to_end;
			crosstrack_error->bearing = get_bearing_to_next_waypoint(lat_now, lon_now, lat_end, lon_end);
		}
""", """		const bool end_is_nearer = dist_to_end <= dist_to_start;
		const double lat_near = end_is_nearer ? lat_end : lat_start;
		const double lon_near = end_is_nearer ? lon_end : lon_start;

		crosstrack_error->past_end = end_is_nearer;
		crosstrack_error->distance = end_is_nearer ? dist_to_end : dist_to_start;
		crosstrack_error->bearing = get_bearing_to_next_waypoint(lat_now, lon_now, lat_near, lon_near);
""")),
],
}
