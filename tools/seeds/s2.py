import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
from mkseed import make
G='geo/geo.cpp'
DEM='''#include <cmath>
#include <cstdio>
#include <geo/geo.h>
int bad;
static void near(const char *w, double a, double b, double tol) { if (!(std::fabs(a - b) <= tol)) { std::printf("%%s: %%.9g expected %%.9g\\n", w, a, b); bad = 1; } }
int main() {
%s
	return bad;
}
'''
make('b06','N02',[[G,"ref->cos_lat * cos_lat * cos_d_lon, -1.0,  1.0)","ref->cos_lat * cos_lat * cos_d_lon, 0.0,  1.0)"]],
 'a point more than a quarter of the globe away from the map reference','Points in the far hemisphere are projected as if they were a quarter turn away.',
 DEM % '''	map_projection_reference_s r{}; map_projection_init_timestamped(&r, 10, 20, 1); float x, y; map_projection_project(&r, 30, 130, &x, &y);
	double la, lo; map_projection_reproject(&r, x, y, &la, &lo); near("lat", la, 30, 1e-3); near("lon", lo, 130, 1e-3);''', srcs=G, shim=True)
make('b07','N04',[[G,"	float bearing_diff = wrap_pi(bearing_track - bearing_end);","	float bearing_diff = bearing_track - bearing_end;"]],
 'a southbound track whose bearing and the bearing to the end lie on different sides of +-180 degrees','Crossing the +-pi seam a position alongside the line is taken to be past its end.',
 DEM % '''	crosstrack_error_s e; double la = 46.95; int r = get_distance_to_line(&e, la, 7.9995, 47, 8.0001, 46.9, 7.9999); near("ret", r, 0, 0); near("past_end", e.past_end, 0, 0);
	r = get_distance_to_line(&e, la, 8.0005, 47, 7.9999, 46.9, 8.0001); near("past_end", e.past_end, 0, 0);''', srcs=G, shim=True)
make('b08','N05',[[G,"	double lat_next_rad = math::radians(lat_next);\n	double lon_next_rad = math::radians(lon_next);\n\n	double d_lat","	double lat_next_rad = math::radians(lat_next);\n	const float lon_next_rad = math::radians(lon_next);\n\n	double d_lat"]],
 'longitudes far from zero','The east component of the fast vector is off by up to a metre because an absolute longitude is rounded to single precision.',
 DEM % '''	float n, e; get_vector_to_next_waypoint_fast(0, 170.1234567, 0, 170.1234667, &n, &e); near("east", e, 6371000 * 1e-5 * M_PI / 180, 0.05);''', srcs=G, shim=True)
make('b09','N03',[[G,"	if (fabsf(dist) < FLT_EPSILON) {","	if (dist < FLT_EPSILON) {"]],
 'a negative distance along the line','A waypoint behind the start of a line (documented: distance can be negative) collapses onto the start.',
 DEM % '''	double la, lo; create_waypoint_from_line_and_dist(47, 8, 47.1, 8, -1000, &la, &lo); near("lat", la, 47 - 1000 / 6371000. * 180 / M_PI, 1e-6);''', srcs=G, shim=True)
