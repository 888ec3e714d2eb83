import sys; sys.path.insert(0,'/verif/tools')
from mkseed import make
GL='geo_lookup/geo_mag_declination.cpp'
DEM='''#include <cmath>
#include <cstdio>
#include <geo_lookup/geo_mag_declination.h>
#include <geo_lookup/geo_magnetic_tables.hpp>
int bad;
static void near(const char *w, double a, double b, double tol) { if (!(std::fabs(a - b) <= tol)) { std::printf("%%s: %%g expected %%g\\n", w, a, b); bad = 1; } }
int main() {
%s
	return bad;
}
'''
make('b01','G01',[[GL,"get_lookup_table_index(&min_lat, SAMPLING_MIN_LAT, SAMPLING_MAX_LAT)","get_lookup_table_index(&min_lat, SAMPLING_MIN_LAT, SAMPLING_MAX_LAT - SAMPLING_RES)"]],
 'a latitude above 80 deg','The northernmost row of cells is never interpolated: the field is frozen between 80 and 90 deg north.',
 DEM % '''	for (int i = 0; i < 37; i++) near("north pole row", get_mag_inclination_radians(90, -180 + 10 * i), inclination_table[18][i] * 1e-4, 1e-3);''', srcs=GL)
make('b02','G01',[[GL,"	if (lon < SAMPLING_MIN_LON) {\n		lon += 360;","	if (lon < SAMPLING_MIN_LON) {\n		lon += 350;"]],
 'a longitude written as less than -180 deg','Longitudes one turn west of the map are looked up ten degrees off.',
 DEM % '''	for (int lo = -350; lo < -180; lo += 7) near("wrapped", get_mag_declination_degrees(20, lo), get_mag_declination_degrees(20, lo + 360), 1e-3);''', srcs=GL)
make('b03','G03',[['geo_lookup/geo_magnetic_tables.hpp',"/* LAT:  70 */ {    135,  1078,  1978,  2775,","/* LAT:  70 */ {    135,  1078,  1987,  2775,"]],
 'a lookup between 60N and 80N, 170W and 150W','Two digits of one declination node are transposed; tests only reach 60 degrees north and have degrees of tolerance.',
 DEM % '''	near("node", declination_table[16][2], 1978, 0); near("lookup", get_mag_declination_radians(70, -160), 0.1978, 2e-4);''', srcs=GL)
make('b04','R02',[['EKF/RingBuffer.h',"				if (index == _head) {\n					_tail = _head;\n					_first_write = true;","				if (index == _head) {\n					_tail = _head;\n					_first_write = (_size == 1);"]],
 'the newest sample is taken from a buffer of more than one slot and more samples follow','Taking the newest sample no longer leaves the buffer empty: the consumed slot stays in the window as an entry with time stamp zero, capacity shrinks and get_oldest returns a sample that was already used.',
 '''#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <EKF/RingBuffer.h>
struct S { uint64_t time_us; int v; };
int main() {
	RingBuffer<S> b(3);
	S o{};
	b.push({1000000, 1});
	if (!b.pop_first_older_than(1000010, &o) || o.v != 1) return 2;
	b.push({1200000, 2});
	if (b.get_oldest().v != 2) { std::printf("oldest is not the only sample stored\\n"); return 1; }
	return 0;
}
''')
make('b05','A01',[['AlphaFilter/AlphaFilter.hpp',"		if (denominator > FLT_EPSILON) {\n			setAlpha(sample_interval / denominator);\n		}","		if (denominator > FLT_EPSILON) {\n			setAlpha(sample_interval / denominator);\n\n		} else {\n			_filter_state = T{};\n		}"]],
 'setParameters called with interval and time constant both zero','Reconfiguring with a degenerate time base throws the filter state away.',
 '''#include <AlphaFilter/AlphaFilter.hpp>
#include <cstdio>
int main() { AlphaFilter<float> f(0.5f); f.reset(3.f); f.setParameters(0.f, 0.f); if (f.getState() != 3.f) { std::printf("state lost\\n"); return 1; } return 0; }
''')
