From a784946424cea49b3c9cf498a1e7b8b6e3bfb513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:20 +0000
Subject: [PATCH 01/23] fix: do not hand out a sample from an empty ring buffer

pop_first_older_than() looked at the slot under the head even when the buffer held
nothing. That slot has time stamp zero, so during the first 100 ms a query was
answered with a zeroed sample that was never pushed.
---
 EKF/RingBuffer.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/EKF/RingBuffer.h b/EKF/RingBuffer.h
index bc36fcb..5e9c3eb 100644
--- a/EKF/RingBuffer.h
+++ b/EKF/RingBuffer.h
@@ -119,6 +119,11 @@ public:
 
 	bool pop_first_older_than(const uint64_t &timestamp, data_type *sample)
 	{
+		if (_first_write) {
+			// nothing is stored, the slot at the head is not an observation
+			return false;
+		}
+
 		// start looking from newest observation data
 		for (uint8_t i = 0; i < _size; i++) {
 			int index = (_head - i);
-- 
2.43.0


From 78db1912389eb21bf3c5cf485b7f2b0cd39da730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:19 +0000
Subject: [PATCH 02/23] fix: lay out the end points of an arc around its center

---
 geo/geo.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/geo/geo.cpp b/geo/geo.cpp
index ec9e671..e8b7615 100644
--- a/geo/geo.cpp
+++ b/geo/geo.cpp
@@ -379,10 +379,10 @@ int get_distance_to_arc(struct crosstrack_error_s *crosstrack_error, double lat_
 		double start_disp_y = (double)radius * cos((double)arc_start_bearing);
 		double end_disp_x = (double)radius * sin((double)wrap_pi(arc_start_bearing + arc_sweep));
 		double end_disp_y = (double)radius * cos((double)wrap_pi(arc_start_bearing + arc_sweep));
-		double lon_start = lon_now + start_disp_x / 111111.0;
-		double lat_start = lat_now + start_disp_y * cos(lat_now) / 111111.0;
-		double lon_end = lon_now + end_disp_x / 111111.0;
-		double lat_end = lat_now + end_disp_y * cos(lat_now) / 111111.0;
+		double lon_start = lon_center + start_disp_x / (111111.0 * cos(math::radians(lat_center)));
+		double lat_start = lat_center + start_disp_y / 111111.0;
+		double lon_end = lon_center + end_disp_x / (111111.0 * cos(math::radians(lat_center)));
+		double lat_end = lat_center + end_disp_y / 111111.0;
 		float dist_to_start = get_distance_to_next_waypoint(lat_now, lon_now, lat_start, lon_start);
 		float dist_to_end = get_distance_to_next_waypoint(lat_now, lon_now, lat_end, lon_end);
 
-- 
2.43.0


From 420616497113436d2e5a32f8517629e5899c9a12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:19 +0000
Subject: [PATCH 03/23] fix: compare the position's bearing from the center
 with the arc sector

---
 geo/geo.cpp | 34 ++++------------------------------
 1 file changed, 4 insertions(+), 30 deletions(-)

diff --git a/geo/geo.cpp b/geo/geo.cpp
index e8b7615..c73c723 100644
--- a/geo/geo.cpp
+++ b/geo/geo.cpp
@@ -309,8 +309,6 @@ int get_distance_to_arc(struct crosstrack_error_s *crosstrack_error, double lat_
 
 	// Determine if the current position is inside or outside the sector between the line from the center
 	// to the arc start and the line from the center to the arc end
-	float bearing_sector_start = 0.0f;
-	float bearing_sector_end = 0.0f;
 	float bearing_now = get_bearing_to_next_waypoint(lat_now, lon_now, lat_center, lon_center);
 
 	int return_value = -1;		// Set error flag, cleared when valid result calculated.
@@ -323,34 +321,10 @@ int get_distance_to_arc(struct crosstrack_error_s *crosstrack_error, double lat_
 		return return_value;
 	}
 
-	if (arc_sweep >= 0.0f) {
-		bearing_sector_start = arc_start_bearing;
-		bearing_sector_end = arc_start_bearing + arc_sweep;
-
-		if (bearing_sector_end > 2.0f * M_PI_F) { bearing_sector_end -= (2 * M_PI_F); }
-
-	} else {
-		bearing_sector_end = arc_start_bearing;
-		bearing_sector_start = arc_start_bearing - arc_sweep;
-
-		if (bearing_sector_start < 0.0f) { bearing_sector_start += (2 * M_PI_F); }
-	}
-
-	bool in_sector = false;
-
-	// Case where sector does not span zero
-	if (bearing_sector_end >= bearing_sector_start && bearing_now >= bearing_sector_start
-	    && bearing_now <= bearing_sector_end) {
-
-		in_sector = true;
-	}
-
-	// Case where sector does span zero
-	if (bearing_sector_end < bearing_sector_start && (bearing_now > bearing_sector_start
-			|| bearing_now < bearing_sector_end)) {
-
-		in_sector = true;
-	}
+	// bearing from the center to the current position, relative to the arc start and counted in the direction of the sweep
+	const float bearing_from_start = bearing_now + M_PI_F - arc_start_bearing;
+	const float bearing_swept = wrap_2pi((arc_sweep >= 0.0f) ? bearing_from_start : -bearing_from_start);
+	const bool in_sector = bearing_swept <= fabsf(arc_sweep);
 
 	// If in the sector then calculate distance and bearing to closest point
 	if (in_sector) {
-- 
2.43.0


From 202cceea5b493420637f7f9f9d046564a179da08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:02 +0000
Subject: [PATCH 04/23] fix: propagate the velocity variance with the heading
 the wind estimator starts from

---
 airdata/WindEstimator.cpp             | 12 +++++-------
 airdata/python/wind_est_derivation.py |  2 +-
 2 files changed, 6 insertions(+), 8 deletions(-)

diff --git a/airdata/WindEstimator.cpp b/airdata/WindEstimator.cpp
index f755893..acdf8d6 100644
--- a/airdata/WindEstimator.cpp
+++ b/airdata/WindEstimator.cpp
@@ -63,16 +63,14 @@ WindEstimator::initialise(const matrix::Vector3f &velI, const matrix::Vector2f &
 	float L1 = v_n * v_n;
 	float L2 = L0 + L1;
 	float L3 = tas_meas / (L2 * sqrtf(L2));
-	float L4 = L3 * v_e * v_n + 1.0f;
-	float L5 = 1.0f / sqrtf(L2);
-	float L6 = -L5 * tas_meas;
+	float L4 = L3 * v_e * v_n;
 
 	matrix::Matrix3f L;
 	L.setZero();
-	L(0, 0) = L4;
-	L(0, 1) = L0 * L3 + L6;
-	L(1, 0) = L1 * L3 + L6;
-	L(1, 1) = L4;
+	L(0, 0) = 1.0f - L0 * L3;
+	L(0, 1) = L4;
+	L(1, 0) = L4;
+	L(1, 1) = 1.0f - L1 * L3;
 	L(2, 2) = 1.0f;
 
 	// get an estimate of the state covariance matrix given the estimated variance of ground velocity
diff --git a/airdata/python/wind_est_derivation.py b/airdata/python/wind_est_derivation.py
index e05d580..a51e72e 100644
--- a/airdata/python/wind_est_derivation.py
+++ b/airdata/python/wind_est_derivation.py
@@ -172,7 +172,7 @@ write_simplified(P_m_simple, "beta_fusion.txt", "P_next")
 # wind covariance initialisation via velocity
 
 # estimate heading from ground velocity
-heading_est = atan2(v_n, v_e)
+heading_est = atan2(v_e, v_n)
 
 # calculate wind speed estimate from vehicle ground velocity, heading and
 # airspeed measurement
-- 
2.43.0


From e1d4cfc455315bf6add5d49f1be0c0f0b2a8836d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:26 +0000
Subject: [PATCH 05/23] fix: subtract the sensor delays from time stamps in
 integer arithmetic

---
 EKF/estimator_interface.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/EKF/estimator_interface.cpp b/EKF/estimator_interface.cpp
index d94cd57..2662d04 100644
--- a/EKF/estimator_interface.cpp
+++ b/EKF/estimator_interface.cpp
@@ -153,7 +153,7 @@ void EstimatorInterface::setMagData(const magSample &mag_sample)
 
 		// Use the time in the middle of the downsampling interval for the sample
 		mag_sample_new.time_us = 1000 * (_mag_timestamp_sum / _mag_sample_count);
-		mag_sample_new.time_us -= _params.mag_delay_ms * 1000;
+		mag_sample_new.time_us -= static_cast<int64_t>(_params.mag_delay_ms * 1000);
 		mag_sample_new.time_us -= FILTER_UPDATE_PERIOD_MS * 1000 / 2;
 
 		mag_sample_new.mag = _mag_data_sum / _mag_sample_count;
@@ -192,7 +192,7 @@ void EstimatorInterface::setGpsData(const gps_message &gps)
 
 		gpsSample gps_sample_new;
 
-		gps_sample_new.time_us = gps.time_usec - _params.gps_delay_ms * 1000;
+		gps_sample_new.time_us = gps.time_usec - static_cast<int64_t>(_params.gps_delay_ms * 1000);
 		gps_sample_new.time_us -= FILTER_UPDATE_PERIOD_MS * 1000 / 2;
 
 		gps_sample_new.vel = gps.vel_ned;
@@ -264,7 +264,7 @@ void EstimatorInterface::setBaroData(const baroSample &baro_sample)
 
 		// Use the time in the middle of the downsampling interval for the sample
 		baro_sample_new.time_us = 1000 * (_baro_timestamp_sum / _baro_sample_count);
-		baro_sample_new.time_us -= _params.baro_delay_ms * 1000;
+		baro_sample_new.time_us -= static_cast<int64_t>(_params.baro_delay_ms * 1000);
 		baro_sample_new.time_us -= FILTER_UPDATE_PERIOD_MS * 1000 / 2;
 
 		_baro_buffer.push(baro_sample_new);
@@ -298,7 +298,7 @@ void EstimatorInterface::setAirspeedData(const airspeedSample &airspeed_sample)
 
 		airspeedSample airspeed_sample_new = airspeed_sample;
 
-		airspeed_sample_new.time_us -= _params.airspeed_delay_ms * 1000;
+		airspeed_sample_new.time_us -= static_cast<int64_t>(_params.airspeed_delay_ms * 1000);
 		airspeed_sample_new.time_us -= FILTER_UPDATE_PERIOD_MS * 1000 / 2;
 
 		_airspeed_buffer.push(airspeed_sample_new);
@@ -327,7 +327,7 @@ void EstimatorInterface::setRangeData(const rangeSample &range_sample)
 		_time_last_range = range_sample.time_us;
 
 		rangeSample range_sample_new = range_sample;
-		range_sample_new.time_us -= _params.range_delay_ms * 1000;
+		range_sample_new.time_us -= static_cast<int64_t>(_params.range_delay_ms * 1000);
 		range_sample_new.time_us -= FILTER_UPDATE_PERIOD_MS * 1000 / 2;
 
 		_range_buffer.push(range_sample_new);
@@ -357,7 +357,7 @@ void EstimatorInterface::setOpticalFlowData(const flowSample &flow)
 
 		flowSample optflow_sample_new = flow;
 
-		optflow_sample_new.time_us -= _params.flow_delay_ms * 1000;
+		optflow_sample_new.time_us -= static_cast<int64_t>(_params.flow_delay_ms * 1000);
 		optflow_sample_new.time_us -= FILTER_UPDATE_PERIOD_MS * 1000 / 2;
 
 		_flow_buffer.push(optflow_sample_new);
@@ -388,7 +388,7 @@ void EstimatorInterface::setExtVisionData(const extVisionSample &evdata)
 
 		extVisionSample ev_sample_new = evdata;
 		// calculate the system time-stamp for the mid point of the integration period
-		ev_sample_new.time_us -= _params.ev_delay_ms * 1000;
+		ev_sample_new.time_us -= static_cast<int64_t>(_params.ev_delay_ms * 1000);
 		ev_sample_new.time_us -= FILTER_UPDATE_PERIOD_MS * 1000 / 2;
 
 		_ext_vision_buffer.push(ev_sample_new);
@@ -418,7 +418,7 @@ void EstimatorInterface::setAuxVelData(const auxVelSample &auxvel_sample)
 
 		auxVelSample auxvel_sample_new = auxvel_sample;
 
-		auxvel_sample_new.time_us -= _params.auxvel_delay_ms * 1000;
+		auxvel_sample_new.time_us -= static_cast<int64_t>(_params.auxvel_delay_ms * 1000);
 		auxvel_sample_new.time_us -= FILTER_UPDATE_PERIOD_MS * 1000 / 2;
 
 		_auxvel_buffer.push(auxvel_sample_new);
-- 
2.43.0


From 86d5721de08a3584e34939eb53c4f8b1c60c0a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:17 +0000
Subject: [PATCH 06/23] fix: keep at least two entries in the observation
 buffers and size them without wrap-around

---
 EKF/estimator_interface.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/EKF/estimator_interface.cpp b/EKF/estimator_interface.cpp
index 2662d04..13e916f 100644
--- a/EKF/estimator_interface.cpp
+++ b/EKF/estimator_interface.cpp
@@ -511,10 +511,11 @@ bool EstimatorInterface::initialise_interface(uint64_t timestamp)
 	// with the worst case delay from current time to ekf fusion time
 	// allow for worst case 50% extension of the ekf fusion time horizon delay due to timing jitter
 	const float ekf_delay_ms = max_time_delay_ms * 1.5f;
-	_obs_buffer_length = ceilf(ekf_delay_ms / _params.sensor_interval_min_ms);
+	const float obs_buffer_length = ceilf(ekf_delay_ms / _params.sensor_interval_min_ms);
 
 	// limit to be no longer than the IMU buffer (we can't process data faster than the EKF prediction rate)
-	_obs_buffer_length = math::min(_obs_buffer_length, _imu_buffer_length);
+	// at least two observations are required to define the minimum interval between them
+	_obs_buffer_length = math::max(math::min(obs_buffer_length, (float)_imu_buffer_length), 2.0f);
 
 	if (!_imu_buffer.allocate(_imu_buffer_length) || !_output_buffer.allocate(_imu_buffer_length) || !_output_vert_buffer.allocate(_imu_buffer_length)) {
 		printBufferAllocationFailed("IMU and output");
-- 
2.43.0


From 124333e5649f123b13c820e9bf71a69e7603594a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:56 +0000
Subject: [PATCH 07/23] fix: make the fault status value cover all of its flags

---
 EKF/common.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/EKF/common.h b/EKF/common.h
index 28ec23a..37f3c85 100644
--- a/EKF/common.h
+++ b/EKF/common.h
@@ -407,7 +407,7 @@ union fault_status_u {
 		bool bad_acc_vertical: 1; ///< 16 - true if bad vertical accelerometer data has been detected
 		bool bad_acc_clipping: 1; ///< 17 - true if delta velocity data contains clipping (asymmetric railing)
 	} flags;
-	uint16_t value;
+	uint32_t value;
 
 };
 
-- 
2.43.0


From 3a3e92de5e3b9185bba3cb8b2dd1ca5d2ccb3dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:20 +0000
Subject: [PATCH 08/23] fix: initialise the solution status before setting its
 flags

---
 EKF/ekf_helper.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/EKF/ekf_helper.cpp b/EKF/ekf_helper.cpp
index 24e8c87..b00cc18 100644
--- a/EKF/ekf_helper.cpp
+++ b/EKF/ekf_helper.cpp
@@ -960,7 +960,7 @@ void Ekf::get_innovation_test_status(uint16_t &status, float &mag, float &vel, f
 // return a bitmask integer that describes which state estimates are valid
 void Ekf::get_ekf_soln_status(uint16_t *status) const
 {
-	ekf_solution_status soln_status;
+	ekf_solution_status soln_status{};
 	// TODO: Is this accurate enough?
 	soln_status.flags.attitude = _control_status.flags.tilt_align && _control_status.flags.yaw_align && (_fault_status.value == 0);
 	soln_status.flags.velocity_horiz = (isHorizontalAidingActive() || (_control_status.flags.fuse_beta && _control_status.flags.fuse_aspd)) && (_fault_status.value == 0);
-- 
2.43.0


From a99f108315a83ea1a513a0a584c09e9e60d156da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:34 +0000
Subject: [PATCH 09/23] fix: start the wind variance from the square of the
 wind uncertainty

---
 EKF/covariance.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/EKF/covariance.cpp b/EKF/covariance.cpp
index 94bafce..05c10d0 100644
--- a/EKF/covariance.cpp
+++ b/EKF/covariance.cpp
@@ -1116,6 +1116,6 @@ void Ekf::resetWindCovariance()
 
 	} else {
 		// without airspeed, start with a small initial uncertainty to improve the initial estimate
-		P.uncorrelateCovarianceSetVariance<2>(22, _params.initial_wind_uncertainty);
+		P.uncorrelateCovarianceSetVariance<2>(22, sq(_params.initial_wind_uncertainty));
 	}
 }
-- 
2.43.0


From f7f7ec494e2678f70a8a0aa59a87e40e75d75156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:41 +0000
Subject: [PATCH 10/23] fix: report rejected magnetometer axes in the
 magnetometer bits

---
 EKF/mag_fusion.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/EKF/mag_fusion.cpp b/EKF/mag_fusion.cpp
index 9d3a55a..ce152b4 100644
--- a/EKF/mag_fusion.cpp
+++ b/EKF/mag_fusion.cpp
@@ -176,10 +176,10 @@ void Ekf::fuseMag()
 
 		if (_mag_test_ratio(index) > 1.0f) {
 			all_innovation_checks_passed = false;
-			_innov_check_fail_status.value |= (1 << (index + 3));
+			_innov_check_fail_status.value |= (1 << (index + 4));
 
 		} else {
-			_innov_check_fail_status.value &= ~(1 << (index + 3));
+			_innov_check_fail_status.value &= ~(1 << (index + 4));
 		}
 	}
 
-- 
2.43.0


From 92f61f09d5bb5e9ab75f608e7a43e7e7587bbd34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:41 +0000
Subject: [PATCH 11/23] fix: report rejected optical flow axes in the optical
 flow bits

---
 EKF/optflow_fusion.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/EKF/optflow_fusion.cpp b/EKF/optflow_fusion.cpp
index a5b5415..58c0fe3 100644
--- a/EKF/optflow_fusion.cpp
+++ b/EKF/optflow_fusion.cpp
@@ -245,10 +245,10 @@ void Ekf::fuseOptFlow()
 	for (uint8_t obs_index = 0; obs_index <= 1; obs_index++) {
 		if (test_ratio[obs_index] > 1.0f) {
 			flow_fail = true;
-			_innov_check_fail_status.value |= (1 << (obs_index + 10));
+			_innov_check_fail_status.value |= (1 << (obs_index + 11));
 
 		} else {
-			_innov_check_fail_status.value &= ~(1 << (obs_index + 10));
+			_innov_check_fail_status.value &= ~(1 << (obs_index + 11));
 
 		}
 	}
-- 
2.43.0


From f88c57d7cd1bf70b3e4e4963748c04c7cc409776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:16 +0000
Subject: [PATCH 12/23] fix: compute the gains of the second optical flow axis
 from the covariance left by the first

---
 EKF/optflow_fusion.cpp | 36 +++++++++++++++++++++++++++---------
 1 file changed, 27 insertions(+), 9 deletions(-)

diff --git a/EKF/optflow_fusion.cpp b/EKF/optflow_fusion.cpp
index 58c0fe3..a4bd347 100644
--- a/EKF/optflow_fusion.cpp
+++ b/EKF/optflow_fusion.cpp
@@ -232,7 +232,6 @@ void Ekf::fuseOptFlow()
 		initialiseCovariance();
 		return;
 	}
-	const float HK95 = HK4/_flow_innov_var(1);
 
 
 	// run the innovation consistency check and record result
@@ -289,6 +288,25 @@ void Ekf::fuseOptFlow()
 			}
 
 		} else {
+			// recalculate the innovation variance and the gains because the covariance has changed due to the previous fusion
+			const float HKY87 = HK80*P(0,0) + HK81*P(0,1) + HK82*P(0,2) + HK83*P(0,3) + HK84*P(0,4) + HK85*P(0,5) + HK86*P(0,6);
+			const float HKY88 = HK80*P(0,6) + HK81*P(1,6) + HK82*P(2,6) + HK83*P(3,6) + HK84*P(4,6) + HK85*P(5,6) + HK86*P(6,6);
+			const float HKY89 = HK80*P(0,5) + HK81*P(1,5) + HK82*P(2,5) + HK83*P(3,5) + HK84*P(4,5) + HK85*P(5,5) + HK86*P(5,6);
+			const float HKY90 = HK80*P(0,4) + HK81*P(1,4) + HK82*P(2,4) + HK83*P(3,4) + HK84*P(4,4) + HK85*P(4,5) + HK86*P(4,6);
+			const float HKY91 = HK80*P(0,2) + HK81*P(1,2) + HK82*P(2,2) + HK83*P(2,3) + HK84*P(2,4) + HK85*P(2,5) + HK86*P(2,6);
+			const float HKY93 = HK80*P(0,3) + HK81*P(1,3) + HK82*P(2,3) + HK83*P(3,3) + HK84*P(3,4) + HK85*P(3,5) + HK86*P(3,6);
+			const float HKY94 = HK80*P(0,1) + HK81*P(1,1) + HK82*P(1,2) + HK83*P(1,3) + HK84*P(1,4) + HK85*P(1,5) + HK86*P(1,6);
+
+			_flow_innov_var(1) = (HK43*HK74*HKY90 + HK43*HK77*HKY89 + HK43*HK79*HKY88 + HK43*HK80*HKY87 + HK66*HK92*HKY94 + HK68*HKY91*HK92 + HK70*HK92*HKY93 + R_LOS);
+
+			if (_flow_innov_var(1) < R_LOS) {
+				// we need to reinitialise the covariance matrix and abort this fusion step
+				initialiseCovariance();
+				return;
+			}
+
+			const float HKY95 = HK4/_flow_innov_var(1);
+
 			// Observation Jacobians - axis 1
 			Hfusion.at<0>() = -HK5*HK63;
 			Hfusion.at<1>() = -HK5*HK66;
@@ -299,16 +317,16 @@ void Ekf::fuseOptFlow()
 			Hfusion.at<6>() = -HK4*HK79;
 
 			// Kalman gains - axis 1
-			Kfusion(0) = -HK87*HK95;
-			Kfusion(1) = -HK94*HK95;
-			Kfusion(2) = -HK91*HK95;
-			Kfusion(3) = -HK93*HK95;
-			Kfusion(4) = -HK90*HK95;
-			Kfusion(5) = -HK89*HK95;
-			Kfusion(6) = -HK88*HK95;
+			Kfusion(0) = -HKY87*HKY95;
+			Kfusion(1) = -HKY94*HKY95;
+			Kfusion(2) = -HKY91*HKY95;
+			Kfusion(3) = -HKY93*HKY95;
+			Kfusion(4) = -HKY90*HKY95;
+			Kfusion(5) = -HKY89*HKY95;
+			Kfusion(6) = -HKY88*HKY95;
 
 			for (unsigned row = 7; row <= 23; row++) {
-				Kfusion(row) = -HK95*(HK80*P(0,row) + HK81*P(1,row) + HK82*P(2,row) + HK83*P(3,row) + HK84*P(4,row) + HK85*P(5,row) + HK86*P(6,row));
+				Kfusion(row) = -HKY95*(HK80*P(0,row) + HK81*P(1,row) + HK82*P(2,row) + HK83*P(3,row) + HK84*P(4,row) + HK85*P(5,row) + HK86*P(6,row));
 			}
 
 		}
-- 
2.43.0


From ec53ee83d80cd77bbdcd5305d1fe62900e984637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:42 +0000
Subject: [PATCH 13/23] fix: use the speed accuracy for the velocity of the yaw
 estimator

runYawEKFGSF passed the vertical position accuracy (vacc, m) of the GPS sample as
the accuracy of its velocity (m/s) and checked it instead of sacc.
---
 EKF/ekf_helper.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/EKF/ekf_helper.cpp b/EKF/ekf_helper.cpp
index b00cc18..1c8d16c 100644
--- a/EKF/ekf_helper.cpp
+++ b/EKF/ekf_helper.cpp
@@ -1654,9 +1654,9 @@ void Ekf::runYawEKFGSF()
 	_yawEstimator.update(_imu_sample_delayed, _control_status.flags.in_air, TAS, imu_gyro_bias);
 
 	// basic sanity check on GPS velocity data
-	if (_gps_data_ready && _gps_sample_delayed.vacc > FLT_EPSILON &&
+	if (_gps_data_ready && _gps_sample_delayed.sacc > FLT_EPSILON &&
 	    ISFINITE(_gps_sample_delayed.vel(0)) && ISFINITE(_gps_sample_delayed.vel(1))) {
-		_yawEstimator.setVelocity(_gps_sample_delayed.vel.xy(), _gps_sample_delayed.vacc);
+		_yawEstimator.setVelocity(_gps_sample_delayed.vel.xy(), _gps_sample_delayed.sacc);
 	}
 }
 
-- 
2.43.0


From eb7261e46f7bf81c9b4e338d49523132cbe7ecd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:42 +0000
Subject: [PATCH 14/23] fix: scale IMU bias variances with the square of the
 time step

The states are delta angle and delta velocity biases, the getters report the
variance of rates.
---
 EKF/ekf.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/EKF/ekf.h b/EKF/ekf.h
index ade36dd..06d0b7d 100644
--- a/EKF/ekf.h
+++ b/EKF/ekf.h
@@ -224,8 +224,8 @@ public:
 	Vector3f getAccelBias() const { return _state.delta_vel_bias / _dt_ekf_avg; } // get the accelerometer bias in m/s**2
 	const Vector3f &getMagBias() const { return _state.mag_B; }
 
-	Vector3f getGyroBiasVariance() const { return Vector3f{P(10, 10), P(11, 11), P(12, 12)} / _dt_ekf_avg; } // get the gyroscope bias variance in rad/s
-	Vector3f getAccelBiasVariance() const { return Vector3f{P(13, 13), P(14, 14), P(15, 15)} / _dt_ekf_avg; } // get the accelerometer bias variance in m/s**2
+	Vector3f getGyroBiasVariance() const { return Vector3f{P(10, 10), P(11, 11), P(12, 12)} / sq(_dt_ekf_avg); } // get the gyroscope bias variance in (rad/s)**2
+	Vector3f getAccelBiasVariance() const { return Vector3f{P(13, 13), P(14, 14), P(15, 15)} / sq(_dt_ekf_avg); } // get the accelerometer bias variance in (m/s**2)**2
 	Vector3f getMagBiasVariance() const { return Vector3f{P(19, 19), P(20, 20), P(21, 21)}; }
 
 	// get GPS check status
-- 
2.43.0


From 8142a00c8062ab13c88524ad7f5d251265cac432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:42 +0000
Subject: [PATCH 15/23] fix: select baro height when GPS height is stopped

stopGpsPosFusion cleared gps_hgt without selecting another height source. With GPS
as the selected source nothing selects one later, so that no height measurement is
fused any more.
---
 EKF/ekf_helper.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/EKF/ekf_helper.cpp b/EKF/ekf_helper.cpp
index 1c8d16c..f381b93 100644
--- a/EKF/ekf_helper.cpp
+++ b/EKF/ekf_helper.cpp
@@ -1438,7 +1438,12 @@ void Ekf::stopGpsFusion()
 void Ekf::stopGpsPosFusion()
 {
 	_control_status.flags.gps = false;
-	_control_status.flags.gps_hgt = false;
+
+	// do not stay without a height source
+	if (_control_status.flags.gps_hgt) {
+		startBaroHgtFusion();
+	}
+
 	_gps_pos_innov.setZero();
 	_gps_pos_innov_var.setZero();
 	_gps_pos_test_ratio.setZero();
-- 
2.43.0


From bc2be7fb645f62731e594322ce8b0876cdeb88fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:42 +0000
Subject: [PATCH 16/23] fix: always write the height test ratio

get_innovation_test_status left hgt unset while no height source is in use.
---
 EKF/ekf_helper.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/EKF/ekf_helper.cpp b/EKF/ekf_helper.cpp
index f381b93..6d43ee4 100644
--- a/EKF/ekf_helper.cpp
+++ b/EKF/ekf_helper.cpp
@@ -947,6 +947,9 @@ void Ekf::get_innovation_test_status(uint16_t &status, float &mag, float &vel, f
 
 	} else if (_control_status.flags.ev_hgt) {
 		hgt = sqrtf(_ev_pos_test_ratio(1));
+
+	} else {
+		hgt = NAN;
 	}
 
 	// return the airspeed fusion innovation test ratio
-- 
2.43.0


From 111e23091f837808ddc335a6034b5bbc47225763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:42 +0000
Subject: [PATCH 17/23] fix: do not fuse a vision position change without a
 previous sample

The first sample used as odometry was fused with an old innovation and an
observation variance of zero.
---
 EKF/control.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/EKF/control.cpp b/EKF/control.cpp
index 2a354f5..e52691d 100644
--- a/EKF/control.cpp
+++ b/EKF/control.cpp
@@ -242,10 +242,14 @@ void Ekf::controlExternalVisionFusion()
 				_fuse_hpos_as_odom = false;
 			}
 
+			// a position change can only be observed from the second sample on
+			bool fuse_ev_pos = true;
+
 			if (_fuse_hpos_as_odom) {
 				if (!_hpos_prev_available) {
 					// no previous observation available to calculate position change
 					_hpos_prev_available = true;
+					fuse_ev_pos = false;
 
 				} else {
 					// calculate the change in position since the last measurement
@@ -298,7 +302,9 @@ void Ekf::controlExternalVisionFusion()
 			// innovation gate size
 			ev_pos_innov_gates(0) = fmaxf(_params.ev_pos_innov_gate, 1.0f);
 
-			fuseHorizontalPosition(_ev_pos_innov, ev_pos_innov_gates, ev_pos_obs_var, _ev_pos_innov_var, _ev_pos_test_ratio);
+			if (fuse_ev_pos) {
+				fuseHorizontalPosition(_ev_pos_innov, ev_pos_innov_gates, ev_pos_obs_var, _ev_pos_innov_var, _ev_pos_test_ratio);
+			}
 		}
 
 		// determine if we should use the velocity observations
-- 
2.43.0


From fc2a1ef7bb315db8404c7dfda2f8b7cd5b18b462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:57 +0000
Subject: [PATCH 18/23] fix: compute the vision innovations after a reset

When vision had not been fused for too long, the states were reset to it but the
innovation from before the reset was still fused.
---
 EKF/control.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/EKF/control.cpp b/EKF/control.cpp
index e52691d..90ebc30 100644
--- a/EKF/control.cpp
+++ b/EKF/control.cpp
@@ -281,12 +281,6 @@ void Ekf::controlExternalVisionFusion()
 					ev_pos_meas = _R_ev_to_ekf * ev_pos_meas;
 					ev_pos_var = _R_ev_to_ekf * ev_pos_var * _R_ev_to_ekf.transpose();
 				}
-				_ev_pos_innov(0) = _state.pos(0) - ev_pos_meas(0);
-				_ev_pos_innov(1) = _state.pos(1) - ev_pos_meas(1);
-
-				ev_pos_obs_var(0) = fmaxf(ev_pos_var(0, 0), sq(0.01f));
-				ev_pos_obs_var(1) = fmaxf(ev_pos_var(1, 1), sq(0.01f));
-
 				// check if we have been deadreckoning too long
 				if (isTimedOut(_time_last_hor_pos_fuse, _params.reset_timeout_max)) {
 					// only reset velocity if we have no another source of aiding constraining it
@@ -297,6 +291,12 @@ void Ekf::controlExternalVisionFusion()
 
 					resetHorizontalPosition();
 				}
+
+				_ev_pos_innov(0) = _state.pos(0) - ev_pos_meas(0);
+				_ev_pos_innov(1) = _state.pos(1) - ev_pos_meas(1);
+
+				ev_pos_obs_var(0) = fmaxf(ev_pos_var(0, 0), sq(0.01f));
+				ev_pos_obs_var(1) = fmaxf(ev_pos_var(1, 1), sq(0.01f));
 			}
 
 			// innovation gate size
@@ -313,7 +313,6 @@ void Ekf::controlExternalVisionFusion()
 			Vector2f ev_vel_innov_gates;
 
 			_last_vel_obs = getVisionVelocityInEkfFrame();
-			_ev_vel_innov = _state.vel - _last_vel_obs;
 
 			// check if we have been deadreckoning too long
 			if (isTimedOut(_time_last_hor_vel_fuse, _params.reset_timeout_max)) {
@@ -324,6 +323,7 @@ void Ekf::controlExternalVisionFusion()
 				}
 			}
 
+			_ev_vel_innov = _state.vel - _last_vel_obs;
 			_last_vel_obs_var = matrix::max(getVisionVelocityVarianceInEkfFrame(), sq(0.05f));
 
 			ev_vel_innov_gates.setAll(fmaxf(_params.ev_vel_innov_gate, 1.0f));
-- 
2.43.0


From b8334fc7858ef4ba735ad055cdd0e948026eb113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:28 +0000
Subject: [PATCH 19/23] fix: judge the consistency of the baro height as it is
 fused

---
 EKF/control.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/EKF/control.cpp b/EKF/control.cpp
index 90ebc30..b407008 100644
--- a/EKF/control.cpp
+++ b/EKF/control.cpp
@@ -834,8 +834,8 @@ void Ekf::controlHeightSensorTimeouts()
 
 			// check the baro height source for consistency and freshness
 			const baroSample &baro_init = _baro_buffer.get_newest();
-			const float baro_innov = _state.pos(2) - (_hgt_sensor_offset - baro_init.hgt + _baro_hgt_offset);
-			const bool baro_data_consistent = fabsf(baro_innov) < (sq(_params.baro_noise) + P(9,9)) * sq(_params.baro_innov_gate);
+			const float baro_innov = _state.pos(2) + baro_init.hgt - _baro_hgt_offset;
+			const bool baro_data_consistent = sq(baro_innov) < (sq(_params.baro_noise) + P(9,9)) * sq(_params.baro_innov_gate);
 
 			// if baro data is acceptable and GPS data is inaccurate, reset height to baro
 			const bool reset_to_baro = !_baro_hgt_faulty &&
-- 
2.43.0


From 0c58201b2d326fba471267e225e17e9d37f084d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:44 +0000
Subject: [PATCH 20/23] fix: remove the offset of the vision sensor in the
 frame of the vision position

---
 EKF/control.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/EKF/control.cpp b/EKF/control.cpp
index b407008..0c844ae 100644
--- a/EKF/control.cpp
+++ b/EKF/control.cpp
@@ -232,8 +232,14 @@ void Ekf::controlExternalVisionFusion()
 
 			// correct position and height for offset relative to IMU
 			const Vector3f pos_offset_body = _params.ev_pos_body - _params.imu_pos_body;
-			const Vector3f pos_offset_earth = _R_to_earth * pos_offset_body;
-			_ev_sample_delayed.pos -= pos_offset_earth;
+			Vector3f pos_offset_ev = _R_to_earth * pos_offset_body;
+
+			if (_params.fusion_mode & (MASK_ROTATE_EV | MASK_USE_GPS)) {
+				// the position measured will be rotated from the EV into the EKF frame
+				pos_offset_ev = _R_ev_to_ekf.transpose() * pos_offset_ev;
+			}
+
+			_ev_sample_delayed.pos -= pos_offset_ev;
 
 			// Use an incremental position fusion method for EV position data if GPS is also used
 			if (_params.fusion_mode & MASK_USE_GPS) {
-- 
2.43.0


From c5bd2424d4e43af68f14688badc85befb98a1270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:57 +0000
Subject: [PATCH 21/23] fix: every horizontal position reset restarts the
 odometry of vision positions

---
 EKF/ekf_helper.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/EKF/ekf_helper.cpp b/EKF/ekf_helper.cpp
index 6d43ee4..ecfa49c 100644
--- a/EKF/ekf_helper.cpp
+++ b/EKF/ekf_helper.cpp
@@ -159,9 +159,6 @@ void Ekf::resetVerticalVelocityTo(float new_vert_vel)
 
 void Ekf::resetHorizontalPosition()
 {
-	// let the next odometry update know that the previous value of states cannot be used to calculate the change in position
-	_hpos_prev_available = false;
-
 	if (_control_status.flags.gps) {
 		// this reset is only called if we have new gps data at the fusion time horizon
 		resetHorizontalPositionToGps();
@@ -218,6 +215,9 @@ void Ekf::resetHorizontalPositionToVision()
 
 void Ekf::resetHorizontalPositionTo(const Vector2f &new_horz_pos)
 {
+	// let the next odometry update know that the previous value of states cannot be used to calculate the change in position
+	_hpos_prev_available = false;
+
 	const Vector2f delta_horz_pos{new_horz_pos - Vector2f{_state.pos}};
 	_state.pos.xy() = new_horz_pos;
 
-- 
2.43.0


From 68a909508f1f8675568f7ffa8e2388ba10998640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:25 +0000
Subject: [PATCH 22/23] fix: remember the variance of the auxiliary velocity
 with it, not that of an earlier innovation

---
 EKF/control.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/EKF/control.cpp b/EKF/control.cpp
index 0c844ae..d85bc2d 100644
--- a/EKF/control.cpp
+++ b/EKF/control.cpp
@@ -1356,7 +1356,7 @@ void Ekf::controlAuxVelFusion()
 
 		_last_vel_obs = _auxvel_sample_delayed.vel;
 		_aux_vel_innov = _state.vel - _last_vel_obs;
-		_last_vel_obs_var = _aux_vel_innov_var;
+		_last_vel_obs_var = _auxvel_sample_delayed.velVar;
 
 		fuseHorizontalVelocity(_aux_vel_innov, aux_vel_innov_gate, _auxvel_sample_delayed.velVar,
 				_aux_vel_innov_var, _aux_vel_test_ratio);
-- 
2.43.0


From 42d8a7d57383aaaafcfa8acbc23645c273d201a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:17 +0000
Subject: [PATCH 23/23] fix: initialise the vertical innovation ratios and
 their times

checkVerticalAccelerationHealth() reads them before the first vertical
velocity or height observation has been fused.
---
 EKF/ekf.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/EKF/ekf.h b/EKF/ekf.h
index 06d0b7d..b018162 100644
--- a/EKF/ekf.h
+++ b/EKF/ekf.h
@@ -401,10 +401,10 @@ private:
 	Vector3f _last_vel_obs;			///< last velocity observation (m/s)
 	Vector3f _last_vel_obs_var;		///< last velocity observation variance (m/s)**2
 	Vector2f _last_fail_hvel_innov;		///< last failed horizontal velocity innovation (m/s)**2
-	float _vert_pos_innov_ratio;		///< vertical position innovation divided by estimated standard deviation of innovation
-	uint64_t _vert_pos_fuse_attempt_time_us;	///< last system time in usec vertical position measurement fuson was attempted
-	float _vert_vel_innov_ratio;		///< standard deviation of vertical velocity innovation
-	uint64_t _vert_vel_fuse_time_us;	///< last system time in usec time vertical velocity measurement fuson was attempted
+	float _vert_pos_innov_ratio{0.0f};		///< vertical position innovation divided by estimated standard deviation of innovation
+	uint64_t _vert_pos_fuse_attempt_time_us{0};	///< last system time in usec vertical position measurement fuson was attempted
+	float _vert_vel_innov_ratio{0.0f};		///< standard deviation of vertical velocity innovation
+	uint64_t _vert_vel_fuse_time_us{0};	///< last system time in usec time vertical velocity measurement fuson was attempted
 
 	Vector3f _gps_vel_innov;	///< GPS velocity innovations (m/sec)
 	Vector3f _gps_vel_innov_var;	///< GPS velocity innovation variances ((m/sec)**2)
-- 
2.43.0

