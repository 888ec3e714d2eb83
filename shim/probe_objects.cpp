// Creates one object of every class, so that their constructors are analysed as a user of the library would get them.
#include <EKF/ekf.h>
#include <EKF/EKFGSF_yaw.h>
#include <EKF/imu_down_sampler.hpp>
#include <airdata/WindEstimator.hpp>

namespace probe
{
Ekf *new_ekf() { return new Ekf; }
EKFGSF_yaw *new_yaw_estimator() { return new EKFGSF_yaw; }
WindEstimator *new_wind_estimator() { return new WindEstimator; }
ImuDownSampler *new_down_sampler(float dt) { return new ImuDownSampler(dt); }
}
