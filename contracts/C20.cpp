// C20: inertial sensor: true motion in the sensor frame plus drifting bias plus fresh white noise.
#include "imu_simulator/imu.hpp"
#include "common.hpp"
using namespace vfc;
template <typename P> using V = Eigen::Matrix<P, 3, 1>;

// row i of the inverse rotation of a unit quaternion times a vector
template <typename P> static P inverse_rotated(const Eigen::Quaternion<P>& q, const V<P>& v, int i) {
  return rot(q, 0, i) * v[0] + rot(q, 1, i) * v[1] + rot(q, 2, i) * v[2];
}
template <typename P> struct Sensor {
  P gv = NNEG<P>("gyro_var"), av = NNEG<P>("accel_var"), gb = NNEG<P>("gyro_walk"), ab = NNEG<P>("accel_walk");
  Eigen::Quaternion<P> q = UQ<P>::get("mount");
  V<P> bg = V3<P>("gyro_bias"), ba = V3<P>("accel_bias");
  imu::IMU<P> imu;
  // any history, then this configuration
  Sensor() {
    vf_havoc(&imu, sizeof imu, "imu");
    imu.set_noise_variances(gv, av);
    imu.set_bias(bg, ba, gb, ab);
    imu.set_orientation(q);
  }
};
template <typename P> static void measure() {
  precision<P>();
  Sensor<P> s;
  auto f = V3<P>("f"), w = V3<P>("w");
  P dt = POS<P>("dt");
  vf_draw_reset();
  s.imu.update(dt, f, w);
  vf_reached("measured");
  vf_assert(vf_draw_count() == 12, "twelve-variates-per-measurement");
  P wg = static_cast<P>(vf_sqrt(s.gb / dt)), wa = static_cast<P>(vf_sqrt(s.ab / dt)), ng = static_cast<P>(vf_sqrt(s.gv)), na = static_cast<P>(vf_sqrt(s.av));
  V<P> g, a, bg, ba, g2, a2, g3, a3;
  s.imu.get_bias(bg, ba);
  s.imu.get_measurement(g, a);
  s.imu.get_measurement_gyro(g2);
  s.imu.get_measurement_accel(a2);
  auto pr = s.imu.get_measurement();
  for (int i = 0; i < 3; i++) {
    P xg = s.bg[i] + wg * dt * static_cast<P>(vf_draw(i)), xa = s.ba[i] + wa * dt * static_cast<P>(vf_draw(3 + i));
    vf_eq(bg[i], xg, "gyro-bias-random-walk");
    vf_eq(ba[i], xa, "accelerometer-bias-random-walk");
    P mg = inverse_rotated<P>(s.q, w, i) + xg + ng * static_cast<P>(vf_draw(6 + i)), ma = inverse_rotated<P>(s.q, f, i) + xa + na * static_cast<P>(vf_draw(9 + i));
    vf_eq(g[i], mg, "gyro-measurement");
    vf_eq(a[i], ma, "accelerometer-measurement");
    vf_eq(g2[i], mg, "gyro-measurement"); vf_eq(pr.first[i], mg, "gyro-measurement"); vf_eq(s.imu.get_measurement_gyro()[i], mg, "gyro-measurement");
    vf_eq(a2[i], ma, "accelerometer-measurement"); vf_eq(pr.second[i], ma, "accelerometer-measurement"); vf_eq(s.imu.get_measurement_accel()[i], ma, "accelerometer-measurement");
  }
  P v1, v2;
  s.imu.get_variances(v1, v2);
  vf_eq(v1, s.gv, "variance-kept");
  vf_eq(v2, s.av, "variance-kept");
}
extern "C" void ob_measure() { measure<double>(); }
extern "C" void ob_measure_float() { measure<float>(); }

// two measurements in a row: biases accumulate, white noise does not
extern "C" void ob_twice() {
  Sensor<double> s;
  auto f = V3<double>("f"), w = V3<double>("w"), f2 = V3<double>("f2"), w2 = V3<double>("w2");
  double dt = vf_pos("dt"), dt2 = vf_pos("dt2");
  s.imu.update(dt, f, w);
  V<double> bg, ba, g, a;
  s.imu.get_bias(bg, ba);
  vf_draw_reset();
  s.imu.update(dt2, f2, w2);
  s.imu.get_measurement(g, a);
  vf_reached("measured twice");
  double wg = vf_sqrt(s.gb / dt2), wa = vf_sqrt(s.ab / dt2), ng = vf_sqrt(s.gv), na = vf_sqrt(s.av);
  for (int i = 0; i < 3; i++) {
    vf_eq(g[i], inverse_rotated<double>(s.q, w2, i) + bg[i] + wg * dt2 * vf_draw(i) + ng * vf_draw(6 + i), "second-gyro-measurement");
    vf_eq(a[i], inverse_rotated<double>(s.q, f2, i) + ba[i] + wa * dt2 * vf_draw(3 + i) + na * vf_draw(9 + i), "second-accelerometer-measurement");
  }
}
// no elapsed time: nothing moves
template <typename P> static void still() {
  precision<P>();
  Sensor<P> s;
  const imu::IMU<P> before = s.imu;
  auto f = V3<P>("f"), w = V3<P>("w");
  P dt = -NNEG<P>("dt");
  vf_draw_reset();
  s.imu.update(dt, f, w);
  vf_reached("nothing");
  vf_assert(vf_draw_count() == 0, "no-variates-without-elapsed-time");
  vf_same(&s.imu, &before, sizeof before, "nothing-changes-without-elapsed-time");
}
extern "C" void ob_still() { still<double>(); }
extern "C" void ob_still_float() { still<float>(); }

// construction: bias spread by the noise variance, zero measurement, all parameters in force
template <typename P> static void construct(bool viaparams) {
  precision<P>();
  P gv = NNEG<P>("gyro_var"), av = NNEG<P>("accel_var"), gb = NNEG<P>("gyro_walk"), ab = NNEG<P>("accel_walk");
  Eigen::Quaternion<P> q = UQ<P>::get("mount");
  imu::IMUParams<P> p;
  p.gyro_noise_var = gv; p.accel_noise_var = av; p.gyro_bias_noise_autocorr_time = gb; p.accel_bias_noise_autocorr_time = ab;
  p.imu_orientation = q; p.seed = 7;
  vf_draw_reset();
  imu::IMU<P> m = viaparams ? imu::IMU<P>(p) : imu::IMU<P>(gv, av, gb, ab, q, 7);
  vf_assert(vf_draw_count() == 6, "six-variates-at-construction");
  V<P> bg, ba, g, a;
  m.get_bias(bg, ba);
  m.get_measurement(g, a);
  P sg = static_cast<P>(vf_sqrt(gv)), sa = static_cast<P>(vf_sqrt(av));
  for (int i = 0; i < 3; i++) {
    vf_eq(bg[i], sg * static_cast<P>(vf_draw(i)), "initial-gyro-bias");
    vf_eq(ba[i], sa * static_cast<P>(vf_draw(3 + i)), "initial-accelerometer-bias");
    vf_eq(g[i], 0, "initial-measurement-zero");
    vf_eq(a[i], 0, "initial-measurement-zero");
  }
  // a sensor configured by the setters behaves the same from here
  imu::IMU<P> n = m;
  n.set_noise_variances(gv, av);
  n.set_bias(bg, ba, gb, ab);
  n.set_orientation(q);
  vf_same(&m, &n, sizeof m, "construction-equals-configuration");
  vf_reached("constructed");
}
extern "C" void ob_construct() { construct<double>(false); }
extern "C" void ob_construct_params() { construct<double>(true); }
extern "C" void ob_construct_float() { construct<float>(true); }

extern "C" void ob_reset() {
  Sensor<double> s;
  const imu::IMU<double> before = s.imu;
  vf_draw_reset();
  s.imu.reset();
  vf_reached("reset");
  V<double> bg, ba, g, a;
  s.imu.get_bias(bg, ba);
  s.imu.get_measurement(g, a);
  for (int i = 0; i < 3; i++) {
    vf_eq(bg[i], 0, "reset-clears-bias"); vf_eq(ba[i], 0, "reset-clears-bias");
    vf_eq(g[i], 0, "reset-clears-measurement"); vf_eq(a[i], 0, "reset-clears-measurement");
  }
  vf_assert(vf_draw_count() == 0, "reset-draws-nothing");
  // the configuration stays in force
  imu::IMU<double> n = s.imu;
  n.set_noise_variances(s.gv, s.av);
  n.set_bias_autocorrelation_time(s.gb, s.ab);
  n.set_orientation(s.q);
  vf_same(&s.imu, &n, sizeof n, "reset-keeps-configuration");
}
