// C27: random behaviour is a function of the seed alone: reproducible, and taken from the seed given.
#include "sim_common.hpp"
using namespace vfc;

// the reference stream: standard normal variates of the default engine started from a seed
template <typename P> struct Stream {
  std::default_random_engine g;
  std::normal_distribution<P> n = std::normal_distribution<P>(0.0, 1.0);
  explicit Stream(int seed) { g.seed(seed); }
  P next() { return n(g); }
};
static int any_seed() { return vf_int("seed", 0, 1000000); }

template <typename P, int N> static void vehicle_noise(int how) {
  precision<P>();
  int seed = any_seed();
  dynamics::DynamicsParams<P, N> p;
  p.model_params = any_params<P, N>(false, false);
  p.model_seed   = seed;
  model::Model<P, N> m = how == 0   ? model::Model<P, N>(p.model_params, seed)
                         : how == 1 ? dynamics::Dynamics<P, N>(p.model_params, seed, p.state).get_model_const()
                                    : dynamics::Dynamics<P, N>(p).get_model_const();
  Stream<P> r(seed);
  for (int t = 0; t < 2; t++) {
    P dt = POS<P>("dt");
    m.set_stochastic_noise(dt);
    P f = static_cast<P>(vf_sqrt(p.model_params.force_process_noise_auto_correlation / dt)), k = static_cast<P>(vf_sqrt(p.model_params.moment_process_noise_auto_correlation / dt));
    for (int i = 0; i < 3; i++) vf_eq(m.get_stochastic_force()[i], f * r.next(), "force-noise-is-the-stream-of-the-seed");
    for (int i = 0; i < 3; i++) vf_eq(m.get_stochastic_moment()[i], k * r.next(), "moment-noise-is-the-stream-of-the-seed");
  }
  vf_reached("compared");
}
extern "C" void ob_model() { vehicle_noise<double, 4>(0); }
extern "C" void ob_model_float() { vehicle_noise<float, 4>(0); }
extern "C" void ob_dynamics() { vehicle_noise<double, 4>(1); }
extern "C" void ob_dynamics_params() { vehicle_noise<double, 6>(2); }

// the inertial sensor: initial bias and every measurement come from its own seed
template <typename P> static imu::IMUParams<P> imu_params(int seed) {
  imu::IMUParams<P> p;
  p.gyro_noise_var = NNEG<P>("gv"); p.accel_noise_var = NNEG<P>("av");
  p.gyro_bias_noise_autocorr_time = NNEG<P>("gw"); p.accel_bias_noise_autocorr_time = NNEG<P>("aw");
  p.seed = seed;
  return p;
}
template <typename P> static void reading(imu::IMU<P>& m, Stream<P>& r, const imu::IMUParams<P>& p, const char* id) {
  auto f = V3<P>("f"), w = V3<P>("w");
  P dt = POS<P>("dt");
  V3_<P> bg, ba, g, a;
  m.get_bias(bg, ba);
  m.update(dt, f, w);
  m.get_measurement(g, a);
  P wg = static_cast<P>(vf_sqrt(p.gyro_bias_noise_autocorr_time / dt)), wa = static_cast<P>(vf_sqrt(p.accel_bias_noise_autocorr_time / dt));
  P ng = static_cast<P>(vf_sqrt(p.gyro_noise_var)), na = static_cast<P>(vf_sqrt(p.accel_noise_var));
  P u[12];
  for (int i = 0; i < 12; i++) u[i] = r.next();
  for (int i = 0; i < 3; i++) {
    vf_eq(g[i], w[i] + bg[i] + wg * dt * u[i] + ng * u[6 + i], id);
    vf_eq(a[i], f[i] + ba[i] + wa * dt * u[3 + i] + na * u[9 + i], id);
  }
}
template <typename P> static void sensor(int how) {
  precision<P>();
  int seed = any_seed();
  auto p = imu_params<P>(seed);
  Stream<P> r(seed);
  imu::IMU<P> m = how ? imu::IMU<P>(p) : imu::IMU<P>(p.gyro_noise_var, p.accel_noise_var, p.gyro_bias_noise_autocorr_time, p.accel_bias_noise_autocorr_time, p.imu_orientation, seed);
  V3_<P> bg, ba;
  m.get_bias(bg, ba);
  P sg = static_cast<P>(vf_sqrt(p.gyro_noise_var)), sa = static_cast<P>(vf_sqrt(p.accel_noise_var));
  for (int i = 0; i < 3; i++) vf_eq(bg[i], sg * r.next(), "initial-bias-is-the-stream-of-the-seed");
  for (int i = 0; i < 3; i++) vf_eq(ba[i], sa * r.next(), "initial-bias-is-the-stream-of-the-seed");
  reading<P>(m, r, p, "measurement-is-the-stream-of-the-seed");
  reading<P>(m, r, p, "measurement-is-the-stream-of-the-seed");
  vf_reached("compared");
}
extern "C" void ob_sensor() { sensor<double>(0); }
extern "C" void ob_sensor_params() { sensor<double>(1); }
extern "C" void ob_sensor_float() { sensor<float>(1); }
// a new seed restarts the stream, whatever was drawn before
extern "C" void ob_reseed() {
  int seed = any_seed();
  auto p = imu_params<double>(vf_int("seed0", 0, 1000000));
  imu::IMU<double> m(p);
  auto f = V3<double>("f"), w = V3<double>("w");
  double dt = vf_pos("dt");
  m.update(dt, f, w);
  m.set_random_seed(seed);
  Stream<double> r(seed);
  reading<double>(m, r, p, "reseeding-restarts-the-stream");
  vf_reached("compared");
}
// two simulators built alike and driven alike stay alike, noise and all
template <typename P, int N> static void twins(int part) {
  precision<P>();
  AnySim<P, N> a;
  Simulator<P, N> b = a;
  P dt = static_cast<P>(vf_real_in("dt", 0, 0.01));
  vf_assume(dt > 0);
  for (Simulator<P, N>* s : {static_cast<Simulator<P, N>*>(&a), &b}) {
    if (part == 0) s->update_dynamics(dt);
    if (part == 1) s->update_imu(dt), s->update_inertial_odometry(dt);
  }
  vf_reached("both updated");
  same_dynamics<P, N>(a, b, "equal-simulators-stay-equal");
  same_controller<P, N>(a, b, "equal-simulators-stay-equal");
  same_imu<P, N>(a, b, "equal-simulators-stay-equal");
  same_odometry<P, N>(a, b, "equal-simulators-stay-equal");
}
extern "C" void ob_twins_vehicle() { twins<double, 4>(0); }
extern "C" void ob_twins_sensor() { twins<double, 4>(1); }
// whatever happens to the rest of the simulator (a landing included) or to the sensor's bias, the sensor's stream goes on
template <typename P, int N> static void goes_on(int what) {
  precision<P>();
  AnySim<P, N> a;
  imu::IMU<P> before = a.get_imu_const();
  P dt = static_cast<P>(vf_real_in("dt", 0, 0.01));
  vf_assume(dt > 0);
  if (what == 0) a.update_dynamics(dt);
  if (what == 1) a.get_imu().reset();
  if (what == 2) {
    a.arm();
    a.set_control_mode(ControlMode::HOVER);
    a.update_inertial_odometry(dt);
    a.disarm();
    a.update_controller(dt);
    a.enable_floor_collision(0);
    a.disable_floor_collision();
  }
  imu::IMU<P> after = a.get_imu_const();
  auto q = UQ<P>::get("mount");
  auto b = V3<P>("b");
  P gv = NNEG<P>("gv"), av = NNEG<P>("av"), gb = NNEG<P>("gb"), ab = NNEG<P>("ab");
  auto f = V3<P>("f"), w = V3<P>("w");
  for (auto* m : {&before, &after}) {
    m->set_noise_variances(gv, av);
    m->set_bias(b, b, gb, ab);
    m->set_orientation(q);
    m->update(dt, f, w);
  }
  vf_reached("compared");
  eq3(after.get_measurement_gyro(), before.get_measurement_gyro(), "sensor-stream-goes-on");
  eq3(after.get_measurement_accel(), before.get_measurement_accel(), "sensor-stream-goes-on");
}
extern "C" void ob_goes_on_vehicle() { goes_on<double, 4>(0); }
extern "C" void ob_goes_on_reset() { goes_on<double, 4>(1); }
extern "C" void ob_goes_on_rest() { goes_on<double, 4>(2); }
