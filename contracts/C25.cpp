// C25: the parts of the simulator are fed with the right quantities and do not disturb each other.
#include "sim_common.hpp"
using namespace vfc;

template <typename P, int N> static void others(const Simulator<P, N>& s, const Simulator<P, N>& b, bool dyn, bool ctl, bool imu, bool odo) {
  const char* id = "other-parts-untouched";
  if (!dyn) same_dynamics<P, N>(s, b, id);
  if (!ctl) same_controller<P, N>(s, b, id);
  if (!imu) same_imu<P, N>(s, b, id);
  if (!odo) same_odometry<P, N>(s, b, id);
  same_modes<P, N>(s, b, id);
  same_references<P, N>(s, b, 0, id);
  same_actuation<P, N>(s, b, id);
}
template <typename P, int N> static void sensor() {
  precision<P>();
  AnySim<P, N> s;
  P dt = R<P>("dt");
  P mass = s.get_dynamics_const().get_model_const().get_mass();
  vf_assume(mass > 0);
  Simulator<P, N> b = s;
  auto m = s.get_imu_const();
  const auto& q = s.start.kinematics.orientation;
  const auto& F = s.start.dynamics.force;
  V3_<P> f;
  for (int i = 0; i < 3; i++) f[i] = (rot(q, 0, i) * F[0] + rot(q, 1, i) * F[1] + rot(q, 2, i) * F[2]) / mass;
  s.update_imu(dt);
  vf_reached("updated");
  m.update(dt, f, s.start.kinematics.angular_velocity);
  vf_same(&s.get_imu_const(), &m, sizeof m, "sensor-gets-specific-force-and-rate-in-body-frame");
  V3_<P> g, a, g2, a2;
  s.get_imu_measurement(g, a);
  m.get_measurement(g2, a2);
  eq3(g, g2, "sensor-reading-handed-out");
  eq3(a, a2, "sensor-reading-handed-out");
  others<P, N>(s, b, false, false, true, false);
}
extern "C" void ob_sensor() { sensor<double, 4>(); }
extern "C" void ob_sensor_hexa() { sensor<double, 6>(); }
template <typename P, int N> static void odometry() {
  precision<P>();
  AnySim<P, N> s;
  P dt = R<P>("dt");
  Simulator<P, N> b = s;
  auto o = s.get_inertial_odometry_const();
  V3_<P> g, a;
  s.get_imu_measurement(g, a);
  s.update_inertial_odometry(dt);
  vf_reached("updated");
  o.update(g, a, dt);
  vf_same(&s.get_inertial_odometry_const(), &o, sizeof o, "odometry-gets-the-sensor-reading");
  auto k = s.get_odometry();
  state::internal::Kinematics<P> k2;
  s.get_odometry(k2);
  for (int t = 0; t < 2; t++) {
    const auto& r = t ? k2 : k;
    eq3(r.position, o.get_position(), "odometry-handed-out");
    eq3(r.linear_velocity, o.get_linear_velocity(), "odometry-handed-out");
    eq3(r.angular_velocity, o.get_angular_velocity(), "odometry-handed-out");
    eq3(r.linear_acceleration, o.get_linear_acceleration(), "odometry-handed-out");
    eqn<4>(r.orientation.coeffs(), o.get_orientation().coeffs(), "odometry-handed-out");
  }
  others<P, N>(s, b, false, false, false, true);
}
extern "C" void ob_odometry() { odometry<double, 4>(); }
extern "C" void ob_odometry_hexa() { odometry<double, 6>(); }
template <typename P, int N> static void vehicle() {
  precision<P>();
  AnySim<P, N> s;
  s.disable_floor_collision();
  P dt = POS<P>("dt");
  Simulator<P, N> b = s;
  s.update_dynamics(dt);
  vf_reached("updated");
  others<P, N>(s, b, true, false, false, false);
  for (int i = 0; i < 3; i++) vf_eq(s.get_external_force()[i], 0, "no-force-left-over");
}
extern "C" void ob_vehicle() { vehicle<double, 4>(); }

// the motors are stored outside of the object
template <typename P, int N> static void motors_are(const dynamics::Dynamics<P, N>& d, const std::vector<model::MotorParams<P>>& m, const char* id) {
  const auto& x = d.get_model_const().get_motors();
  vf_assert(x.size() == N && m.size() == N, id);
  for (int i = 0; i < N; i++) same_motor<P>(x[i], m[i], id);
}
// replacing the parameters of one part rebuilds that part only
template <typename P, int N> static imu::IMUParams<P> imu_params() {
  imu::IMUParams<P> p;
  p.gyro_noise_var = NNEG<P>("gv"); p.accel_noise_var = NNEG<P>("av");
  p.gyro_bias_noise_autocorr_time = NNEG<P>("gw"); p.accel_bias_noise_autocorr_time = NNEG<P>("aw");
  p.imu_orientation = UQ<P>::get("mount");
  p.seed = vf_int("imuseed", 1, 1000000);
  return p;
}
template <typename P, int N> static imu::InertialOdometryParams<P> odo_params() {
  imu::InertialOdometryParams<P> p;
  p.alpha = POS<P>("alpha");
  p.initial_world_orientation = UQ<P>::get("q0");
  return p;
}
template <typename P, int N> static controller::ControllerParams<P, N> ctl_params() {
  controller::ControllerParams<P, N> p;
  p.position_controller_params.pid_params   = any_pid<P, 3>(1);
  p.velocity_controller_params.pid_params   = any_pid<P, 3>(1);
  p.trajectory_controller_params.pid_params = any_pid<P, 3>(1);
  p.indi_controller_params.pid_params       = any_pid<P, 3>(1);
  p.indi_controller_params.inertia          = MX<P, 3, 3>("I");
  p.indi_controller_params.mixer_matrix_inverse = MX<P, N, 6>("Mi");
  p.acro_controller_params.vehicle_mass     = R<P>("mass");
  p.acro_controller_params.gravity          = V3<P>("g");
  p.acro_controller_params.kp_rot           = MX<P, 3, 3>("kp_rot");
  return p;
}
template <typename P, int N> static dynamics::DynamicsParams<P, N> dyn_params() {
  dynamics::DynamicsParams<P, N> p;
  p.model_params = any_params<P, N>(false, false);
  p.model_seed   = vf_int("seed", 1, 1000000);
  p.state        = any_state<P, N>();
  return p;
}
extern "C" void ob_set_imu() {
  AnySim<double, 4> s;
  auto p = imu_params<double, 4>();
  Simulator<double, 4> b = s;
  s.set_imu_params(p);
  imu::IMU<double> m(p);
  vf_reached("set");
  vf_same(&s.get_imu_const(), &m, sizeof m, "sensor-rebuilt");
  others<double, 4>(s, b, false, false, true, false);
}
extern "C" void ob_set_odometry() {
  AnySim<double, 4> s;
  auto p = odo_params<double, 4>();
  Simulator<double, 4> b = s;
  s.set_inertial_odometry_params(p);
  imu::InertialOdometry<double> m(p);
  vf_reached("set");
  vf_same(&s.get_inertial_odometry_const(), &m, sizeof m, "odometry-rebuilt");
  others<double, 4>(s, b, false, false, false, true);
}
extern "C" void ob_set_controller() {
  AnySim<double, 4> s;
  auto p = ctl_params<double, 4>();
  Simulator<double, 4> b = s;
  s.set_controller_params(p);
  controller::Controller<double, 4> m(p);
  vf_reached("set");
  vf_same(&s.get_controller_const(), &m, sizeof m, "controller-rebuilt");
  others<double, 4>(s, b, false, true, false, false);
}
extern "C" void ob_set_dynamics() {
  AnySim<double, 4> s;
  auto p = dyn_params<double, 4>();
  Simulator<double, 4> b = s;
  s.set_dynamics_params(p);
  dynamics::Dynamics<double, 4> m(p);
  vf_reached("set");
  vf_same(&s.get_dynamics_const(), &m, sizeof m, "vehicle-rebuilt");
  motors_are<double, 4>(s.get_dynamics_const(), p.model_params.motors_params, "motors-rebuilt");
  same_state<double, 4>(s.get_state(), p.state, "vehicle-starts-in-the-given-state");
  others<double, 4>(s, b, true, false, false, false);
}
// construction hands each part its own parameters, and starts idle
template <typename P, int N> static void construct() {
  precision<P>();
  SimulatorParams<P, N> p;
  p.dynamics_params          = dyn_params<P, N>();
  p.controller_params        = ctl_params<P, N>();
  p.imu_params               = imu_params<P, N>();
  p.inertial_odometry_params = odo_params<P, N>();
  Simulator<P, N> s(p);
  dynamics::Dynamics<P, N> d(p.dynamics_params);
  controller::Controller<P, N> c(p.controller_params);
  imu::IMU<P> m(p.imu_params);
  imu::InertialOdometry<P> o(p.inertial_odometry_params);
  vf_reached("built");
  vf_same(&s.get_dynamics_const(), &d, sizeof d, "vehicle-built-from-its-parameters");
  motors_are<P, N>(s.get_dynamics_const(), p.dynamics_params.model_params.motors_params, "motors-built-from-their-parameters");
  vf_same(&s.get_controller_const(), &c, sizeof c, "controller-built-from-its-parameters");
  vf_same(&s.get_imu_const(), &m, sizeof m, "sensor-built-from-its-parameters");
  vf_same(&s.get_inertial_odometry_const(), &o, sizeof o, "odometry-built-from-its-parameters");
  vf_assert(!s.get_armed(), "starts-disarmed");
  vf_assert(!s.get_floor_collision_enabled(), "starts-without-floor");
  for (int i = 0; i < N; i++) vf_eq(s.get_actuation_motors_angular_velocity()[i], 0, "starts-with-motors-stopped");
  for (int i = 0; i < 3; i++) vf_eq(s.get_external_force()[i], 0, "starts-without-external-force");
  Simulator<P, N> z;
  for (const auto* t : {&s, &z}) {
    vf_assert(t->get_control_mode() == MOTOR_W && t->get_yaw_control_mode() == ANGLE, "starts-in-motor-mode");
    vf_eq(t->get_floor_height(), 0, "starts-without-floor");
    vf_eq(t->get_reference_thrust(), 0, "starts-without-references");
    vf_eq(t->get_reference_yaw(), 0, "starts-without-references");
    vf_eq(t->get_reference_yaw_rate(), 0, "starts-without-references");
    for (int i = 0; i < 3; i++) {
      vf_eq(t->get_reference_position()[i], 0, "starts-without-references");
      vf_eq(t->get_reference_velocity()[i], 0, "starts-without-references");
      vf_eq(t->get_reference_acceleration()[i], 0, "starts-without-references");
      vf_eq(t->get_reference_angular_velocity()[i], 0, "starts-without-references");
    }
    for (int i = 0; i < N; i++) vf_eq(t->get_reference_motors_angular_velocity()[i], 0, "starts-without-references");
  }
}
extern "C" void ob_construct() { construct<double, 4>(); }
extern "C" void ob_construct_hexa() { construct<double, 6>(); }

// what is handed out is what is stored, and reading changes nothing
extern "C" void ob_reads() {
  AnySim<double, 4> s;
  Simulator<double, 4> b = s;
  state::State<double, 4> x;
  s.get_state(x);
  same_state<double, 4>(x, s.start, "state-handed-out");
  same_state<double, 4>(s.get_state(), s.start, "state-handed-out");
  dynamics::Dynamics<double, 4> d;
  controller::Controller<double, 4> c;
  imu::IMU<double> m;
  imu::InertialOdometry<double> o;
  s.get_dynamics(d); s.get_controller(c); s.get_imu(m); s.get_inertial_odometry(o);
  vf_reached("read");
  vf_same(&d, &b.get_dynamics_const(), sizeof d, "parts-handed-out");
  vf_same(&c, &b.get_controller_const(), sizeof c, "parts-handed-out");
  vf_same(&m, &b.get_imu_const(), sizeof m, "parts-handed-out");
  vf_same(&o, &b.get_inertial_odometry_const(), sizeof o, "parts-handed-out");
  vf_assert(&s.get_dynamics() == &s.get_dynamics_const() && &s.get_controller() == &s.get_controller_const() && &s.get_imu() == &s.get_imu_const() &&
                &s.get_inertial_odometry() == &s.get_inertial_odometry_const(),
            "parts-are-the-ones-simulated");
  motors_are<double, 4>(d, b.get_dynamics_const().get_model_const().get_motors(), "parts-handed-out");
  bool ar = false;
  ControlMode cm = HOVER;
  YawControlMode ym = ANGLE;
  double th = 0, yw = 0, yr = 0;
  Eigen::Vector3d rp, rv, ra, rw;
  Eigen::Matrix<double, 4, 1> rm, am;
  s.get_armed(ar); s.get_control_mode(cm); s.get_yaw_control_mode(ym);
  s.get_reference_thrust(th); s.get_reference_yaw(yw); s.get_reference_yaw_rate(yr);
  s.get_reference_position(rp); s.get_reference_velocity(rv); s.get_reference_acceleration(ra); s.get_reference_angular_velocity(rw);
  s.get_reference_motors_angular_velocity(rm); s.get_actuation_motors_angular_velocity(am);
  vf_assert(ar == b.get_armed() && cm == b.get_control_mode() && ym == b.get_yaw_control_mode(), "modes-handed-out");
  vf_eq(th, b.get_reference_thrust(), "references-handed-out");
  vf_eq(yw, b.get_reference_yaw(), "references-handed-out");
  vf_eq(yr, b.get_reference_yaw_rate(), "references-handed-out");
  eq3(rp, b.get_reference_position(), "references-handed-out");
  eq3(rv, b.get_reference_velocity(), "references-handed-out");
  eq3(ra, b.get_reference_acceleration(), "references-handed-out");
  eq3(rw, b.get_reference_angular_velocity(), "references-handed-out");
  eqn<4>(rm, b.get_reference_motors_angular_velocity(), "references-handed-out");
  eqn<4>(am, b.get_actuation_motors_angular_velocity(), "actuation-handed-out");
  bool fe = false;
  double fh = 0;
  s.get_floor_collision_enabled(fe);
  s.get_floor_height(fh);
  Eigen::Vector3d ef;
  s.get_external_force(ef);
  vf_assert(fe == b.get_floor_collision_enabled(), "floor-setting-handed-out");
  vf_eq(fh, b.get_floor_height(), "floor-setting-handed-out");
  eq3(ef, b.get_external_force(), "external-force-handed-out");
  others<double, 4>(s, b, false, false, false, false);
}
