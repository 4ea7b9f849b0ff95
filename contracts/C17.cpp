// C17: position, velocity and trajectory loops are PID loops on the right errors, chained in the right order.
#include "ctl_common.hpp"
using namespace vfc;

// single loops, any parameters and history
extern "C" void ob_position_loop() {
  position_controller::PositionController<double> c;
  vf_havoc(&c, sizeof c, "h");
  auto k = pid_of<double>(c);
  auto x = V3<double>("x"), r = V3<double>("r");
  double dt = vf_pos("dt");
  Eigen::Vector3d v = c.position_to_linear_velocity(x, r, dt), w = k.compute_control(dt, Eigen::Vector3d(r[0] - x[0], r[1] - x[1], r[2] - x[2]));
  vf_reached("computed");
  eq3(v, w, "velocity-is-pid-of-position-error");
  eq3(c.get_desired_linear_velocity(), w, "desired-velocity-reported");
  for (int i = 0; i < 3; i++) vf_eq(c.get_position_error()[i], r[i] - x[i], "position-error-reported");
}
extern "C" void ob_velocity_loop() {
  velocity_controller::VelocityController<double> c;
  vf_havoc(&c, sizeof c, "h");
  auto k = pid_of<double>(c);
  auto x = V3<double>("x"), r = V3<double>("r");
  double dt = vf_pos("dt");
  Eigen::Vector3d v = c.linear_velocity_to_linear_acceleration(x, r, dt), w = k.compute_control(dt, Eigen::Vector3d(r[0] - x[0], r[1] - x[1], r[2] - x[2]));
  vf_reached("computed");
  eq3(v, w, "acceleration-is-pid-of-velocity-error");
  eq3(c.get_desired_linear_acceleration(), w, "desired-acceleration-reported");
  for (int i = 0; i < 3; i++) vf_eq(c.get_velocity_error()[i], r[i] - x[i], "velocity-error-reported");
}
extern "C" void ob_trajectory_loop() {
  trajectory_controller::TrajectoryController<double> c;
  vf_havoc(&c, sizeof c, "h");
  auto k = pid_of<double>(c);
  auto x = V3<double>("x"), v = V3<double>("v"), xr = V3<double>("xr"), vr = V3<double>("vr"), ar = V3<double>("ar");
  double dt = vf_pos("dt");
  Eigen::Vector3d a = c.trajectory_to_linear_acceleration(x, v, xr, vr, ar, dt);
  Eigen::Vector3d w = k.compute_control(dt, Eigen::Vector3d(xr[0] - x[0], xr[1] - x[1], xr[2] - x[2]), Eigen::Vector3d(vr[0] - v[0], vr[1] - v[1], vr[2] - v[2]));
  vf_reached("computed");
  for (int i = 0; i < 3; i++) {
    vf_eq(a[i], w[i] + ar[i], "acceleration-is-pid-plus-feed-forward");
    vf_eq(c.get_position_error()[i], xr[i] - x[i], "position-error-reported");
    vf_eq(c.get_velocity_error()[i], vr[i] - v[i], "velocity-error-reported");
  }
}

// parameters reach their loops
template <typename P> static void pid_same(const pid_controller::PID<P, 3>& c, const pid_controller::PIDParams<P, 3>& p, const char* id) {
  auto q = c.get_params();
  for (int i = 0; i < 3; i++) {
    vf_eq(q.Kp_gains[i], p.Kp_gains[i], id);
    vf_eq(q.Ki_gains[i], p.Ki_gains[i], id);
    vf_eq(q.Kd_gains[i], p.Kd_gains[i], id);
    vf_eq(q.alpha[i], p.alpha[i], id);
    vf_eq(q.antiwindup_cte[i], p.antiwindup_cte[i], id);
    vf_eq(q.upper_output_saturation[i], p.upper_output_saturation[i], id);
    vf_eq(q.lower_output_saturation[i], p.lower_output_saturation[i], id);
  }
}
template <typename P, int N> static void params(int how) {
  precision<P>();
  controller::ControllerParams<P, N> p;
  p.position_controller_params.pid_params   = any_pid<P, 3>(1);
  p.velocity_controller_params.pid_params   = any_pid<P, 3>(1);
  p.trajectory_controller_params.pid_params = any_pid<P, 3>(1);
  p.indi_controller_params.pid_params       = any_pid<P, 3>(1);
  p.indi_controller_params.inertia          = MX<P, 3, 3>("I");
  p.indi_controller_params.mixer_matrix_inverse = MX<P, N, 6>("Mi");
  p.acro_controller_params.vehicle_mass     = R<P>("mass");
  p.acro_controller_params.gravity          = V3<P>("g");
  p.acro_controller_params.kp_rot           = MX<P, 3, 3>("kp_rot");
  controller::Controller<P, N> c(p);
  if (how == 1) {
    vf_havoc(&c, sizeof c, "ctl");
    c.update_params(p);
  }
  if (how == 2) {
    vf_havoc(&c, sizeof c, "ctl");
    c.update_velocity_controller_params(p.velocity_controller_params);
    c.update_indi_controller_params(p.indi_controller_params);
    c.update_trajectory_controller_params(p.trajectory_controller_params);
    c.update_acro_controller_params(p.acro_controller_params);
    c.update_position_controller_params(p.position_controller_params);
  }
  vf_reached("configured");
  pid_same<P>(c.get_position_controller_const(), p.position_controller_params.pid_params, "position-parameters");
  pid_same<P>(c.get_velocity_controller_const(), p.velocity_controller_params.pid_params, "velocity-parameters");
  pid_same<P>(c.get_trajectory_controller_const(), p.trajectory_controller_params.pid_params, "trajectory-parameters");
  pid_same<P>(c.get_indi_controller_const(), p.indi_controller_params.pid_params, "rate-parameters");
  for (int i = 0; i < 3; i++) {
    vf_eq(c.get_acro_controller_const().get_gravity()[i], p.acro_controller_params.gravity[i], "acro-gravity");
    for (int j = 0; j < 3; j++) {
      vf_eq(c.get_indi_controller_const().get_inertia()(i, j), p.indi_controller_params.inertia(i, j), "rate-inertia");
      vf_eq(c.get_acro_controller_const().get_kp_rot()(i, j), p.acro_controller_params.kp_rot(i, j), "attitude-gain");
    }
  }
  vf_eq(c.get_acro_controller_const().get_vehicle_mass(), p.acro_controller_params.vehicle_mass, "acro-mass");
  for (int i = 0; i < N; i++)
    for (int j = 0; j < 6; j++) vf_eq(c.get_indi_controller_const().get_mixer_matrix_inverse()(i, j), p.indi_controller_params.mixer_matrix_inverse(i, j), "rate-allocation");
}
extern "C" void ob_parameters_construct() { params<double, 4>(0); }
extern "C" void ob_parameters_update() { params<double, 4>(1); }
extern "C" void ob_parameters_each() { params<double, 6>(2); }

// the chain, for every input and history: what each stage hands to the next
template <typename P, int N> static void chain(int kind) {
  precision<P>();
  auto c = any_controller<P, N>();
  const auto before = c;
  auto x = V3<P>("x"), v = V3<P>("v"), o = V3<P>("o"), xr = V3<P>("xr"), vr = V3<P>("vr"), ar = V3<P>("ar");
  M3_<P> A = MX<P, 3, 3>("A");
  P yaw = R<P>("yaw"), dt = POS<P>("dt"), T = R<P>("T");
  Eigen::Matrix<P, N, 1> w;
  V3_<P> vd = before.get_desired_linear_velocity(), ad = before.get_desired_linear_acceleration();
  auto kp = pid_of<P>(before.get_position_controller_const());
  auto kv = pid_of<P>(before.get_velocity_controller_const());
  auto kt = before.get_trajectory_controller_const();
  if (kind == 0) {          // position
    w  = c.compute_position_control(x, A, v, o, xr, yaw, dt);
    vd = kp.compute_control(dt, xr - x);
    ad = kv.compute_control(dt, vd - v);
  } else if (kind == 1) {   // velocity
    w  = c.compute_velocity_control(v, A, o, vr, yaw, dt);
    vd = vr;
    ad = kv.compute_control(dt, vr - v);
  } else if (kind == 2) {   // trajectory
    w  = c.compute_trajectory_control(x, v, A, o, xr, vr, ar, yaw, dt);
    vd = vr;
    ad = kt.trajectory_to_linear_acceleration(x, v, xr, vr, ar, dt);
  } else if (kind == 3) {   // acceleration
    w  = c.compute_acceleration_control(A, o, ar, yaw, dt);
    ad = ar;
  } else {                  // rates and thrust
    w = c.compute_acro_control(o, T, vr, dt);
  }
  vf_reached("computed");
  auto d = before;
  P th = T;
  V3_<P> rate = vr;
  if (kind != 4) {
    auto acro = d.convert_linear_acceleration_to_acro(ad, A, yaw, dt);
    th = acro.first;
    rate = acro.second;
  }
  Eigen::Matrix<P, N, 1> wr = d.convert_acro_to_motor_angular_velocity(o, th, rate, dt);
  eqn<N>(w, wr, "motor-speeds-of-the-chain");
  eqn<N>(c.get_desired_motor_angular_velocity(), wr, "motor-speeds-reported");
  eq3(c.get_desired_angular_velocity(), rate, "rates-reported");
  vf_eq(c.get_desired_thrust(), th, "thrust-reported");
  eq3(c.get_desired_linear_velocity(), vd, "velocity-handed-on");
  eq3(c.get_desired_linear_acceleration(), ad, "acceleration-handed-on");
  if (kind == 0 || kind == 2) eq3(c.get_desired_position(), xr, "position-reported");
  // loops that take no part keep their memory
  if (kind != 0) vf_same(&c.get_position_controller_const(), &before.get_position_controller_const(), sizeof(position_controller::PositionController<P>), "position-loop-untouched");
  if (kind > 1) vf_same(&c.get_velocity_controller_const(), &before.get_velocity_controller_const(), sizeof(velocity_controller::VelocityController<P>), "velocity-loop-untouched");
  if (kind != 2) vf_same(&c.get_trajectory_controller_const(), &before.get_trajectory_controller_const(), sizeof(trajectory_controller::TrajectoryController<P>), "trajectory-loop-untouched");
}
extern "C" void ob_chain_position() { chain<double, 4>(0); }
extern "C" void ob_chain_velocity() { chain<double, 4>(1); }
extern "C" void ob_chain_trajectory() { chain<double, 4>(2); }
extern "C" void ob_chain_acceleration() { chain<double, 4>(3); }
extern "C" void ob_chain_acro() { chain<double, 4>(4); }
extern "C" void ob_chain_position_hexa() { chain<double, 6>(0); }
extern "C" void ob_chain_trajectory_float() { chain<float, 4>(2); }

// resetting the cascade resets every loop
extern "C" void ob_reset_all() {
  auto c = any_controller<double, 4>();
  auto a = pid_of<double>(c.get_position_controller_const()), b = pid_of<double>(c.get_velocity_controller_const()),
       d = pid_of<double>(c.get_trajectory_controller_const()), g = pid_of<double>(c.get_indi_controller_const());
  c.reset_controller();
  a.reset_controller(); b.reset_controller(); d.reset_controller(); g.reset_controller();
  vf_reached("reset");
  auto e = V3<double>("e");
  double dt = vf_pos("dt");
  auto a2 = pid_of<double>(c.get_position_controller_const()), b2 = pid_of<double>(c.get_velocity_controller_const()),
       d2 = pid_of<double>(c.get_trajectory_controller_const()), g2 = pid_of<double>(c.get_indi_controller_const());
  eq3(a2.compute_control(dt, e), a.compute_control(dt, e), "position-loop-reset");
  eq3(b2.compute_control(dt, e), b.compute_control(dt, e), "velocity-loop-reset");
  eq3(d2.compute_control(dt, e, e), d.compute_control(dt, e, e), "trajectory-loop-reset");
  eq3(g2.compute_control(dt, e), g.compute_control(dt, e), "rate-loop-reset");
}

// the single conversions use their own loop, hand back its demand and leave the other loops alone
template <typename P, int N> static void conversion(int kind) {
  precision<P>();
  auto c = any_controller<P, N>();
  const auto before = c;
  auto x = V3<P>("x"), v = V3<P>("v"), xr = V3<P>("xr"), vr = V3<P>("vr"), ar = V3<P>("ar");
  P dt = POS<P>("dt");
  V3_<P> got, want;
  if (kind == 0) {
    auto k = pid_of<P>(before.get_position_controller_const());
    got  = c.convert_position_to_linear_velocity(x, xr, dt);
    want = k.compute_control(dt, xr - x);
  } else if (kind == 1) {
    auto k = pid_of<P>(before.get_velocity_controller_const());
    got  = c.convert_linear_velocity_to_linear_acceleration(v, vr, dt);
    want = k.compute_control(dt, vr - v);
  } else {
    auto k = pid_of<P>(before.get_trajectory_controller_const());
    got  = c.convert_trajectory_to_linear_acceleration(x, v, xr, vr, ar, dt);
    want = k.compute_control(dt, xr - x, vr - v);
    for (int i = 0; i < 3; i++) want[i] += ar[i];
  }
  vf_reached("converted");
  eq3(got, want, "demand-of-its-own-loop");
  if (kind != 0) vf_same(&c.get_position_controller_const(), &before.get_position_controller_const(), sizeof(position_controller::PositionController<P>), "position-loop-untouched");
  if (kind != 1) vf_same(&c.get_velocity_controller_const(), &before.get_velocity_controller_const(), sizeof(velocity_controller::VelocityController<P>), "velocity-loop-untouched");
  if (kind != 2) vf_same(&c.get_trajectory_controller_const(), &before.get_trajectory_controller_const(), sizeof(trajectory_controller::TrajectoryController<P>), "trajectory-loop-untouched");
  vf_same(&c.get_indi_controller_const(), &before.get_indi_controller_const(), sizeof(indi_controller::IndiController<P, N>), "rate-loop-untouched");
  vf_same(&c.get_acro_controller_const(), &before.get_acro_controller_const(), sizeof(acro_controller::AcroController<P>), "attitude-loop-untouched");
}
extern "C" void ob_convert_position() { conversion<double, 4>(0); }
extern "C" void ob_convert_velocity() { conversion<double, 4>(1); }
extern "C" void ob_convert_trajectory() { conversion<double, 4>(2); }
extern "C" void ob_convert_velocity_float() { conversion<float, 6>(1); }

// the loops handed out for writing are the loops in use: a gain written there acts on the next demand
extern "C" void ob_handed_out() {
  auto c = any_controller<double, 4>();
  auto kx = V3<double>("kx"), kv = V3<double>("kv"), kt = V3<double>("kt"), kw = V3<double>("kw");
  double m = vf_real("m");
  c.get_position_controller().set_gains_kp(kx);
  c.get_velocity_controller().set_gains_kp(kv);
  c.get_trajectory_controller().set_gains_kp(kt);
  c.get_indi_controller().set_gains_kp(kw);
  c.get_acro_controller().update_vehicle_mass(m);
  vf_reached("written");
  eq3(c.get_position_controller_const().get_gains_kp(), kx, "position-loop-in-use");
  eq3(c.get_velocity_controller_const().get_gains_kp(), kv, "velocity-loop-in-use");
  eq3(c.get_trajectory_controller_const().get_gains_kp(), kt, "trajectory-loop-in-use");
  eq3(c.get_indi_controller_const().get_gains_kp(), kw, "rate-loop-in-use");
  vf_eq(c.get_acro_controller_const().get_vehicle_mass(), m, "attitude-loop-in-use");
}
// a new cascade has demanded nothing yet
template <typename P, int N> static void fresh() {
  precision<P>();
  controller::Controller<P, N> c;
  vf_reached("built");
  for (int i = 0; i < 3; i++) {
    vf_eq(c.get_desired_position()[i], 0, "nothing-demanded");
    vf_eq(c.get_desired_linear_velocity()[i], 0, "nothing-demanded");
    vf_eq(c.get_desired_linear_acceleration()[i], 0, "nothing-demanded");
    vf_eq(c.get_desired_angular_velocity()[i], 0, "nothing-demanded");
    vf_eq(c.get_position_controller_const().get_desired_linear_velocity()[i], 0, "nothing-demanded");
    vf_eq(c.get_position_controller_const().get_position_error()[i], 0, "no-error");
    vf_eq(c.get_velocity_controller_const().get_desired_linear_acceleration()[i], 0, "nothing-demanded");
    vf_eq(c.get_velocity_controller_const().get_velocity_error()[i], 0, "no-error");
    vf_eq(c.get_trajectory_controller_const().get_position_error()[i], 0, "no-error");
    vf_eq(c.get_trajectory_controller_const().get_velocity_error()[i], 0, "no-error");
    vf_eq(c.get_acro_controller_const().get_desired_angular_velocity()[i], 0, "nothing-demanded");
  }
  vf_eq(c.get_desired_thrust(), 0, "nothing-demanded");
  for (int i = 0; i < N; i++) vf_eq(c.get_desired_motor_angular_velocity()[i], 0, "nothing-demanded");
}
extern "C" void ob_fresh() { fresh<double, 4>(); }
extern "C" void ob_fresh_hexa_float() { fresh<float, 6>(); }
