// C22: what reaches the motors: nothing when disarmed, the selected controller's output when armed.
#include "sim_common.hpp"
using namespace vfc;

template <typename P, int N> static void disarmed(bool fresh) {
  precision<P>();
  AnySim<P, N> s;
  if (fresh) {
    Simulator<P, N> f;
    static_cast<Simulator<P, N>&>(s) = f;     // never armed
  } else {
    s.disarm();
  }
  for (int i = 0; i < N; i++) vf_eq(s.get_actuation_motors_angular_velocity()[i], 0, "disarming-stops-the-motors");
  vf_assert(!s.get_armed(), "disarmed");
  auto before = static_cast<Simulator<P, N>&>(s);
  P dt = R<P>("dt");
  s.update_controller(dt);
  vf_reached("updated");
  for (int i = 0; i < N; i++) vf_eq(s.get_actuation_motors_angular_velocity()[i], 0, "disarmed-motors-stay-stopped");
  const char* id = "disarmed-controller-has-no-effect";
  same_dynamics<P, N>(s, before, id);
  same_controller<P, N>(s, before, id);
  same_imu<P, N>(s, before, id);
  same_odometry<P, N>(s, before, id);
  same_modes<P, N>(s, before, id);
  same_references<P, N>(s, before, 0, id);
}
extern "C" void ob_disarmed_quad() { disarmed<double, 4>(false); }
extern "C" void ob_disarmed_hexa() { disarmed<double, 6>(false); }
extern "C" void ob_never_armed() { disarmed<double, 4>(true); }
extern "C" void ob_disarmed_float() { disarmed<float, 4>(false); }

// armed: the output of the selected controller on the true state and the current references
template <typename P, int N> static void dispatch(ControlMode mode, YawControlMode yaw_mode = YawControlMode::ANGLE) {
  precision<P>();
  AnySim<P, N> s;
  s.arm();
  s.set_control_mode(mode, yaw_mode);
  auto x = V3<P>("xr"), v = V3<P>("vr"), a = V3<P>("ar"), o = V3<P>("or");
  P T = R<P>("T"), yaw = R<P>("yawr"), dt = POS<P>("dt");
  auto u = VN<P, N>("ur");
  s.set_refence_motors_angular_velocity(u);
  s.set_reference_acro(T, o);
  s.set_reference_trajectory(x, v, a);
  s.set_reference_yaw_angle(yaw);
  Simulator<P, N> before = s;
  auto c = s.get_controller_const();
  const auto& k = s.start.kinematics;
  M3_<P> A;
  for (int i = 0; i < 3; i++)
    for (int j = 0; j < 3; j++) A(i, j) = rot(k.orientation, i, j);
  s.update_controller(dt);
  vf_reached("updated");
  Eigen::Matrix<P, N, 1> w = u;
  if (mode == ACRO) w = c.compute_acro_control(k.angular_velocity, T, o, dt);
  if (mode == TRAJECTORY) w = c.compute_trajectory_control(k.position, k.linear_velocity, A, k.angular_velocity, x, v, a, yaw, dt);
  if (mode == VELOCITY) w = c.compute_velocity_control(k.linear_velocity, A, k.angular_velocity, v, yaw, dt);
  if (mode == POSITION || mode == HOVER) w = c.compute_position_control(k.position, A, k.linear_velocity, k.angular_velocity, x, yaw, dt);
  eqn<N>(s.get_actuation_motors_angular_velocity(), w, "motors-get-the-selected-controller-output");
  Eigen::Matrix<P, N, 1> w2;
  s.get_actuation_motors_angular_velocity(w2);
  eqn<N>(w2, w, "motors-get-the-selected-controller-output");
  vf_same(&s.get_controller_const(), &c, sizeof c, "only-the-selected-controller-runs");
  same_dynamics<P, N>(s, before, "controller-does-not-touch-the-vehicle");
  same_imu<P, N>(s, before, "controller-does-not-touch-the-sensors");
  same_odometry<P, N>(s, before, "controller-does-not-touch-the-sensors");
  same_modes<P, N>(s, before, "controller-does-not-touch-the-modes");
  // in rate mode the heading reference follows the vehicle (C26)
  same_references<P, N>(s, before, yaw_mode == RATE ? YAW : 0, "controller-does-not-touch-the-references");
}
extern "C" void ob_motor() { dispatch<double, 4>(MOTOR_W); }
extern "C" void ob_acro() { dispatch<double, 4>(ACRO); }
extern "C" void ob_motor_rate() { dispatch<double, 4>(MOTOR_W, YawControlMode::RATE); }
extern "C" void ob_acro_rate() { dispatch<double, 4>(ACRO, YawControlMode::RATE); }
extern "C" void ob_trajectory() { dispatch<double, 4>(TRAJECTORY); }
extern "C" void ob_velocity() { dispatch<double, 4>(VELOCITY); }
extern "C" void ob_position() { dispatch<double, 4>(POSITION); }
extern "C" void ob_hover() { dispatch<double, 4>(HOVER); }
extern "C" void ob_position_hexa() { dispatch<double, 6>(POSITION); }
extern "C" void ob_motor_hexa() { dispatch<double, 6>(MOTOR_W); }
#ifdef VF_THOROUGH
extern "C" void ob_acro_hexa() { dispatch<double, 6>(ACRO); }
extern "C" void ob_velocity_float() { dispatch<float, 4>(VELOCITY); }
#endif

// a newly built simulator drives the motors directly from the motor references
extern "C" void ob_default_mode() {
  Simulator<double, 4> s;
  s.arm();
  auto u = VN<double, 4>("u");
  s.set_refence_motors_angular_velocity(u);
  double dt = vf_pos("dt");
  s.update_controller(dt);
  vf_reached("updated");
  vf_assert(s.get_control_mode() == MOTOR_W && s.get_yaw_control_mode() == ANGLE, "starts-in-motor-mode");
  eqn<4>(s.get_actuation_motors_angular_velocity(), u, "motor-mode-passes-references-through");
}
// the vehicle is driven by the actuation
template <typename P, int N> static void driven() {
  precision<P>();
  AnySim<P, N> s;
  P dt = static_cast<P>(vf_real_in("dt", 0, 0.01));
  vf_assume(dt > 0);
  s.disable_floor_collision();
  s.update_dynamics(P(0.001));      // leaves no pending floor contact
  s.get_dynamics().set_state(s.start);
  auto d = s.get_dynamics_const();
  Eigen::Matrix<P, N, 1> u = s.get_actuation_motors_angular_velocity();
  s.update_dynamics(dt);
  vf_reached("updated");
  d.process_euler_explicit(u, dt, V3_<P>::Zero(), true);
  same_state<P, N>(s.get_state(), d.get_state(), "vehicle-follows-the-actuation");
  eqn<N>(s.get_actuation_motors_angular_velocity(), u, "actuation-kept");
}
extern "C" void ob_driven_quad() { driven<double, 4>(); }
extern "C" void ob_driven_hexa() { driven<double, 6>(); }
