// C23: references and modes: switching holds the vehicle where it is, every setter sets exactly its own references.
#include "sim_common.hpp"
using namespace vfc;

template <typename P, int N> static void rest_same(const Simulator<P, N>& s, const Simulator<P, N>& b) {
  const char* id = "other-parts-untouched";
  same_dynamics<P, N>(s, b, id);
  same_controller<P, N>(s, b, id);
  same_imu<P, N>(s, b, id);
  same_odometry<P, N>(s, b, id);
}
static ControlMode any_mode(const char* n) { return static_cast<ControlMode>(vf_int(n, 0, 5)); }
static YawControlMode any_yaw_mode(const char* n) { return static_cast<YawControlMode>(vf_int(n, 0, 1)); }

// a real switch
template <typename P, int N> static void change() {
  precision<P>();
  AnySim<P, N> s;
  ControlMode m0 = any_mode("m0"), m = any_mode("m");
  YawControlMode y0 = any_yaw_mode("y0"), y = any_yaw_mode("y");
  s.set_control_mode(m0, y0);
  vf_assume(m0 != m || y0 != y);
  Simulator<P, N> b = s;
  // references of the old mode, whatever they were
  s.set_reference_trajectory(V3<P>("xr"), V3<P>("vr"), V3<P>("ar"));
  s.set_reference_acro(R<P>("T"), V3<P>("or"));
  s.set_reference_yaw_angle(R<P>("yawr"));
  s.set_control_mode(m, y);
  vf_reached("switched");
  vf_assert(s.get_control_mode() == m && s.get_yaw_control_mode() == y, "mode-in-force");
  ControlMode mo;
  YawControlMode yo;
  s.get_control_mode(mo);
  s.get_yaw_control_mode(yo);
  vf_assert(mo == m && yo == y, "mode-in-force");
  eq3(s.get_reference_position(), s.start.kinematics.position, "switch-holds-position");
  vf_eq(s.get_reference_yaw(), heading<P>(s.start.kinematics.orientation), "switch-holds-heading");
  for (int i = 0; i < 3; i++) {
    vf_eq(s.get_reference_velocity()[i], 0, "switch-zeroes-velocity-reference");
    vf_eq(s.get_reference_acceleration()[i], 0, "switch-zeroes-acceleration-reference");
    vf_eq(s.get_reference_angular_velocity()[i], 0, "switch-zeroes-rate-reference");
  }
  vf_eq(s.get_reference_thrust(), 0, "switch-zeroes-thrust-reference");
  eqn<N>(s.get_reference_motors_angular_velocity(), b.get_reference_motors_angular_velocity(), "switch-keeps-motor-references");
  vf_eq(s.get_reference_yaw_rate(), b.get_reference_yaw_rate(), "switch-keeps-yaw-rate-reference");
  vf_assert(s.get_armed() == b.get_armed(), "switch-keeps-arming");
  same_actuation<P, N>(s, b, "switch-keeps-actuation");
  rest_same<P, N>(s, b);
}
extern "C" void ob_switch() { change<double, 4>(); }
extern "C" void ob_switch_hexa() { change<double, 6>(); }
extern "C" void ob_switch_float() { change<float, 4>(); }
// switching to the mode already in force changes nothing; the yaw mode defaults to angle
extern "C" void ob_same_mode() {
  AnySim<double, 4> s;
  ControlMode m = any_mode("m");
  YawControlMode y = any_yaw_mode("y");
  s.set_control_mode(m, y);
  s.set_reference_trajectory(V3<double>("xr"), V3<double>("vr"), V3<double>("ar"));
  s.set_reference_acro(vf_real("T"), V3<double>("or"));
  s.set_reference_yaw_angle(vf_real("yawr"));
  s.set_reference_yaw_rate(vf_real("yawrate"));
  Simulator<double, 4> b = s;
  s.set_control_mode(m, y);
  vf_reached("nothing");
  same_references<double, 4>(s, b, 0, "same-mode-keeps-references");
  same_modes<double, 4>(s, b, "same-mode-keeps-modes");
  same_actuation<double, 4>(s, b, "same-mode-keeps-actuation");
  rest_same<double, 4>(s, b);
  s.set_control_mode(m);
  vf_assert(s.get_yaw_control_mode() == ANGLE, "yaw-mode-defaults-to-angle");
}
template <typename P, int N> static void setters(int which) {
  precision<P>();
  AnySim<P, N> s;
  Simulator<P, N> b = s;
  auto x = V3<P>("xr"), v = V3<P>("vr"), a = V3<P>("ar"), o = V3<P>("or");
  P T = R<P>("T"), h = R<P>("h");
  auto u = VN<P, N>("ur");
  const char* id = "setter-stores-its-reference";
  int but = 0;
  if (which == 0) { s.set_refence_motors_angular_velocity(u); but = MOTORS; eqn<N>(s.get_reference_motors_angular_velocity(), u, id); }
  if (which == 1) { s.set_reference_acro(T, o); but = THRUST | RATES; vf_eq(s.get_reference_thrust(), T, id); eq3(s.get_reference_angular_velocity(), o, id); }
  if (which == 2) {
    s.set_reference_trajectory(x, v, a);
    but = POS_ | VEL | ACC;
    eq3(s.get_reference_position(), x, id); eq3(s.get_reference_velocity(), v, id); eq3(s.get_reference_acceleration(), a, id);
  }
  if (which == 3) { s.set_reference_velocity(v); but = VEL; eq3(s.get_reference_velocity(), v, id); }
  if (which == 4) { s.set_reference_position(x); but = POS_; eq3(s.get_reference_position(), x, id); }
  if (which == 5) { s.set_reference_yaw_angle(T); but = YAW; vf_eq(s.get_reference_yaw(), T, id); }
  if (which == 6) { s.set_reference_yaw_rate(T); but = YAWRATE; vf_eq(s.get_reference_yaw_rate(), T, id); }
  same_references<P, N>(s, b, but, "setter-keeps-other-references");
  same_modes<P, N>(s, b, "setter-keeps-modes");
  same_actuation<P, N>(s, b, "setter-keeps-actuation");
  rest_same<P, N>(s, b);
  // reads by reference agree
  V3_<P> r1, r2, r3, r4;
  P t, yw, yr;
  Eigen::Matrix<P, N, 1> w;
  s.get_reference_position(r1); s.get_reference_velocity(r2); s.get_reference_acceleration(r3); s.get_reference_angular_velocity(r4);
  s.get_reference_thrust(t); s.get_reference_yaw(yw); s.get_reference_yaw_rate(yr); s.get_reference_motors_angular_velocity(w);
  id = "both-reads-agree";
  eq3(r1, s.get_reference_position(), id); eq3(r2, s.get_reference_velocity(), id); eq3(r3, s.get_reference_acceleration(), id); eq3(r4, s.get_reference_angular_velocity(), id);
  vf_eq(t, s.get_reference_thrust(), id); vf_eq(yw, s.get_reference_yaw(), id); vf_eq(yr, s.get_reference_yaw_rate(), id);
  eqn<N>(w, s.get_reference_motors_angular_velocity(), id);
  vf_reached("set");
}
extern "C" void ob_set_motors() { setters<double, 4>(0); }
extern "C" void ob_set_acro() { setters<double, 4>(1); }
extern "C" void ob_set_trajectory() { setters<double, 4>(2); }
extern "C" void ob_set_velocity() { setters<double, 4>(3); }
extern "C" void ob_set_position() { setters<double, 4>(4); }
extern "C" void ob_set_yaw() { setters<double, 4>(5); }
extern "C" void ob_set_yaw_rate() { setters<double, 4>(6); }
extern "C" void ob_set_motors_hexa() { setters<double, 6>(0); }

// arming and disarming
extern "C" void ob_arm() {
  AnySim<double, 4> s;
  Simulator<double, 4> b = s;
  s.arm();
  vf_reached("armed");
  bool r = false;
  s.get_armed(r);
  vf_assert(s.get_armed() && r, "arm-arms");
  for (int i = 0; i < 3; i++) vf_eq(s.get_reference_angular_velocity()[i], 0, "arm-zeroes-rate-reference");
  vf_eq(s.get_reference_position()[0], b.get_reference_position()[0], "arm-keeps-horizontal-reference");
  vf_eq(s.get_reference_position()[1], b.get_reference_position()[1], "arm-keeps-horizontal-reference");
  vf_eq(s.get_reference_position()[2], b.get_floor_height(), "arm-height-reference-is-the-floor");
  same_references<double, 4>(s, b, THRUST | RATES | POS_, "arm-keeps-other-references");
  same_actuation<double, 4>(s, b, "arm-keeps-actuation");
  vf_assert(s.get_control_mode() == b.get_control_mode() && s.get_yaw_control_mode() == b.get_yaw_control_mode(), "arm-keeps-mode");
  rest_same<double, 4>(s, b);
}
extern "C" void ob_disarm() {
  AnySim<double, 4> s;
  Simulator<double, 4> b = s;
  s.disarm();
  vf_reached("disarmed");
  bool r = true;
  s.get_armed(r);
  vf_assert(!s.get_armed() && !r, "disarm-disarms");
  for (int i = 0; i < 4; i++) vf_eq(s.get_actuation_motors_angular_velocity()[i], 0, "disarm-stops-the-motors");
  same_references<double, 4>(s, b, 0, "disarm-keeps-references");
  vf_assert(s.get_control_mode() == b.get_control_mode() && s.get_yaw_control_mode() == b.get_yaw_control_mode(), "disarm-keeps-mode");
  rest_same<double, 4>(s, b);
}
