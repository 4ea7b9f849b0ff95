// C26: yaw rate mode: the heading reference leads the current heading by rate over yaw gain, at every update.
#include "sim_common.hpp"
using namespace vfc;

template <typename P, int N> static void lead() {
  precision<P>();
  auto c = any_controller<P, N>();
  acro_controller::AcroControllerParams<P> p;
  p.vehicle_mass = POS<P>("mass");
  p.gravity      = V3<P>("g");
  p.kp_rot       = MX<P, 3, 3>("k");
  c.update_acro_controller_params(p);
  P yaw = R<P>("yaw"), rate = R<P>("rate"), k = p.kp_rot(2, 2);
  const auto b = c;
  P r = c.yaw_rate_to_angle(yaw, rate);
  vf_reached("computed");
  vf_eq(k < 0 || k > 0 ? (r - yaw) * k : r - yaw, k < 0 || k > 0 ? rate : P(0), "lead-is-rate-over-yaw-gain");
  vf_same(&c, &b, sizeof c, "conversion-changes-nothing");
}
extern "C" void ob_lead() { lead<double, 4>(); }
extern "C" void ob_lead_hexa() { lead<double, 6>(); }
extern "C" void ob_lead_float() { lead<float, 4>(); }

// the simulator in rate mode acts exactly as in angle mode with that heading reference
template <typename P, int N> static void rate_mode(ControlMode mode) {
  precision<P>();
  AnySim<P, N> s;
  acro_controller::AcroControllerParams<P> p;
  p.vehicle_mass = POS<P>("mass");
  p.gravity      = V3<P>("g");
  p.kp_rot       = MX<P, 3, 3>("k");
  P k = p.kp_rot(2, 2);
  vf_assume(k < 0 || k > 0);
  s.get_controller().update_acro_controller_params(p);
  s.arm();
  P rate = R<P>("rate"), old = R<P>("old"), dt = POS<P>("dt");
  auto x = V3<P>("xr"), v = V3<P>("vr"), a = V3<P>("ar"), o = V3<P>("or");
  P T = R<P>("T");
  Simulator<P, N> t = s;
  s.set_control_mode(mode, YawControlMode::RATE);
  t.set_control_mode(mode, YawControlMode::ANGLE);
  for (Simulator<P, N>* z : {static_cast<Simulator<P, N>*>(&s), &t}) {
    z->set_reference_trajectory(x, v, a);
    z->set_reference_acro(T, o);
    z->set_reference_yaw_angle(old);
    z->set_reference_yaw_rate(rate);
  }
  P want = heading<P>(s.start.kinematics.orientation) + rate / k;
  t.set_reference_yaw_angle(want);
  s.update_controller(dt);
  t.update_controller(dt);
  vf_reached("updated");
  vf_eq(s.get_reference_yaw(), want, "heading-reference-leads-the-current-heading");
  vf_eq(s.get_reference_yaw_rate(), rate, "rate-reference-kept");
  same_actuation<P, N>(s, t, "rate-mode-acts-as-angle-mode-with-that-heading");
  same_controller<P, N>(s, t, "rate-mode-acts-as-angle-mode-with-that-heading");
  same_references<P, N>(s, t, 0, "other-references-untouched");
  same_dynamics<P, N>(s, t, "vehicle-untouched");
}
extern "C" void ob_rate_position() { rate_mode<double, 4>(POSITION); }
extern "C" void ob_rate_velocity() { rate_mode<double, 4>(VELOCITY); }
extern "C" void ob_rate_trajectory() { rate_mode<double, 4>(TRAJECTORY); }
extern "C" void ob_rate_hover() { rate_mode<double, 4>(HOVER); }
extern "C" void ob_rate_velocity_hexa() { rate_mode<double, 6>(VELOCITY); }
// angle mode leaves the heading reference alone
extern "C" void ob_angle_mode() {
  AnySim<double, 4> s;
  s.arm();
  s.set_control_mode(VELOCITY, ANGLE);
  double yaw = vf_real("yaw"), dt = vf_pos("dt");
  s.set_reference_yaw_angle(yaw);
  s.update_controller(dt);
  vf_reached("updated");
  vf_eq(s.get_reference_yaw(), yaw, "angle-mode-keeps-the-heading-reference");
}
