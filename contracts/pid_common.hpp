// Arbitrary PID controllers: any parameters, any history.
#ifndef VF_PID_COMMON_HPP_
#define VF_PID_COMMON_HPP_
#include <iostream>
#include <limits>
#include "common.hpp"
#include "pid_controller/pid.hpp"
#include "pid_controller/pid_1d.hpp"
namespace vfc {
template <typename P, int D> using Vec = Eigen::Matrix<P, D, 1>;
template <typename P, int D> inline Vec<P, D> NN(const char* n) {
  Vec<P, D> v;
  for (int i = 0; i < D; i++) v[i] = NNEG<P>(n);
  return v;
}
// saturation: 0 none, 1 plain, 2 proportional
template <typename P, int D> inline pid_controller::PIDParams<P, D> any_pid(int saturation) {
  pid_controller::PIDParams<P, D> p;
  p.Kp_gains = VN<P, D>("kp");
  p.Ki_gains = VN<P, D>("ki");
  p.Kd_gains = VN<P, D>("kd");
  p.antiwindup_cte = NN<P, D>("aw");
  p.alpha = VN<P, D>("alpha");
  p.reset_integral_flag = vf_bool("reset_flag");
  if (saturation) {
    p.proportional_saturation_flag = saturation == 2;
    for (int i = 0; i < D; i++) {
      // plain limits anywhere, proportional ones around zero
      p.upper_output_saturation[i] = saturation == 2 ? NNEG<P>("hi") : R<P>("hi");
      p.lower_output_saturation[i] = saturation == 2 ? -NNEG<P>("lo") : R<P>("lo");
      // limits closer than the machine epsilon switch the saturation off
      vf_assume(p.upper_output_saturation[i] - p.lower_output_saturation[i] >= std::numeric_limits<P>::epsilon());
    }
  }
  return p;
}
// any history: every stored byte arbitrary, then the parameters
template <typename P, int D> inline pid_controller::PID<P, D> any_history(const pid_controller::PIDParams<P, D>& p, const char* nm = "history") {
  pid_controller::PID<P, D> c;
  vf_havoc(&c, sizeof c, nm);
  c.update_pid_params(p);
  return c;
}
// any history with at least one control computation since the last reset
template <typename P, int D> inline pid_controller::PID<P, D> running(const pid_controller::PIDParams<P, D>& p) {
  auto c = any_history<P, D>(p);
  P dt0  = POS<P>("dt0");
  c.compute_control(dt0, VN<P, D>("e0"));
  return c;
}
// what the controller remembers, seen from outside through copies
template <typename P, int D> inline Vec<P, D> accumulated(const pid_controller::PID<P, D>& c) {
  pid_controller::PID<P, D> k = c;
  k.set_gains(Vec<P, D>::Zero(), Vec<P, D>::Ones(), Vec<P, D>::Zero());
  k.set_anti_windup(Vec<P, D>::Zero());
  k.set_reset_integral_saturation_flag(false);
  k.disable_output_saturation();
  return k.compute_control(P(1), Vec<P, D>::Zero(), Vec<P, D>::Zero());
}
template <typename P, int D> inline Vec<P, D> filtered(const pid_controller::PID<P, D>& c) {
  pid_controller::PID<P, D> k = c;
  k.set_gains(Vec<P, D>::Zero(), Vec<P, D>::Zero(), Vec<P, D>::Ones());
  k.set_alpha(Vec<P, D>::Zero());
  k.set_reset_integral_saturation_flag(false);
  k.disable_output_saturation();
  return k.compute_control(P(1), Vec<P, D>::Zero());
}
template <typename P> inline P absv(P x) { return x < 0 ? -x : x; }
// accumulated error of one axis after a step
template <typename P, int D> inline P accumulate(const pid_controller::PIDParams<P, D>& p, int i, P I, P e, P dt) {
  bool any = false;
  for (int k = 0; k < D; k++) any = any | (p.antiwindup_cte[k] > 0);
  P aw = p.antiwindup_cte[i];
  bool drop = p.reset_integral_flag & ((I > aw) | (I < -aw)) & ((I < 0) != (e < 0));
  P n = (drop ? P(0) : I) + e * dt;
  return any ? lim(n, -aw, aw) : n;
}
}  // namespace vfc
#endif
