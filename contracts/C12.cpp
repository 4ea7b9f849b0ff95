// C12: limited controllers never exceed their limits; proportional limiting keeps the direction.
#include "pid_common.hpp"
using namespace vfc;

// any history, limits on: outputs inside, on both forms of the control computation
template <typename P, int D> static void inside(bool given, int sat) {
  precision<P>();
  auto p = any_pid<P, D>(sat);
  auto c = any_history<P, D>(p);
  P dt = POS<P>("dt");
  auto e  = VN<P, D>("e");
  auto ed = VN<P, D>("edot");
  Vec<P, D> out = given ? c.compute_control(dt, e, ed) : c.compute_control(dt, e);
  vf_reached("computed");
  Vec<P, D> sum = c.get_proportional_error_contribution() + c.get_integral_error_contribution() + c.get_derivative_error_contribution();
  P k = 1;
  if (sat == 2)
    for (int i = 0; i < D; i++) {
      P f = sum[i] > p.upper_output_saturation[i] ? p.upper_output_saturation[i] / sum[i]
                                                  : (sum[i] < p.lower_output_saturation[i] ? p.lower_output_saturation[i] / sum[i] : P(1));
      k = f < k ? f : k;
    }
  for (int i = 0; i < D; i++) {
    vf_eq(out[i], sat == 2 ? k * sum[i] : lim(sum[i], p.lower_output_saturation[i], p.upper_output_saturation[i]), "limited-output");
    vf_eq(c.get_output()[i], out[i], "limited-output-reported");
  }
}
extern "C" void ob_plain_1() { inside<double, 1>(false, 1); }
extern "C" void ob_plain_3() { inside<double, 3>(false, 1); }
extern "C" void ob_plain_3_given() { inside<double, 3>(true, 1); }
extern "C" void ob_plain_4() { inside<double, 4>(false, 1); }

// the limiting itself, any limits around zero, any output
template <typename P, int D> static void proportional() {
  precision<P>();
  Vec<P, D> hi = NN<P, D>("hi"), lo = -NN<P, D>("lo"), o = VN<P, D>("o");
  Vec<P, D> r = pid_controller::PID<P, D>::saturate_output(o, hi, lo, true);
  vf_reached("limited");
  bool all_inside = true;
  P gap = 1;  // zero as soon as one of the axes that were outside lies on its limit
  for (int i = 0; i < D; i++) {
    vf_le(lo[i], r[i], "proportional-not-below");
    vf_le(r[i], hi[i], "proportional-not-above");
    all_inside = all_inside & (o[i] <= hi[i]) & (lo[i] <= o[i]);
    gap *= o[i] > hi[i] ? hi[i] - r[i] : (o[i] < lo[i] ? r[i] - lo[i] : P(1));
    for (int j = 0; j < i; j++) vf_eq(r[i] * o[j], r[j] * o[i], "proportional-keeps-the-direction");
    vf_le(0, r[i] * o[i], "proportional-keeps-the-orientation");
  }
  vf_eq(gap, all_inside ? P(1) : P(0), "proportional-reduces-no-more-than-needed");
  if (all_inside)
    for (int i = 0; i < D; i++) vf_eq(r[i], o[i], "proportional-leaves-an-allowed-output-alone");
}
template <typename P, int D> static void plain() {
  precision<P>();
  Vec<P, D> lo = VN<P, D>("lo"), o = VN<P, D>("o"), hi = lo + NN<P, D>("span");
  Vec<P, D> r = pid_controller::PID<P, D>::saturate_output(o, hi, lo, false);
  vf_reached("limited");
  for (int i = 0; i < D; i++) {
    vf_le(lo[i], r[i], "plain-not-below");
    vf_le(r[i], hi[i], "plain-not-above");
    vf_eq(r[i], lim(o[i], lo[i], hi[i]), "plain-limits-each-axis");
  }
}
extern "C" void ob_limit_plain_3() { plain<double, 3>(); }
extern "C" void ob_limit_plain_1() { plain<double, 1>(); }
extern "C" void ob_limit_plain_4() { plain<double, 4>(); }
extern "C" void ob_limit_plain_3_float() { plain<float, 3>(); }
extern "C" void ob_limit_proportional_1() { proportional<double, 1>(); }
extern "C" void ob_limit_proportional_2() { proportional<double, 2>(); }
extern "C" void ob_limit_proportional_3() { proportional<double, 3>(); }

// with proportional limiting the controller applies exactly that limiting
template <typename P, int D> static void applied(bool given) {
  precision<P>();
  auto p = any_pid<P, D>(2);
  auto c = any_history<P, D>(p);
  P dt = POS<P>("dt");
  auto e  = VN<P, D>("e");
  auto ed = VN<P, D>("edot");
  Vec<P, D> out = given ? c.compute_control(dt, e, ed) : c.compute_control(dt, e);
  vf_reached("computed");
  Vec<P, D> sum = c.get_proportional_error_contribution() + c.get_integral_error_contribution() + c.get_derivative_error_contribution();
  Vec<P, D> r = pid_controller::PID<P, D>::saturate_output(sum, p.upper_output_saturation, p.lower_output_saturation, true);
  for (int i = 0; i < D; i++) vf_eq(out[i], r[i], "proportional-limiting-applied");
}
extern "C" void ob_proportional_applied() { applied<double, 3>(false); }
extern "C" void ob_proportional_applied_given() { applied<double, 3>(true); }
extern "C" void ob_proportional_1() { inside<double, 1>(false, 2); }
