// C13: anti-windup: the accumulated error never exceeds its bound, whatever happened before.
#include "pid_common.hpp"
using namespace vfc;

template <typename P, int D> static void bounded(bool given, bool all) {
  precision<P>();
  auto p = any_pid<P, D>(0);
  if (all) for (int i = 0; i < D; i++) p.antiwindup_cte[i] = POS<P>("awpos");
  else p.antiwindup_cte[D - 1] = POS<P>("awpos");
  auto c = any_history<P, D>(p);
  P dt = POS<P>("dt");
  auto e  = VN<P, D>("e");
  auto ed = VN<P, D>("edot");
  Vec<P, D> out = given ? c.compute_control(dt, e, ed) : c.compute_control(dt, e);
  vf_reached("computed");
  Vec<P, D> I = accumulated<P, D>(c);
  for (int i = 0; i < D; i++) {
    vf_le(I[i], p.antiwindup_cte[i], "accumulated-not-above-bound");
    vf_le(-p.antiwindup_cte[i], I[i], "accumulated-not-below-bound");
    vf_eq(c.get_integral_error_contribution()[i], p.Ki_gains[i] * I[i], "integral-term-uses-limited-error");
  }
}
extern "C" void ob_bound_1() { bounded<double, 1>(false, true); }
extern "C" void ob_bound_3() { bounded<double, 3>(false, true); }
extern "C" void ob_bound_3_given() { bounded<double, 3>(true, true); }
extern "C" void ob_bound_3_some() { bounded<double, 3>(false, false); }
extern "C" void ob_bound_3_float() { bounded<float, 3>(false, true); }

// without bounds (all zero) nothing is limited; the reset on sign change clears an axis only against its error
template <typename P, int D> static void free_() {
  precision<P>();
  auto p = any_pid<P, D>(0);
  p.antiwindup_cte.setZero();
  auto c = running<P, D>(p);
  Vec<P, D> I = accumulated<P, D>(c);
  P dt = POS<P>("dt");
  auto e = VN<P, D>("e");
  for (int i = 0; i < D; i++) vf_assume((e[i] < 0) | (e[i] > 0));
  c.compute_control(dt, e);
  vf_reached("computed");
  Vec<P, D> I1 = accumulated<P, D>(c);
  for (int i = 0; i < D; i++) {
    bool drop = p.reset_integral_flag & (((I[i] < 0) & (e[i] > 0)) | ((I[i] > 0) & (e[i] < 0)));
    vf_eq(I1[i], (drop ? P(0) : I[i]) + e[i] * dt, "unbounded-accumulation");
  }
}
extern "C" void ob_unbounded_1() { free_<double, 1>(); }
extern "C" void ob_unbounded_3() { free_<double, 3>(); }

// the one dimensional controller
template <typename P> static void scalar(bool given) {
  precision<P>();
  pid_1d_controller::PIDParams<P> p;
  p.Kp_gains = R<P>("kp"); p.Ki_gains = R<P>("ki"); p.Kd_gains = R<P>("kd"); p.alpha = R<P>("alpha");
  p.antiwindup_cte = POS<P>("aw"); p.reset_integral_flag = vf_bool("flag");
  pid_1d_controller::PID<P> c;
  vf_havoc(&c, sizeof c, "history");
  c.update_params(p);
  P dt = POS<P>("dt"), e = R<P>("e"), ed = R<P>("edot");
  if (given) c.compute_control(dt, e, ed); else c.compute_control(dt, e);
  vf_reached("computed");
  c.set_gains(0, 1, 0);
  c.set_anti_windup(0);
  c.set_reset_integral_saturation_flag(false);
  P I = c.compute_control(1, 0, 0);
  vf_le(I, p.antiwindup_cte, "accumulated-not-above-bound");
  vf_le(-p.antiwindup_cte, I, "accumulated-not-below-bound");
}
extern "C" void ob_scalar() { scalar<double>(false); }
extern "C" void ob_scalar_given() { scalar<double>(true); }
