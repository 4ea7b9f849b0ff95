// C16: the one dimensional controller behaves as one axis of the vector controller.
#include "pid_common.hpp"
using namespace vfc;

template <typename P> struct Pair {
  pid_1d_controller::PIDParams<P> a;
  pid_controller::PIDParams<P, 1> b;
};
template <typename P> static Pair<P> same(bool sat) {
  Pair<P> r;
  r.a.Kp_gains = r.b.Kp_gains[0] = R<P>("kp");
  r.a.Ki_gains = r.b.Ki_gains[0] = R<P>("ki");
  r.a.Kd_gains = r.b.Kd_gains[0] = R<P>("kd");
  r.a.alpha = r.b.alpha[0] = R<P>("alpha");
  r.a.antiwindup_cte = r.b.antiwindup_cte[0] = NNEG<P>("aw");
  r.a.reset_integral_flag = r.b.reset_integral_flag = vf_bool("flag");
  if (sat) {
    r.a.upper_output_saturation = r.b.upper_output_saturation[0] = R<P>("hi");
    r.a.lower_output_saturation = r.b.lower_output_saturation[0] = R<P>("lo");
  }
  return r;
}
template <typename P> static P acc1(pid_1d_controller::PID<P> k) {
  k.set_gains(0, 1, 0);
  k.set_anti_windup(0);
  k.set_reset_integral_saturation_flag(false);
  k.disable_output_saturation();
  return k.compute_control(1, 0, 0);
}
template <typename P> static P fil1(pid_1d_controller::PID<P> k) {
  k.set_gains(0, 0, 1);
  k.set_alpha(0);
  k.set_reset_integral_saturation_flag(false);
  k.disable_output_saturation();
  return k.compute_control(1, 0);
}
// any history: one step obeys the law of an axis
template <typename P> static void law(bool given, bool flag) {
  precision<P>();
  auto r = same<P>(false);
  if (!flag) r.a.reset_integral_flag = r.b.reset_integral_flag = false;
  pid_1d_controller::PID<P> c;
  vf_havoc(&c, sizeof c, "history");
  c.update_params(r.a);
  P dt0 = POS<P>("dt0"), e0 = R<P>("e0");
  c.compute_control(dt0, e0);
  P I = acc1<P>(c), F = fil1<P>(c), last = c.get_proportional_error();
  P dt = POS<P>("dt"), e = R<P>("e"), ed = R<P>("edot");
  if (flag) vf_assume((e < 0) | (e > 0));
  P out = given ? c.compute_control(dt, e, ed) : c.compute_control(dt, e);
  vf_reached("computed");
  P acc = accumulate<P, 1>(r.b, 0, I, e, dt);
  P fil = given ? F : r.a.alpha * (e - last) / dt + (1 - r.a.alpha) * F;
  vf_eq(acc1<P>(c), acc, "scalar-accumulated-error");
  vf_eq(fil1<P>(c), fil, "scalar-filtered-derivative");
  vf_eq(out, r.a.Kp_gains * e + r.a.Ki_gains * acc + r.a.Kd_gains * (given ? ed : fil), "scalar-output");
  vf_eq(c.get_proportional_error(), e, "scalar-error-remembered");
  vf_eq(c.get_output(), out, "scalar-output-reported");
}
extern "C" void ob_law() { law<double>(false, false); }
extern "C" void ob_law_given() { law<double>(true, false); }
extern "C" void ob_law_reset() { law<double>(false, true); }
extern "C" void ob_law_float() { law<float>(false, false); }

// from new: the same outputs, reports and settings, over calls of both forms
template <typename P> static void twins(bool g1, bool g2) {
  precision<P>();
  auto r = same<P>(true);
  r.a.reset_integral_flag = r.b.reset_integral_flag = false;
  pid_1d_controller::PID<P> a(r.a);
  pid_controller::PID<P, 1> b(r.b);
  vf_assert(a.get_output_saturation_flag() == b.get_output_saturation_flag(), "limits-agree");
  bool g[3] = {g1, g2, false};
  for (int k = 0; k < 2; k++) {
    P dt = POS<P>("dt"), e = R<P>("e"), ed = R<P>("edot");
    Vec<P, 1> ev, edv;
    ev[0] = e; edv[0] = ed;
    P x = g[k] ? a.compute_control(dt, e, ed) : a.compute_control(dt, e);
    Vec<P, 1> y = g[k] ? b.compute_control(dt, ev, edv) : b.compute_control(dt, ev);
    vf_eq(x, y[0], "outputs-agree");
    vf_eq(a.get_proportional_error_contribution(), b.get_proportional_error_contribution()[0], "terms-agree");
    vf_eq(a.get_integral_error_contribution(), b.get_integral_error_contribution()[0], "terms-agree");
    vf_eq(a.get_derivative_error_contribution(), b.get_derivative_error_contribution()[0], "terms-agree");
    vf_eq(a.get_derivative_error(), b.get_derivative_error()[0], "derivative-error-agrees");
    vf_eq(a.get_output(), b.get_output()[0], "reported-outputs-agree");
  }
  vf_reached("computed");
}
extern "C" void ob_twins_dd() { twins<double>(false, false); }
extern "C" void ob_twins_gd() { twins<double>(true, false); }
extern "C" void ob_twins_dg() { twins<double>(false, true); }

// limiting and errors
extern "C" void ob_helpers() {
  double lo = vf_real("lo"), hi = lo + vf_nonneg("span"), o = vf_real("o");
  double r = pid_1d_controller::PID<double>::saturate_output(o, hi, lo);
  vf_eq(r, lim(o, lo, hi), "scalar-limiting");
  double x = vf_real("x"), ref = vf_real("r"), xd = vf_real("xd"), rd = vf_real("rd"), a, b;
  vf_eq(pid_1d_controller::PID<double>::get_error(x, ref), ref - x, "scalar-error");
  pid_1d_controller::PID<double>::get_error(x, ref, xd, rd, a, b);
  vf_reached("computed");
  vf_eq(a, ref - x, "scalar-error");
  vf_eq(b, rd - xd, "scalar-derivative-error");
}
