// C15: PID configuration: what is set is what is reported and used; output limits are on exactly when they are valid.
#include "pid_common.hpp"
using namespace vfc;

// any limits at all
template <typename P, int D> static pid_controller::PIDParams<P, D> raw() {
  pid_controller::PIDParams<P, D> p;
  p.Kp_gains = VN<P, D>("kp");
  p.Ki_gains = VN<P, D>("ki");
  p.Kd_gains = VN<P, D>("kd");
  p.antiwindup_cte = VN<P, D>("aw");
  p.alpha = VN<P, D>("alpha");
  p.reset_integral_flag = vf_bool("reset_flag");
  p.proportional_saturation_flag = vf_bool("prop_flag");
  p.upper_output_saturation = VN<P, D>("hi");
  p.lower_output_saturation = VN<P, D>("lo");
  return p;
}
template <typename P, int D> static bool valid(const Vec<P, D>& hi, const Vec<P, D>& lo) {
  bool v = true;
  for (int i = 0; i < D; i++) v = v & (hi[i] - lo[i] >= std::numeric_limits<P>::epsilon());
  return v;
}
template <typename P, int D> static void gains(const pid_controller::PID<P, D>& c, const pid_controller::PIDParams<P, D>& p) {
  auto q = c.get_params();
  for (int i = 0; i < D; i++) {
    vf_eq(q.Kp_gains[i], p.Kp_gains[i], "proportional-gain-reported");
    vf_eq(q.Ki_gains[i], p.Ki_gains[i], "integral-gain-reported");
    vf_eq(q.Kd_gains[i], p.Kd_gains[i], "derivative-gain-reported");
    vf_eq(c.get_gains_kp()[i], p.Kp_gains[i], "proportional-gain-reported");
    vf_eq(c.get_gains_ki()[i], p.Ki_gains[i], "integral-gain-reported");
    vf_eq(c.get_gains_kd()[i], p.Kd_gains[i], "derivative-gain-reported");
    vf_eq(q.alpha[i], p.alpha[i], "filter-reported");
    vf_eq(q.antiwindup_cte[i], p.antiwindup_cte[i], "anti-windup-reported");
  }
  vf_assert(q.reset_integral_flag == p.reset_integral_flag, "reset-flag-reported");
}
// parameters given to a controller with any history
template <typename P, int D> static void update(bool constructor) {
  precision<P>();
  auto p = raw<P, D>();
  pid_controller::PID<P, D> c(p);
  if (!constructor) {
    vf_havoc(&c, sizeof c, "history");
    c.update_pid_params(p);
  }
  vf_reached("configured");
  gains<P, D>(c, p);
  bool v = valid<P, D>(p.upper_output_saturation, p.lower_output_saturation);
  vf_assert(c.get_output_saturation_flag() == v, "limits-on-exactly-when-valid");
  vf_assert(c.get_params().proportional_saturation_flag == p.proportional_saturation_flag, "proportional-flag-reported");
  auto q = c.get_params();
  for (int i = 0; i < D; i++) {
    vf_eq(q.upper_output_saturation[i], v ? p.upper_output_saturation[i] : P(0), "upper-limit-reported");
    vf_eq(q.lower_output_saturation[i], v ? p.lower_output_saturation[i] : P(0), "lower-limit-reported");
  }
}
extern "C" void ob_update_3() { update<double, 3>(false); }
extern "C" void ob_update_1() { update<double, 1>(false); }
extern "C" void ob_update_4() { update<double, 4>(false); }
extern "C" void ob_construct_3() { update<double, 3>(true); }
extern "C" void ob_update_3_float() { update<float, 3>(false); }

// switching limits on a controller with any history
template <typename P, int D> static void limits() {
  precision<P>();
  pid_controller::PID<P, D> c;
  vf_havoc(&c, sizeof c, "history");
  auto before = c.get_params();
  auto hi = VN<P, D>("hi"), lo = VN<P, D>("lo");
  bool pf = vf_bool("prop"), v = valid<P, D>(hi, lo);
  c.set_output_saturation(hi, lo, pf);
  vf_reached("limits set");
  vf_assert(c.get_output_saturation_flag() == v, "limits-on-exactly-when-valid");
  if (v) {
    Vec<P, D> a, b;
    c.get_saturation_limits(a, b);
    for (int i = 0; i < D; i++) {
      vf_eq(a[i], hi[i], "upper-limit-set");
      vf_eq(b[i], lo[i], "lower-limit-set");
    }
    vf_assert(c.get_proportional_saturation_flag() == pf, "proportional-flag-set");
  }
  gains<P, D>(c, before);
  c.disable_output_saturation();
  vf_assert(!c.get_output_saturation_flag(), "limits-off");
}
extern "C" void ob_limits_3() { limits<double, 3>(); }
extern "C" void ob_limits_1() { limits<double, 1>(); }

// with the limits off, or refused, the output is the plain sum of the terms
template <typename P, int D> static void off(bool given) {
  precision<P>();
  auto p = raw<P, D>();
  vf_assume(!valid<P, D>(p.upper_output_saturation, p.lower_output_saturation));
  auto c = any_history<P, D>(p);
  P dt = POS<P>("dt");
  auto e  = VN<P, D>("e");
  auto ed = VN<P, D>("edot");
  Vec<P, D> out = given ? c.compute_control(dt, e, ed) : c.compute_control(dt, e);
  vf_reached("computed");
  for (int i = 0; i < D; i++)
    vf_eq(out[i], c.get_proportional_error_contribution()[i] + c.get_integral_error_contribution()[i] + c.get_derivative_error_contribution()[i], "no-limits-no-limiting");
}
extern "C" void ob_off() { off<double, 3>(false); }
extern "C" void ob_off_given() { off<double, 3>(true); }

// single setters change one thing
template <typename P, int D> static void setters() {
  precision<P>();
  pid_controller::PID<P, D> c;
  vf_havoc(&c, sizeof c, "history");
  auto p = c.get_params();
  Vec<P, D> I = accumulated<P, D>(c), F = filtered<P, D>(c);
  p.Kp_gains = VN<P, D>("kp");       c.set_gains_kp(p.Kp_gains);        gains<P, D>(c, p);
  p.Ki_gains = VN<P, D>("ki");       c.set_gains_ki(p.Ki_gains);        gains<P, D>(c, p);
  p.Kd_gains = VN<P, D>("kd");       c.set_gains_kd(p.Kd_gains);        gains<P, D>(c, p);
  p.alpha = VN<P, D>("al");          c.set_alpha(p.alpha);              gains<P, D>(c, p);
  p.antiwindup_cte = VN<P, D>("aw"); c.set_anti_windup(p.antiwindup_cte); gains<P, D>(c, p);
  p.reset_integral_flag = vf_bool("rf"); c.set_reset_integral_saturation_flag(p.reset_integral_flag); gains<P, D>(c, p);
  p.Kp_gains = VN<P, D>("kp2"); p.Ki_gains = VN<P, D>("ki2"); p.Kd_gains = VN<P, D>("kd2");
  c.set_gains(p.Kp_gains, p.Ki_gains, p.Kd_gains);
  gains<P, D>(c, p);
  bool pf = vf_bool("pf");
  c.set_proportional_saturation_flag(pf);
  vf_assert(c.get_proportional_saturation_flag() == pf, "proportional-flag-set");
  vf_reached("set");
  Vec<P, D> I1 = accumulated<P, D>(c), F1 = filtered<P, D>(c);
  for (int i = 0; i < D; i++) {
    vf_eq(I1[i], I[i], "reconfiguring-keeps-the-memory");
    vf_eq(F1[i], F[i], "reconfiguring-keeps-the-memory");
  }
}
extern "C" void ob_setters() { setters<double, 3>(); }

// the one dimensional controller
extern "C" void ob_scalar() {
  pid_1d_controller::PIDParams<double> p;
  p.Kp_gains = vf_real("kp"); p.Ki_gains = vf_real("ki"); p.Kd_gains = vf_real("kd"); p.alpha = vf_real("alpha");
  p.antiwindup_cte = vf_real("aw"); p.reset_integral_flag = vf_bool("flag");
  p.upper_output_saturation = vf_real("hi"); p.lower_output_saturation = vf_real("lo");
  pid_1d_controller::PID<double> c;
  vf_havoc(&c, sizeof c, "history");
  c.update_params(p);
  vf_reached("configured");
  auto q = c.get_params();
  bool v = p.upper_output_saturation - p.lower_output_saturation >= std::numeric_limits<double>::epsilon();
  vf_assert(c.get_output_saturation_flag() == v, "limits-on-exactly-when-valid");
  vf_eq(q.Kp_gains, p.Kp_gains, "proportional-gain-reported");
  vf_eq(q.Ki_gains, p.Ki_gains, "integral-gain-reported");
  vf_eq(q.Kd_gains, p.Kd_gains, "derivative-gain-reported");
  vf_eq(c.get_kp(), p.Kp_gains, "proportional-gain-reported");
  vf_eq(c.get_ki(), p.Ki_gains, "integral-gain-reported");
  vf_eq(c.get_kd(), p.Kd_gains, "derivative-gain-reported");
  vf_eq(q.alpha, p.alpha, "filter-reported");
  vf_eq(q.antiwindup_cte, p.antiwindup_cte, "anti-windup-reported");
  vf_assert(q.reset_integral_flag == p.reset_integral_flag, "reset-flag-reported");
  vf_eq(q.upper_output_saturation, v ? p.upper_output_saturation : 0, "upper-limit-reported");
  vf_eq(q.lower_output_saturation, v ? p.lower_output_saturation : 0, "lower-limit-reported");
}

// a new controller has nothing to report yet; without parameters it has no gains, no filter, no bound and no limits
template <typename P, int D> static void fresh(bool with) {
  precision<P>();
  pid_controller::PIDParams<P, D> none, p = with ? raw<P, D>() : none;
  pid_controller::PID<P, D> c(p), d;
  vf_reached("built");
  for (int i = 0; i < D; i++) {
    const char* id = "new-controller-reports-zero";
    vf_eq(c.get_proportional_error()[i], 0, id);
    vf_eq(c.get_derivative_error()[i], 0, id);
    vf_eq(c.get_proportional_error_contribution()[i], 0, id);
    vf_eq(c.get_integral_error_contribution()[i], 0, id);
    vf_eq(c.get_derivative_error_contribution()[i], 0, id);
    vf_eq(c.get_output()[i], 0, id);
    vf_eq(none.Kp_gains[i], 0, "default-parameters");
    vf_eq(none.Ki_gains[i], 0, "default-parameters");
    vf_eq(none.Kd_gains[i], 0, "default-parameters");
    vf_eq(none.antiwindup_cte[i], 0, "default-parameters");
    vf_eq(none.alpha[i], 1, "default-parameters");
    vf_eq(none.upper_output_saturation[i], 0, "default-parameters");
    vf_eq(none.lower_output_saturation[i], 0, "default-parameters");
  }
  vf_assert(!none.reset_integral_flag && !none.proportional_saturation_flag, "default-parameters");
  gains<P, D>(d, none);
  vf_assert(!d.get_output_saturation_flag() && !d.get_proportional_saturation_flag(), "default-parameters");
}
extern "C" void ob_fresh() { fresh<double, 3>(true); }
extern "C" void ob_fresh_default() { fresh<double, 3>(false); }

template <typename P> static void scalar_same(const pid_1d_controller::PID<P>& c, const pid_1d_controller::PIDParams<P>& p) {
  P kp, ki, kd;
  c.get_gains(kp, ki, kd);
  auto q = c.get_params();
  vf_eq(kp, p.Kp_gains, "proportional-gain-reported"); vf_eq(q.Kp_gains, p.Kp_gains, "proportional-gain-reported"); vf_eq(c.get_kp(), p.Kp_gains, "proportional-gain-reported");
  vf_eq(ki, p.Ki_gains, "integral-gain-reported"); vf_eq(q.Ki_gains, p.Ki_gains, "integral-gain-reported"); vf_eq(c.get_ki(), p.Ki_gains, "integral-gain-reported");
  vf_eq(kd, p.Kd_gains, "derivative-gain-reported"); vf_eq(q.Kd_gains, p.Kd_gains, "derivative-gain-reported"); vf_eq(c.get_kd(), p.Kd_gains, "derivative-gain-reported");
  vf_eq(c.get_alpha(), p.alpha, "filter-reported");
  vf_eq(c.get_anti_windup(), p.antiwindup_cte, "anti-windup-reported");
  vf_assert(c.get_reset_integral_saturation_flag() == p.reset_integral_flag, "reset-flag-reported");
}
template <typename P> static void scalar_setters() {
  precision<P>();
  pid_1d_controller::PID<P> c;
  vf_havoc(&c, sizeof c, "history");
  auto p = c.get_params(), p0 = p;
  P e0 = c.get_proportional_error(), d0 = c.get_derivative_error(), o0 = c.get_output();
  p.Kp_gains = R<P>("kp"); c.set_kp(p.Kp_gains); scalar_same<P>(c, p);
  p.Ki_gains = R<P>("ki"); c.set_ki(p.Ki_gains); scalar_same<P>(c, p);
  p.Kd_gains = R<P>("kd"); c.set_kd(p.Kd_gains); scalar_same<P>(c, p);
  p.alpha = R<P>("al"); c.set_alpha(p.alpha); scalar_same<P>(c, p);
  p.antiwindup_cte = R<P>("aw"); c.set_anti_windup(p.antiwindup_cte); scalar_same<P>(c, p);
  p.reset_integral_flag = vf_bool("rf"); c.set_reset_integral_saturation_flag(p.reset_integral_flag); scalar_same<P>(c, p);
  p.Kp_gains = R<P>("kp2"); p.Ki_gains = R<P>("ki2"); p.Kd_gains = R<P>("kd2");
  c.set_gains(p.Kp_gains, p.Ki_gains, p.Kd_gains);
  scalar_same<P>(c, p);
  auto q = c.get_params();
  vf_eq(q.upper_output_saturation, p0.upper_output_saturation, "setters-keep-the-limits");
  vf_eq(q.lower_output_saturation, p0.lower_output_saturation, "setters-keep-the-limits");
  vf_eq(c.get_proportional_error(), e0, "reconfiguring-keeps-the-memory");
  vf_eq(c.get_derivative_error(), d0, "reconfiguring-keeps-the-memory");
  vf_eq(c.get_output(), o0, "reconfiguring-keeps-the-memory");
  vf_reached("set");
}
extern "C" void ob_scalar_setters() { scalar_setters<double>(); }
extern "C" void ob_scalar_setters_float() { scalar_setters<float>(); }
// limits of the scalar controller one by one
extern "C" void ob_scalar_limits() {
  pid_1d_controller::PID<double> c;
  vf_havoc(&c, sizeof c, "history");
  auto b = c;
  double hi = vf_real("hi"), lo = vf_real("lo"), u, l;
  c.set_output_saturation(hi, lo);
  vf_reached("set");
  const bool v = hi - lo >= std::numeric_limits<double>::epsilon();
  vf_assert(c.get_output_saturation_flag() == v, "limits-on-exactly-when-valid");
  c.get_saturation_limits(u, l);
  if (v) { vf_eq(u, hi, "upper-limit-reported"); vf_eq(l, lo, "lower-limit-reported"); }
  auto p = b.get_params();
  scalar_same<double>(c, p);
  c.disable_output_saturation();
  vf_assert(!c.get_output_saturation_flag(), "limits-off");
  scalar_same<double>(c, p);
  double dt = vf_real("dt"), e = vf_real("e");
  vf_assume(dt > 0);
  double out = c.compute_control(dt, e);
  vf_eq(out, c.get_proportional_error_contribution() + c.get_integral_error_contribution() + c.get_derivative_error_contribution(), "no-limits-no-limiting");
}
extern "C" void ob_scalar_fresh() {
  pid_1d_controller::PIDParams<double> none, p;
  p.Kp_gains = vf_real("kp"); p.Ki_gains = vf_real("ki"); p.Kd_gains = vf_real("kd"); p.alpha = vf_real("alpha");
  p.antiwindup_cte = vf_real("aw"); p.reset_integral_flag = vf_bool("flag");
  pid_1d_controller::PID<double> c(p), d;
  vf_reached("built");
  const char* id = "new-controller-reports-zero";
  vf_eq(c.get_proportional_error(), 0, id);
  vf_eq(c.get_derivative_error(), 0, id);
  vf_eq(c.get_proportional_error_contribution(), 0, id);
  vf_eq(c.get_integral_error_contribution(), 0, id);
  vf_eq(c.get_derivative_error_contribution(), 0, id);
  vf_eq(c.get_output(), 0, id);
  scalar_same<double>(c, p);
  vf_assert(!c.get_output_saturation_flag() && !d.get_output_saturation_flag(), "default-parameters");
  scalar_same<double>(d, none);
  vf_eq(none.Kp_gains, 0, "default-parameters"); vf_eq(none.Ki_gains, 0, "default-parameters"); vf_eq(none.Kd_gains, 0, "default-parameters");
  vf_eq(none.antiwindup_cte, 0, "default-parameters"); vf_eq(none.alpha, 1, "default-parameters");
  vf_eq(none.upper_output_saturation, 0, "default-parameters"); vf_eq(none.lower_output_saturation, 0, "default-parameters");
  vf_assert(!none.reset_integral_flag, "default-parameters");
}
