// C11: the PID law, per axis, for every call of every history.
#include "pid_common.hpp"
using namespace vfc;

// a later call of any history; derivative taken from the error or given
template <typename P, int D> static void later(bool given, int sat, bool flag = false) {
  precision<P>();
  auto p = any_pid<P, D>(sat);
  if (!flag) p.reset_integral_flag = false;
  auto c = running<P, D>(p);
  Vec<P, D> I = accumulated<P, D>(c), F = filtered<P, D>(c), last = c.get_proportional_error();
  P dt = POS<P>("dt");
  auto e  = VN<P, D>("e");
  auto ed = VN<P, D>("edot");
  // the sign of an error of exactly zero is not specified
  if (flag) for (int i = 0; i < D; i++) vf_assume((e[i] < 0) | (e[i] > 0));
  Vec<P, D> out = given ? c.compute_control(dt, e, ed) : c.compute_control(dt, e);
  vf_reached("computed");
  Vec<P, D> I1 = accumulated<P, D>(c), F1 = filtered<P, D>(c);
  for (int i = 0; i < D; i++) {
    P acc = accumulate<P, D>(p, i, I[i], e[i], dt);
    P fil = given ? F[i] : p.alpha[i] * (e[i] - last[i]) / dt + (1 - p.alpha[i]) * F[i];
    P der = given ? ed[i] : fil;
    vf_eq(I1[i], acc, "accumulated-error");
    vf_eq(F1[i], fil, "filtered-derivative");
    vf_eq(c.get_proportional_error()[i], e[i], "error-remembered");
    vf_eq(c.get_proportional_error_contribution()[i], p.Kp_gains[i] * e[i], "proportional-term");
    vf_eq(c.get_integral_error_contribution()[i], p.Ki_gains[i] * acc, "integral-term");
    vf_eq(c.get_derivative_error_contribution()[i], p.Kd_gains[i] * der, "derivative-term");
    P sum = p.Kp_gains[i] * e[i] + p.Ki_gains[i] * acc + p.Kd_gains[i] * der;
    if (sat == 1) sum = lim(sum, p.lower_output_saturation[i], p.upper_output_saturation[i]);
    vf_eq(out[i], sum, "output-is-sum-of-terms");
    vf_eq(c.get_output()[i], out[i], "output-reported");
    if (given) vf_eq(c.get_derivative_error()[i], ed[i], "derivative-error-reported");
  }
}
// the first call after construction
template <typename P, int D> static void first(bool given) {
  precision<P>();
  auto p = any_pid<P, D>(0);
  pid_controller::PID<P, D> c(p);
  P dt = POS<P>("dt");
  auto e  = VN<P, D>("e");
  auto ed = VN<P, D>("edot");
  Vec<P, D> out = given ? c.compute_control(dt, e, ed) : c.compute_control(dt, e);
  vf_reached("computed");
  for (int i = 0; i < D; i++) {
    P acc = accumulate<P, D>(p, i, 0, e[i], dt);
    P sum = p.Kp_gains[i] * e[i] + p.Ki_gains[i] * acc + (given ? p.Kd_gains[i] * ed[i] : P(0));
    vf_eq(out[i], sum, "first-output");
  }
}
extern "C" void ob_first_3() { first<double, 3>(false); }
extern "C" void ob_first_3_given() { first<double, 3>(true); }
extern "C" void ob_later_1() { later<double, 1>(false, 0); }
extern "C" void ob_later_1_given() { later<double, 1>(true, 0); }
extern "C" void ob_later_2() { later<double, 2>(false, 0); }
extern "C" void ob_later_3() { later<double, 3>(false, 0); }
extern "C" void ob_later_3_given() { later<double, 3>(true, 0); }
extern "C" void ob_later_3_limited() { later<double, 3>(false, 1); }
extern "C" void ob_later_3_given_limited() { later<double, 3>(true, 1); }
extern "C" void ob_later_4() { later<double, 4>(false, 0); }
extern "C" void ob_later_2_reset() { later<double, 2>(false, 0, true); }
extern "C" void ob_later_3_given_reset() { later<double, 3>(true, 0, true); }
extern "C" void ob_later_3_float() { later<float, 3>(false, 0); }

// errors handed to the controller
template <typename P, int D> static void error() {
  precision<P>();
  auto x = VN<P, D>("x"), r = VN<P, D>("r"), xd = VN<P, D>("xdot"), rd = VN<P, D>("rdot");
  Vec<P, D> e = pid_controller::PID<P, D>::get_error(x, r), a, b;
  pid_controller::PID<P, D>::get_error(x, r, xd, rd, a, b);
  vf_reached("computed");
  for (int i = 0; i < D; i++) {
    vf_eq(e[i], r[i] - x[i], "error-is-reference-minus-state");
    vf_eq(a[i], r[i] - x[i], "error-is-reference-minus-state");
    vf_eq(b[i], rd[i] - xd[i], "derivative-error-is-reference-minus-state");
  }
}
extern "C" void ob_error_3() { error<double, 3>(); }
extern "C" void ob_error_1() { error<double, 1>(); }
