// C14: after a reset nothing of the past influences the outputs.
#include "pid_common.hpp"
using namespace vfc;

template <typename P, int D> static Vec<P, D> call(pid_controller::PID<P, D>& c, bool given, P dt, const Vec<P, D>& e, const Vec<P, D>& ed) {
  return given ? c.compute_control(dt, e, ed) : c.compute_control(dt, e);
}
template <typename P, int D> static void equal(const pid_controller::PID<P, D>& a, const pid_controller::PID<P, D>& b, const Vec<P, D>& x, const Vec<P, D>& y, const char* id) {
  Vec<P, D> Ia = accumulated<P, D>(a), Ib = accumulated<P, D>(b), Fa = filtered<P, D>(a), Fb = filtered<P, D>(b);
  for (int i = 0; i < D; i++) {
    vf_eq(x[i], y[i], id);
    vf_eq(a.get_output()[i], b.get_output()[i], id);
    vf_eq(Ia[i], Ib[i], "memory-equal-after-reset-and-call");
    vf_eq(Fa[i], Fb[i], "memory-equal-after-reset-and-call");
    vf_eq(a.get_proportional_error()[i], b.get_proportional_error()[i], "memory-equal-after-reset-and-call");
  }
}
// a controller with any history, reset, against a new one
template <typename P, int D> static void fresh(bool g1, bool g2) {
  precision<P>();
  auto p = any_pid<P, D>(1);
  p.reset_integral_flag = false;
  auto a = any_history<P, D>(p);
  pid_controller::PID<P, D> b(p);
  a.reset_controller();
  auto e1 = VN<P, D>("e1"), d1 = VN<P, D>("d1"), e2 = VN<P, D>("e2"), d2 = VN<P, D>("d2");
  P t1 = POS<P>("dt1"), t2 = POS<P>("dt2");
  Vec<P, D> x = call<P, D>(a, g1, t1, e1, d1), y = call<P, D>(b, g1, t1, e1, d1);
  vf_reached("first call");
  equal<P, D>(a, b, x, y, "first-output-after-reset-is-that-of-a-new-controller");
  x = call<P, D>(a, g2, t2, e2, d2);
  y = call<P, D>(b, g2, t2, e2, d2);
  vf_reached("second call");
  equal<P, D>(a, b, x, y, "second-output-after-reset-is-that-of-a-new-controller");
}
extern "C" void ob_reset_dd() { fresh<double, 3>(false, false); }
extern "C" void ob_reset_gg() { fresh<double, 3>(true, true); }
extern "C" void ob_reset_gd() { fresh<double, 3>(true, false); }
extern "C" void ob_reset_dg() { fresh<double, 3>(false, true); }
extern "C" void ob_reset_1() { fresh<double, 1>(false, false); }

// resetting keeps the parameters
template <typename P, int D> static void keeps() {
  precision<P>();
  auto p = any_pid<P, D>(1);
  auto a = any_history<P, D>(p);
  a.reset_controller();
  vf_reached("reset");
  auto q = a.get_params();
  for (int i = 0; i < D; i++) {
    vf_eq(q.Kp_gains[i], p.Kp_gains[i], "reset-keeps-parameters");
    vf_eq(q.Ki_gains[i], p.Ki_gains[i], "reset-keeps-parameters");
    vf_eq(q.Kd_gains[i], p.Kd_gains[i], "reset-keeps-parameters");
    vf_eq(q.alpha[i], p.alpha[i], "reset-keeps-parameters");
    vf_eq(q.antiwindup_cte[i], p.antiwindup_cte[i], "reset-keeps-parameters");
    vf_eq(q.upper_output_saturation[i], p.upper_output_saturation[i], "reset-keeps-parameters");
    vf_eq(q.lower_output_saturation[i], p.lower_output_saturation[i], "reset-keeps-parameters");
  }
}
extern "C" void ob_reset_keeps_parameters() { keeps<double, 3>(); }

// the one dimensional controller
template <typename P> static void scalar(bool g1, bool g2) {
  precision<P>();
  pid_1d_controller::PIDParams<P> p;
  p.Kp_gains = R<P>("kp"); p.Ki_gains = R<P>("ki"); p.Kd_gains = R<P>("kd"); p.alpha = R<P>("alpha");
  p.antiwindup_cte = NNEG<P>("aw");
  pid_1d_controller::PID<P> a, b(p);
  vf_havoc(&a, sizeof a, "history");
  a.update_params(p);
  a.reset_controller();
  P t1 = POS<P>("dt1"), t2 = POS<P>("dt2"), e1 = R<P>("e1"), d1 = R<P>("d1"), e2 = R<P>("e2"), d2 = R<P>("d2");
  P x = g1 ? a.compute_control(t1, e1, d1) : a.compute_control(t1, e1), y = g1 ? b.compute_control(t1, e1, d1) : b.compute_control(t1, e1);
  vf_reached("first call");
  vf_eq(x, y, "first-output-after-reset-is-that-of-a-new-controller");
  x = g2 ? a.compute_control(t2, e2, d2) : a.compute_control(t2, e2);
  y = g2 ? b.compute_control(t2, e2, d2) : b.compute_control(t2, e2);
  vf_eq(x, y, "second-output-after-reset-is-that-of-a-new-controller");
  x = a.compute_control(t1, e1);
  y = b.compute_control(t1, e1);
  vf_eq(x, y, "third-output-after-reset-is-that-of-a-new-controller");
}
extern "C" void ob_scalar_dd() { scalar<double>(false, false); }
extern "C" void ob_scalar_gd() { scalar<double>(true, false); }
extern "C" void ob_scalar_dg() { scalar<double>(false, true); }
