// C09: drag, aerodynamic moment and process noise.
#include "common.hpp"
using namespace vfc;

template <typename P> static void drag() {
  precision<P>();
  auto mp = any_params<P, 4>(false, false);
  model::Model<P, 4> md(mp, 0);
  auto v = V3<P>("v");
  Eigen::Matrix<P, 3, 1> D = md.get_drag_force(v), S = model::Model<P, 4>::get_drag_force(mp.vehicle_drag_coefficient, v);
  vf_reached("computed");
  for (int k = 0; k < 3; k++) {
    vf_eq(D[k], -mp.vehicle_drag_coefficient * sqs(v[k]), "quadratic-drag");
    vf_eq(S[k], D[k], "static-form-agrees");
    vf_le(D[k] * v[k], 0, "drag-opposes-motion");
  }
}
extern "C" void ob_drag() { drag<double>(); }
extern "C" void ob_drag_float() { drag<float>(); }

template <typename P> static void aero() {
  precision<P>();
  auto mp = any_params<P, 4>(false, false);
  model::Model<P, 4> md(mp, 0);
  auto o = V3<P>("o");
  Eigen::Matrix<P, 3, 1> M = md.get_aerodynamic_moment(o), S = model::Model<P, 4>::get_aerodynamic_moment(mp.vehicle_aero_moment_coefficient, o);
  vf_reached("computed");
  P n = static_cast<P>(vf_sqrt(o[0] * o[0] + o[1] * o[1] + o[2] * o[2]));
  const auto& C = mp.vehicle_aero_moment_coefficient;
  for (int k = 0; k < 3; k++) {
    vf_eq(M[k], -n * (C(k, 0) * o[0] + C(k, 1) * o[1] + C(k, 2) * o[2]), "quadratic-aerodynamic-moment");
    vf_eq(S[k], M[k], "static-form-agrees");
  }
}
extern "C" void ob_aero() { aero<double>(); }
extern "C" void ob_aero_float() { aero<float>(); }
extern "C" void ob_aero_dissipates() {
  auto mp = any_params<double, 4>(false, false);
  mp.vehicle_aero_moment_coefficient.setZero();
  for (int k = 0; k < 3; k++) mp.vehicle_aero_moment_coefficient(k, k) = vf_nonneg("c");
  model::Model<double, 4> md(mp, 0);
  auto o = V3<double>("o");
  Eigen::Vector3d M = md.get_aerodynamic_moment(o);
  vf_reached("computed");
  vf_le(M[0] * o[0] + M[1] * o[1] + M[2] * o[2], 0, "aerodynamic-moment-opposes-rotation");
}

// process noise: independent standard variates scaled by sqrt(density / step)
template <typename P> static void noise() {
  precision<P>();
  auto mp = any_params<P, 4>(false, false);
  model::Model<P, 4> md(mp, 3);
  P dt0 = POS<P>("dt0");
  md.set_stochastic_noise(dt0);          // any earlier noise
  P dt = POS<P>("dt");
  vf_draw_reset();
  md.set_stochastic_noise(dt);
  vf_reached("drawn");
  vf_assert(vf_draw_count() == 6, "six-variates-per-step");
  P f = static_cast<P>(vf_sqrt(mp.force_process_noise_auto_correlation / dt)), m = static_cast<P>(vf_sqrt(mp.moment_process_noise_auto_correlation / dt));
  for (int k = 0; k < 3; k++) {
    vf_eq(md.get_stochastic_force()[k], f * vf_draw(k), "force-noise");
    vf_eq(md.get_stochastic_moment()[k], m * vf_draw(3 + k), "moment-noise");
  }
  md.disable_stochastic_noise();
  for (int k = 0; k < 3; k++) {
    vf_eq(md.get_stochastic_force()[k], 0, "no-force-noise-when-disabled");
    vf_eq(md.get_stochastic_moment()[k], 0, "no-moment-noise-when-disabled");
  }
  vf_assert(vf_draw_count() == 6, "disabling-draws-nothing");
}
extern "C" void ob_noise() { noise<double>(); }
extern "C" void ob_noise_float() { noise<float>(); }
extern "C" void ob_noise_no_step() {
  auto mp = any_params<double, 4>(false, false);
  model::Model<double, 4> md(mp, 3);
  double dt0 = vf_pos("dt0");
  md.set_stochastic_noise(dt0);
  double dt = -vf_nonneg("dt");
  vf_draw_reset();
  md.set_stochastic_noise(dt);
  vf_reached("drawn");
  vf_assert(vf_draw_count() == 0, "no-variates-without-a-step");
  for (int k = 0; k < 3; k++) {
    vf_eq(md.get_stochastic_force()[k], 0, "no-force-noise-without-a-step");
    vf_eq(md.get_stochastic_moment()[k], 0, "no-moment-noise-without-a-step");
  }
}
// an update with noise uses fresh noise for its own step; one without noise has none
template <typename P> static void update(bool on) {
  precision<P>();
  auto mp = any_params<P, 4>(false, false);
  auto s  = any_state<P, 4>();
  AnyDynamics<P, 4> d(mp, s);
  auto u = VN<P, 4>("u");
  P dt0 = POS<P>("dt0");
  d.get_model().set_stochastic_noise(dt0);
  P dt = static_cast<P>(vf_real_in("dt", 0, 0.01));
  vf_assume(dt > 0);
  vf_draw_reset();
  d.process_euler_explicit(u, dt, Eigen::Matrix<P, 3, 1>::Zero(), on);
  vf_reached("updated");
  const auto& md = d.get_model_const();
  vf_assert(vf_draw_count() == (on ? 6 : 0), "variates-per-update");
  P f = static_cast<P>(vf_sqrt(mp.force_process_noise_auto_correlation / dt)), m = static_cast<P>(vf_sqrt(mp.moment_process_noise_auto_correlation / dt));
  for (int k = 0; k < 3; k++) {
    vf_eq(md.get_stochastic_force()[k], on ? f * vf_draw(k) : 0, "force-noise-of-the-update");
    vf_eq(md.get_stochastic_moment()[k], on ? m * vf_draw(3 + k) : 0, "moment-noise-of-the-update");
  }
}
extern "C" void ob_update_noise() { update<double>(true); }
extern "C" void ob_update_quiet() { update<double>(false); }
