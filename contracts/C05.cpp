// C05: the attitude stays a unit quaternion and follows the body rates.
#include "common.hpp"
using namespace vfc;

template <typename P, int N> static void step(bool noise) {
  precision<P>();
  auto mp = any_params<P, N>(false, false);
  auto s  = any_state<P, N>();
  AnyDynamics<P, N> d(mp, s);
  auto u = VN<P, N>("u");
  auto f = V3<P>("fext");
  P dt   = static_cast<P>(vf_real_in("dt", 0, 0.01));
  vf_assume(dt > 0);
  d.process_euler_explicit(u, dt, f, noise);
  vf_reached("updated");
  const auto& q = s.kinematics.orientation;
  const auto& o = s.kinematics.angular_velocity;
  const auto& r = d.get_state().kinematics.orientation;
  // q + dt/2 q (0, omega), normalised
  P h = dt / 2;
  P w = q.w() + h * (-q.x() * o[0] - q.y() * o[1] - q.z() * o[2]);
  P x = q.x() + h * (q.w() * o[0] + q.y() * o[2] - q.z() * o[1]);
  P y = q.y() + h * (q.w() * o[1] + q.z() * o[0] - q.x() * o[2]);
  P z = q.z() + h * (q.w() * o[2] + q.x() * o[1] - q.y() * o[0]);
  P n = static_cast<P>(vf_sqrt(w * w + x * x + y * y + z * z));
  vf_eq(r.w(), w / n, "attitude-w");
  vf_eq(r.x(), x / n, "attitude-x");
  vf_eq(r.y(), y / n, "attitude-y");
  vf_eq(r.z(), z / n, "attitude-z");
  vf_eq(r.x() * r.x() + r.y() * r.y() + r.z() * r.z() + r.w() * r.w(), 1, "unit-norm");
}
extern "C" void ob_attitude_quad() { step<double, 4>(false); }
extern "C" void ob_attitude_quad_noise() { step<double, 4>(true); }
extern "C" void ob_attitude_hexa() { step<double, 6>(false); }
extern "C" void ob_attitude_quad_float() { step<float, 4>(false); }

// any duration
template <typename P, int N> static void any(bool noise) {
  precision<P>();
  auto mp = any_params<P, N>(false, false);
  auto s  = any_state<P, N>();
  AnyDynamics<P, N> d(mp, s);
  auto u = VN<P, N>("u");
  auto f = V3<P>("fext");
  P dt   = POS<P>("dt");
  d.process_euler_explicit(u, dt, f, noise);
  vf_reached("updated");
  const auto& r = d.get_state().kinematics.orientation;
  vf_eq(r.x() * r.x() + r.y() * r.y() + r.z() * r.z() + r.w() * r.w(), 1, "unit-norm-any-duration");
}
extern "C" void ob_unit_any_duration() { any<double, 4>(true); }
extern "C" void ob_unit_any_duration_hexa() { any<double, 6>(false); }

// longer updates are successions of such steps
extern "C" void ob_long_update() { split<double, 4>(1, false, same_attitude<double, 4>); }

// the integration on its own
template <typename P> static void integrate() {
  precision<P>();
  auto q = UQ<P>::get("q");
  auto o = V3<P>("omega");
  double dt = vf_pos("dt");
  Eigen::Quaternion<P> r = utils::get_quaternion_integrate(q, o, dt);
  vf_reached("integrated");
  P h = static_cast<P>(dt / 2);
  P w = q.w() + h * (-q.x() * o[0] - q.y() * o[1] - q.z() * o[2]);
  P x = q.x() + h * (q.w() * o[0] + q.y() * o[2] - q.z() * o[1]);
  P y = q.y() + h * (q.w() * o[1] + q.z() * o[0] - q.x() * o[2]);
  P z = q.z() + h * (q.w() * o[2] + q.x() * o[1] - q.y() * o[0]);
  P n = static_cast<P>(vf_sqrt(w * w + x * x + y * y + z * z));
  vf_eq(r.w(), w / n, "integrated-w");
  vf_eq(r.x(), x / n, "integrated-x");
  vf_eq(r.y(), y / n, "integrated-y");
  vf_eq(r.z(), z / n, "integrated-z");
}
extern "C" void ob_integrate() { integrate<double>(); }
extern "C" void ob_integrate_float() { integrate<float>(); }
