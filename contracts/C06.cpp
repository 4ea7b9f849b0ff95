// C06: an update integrates exactly the requested time, in steps of at most 10 ms, and rejects non positive times.
#include "common.hpp"
using namespace vfc;

// constant acceleration over any duration: exact velocity, position off by at most half a step's worth
template <typename P, int N> static void ballistic() {
  precision<P>();
  auto mp = any_params<P, N>(false, false);
  auto s  = any_state<P, N>();
  mp.vehicle_drag_coefficient = 0;
  for (auto& m : mp.motors_params) m.thrust_coefficient = 0;
  AnyDynamics<P, N> d(mp, s);
  auto u = VN<P, N>("u");
  Eigen::Matrix<P, 3, 1> a = V3<P>("a");
  Eigen::Matrix<P, 3, 1> f = mp.vehicle_mass * (a - mp.gravity);
  P dt = POS<P>("dt");
  d.process_euler_explicit(u, dt, f, false);
  vf_reached("updated");
  const auto& r = d.get_state().kinematics;
  const auto& k = s.kinematics;
  for (int i = 0; i < 3; i++) {
    vf_eq(r.linear_velocity[i], k.linear_velocity[i] + dt * a[i], "velocity-after-the-requested-time");
    P x = r.position[i] - (k.position[i] + dt * k.linear_velocity[i] + dt * dt * a[i] / 2);
    vf_le(x < 0 ? -x : x, static_cast<P>(0.005) * dt * (a[i] < 0 ? -a[i] : a[i]), "position-after-the-requested-time");
  }
}
extern "C" void ob_requested_time() { ballistic<double, 4>(); }
extern "C" void ob_requested_time_hexa() { ballistic<double, 6>(); }

extern "C" void ob_split_one() { split<double, 4>(1, false, same_state<double, 4>); }
extern "C" void ob_split_one_noise() { split<double, 4>(1, true, same_state<double, 4>); }
#ifdef VF_THOROUGH
extern "C" void ob_split_two() { split<double, 4>(2, false, same_state<double, 4>); }
#endif

// a non positive time is refused and changes nothing
template <typename P, int N> static void refused(bool noise) {
  precision<P>();
  auto mp = any_params<P, N>(false, false);
  auto s  = any_state<P, N>();
  AnyDynamics<P, N> d(mp, s);
  auto u = VN<P, N>("u");
  auto f = V3<P>("fext");
  P dt   = -NNEG<P>("dt");
  bool thrown = false;
  vf_draw_reset();
  try {
    d.process_euler_explicit(u, dt, f, noise);
  } catch (const std::invalid_argument&) {
    thrown = true;
  }
  vf_reached("call over");
  vf_assert(thrown, "non-positive-time-refused");
  vf_assert(vf_draw_count() == 0, "refused-update-draws-nothing");
  same_state<P, N>(d.get_state(), s, "refused-update-changes-nothing");
}
extern "C" void ob_refused() { refused<double, 4>(true); }
extern "C" void ob_refused_quiet() { refused<double, 6>(false); }
// and a positive one never is
extern "C" void ob_accepted() {
  auto mp = any_params<double, 4>(false, false);
  auto s  = any_state<double, 4>();
  AnyDynamics<double, 4> d(mp, s);
  auto u    = VN<double, 4>("u");
  double dt = vf_pos("dt");
  bool thrown = false;
  try {
    d.process_euler_explicit(u, dt);
  } catch (...) {
    thrown = true;
  }
  vf_reached("call over");
  vf_assert(!thrown, "positive-time-accepted");
}
