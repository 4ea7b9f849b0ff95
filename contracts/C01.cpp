// C01: motor speeds stay inside each motor's limits after any update.
#include "common.hpp"
using namespace vfc;

// any accepted model, any stored state (even outside the limits), any command, any duration, noise on or off
template <typename P, int N> static void body(bool noise) {
  precision<P>();
  auto mp = any_params<P, N>(false, false);
  auto s  = any_state<P, N>();
  AnyDynamics<P, N> d(mp, s);
  auto u   = VN<P, N>("u");
  auto f   = V3<P>("fext");
  P dt     = POS<P>("dt");
  d.process_euler_explicit(u, dt, f, noise);
  vf_reached("updated");
  const auto& w = d.get_state().actuators.motor_angular_velocity;
  for (int i = 0; i < N; i++) {
    vf_le(mp.motors_params[i].min_speed, w[i], "not-below-minimum-speed");
    vf_le(w[i], mp.motors_params[i].max_speed, "not-above-maximum-speed");
  }
}
extern "C" void ob_limits_quad() { body<double, 4>(false); }
extern "C" void ob_limits_quad_noise() { body<double, 4>(true); }
extern "C" void ob_limits_hexa() { body<double, 6>(true); }
extern "C" void ob_limits_quad_float() { body<float, 4>(true); }
