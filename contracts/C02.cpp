// C02: each motor is a first order lag towards its limited command.
#include "common.hpp"
using namespace vfc;

// one step of at most 10 ms: exact speed and acceleration
template <typename P, int N> static void step(bool noise) {
  precision<P>();
  auto mp = any_params<P, N>(false, false);
  auto s  = any_state<P, N>();
  AnyDynamics<P, N> d(mp, s);
  auto u = VN<P, N>("u");
  auto f = V3<P>("fext");
  P dt   = static_cast<P>(vf_real_in("dt", 0, 0.01));
  vf_assume(dt > 0);
  d.process_euler_explicit(u, dt, f, noise);
  vf_reached("updated");
  const auto& a = d.get_state().actuators;
  for (int i = 0; i < N; i++) {
    const auto& m = mp.motors_params[i];
    P w   = s.actuators.motor_angular_velocity[i];
    P acc = (lim(u[i], m.min_speed, m.max_speed) - w) / m.time_constant;
    vf_eq(a.motor_angular_acceleration[i], acc, "lag-acceleration");
    vf_eq(a.motor_angular_velocity[i], lim(w + acc * dt, m.min_speed, m.max_speed), "lag-speed");
  }
}
extern "C" void ob_lag_quad() { step<double, 4>(false); }
extern "C" void ob_lag_quad_noise() { step<double, 4>(true); }
extern "C" void ob_lag_hexa() { step<double, 6>(false); }
extern "C" void ob_lag_quad_float() { step<float, 4>(false); }

// any duration: no overshoot past the limited command, no movement away from it
template <typename P, int N> static void monotone(bool up) {
  precision<P>();
  auto mp = any_params<P, N>(false, false);
  auto s  = any_state<P, N>();
  auto u = VN<P, N>("u");
  auto f = V3<P>("fext");
  P dt   = POS<P>("dt");
  int k = 1;
  auto& m = mp.motors_params[k];
  m.time_constant = static_cast<P>(0.01) + NNEG<P>("slow");
  // start inside the limits, on one side of the command
  P w0 = R<P>("w0"), c = R<P>("cmd"), ref = R<P>("ref");   // ref: any speed the motor has already reached
  m.min_speed = R<P>("lo");
  m.max_speed = R<P>("hi");
  if (up) {
    vf_assume(m.min_speed <= ref); vf_assume(ref <= w0); vf_assume(w0 <= c); vf_assume(c <= m.max_speed);
  } else {
    vf_assume(m.min_speed <= c); vf_assume(c <= w0); vf_assume(w0 <= ref); vf_assume(ref <= m.max_speed);
  }
  s.actuators.motor_angular_velocity[k] = w0;
  u[k]                                  = c;
  AnyDynamics<P, N> d(mp, s);
  d.process_euler_explicit(u, dt, f, false);
  vf_reached("updated");
  P w = d.get_state().actuators.motor_angular_velocity[k];
  if (up) {
    vf_le(w, u[k], "no-overshoot-up");
    vf_le(ref, w, "moves-towards-command-up");
  } else {
    vf_le(u[k], w, "no-overshoot-down");
    vf_le(w, ref, "moves-towards-command-down");
  }
}
extern "C" void ob_monotone_up() { monotone<double, 4>(true); }
extern "C" void ob_monotone_down() { monotone<double, 4>(false); }
// a command held for longer than one step: each sub step applies the same law
template <typename P, int N> static void two() {
  precision<P>();
  auto mp = any_params<P, N>(false, false);
  auto s  = any_state<P, N>();
  AnyDynamics<P, N> d(mp, s);
  auto u = VN<P, N>("u");
  auto f = V3<P>("fext");
  P rem  = static_cast<P>(vf_real_in("rem", 0, 0.01));
  vf_assume(rem > 0);
  P step = static_cast<P>(0.01);
  d.process_euler_explicit(u, step + rem, f, false);
  vf_reached("updated");
  const auto& a = d.get_state().actuators;
  for (int i = 0; i < N; i++) {
    const auto& m = mp.motors_params[i];
    P c  = lim(u[i], m.min_speed, m.max_speed);
    P w  = s.actuators.motor_angular_velocity[i];
    P w1 = lim(w + (c - w) / m.time_constant * step, m.min_speed, m.max_speed);
    P w2 = lim(w1 + (c - w1) / m.time_constant * rem, m.min_speed, m.max_speed);
    vf_eq(a.motor_angular_acceleration[i], (c - w1) / m.time_constant, "lag-acceleration-second-step");
    vf_eq(a.motor_angular_velocity[i], w2, "lag-speed-second-step");
  }
}
extern "C" void ob_two_steps() { two<double, 4>(); }
