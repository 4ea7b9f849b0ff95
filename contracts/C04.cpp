// C04: rotational motion obeys Euler's equation.
#include "common.hpp"
using namespace vfc;

enum Noise { OFF, MOMENT, FORCE };
template <typename P, int N> static void step(bool tilt, bool full, Noise noise) {
  precision<P>();
  auto mp = any_params<P, N>(tilt, full);
  auto s  = any_state<P, N>();
  AnyDynamics<P, N> d(mp, s);
  auto u = VN<P, N>("u");
  auto f = V3<P>("fext");
  P dt   = static_cast<P>(vf_real_in("dt", 0, 0.01));
  vf_assume(dt > 0);
  d.process_euler_explicit(u, dt, f, noise != OFF);
  vf_reached("updated");
  const auto& r = d.get_state();
  const auto& o = s.kinematics.angular_velocity;
  const auto& J = mp.vehicle_inertia;
  P T[3] = {0, 0, 0};
  for (int i = 0; i < N; i++) {
    const auto& m = mp.motors_params[i];
    P w   = s.actuators.motor_angular_velocity[i];
    P acc = (lim(u[i], m.min_speed, m.max_speed) - w) / m.time_constant;
    P th  = m.thrust_coefficient * sqs(w);
    P tq  = static_cast<P>(m.motor_rotation_direction) * (m.torque_coefficient * sqs(w) + m.rotational_inertia * acc);
    const auto x = m.pose.translation();
    const auto z = m.pose.linear();   // third column: rotor axis
    T[0] += (x[1] * z(2, 2) - x[2] * z(1, 2)) * th + z(0, 2) * tq;
    T[1] += (x[2] * z(0, 2) - x[0] * z(2, 2)) * th + z(1, 2) * tq;
    T[2] += (x[0] * z(1, 2) - x[1] * z(0, 2)) * th + z(2, 2) * tq;
  }
  P n = static_cast<P>(vf_sqrt(o[0] * o[0] + o[1] * o[1] + o[2] * o[2]));
  P h[3];
  for (int j = 0; j < 3; j++) {
    h[j] = J(j, 0) * o[0] + J(j, 1) * o[1] + J(j, 2) * o[2];
    const auto& C = mp.vehicle_aero_moment_coefficient;
    T[j] -= n * (C(j, 0) * o[0] + C(j, 1) * o[1] + C(j, 2) * o[2]);
    if (noise == MOMENT) T[j] += d.get_model_const().get_stochastic_moment()[j];
    if (noise == FORCE) T[j] += d.get_model_const().get_stochastic_force()[j];
  }
  T[0] -= o[1] * h[2] - o[2] * h[1];
  T[1] -= o[2] * h[0] - o[0] * h[2];
  T[2] -= o[0] * h[1] - o[1] * h[0];
  const auto& a = r.kinematics.angular_acceleration;
  for (int j = 0; j < 3; j++) {
    vf_eq(r.dynamics.torque[j], T[j], "total-torque");
    vf_eq(J(j, 0) * a[0] + J(j, 1) * a[1] + J(j, 2) * a[2], T[j], "inertia-times-acceleration-is-torque");
    vf_eq(r.kinematics.angular_velocity[j], o[j] + dt * a[j], "angular-velocity-integrates-acceleration");
  }
}
extern "C" void ob_euler_quad() { step<double, 4>(false, false, OFF); }
extern "C" void ob_euler_quad_full_inertia() { step<double, 4>(false, true, OFF); }
extern "C" void ob_euler_quad_tilted() { step<double, 4>(true, false, OFF); }
extern "C" void ob_euler_hexa() { step<double, 6>(false, false, OFF); }
extern "C" void ob_euler_quad_float() { step<float, 4>(false, false, OFF); }
// with the disturbance switched on the moment disturbance is added (known finding: the force one is)
extern "C" void ob_euler_quad_noise() { step<double, 4>(false, false, MOMENT); }
extern "C" void kf_euler_quad_noise() { step<double, 4>(false, false, FORCE); }
// longer updates are successions of such steps
extern "C" void ob_long_update() { split<double, 4>(1, false, same_rotation<double, 4>); }
