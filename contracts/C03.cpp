// C03: translational motion obeys Newton's law with thrust, weight, drag, disturbance and external force.
#include "common.hpp"
using namespace vfc;

template <typename P, int N> static void step(bool tilt, bool noise) {
  precision<P>();
  auto mp = any_params<P, N>(tilt, false);
  auto s  = any_state<P, N>();
  AnyDynamics<P, N> d(mp, s);
  auto u = VN<P, N>("u");
  auto f = V3<P>("fext");
  P dt   = static_cast<P>(vf_real_in("dt", 0, 0.01));
  vf_assume(dt > 0);
  d.process_euler_explicit(u, dt, f, noise);
  vf_reached("updated");
  const auto& r = d.get_state();
  const auto& k = s.kinematics;
  // thrust of the motors, in the body frame
  P tb[3] = {0, 0, 0};
  for (int i = 0; i < N; i++) {
    const auto& m = mp.motors_params[i];
    for (int j = 0; j < 3; j++) tb[j] += m.pose.linear()(j, 2) * m.thrust_coefficient * sqs(s.actuators.motor_angular_velocity[i]);
  }
  for (int j = 0; j < 3; j++) {
    P F = mp.vehicle_mass * mp.gravity[j] - mp.vehicle_drag_coefficient * sqs(k.linear_velocity[j]) + f[j];
    if (noise) F += d.get_model_const().get_stochastic_force()[j];
    for (int c = 0; c < 3; c++) F += rot(k.orientation, j, c) * tb[c];
    vf_eq(r.dynamics.force[j], F, "total-force");
    vf_eq(r.kinematics.linear_acceleration[j], F / mp.vehicle_mass, "acceleration-is-force-over-mass");
    vf_eq(r.kinematics.linear_velocity[j], k.linear_velocity[j] + dt * F / mp.vehicle_mass, "velocity-integrates-acceleration");
    vf_eq(r.kinematics.position[j], k.position[j] + dt * k.linear_velocity[j], "position-integrates-velocity");
  }
}
extern "C" void ob_newton_quad() { step<double, 4>(false, false); }
extern "C" void ob_newton_quad_noise() { step<double, 4>(false, true); }
extern "C" void ob_newton_quad_tilted() { step<double, 4>(true, false); }
extern "C" void ob_newton_hexa() { step<double, 6>(false, false); }
extern "C" void ob_newton_quad_float() { step<float, 4>(false, false); }
// longer updates are successions of such steps
extern "C" void ob_long_update() { split<double, 4>(1, false, same_translation<double, 4>); }
