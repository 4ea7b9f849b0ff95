// C24: the floor: never below it, at rest on it, carried by it; nothing else is affected.
#include "sim_common.hpp"
using namespace vfc;

// pending: did the previous update end on the floor; below: does this update start below the floor
template <typename P, int N> static void floor_update(bool pending) {
  precision<P>();
  AnySim<P, N> s;
  P h = R<P>("floor"), dt = static_cast<P>(vf_real_in("dt", 0, 0.01));
  vf_assume(dt > 0);
  const char* flag = "floor-setting-in-force";
  if (pending) {
    // the previous update ended on the floor
    P h0 = R<P>("floor0");
    s.enable_floor_collision(h0);
    V3_<P> f0 = V3_<P>::Zero();
    const auto& m = s.get_dynamics_const().get_model_const();
    if (s.start.kinematics.position[2] < h0)
      for (int i = 0; i < 3; i++) f0[i] = -m.get_gravity()[i] * m.get_mass();
    auto e = s.get_dynamics_const(), e2 = e;
    e.process_euler_explicit(s.get_actuation_motors_angular_velocity(), P(0.001), f0, true);
    e2.process_euler_explicit(s.get_actuation_motors_angular_velocity(), P(0.001), f0, false);
    vf_assume(e.get_state().kinematics.position[2] < h0 && e2.get_state().kinematics.position[2] < h0);
    s.update_dynamics(P(0.001));
  } else {
    s.disable_floor_collision();
    vf_assert(!s.get_floor_collision_enabled(), flag);
    s.update_dynamics(P(0.001));
  }
  s.get_dynamics().set_state(s.start);
  s.enable_floor_collision(h);
  vf_assert(s.get_floor_collision_enabled(), flag);
  vf_eq(s.get_floor_height(), h, flag);
  Simulator<P, N> b = s;
  auto d = s.get_dynamics_const();
  Eigen::Matrix<P, N, 1> u = s.get_actuation_motors_angular_velocity();
  const auto& m = s.get_dynamics_const().get_model_const();
  V3_<P> f = V3_<P>::Zero();
  const bool below = s.start.kinematics.position[2] < h;
  for (int i = 0; i < 3; i++) f[i] = below ? -m.get_gravity()[i] * m.get_mass() : P(0);
  s.update_dynamics(dt);
  vf_reached("updated");
  d.process_euler_explicit(u, dt, f, !pending);
  const auto& x = s.get_state();
  const auto& y = d.get_state();
  vf_le(h, x.kinematics.position[2], "never-below-the-floor");
  const bool hit = y.kinematics.position[2] < h;
  vf_eq(x.kinematics.position[0], y.kinematics.position[0], "horizontal-position-unaffected");
  vf_eq(x.kinematics.position[1], y.kinematics.position[1], "horizontal-position-unaffected");
  vf_eq(x.kinematics.position[2], hit ? h : y.kinematics.position[2], "height-limited-by-the-floor");
  for (int i = 0; i < 3; i++) {
    vf_eq(x.kinematics.linear_velocity[i], hit ? P(0) : y.kinematics.linear_velocity[i], "at-rest-on-the-floor");
    vf_eq(x.kinematics.angular_velocity[i], hit ? P(0) : y.kinematics.angular_velocity[i], "at-rest-on-the-floor");
    vf_eq(x.kinematics.linear_acceleration[i], hit ? P(0) : y.kinematics.linear_acceleration[i], "at-rest-on-the-floor");
    vf_eq(x.kinematics.angular_acceleration[i], hit ? P(0) : y.kinematics.angular_acceleration[i], "at-rest-on-the-floor");
    vf_eq(s.get_external_force()[i], 0, "no-force-left-over");
  }
  same_attitude<P, N>(x, y, "attitude-unaffected");
  eq3(x.dynamics.force, y.dynamics.force, "forces-reported");
  eq3(x.dynamics.torque, y.dynamics.torque, "forces-reported");
  same_motors<P, N>(x, y, "motors-unaffected");
  // sensors restart on the floor
  V3_<P> g, a, bg, ba, g0, a0, bg0, ba0;
  s.get_imu_measurement(g, a);
  s.get_imu_const().get_bias(bg, ba);
  b.get_imu_measurement(g0, a0);
  b.get_imu_const().get_bias(bg0, ba0);
  auto o = s.get_odometry(), o0 = b.get_odometry();
  for (int i = 0; i < 3; i++) {
    vf_eq(g[i], hit ? P(0) : g0[i], "sensor-restarts-on-contact-only");
    vf_eq(a[i], hit ? P(0) : a0[i], "sensor-restarts-on-contact-only");
    vf_eq(bg[i], hit ? P(0) : bg0[i], "sensor-restarts-on-contact-only");
    vf_eq(ba[i], hit ? P(0) : ba0[i], "sensor-restarts-on-contact-only");
    vf_eq(o.position[i], hit ? P(0) : o0.position[i], "odometry-restarts-on-contact-only");
    vf_eq(o.linear_velocity[i], hit ? P(0) : o0.linear_velocity[i], "odometry-restarts-on-contact-only");
    vf_eq(o.angular_velocity[i], hit ? P(0) : o0.angular_velocity[i], "odometry-restarts-on-contact-only");
    vf_eq(o.linear_acceleration[i], hit ? P(0) : o0.linear_acceleration[i], "odometry-restarts-on-contact-only");
  }
  for (int i = 0; i < 4; i++) vf_eq(o.orientation.coeffs()[i], hit ? y.kinematics.orientation.coeffs()[i] : o0.orientation.coeffs()[i], "odometry-restarts-at-the-true-attitude");
  same_controller<P, N>(s, b, "floor-does-not-touch-the-controller");
  same_references<P, N>(s, b, 0, "floor-does-not-touch-the-references");
  same_modes<P, N>(s, b, "floor-does-not-touch-the-modes");
  same_actuation<P, N>(s, b, "floor-does-not-touch-the-actuation");
}
extern "C" void ob_floor() { floor_update<double, 4>(false); }
extern "C" void ob_floor_after_contact() { floor_update<double, 4>(true); }
extern "C" void ob_floor_hexa() { floor_update<double, 6>(false); }
// any duration: never below, the rest of the simulator as before, sensors as before or restarted
template <typename P, int N> static void any_time() {
  precision<P>();
  AnySim<P, N> s;
  P h = R<P>("floor"), dt = POS<P>("dt");
  s.enable_floor_collision(h);
  Simulator<P, N> b = s;
  s.update_dynamics(dt);
  vf_reached("updated");
  vf_le(h, s.get_state().kinematics.position[2], "never-below-the-floor");
  for (int i = 0; i < 3; i++) vf_eq(s.get_external_force()[i], 0, "no-force-left-over");
  same_controller<P, N>(s, b, "floor-does-not-touch-the-controller");
  same_references<P, N>(s, b, 0, "floor-does-not-touch-the-references");
  same_modes<P, N>(s, b, "floor-does-not-touch-the-modes");
  same_actuation<P, N>(s, b, "floor-does-not-touch-the-actuation");
}
extern "C" void ob_any_duration() { any_time<double, 4>(); }
