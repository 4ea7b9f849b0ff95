// C08: the ready made frames put every motor where it belongs, with alternating spin.
#include "common.hpp"
using namespace vfc;

template <typename P> static void motor(const model::MotorParams<P>& m, int dir, P x, P y, P tol, P kt, P kq, P lo, P hi, P tau, P jr, const char* id) {
  vf_assert(m.motor_rotation_direction == dir, "spin-direction");
  vf_near(m.pose.translation().x(), x, tol, id);
  vf_near(m.pose.translation().y(), y, tol, id);
  vf_near(m.pose.translation().z(), 0, tol, id);
  for (int i = 0; i < 3; i++)
    for (int j = 0; j < 3; j++) vf_eq(m.pose.linear()(i, j), i == j ? 1 : 0, "upright-motor");
  vf_eq(m.thrust_coefficient, kt, "thrust-coefficient");
  vf_eq(m.torque_coefficient, kq, "torque-coefficient");
  vf_eq(m.min_speed, lo, "minimum-speed");
  vf_eq(m.max_speed, hi, "maximum-speed");
  vf_eq(m.time_constant, tau, "time-constant");
  vf_eq(m.rotational_inertia, jr, "rotor-inertia");
}
#define ARGS P kt = R<P>("kt"), kq = R<P>("kq"), x = R<P>("x"), y = R<P>("y"), lo = R<P>("lo"), hi = R<P>("hi"), tau = R<P>("tau"), jr = R<P>("jr")
#define REST kt, kq, lo, hi, tau, jr

template <typename P> static void xframe() {
  precision<P>();
  ARGS;
  auto m = model::Model<P, 4>::create_quadrotor_x_config(kt, kq, x, y, lo, hi, tau, jr);
  vf_reached("built");
  vf_assert(m.size() == 4, "four-motors");
  motor<P>(m[0], 1, x, -y, 0, REST, "front-right");
  motor<P>(m[1], -1, x, y, 0, REST, "front-left");
  motor<P>(m[2], 1, -x, y, 0, REST, "back-left");
  motor<P>(m[3], -1, -x, -y, 0, REST, "back-right");
}
template <typename P> static void plusframe() {
  precision<P>();
  ARGS;
  auto m = model::Model<P, 4>::create_quadrotor_plus_config(kt, kq, x, y, lo, hi, tau, jr);
  vf_reached("built");
  vf_assert(m.size() == 4, "four-motors");
  motor<P>(m[0], 1, x, 0, 0, REST, "front");
  motor<P>(m[1], -1, 0, y, 0, REST, "left");
  motor<P>(m[2], 1, -x, 0, 0, REST, "back");
  motor<P>(m[3], -1, 0, -y, 0, REST, "right");
}
template <typename P> static void hexa() {
  precision<P>();
  P kt = R<P>("kt"), kq = R<P>("kq"), r = POS<P>("radius"), lo = R<P>("lo"), hi = R<P>("hi"), tau = R<P>("tau"), jr = R<P>("jr");
  auto m = model::Model<P, 6>::create_hexacopter_config(kt, kq, r, lo, hi, tau, jr);
  vf_reached("built");
  vf_assert(m.size() == 6, "six-motors");
  P c = static_cast<P>(0.5) * r, s = static_cast<P>(0.86602540378443865) * r, t = static_cast<P>(1e-6) * r;
  motor<P>(m[0], 1, r, 0, t, REST, "motor-at-0-degrees");
  motor<P>(m[1], -1, c, s, t, REST, "motor-at-60-degrees");
  motor<P>(m[2], 1, -c, s, t, REST, "motor-at-120-degrees");
  motor<P>(m[3], -1, -r, 0, t, REST, "motor-at-180-degrees");
  motor<P>(m[4], 1, -c, -s, t, REST, "motor-at-240-degrees");
  motor<P>(m[5], -1, c, -s, t, REST, "motor-at-300-degrees");
}
extern "C" void ob_x_frame() { xframe<double>(); }
extern "C" void ob_plus_frame() { plusframe<double>(); }
extern "C" void ob_hexa_frame() { hexa<double>(); }
extern "C" void ob_x_frame_float() { xframe<float>(); }
extern "C" void ob_plus_frame_float() { plusframe<float>(); }
extern "C" void ob_hexa_frame_float() { hexa<float>(); }

// balance: with all motors at one speed a vehicle on a ready made frame gets pure vertical thrust
template <typename P, int N> static void balance(int kind) {
  precision<P>();
  auto mp = any_params<P, N>(false, false);
  P kt = NNEG<P>("kt"), kq = NNEG<P>("kq"), x = R<P>("x"), y = R<P>("y"), lo = R<P>("lo"), hi = lo + NNEG<P>("hi"), tau = POS<P>("tau"), jr = NNEG<P>("jr");
  if constexpr (N == 4) {
    mp.motors_params = kind == 0 ? model::Model<P, N>::create_quadrotor_x_config(kt, kq, x, y, lo, hi, tau, jr)
                                 : model::Model<P, N>::create_quadrotor_plus_config(kt, kq, x, y, lo, hi, tau, jr);
  } else {
    mp.motors_params = model::Model<P, N>::create_hexacopter_config(kt, kq, x, lo, hi, tau, jr);
  }
  model::Model<P, N> md(mp, 0);
  P w = R<P>("speed"), a = R<P>("accel");
  Eigen::Matrix<P, N, 1> W, A;
  for (int i = 0; i < N; i++) { W[i] = w; A[i] = a; }
  Eigen::Matrix<P, 3, 1> F = md.get_force_vector_thrust_by_motors(W), T = md.get_torque_by_motors(W, A);
  vf_reached("computed");
  P tol = N == 4 ? P(0) : static_cast<P>(1e-6) * (x < 0 ? -x : x) * kt * w * w;
  for (int k = 0; k < 3; k++) vf_near(T[k], 0, k < 2 ? tol : P(0), "no-torque-at-equal-speeds");
  vf_eq(F[0], 0, "no-side-force");
  vf_eq(F[1], 0, "no-side-force");
  vf_eq(F[2], N * kt * sqs(w), "thrust-adds-up");
}
extern "C" void ob_balance_x() { balance<double, 4>(0); }
extern "C" void ob_balance_plus() { balance<double, 4>(1); }
extern "C" void ob_balance_hexa() { balance<double, 6>(2); }
