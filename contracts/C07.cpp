// C07: motor forces and torques follow from each motor's pose, coefficients and spin direction.
#include "common.hpp"
using namespace vfc;

// expected contribution of a motor: thrust along its axis, reaction torque about it, rotor inertia about it
template <typename P> struct Motor {
  P f[3], t[3], j[3];
  explicit Motor(const model::MotorParams<P>& m) {
    const auto L = m.pose.linear();
    const auto x = m.pose.translation();
    P s = static_cast<P>(m.motor_rotation_direction);
    for (int k = 0; k < 3; k++) {
      f[k] = L(k, 2) * m.thrust_coefficient;
      t[k] = L(k, 2) * s * m.torque_coefficient;
      j[k] = L(k, 2) * s * m.rotational_inertia;
    }
    t[0] += x[1] * f[2] - x[2] * f[1];
    t[1] += x[2] * f[0] - x[0] * f[2];
    t[2] += x[0] * f[1] - x[1] * f[0];
  }
};

template <typename P, int N> static void matrices(const model::Model<P, N>& md, const std::vector<model::MotorParams<P>>& ms) {
  for (int i = 0; i < N; i++) {
    Motor<P> c(ms[i]);
    for (int k = 0; k < 3; k++) {
      vf_eq(md.get_mixer_matrix()(k, i), c.f[k], "force-rows");
      vf_eq(md.get_mixer_matrix()(3 + k, i), c.t[k], "torque-rows");
      vf_eq(md.get_mixer_force_matrix()(k, i), c.f[k], "force-matrix");
      vf_eq(md.get_mixer_torque_matrix()(k, i), c.t[k], "torque-matrix");
      vf_eq(md.get_mixer_inertia_matrix()(k, i), c.j[k], "inertia-matrix");
    }
    vf_eq(md.get_mixer_force_vector()[i], c.f[2], "vertical-force");
  }
}
template <typename P, int N> static void body(bool update) {
  precision<P>();
  auto mp = any_params<P, N>(true, false);
  model::Model<P, N> md(mp, 0);
  if (update) {
    // parameters replaced later
    mp = any_params<P, N>(true, false);
    md.update_params(mp);
  }
  vf_reached("model built");
  matrices<P, N>(md, mp.motors_params);
}
extern "C" void ob_matrices_quad() { body<double, 4>(false); }
extern "C" void ob_matrices_hexa() { body<double, 6>(false); }
extern "C" void ob_matrices_quad_float() { body<float, 4>(false); }
extern "C" void ob_matrices_after_update() { body<double, 4>(true); }

// forces and torques of the motors for any speeds and accelerations
template <typename P, int N> static void wrench() {
  precision<P>();
  auto mp = any_params<P, N>(false, false);
  model::Model<P, N> md(mp, 0);
  auto w = VN<P, N>("w");
  auto a = VN<P, N>("a");
  Eigen::Matrix<P, 3, 1> F = md.get_force_vector_thrust_by_motors(w);
  Eigen::Matrix<P, 3, 1> T = md.get_torque_by_motors(w, a);
  P Z = md.get_force_thrust_by_motors(w);
  vf_reached("computed");
  P f[3] = {0, 0, 0}, t[3] = {0, 0, 0};
  for (int i = 0; i < N; i++) {
    Motor<P> c(mp.motors_params[i]);
    for (int k = 0; k < 3; k++) {
      f[k] += c.f[k] * sqs(w[i]);
      t[k] += c.t[k] * sqs(w[i]) + c.j[k] * a[i];
    }
  }
  for (int k = 0; k < 3; k++) {
    vf_eq(F[k], f[k], "thrust-vector");
    vf_eq(T[k], t[k], "torque");
  }
  vf_eq(Z, f[2], "vertical-thrust");
}
extern "C" void ob_wrench_quad() { wrench<double, 4>(); }
extern "C" void ob_wrench_hexa() { wrench<double, 6>(); }

// motors with a vertical axis: the 4 row matrix is the vertical force and torque rows
template <typename P, int N> static void four() {
  precision<P>();
  auto mp = any_params<P, N>(false, false);
  // the 4 row form neglects the height of the motors
  Eigen::Matrix<P, 4, N> m4 = model::Model<P, N>::compute_mixer_matrix_4D(mp.motors_params);
  Eigen::Matrix<P, 4, N> d4 = model::Model<P, N>::template compute_mixer_matrix<4>(mp.motors_params);
  Eigen::Matrix<P, 6, N> d6 = model::Model<P, N>::template compute_mixer_matrix<6>(mp.motors_params);
  Eigen::Matrix<P, 6, N> m6 = model::Model<P, N>::compute_mixer_matrix_6D(mp.motors_params);
  vf_reached("computed");
  for (int i = 0; i < N; i++) {
    Motor<P> c(mp.motors_params[i]);
    vf_eq(m4(0, i), c.f[2], "4-row-force");
    for (int k = 0; k < 3; k++) vf_eq(m4(1 + k, i), c.t[k], "4-row-torque");
    for (int k = 0; k < 4; k++) vf_eq(d4(k, i), m4(k, i), "4-row-dispatch");
    for (int k = 0; k < 3; k++) {
      vf_eq(m6(k, i), c.f[k], "6-row-force");
      vf_eq(m6(3 + k, i), c.t[k], "6-row-torque");
    }
    for (int k = 0; k < 6; k++) vf_eq(d6(k, i), m6(k, i), "6-row-dispatch");
  }
}
extern "C" void ob_four_rows_quad() { four<double, 4>(); }
extern "C" void ob_four_rows_hexa() { four<double, 6>(); }

// rotor inertia matrix on its own, and the signed square used for the thrust
template <typename P, int N> static void pieces() {
  precision<P>();
  auto mp = any_params<P, N>(false, false);
  Eigen::Matrix<P, 3, N> J = model::Model<P, N>::compute_mixer_inertia_matrix(mp.motors_params);
  vf_reached("computed");
  for (int i = 0; i < N; i++) {
    Motor<P> c(mp.motors_params[i]);
    for (int k = 0; k < 3; k++) vf_eq(J(k, i), c.j[k], "inertia-matrix");
  }
  auto w = VN<P, N>("w");
  Eigen::Matrix<P, N, 1> q = utils::squared_keep_sign(w), r = utils::sqrt_keep_sign(w);
  for (int i = 0; i < N; i++) {
    vf_eq(q[i], sqs(w[i]), "signed-square");
    vf_eq(sqs(r[i]), w[i], "signed-root-undoes-it");
  }
}
extern "C" void ob_pieces_quad() { pieces<double, 4>(); }
extern "C" void ob_pieces_hexa() { pieces<float, 6>(); }
