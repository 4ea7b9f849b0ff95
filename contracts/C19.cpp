// C19: rate control to motor speeds: torque demand and allocation.
#include "ctl_common.hpp"
using namespace vfc;

template <typename P, int N> static void indi() {
  precision<P>();
  indi_controller::IndiController<P, N> c;
  vf_havoc(&c, sizeof c, "h");
  M3_<P> J = MX<P, 3, 3>("J");
  Eigen::Matrix<P, N, 6> M = MX<P, N, 6>("M");
  c.update_inertia(J);
  c.update_mixer_matrix_inverse(M);
  auto k = pid_of<P>(c);
  auto o = V3<P>("o"), od = V3<P>("od");
  P T = R<P>("T"), dt = POS<P>("dt");
  V3_<P> acc = k.compute_control(dt, V3_<P>(od[0] - o[0], od[1] - o[1], od[2] - o[2]));
  Eigen::Matrix<P, N, 1> w = c.acro_to_motor_angular_velocity(o, T, od, dt);
  vf_reached("computed");
  P h[3], t[3];
  for (int i = 0; i < 3; i++) h[i] = J(i, 0) * od[0] + J(i, 1) * od[1] + J(i, 2) * od[2];
  for (int i = 0; i < 3; i++)
    t[i] = J(i, 0) * acc[0] + J(i, 1) * acc[1] + J(i, 2) * acc[2] + od[(i + 1) % 3] * h[(i + 2) % 3] - od[(i + 2) % 3] * h[(i + 1) % 3];
  for (int i = 0; i < 3; i++) {
    vf_eq(c.get_desired_angular_acceleration()[i], acc[i], "acceleration-is-pid-of-rate-error");
    vf_eq(c.get_angular_velocity_error()[i], od[i] - o[i], "rate-error-reported");
    vf_eq(c.get_desired_torque()[i], t[i], "torque-demand");
    vf_eq(c.get_desired_thrust()[i], i == 2 ? T : P(0), "thrust-demand");
  }
}
extern "C" void ob_torque_quad() { indi<double, 4>(); }
extern "C" void ob_torque_hexa() { indi<double, 6>(); }
extern "C" void ob_torque_quad_float() { indi<float, 4>(); }

// the speeds are the signed roots of the allocation of the demands
template <typename P, int N> static void roots() {
  precision<P>();
  indi_controller::IndiController<P, N> c;
  vf_havoc(&c, sizeof c, "h");
  Eigen::Matrix<P, N, 6> M = MX<P, N, 6>("M");
  c.update_mixer_matrix_inverse(M);
  // proportional rate loop: the torque demand itself is settled above for every gain and history
  pid_controller::PIDParams<P, 3> g;
  g.Kp_gains = V3<P>("Kp");
  static_cast<pid_controller::PID<P, 3>&>(c) = pid_controller::PID<P, 3>(g);
  c.update_inertia(M3_<P>(V3<P>("J").asDiagonal()));
  auto o = V3<P>("o"), od = V3<P>("od");
  P T = R<P>("T"), dt = POS<P>("dt");
  Eigen::Matrix<P, N, 1> w = c.acro_to_motor_angular_velocity(o, T, od, dt);
  V3_<P> t = c.get_desired_torque();
  vf_reached("computed");
  for (int i = 0; i < N; i++) {
    P s = M(i, 2) * T + M(i, 3) * t[0] + M(i, 4) * t[1] + M(i, 5) * t[2];
    P r = static_cast<P>(vf_sqrt(s < 0 ? -s : s));
    vf_eq(w[i], s < 0 ? -r : r, "speed-is-signed-root-of-allocation");
    vf_eq(c.get_motor_angular_velocity()[i], w[i], "speed-reported");
  }
}
extern "C" void ob_roots_quad() { roots<double, 4>(); }
extern "C" void ob_roots_hexa() { roots<double, 6>(); }

extern "C" void ob_signed_root() {
  Eigen::Matrix<double, 4, 1> v = VN<double, 4>("v"), r = indi_controller::sqrt_keep_sign(v);
  vf_reached("computed");
  for (int i = 0; i < 4; i++) {
    vf_eq(sqs(r[i]), v[i], "signed-square-of-signed-root");
    double a = v[i] < 0 ? -v[i] : v[i], s = vf_sqrt(a);
    vf_eq(r[i], v[i] < 0 ? -s : s, "signed-root");
  }
}
// allocation inverse of a quadrotor with upright motors
extern "C" void ob_allocation_inverse() {
  Eigen::Matrix<double, 6, 4> M = MX<double, 6, 4>("M");
  for (int j = 0; j < 4; j++) M(0, j) = M(1, j) = 0;
  Eigen::Matrix4d B = M.bottomRows(4);
  vf_assume(B.determinant() > 0 || B.determinant() < 0);
  Eigen::Matrix<double, 4, 6> I = indi_controller::compute_quadrotor_mixer_matrix_inverse<double>(M);
  vf_reached("inverted");
  for (int i = 0; i < 4; i++) {
    vf_eq(I(i, 0), 0, "side-force-columns-are-zero");
    vf_eq(I(i, 1), 0, "side-force-columns-are-zero");
    for (int j = 0; j < 4; j++) {
      double s = 0;
      for (int k = 0; k < 4; k++) s += M(2 + i, k) * I(k, 2 + j);
      vf_eq(s, i == j ? 1 : 0, "allocation-times-inverse-is-identity");
    }
  }
}
// round trip on the X frame: the commanded speeds produce exactly the demanded thrust and torque
template <typename P> static void round_trip() {
  precision<P>();
  P kt = POS<P>("kt"), kq = POS<P>("kq"), x = POS<P>("x"), y = POS<P>("y");
  auto motors = model::Model<P, 4>::create_quadrotor_x_config(kt, kq, x, y, 0, 1, 1, 0);
  Eigen::Matrix<P, 6, 4> M = model::Model<P, 4>::template compute_mixer_matrix<6>(motors);
  Eigen::Matrix<P, 4, 6> I = indi_controller::compute_quadrotor_mixer_matrix_inverse<P>(M);
  // speeds as the controller computes them from any thrust and torque
  P T = R<P>("T");
  auto t = V3<P>("t");
  Eigen::Matrix<P, 6, 1> d;
  d << 0, 0, T, t[0], t[1], t[2];
  Eigen::Matrix<P, 4, 1> w = indi_controller::sqrt_keep_sign(Eigen::Matrix<P, 4, 1>(I * d));
  vf_reached("computed");
  for (int k = 0; k < 6; k++) {
    P s = 0;
    for (int i = 0; i < 4; i++) s += M(k, i) * sqs(w[i]);
    vf_eq(s, d[k], "speeds-produce-the-demanded-thrust-and-torque");
  }
}
extern "C" void ob_round_trip() { round_trip<double>(); }
