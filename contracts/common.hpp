// Symbolic inputs shared by the contracts: arbitrary well formed models and arbitrary states.
#ifndef VF_COMMON_HPP_
#define VF_COMMON_HPP_
#include <iostream>
#include <stdexcept>
#include "vf.hpp"
#include "multirotor_dynamic_model/dynamics.hpp"

namespace vfc {
using namespace multirotor;  // NOLINT

// float instantiations: single precision arithmetic read as exact (double ones keep narrowing visible)
template <typename P> inline void precision() {}
template <> inline void precision<float>() { vf_float_exact(); }

template <typename P> inline P R(const char* n) { return static_cast<P>(vf_real(n)); }
template <> inline float R<float>(const char* n) { return vf_realf(n); }
template <typename P> inline P POS(const char* n) { return static_cast<P>(vf_pos(n)); }
template <> inline float POS<float>(const char* n) { return vf_posf(n); }
template <typename P> inline P NNEG(const char* n) { return static_cast<P>(vf_nonneg(n)); }
template <> inline float NNEG<float>(const char* n) { return vf_nonnegf(n); }

template <typename P> inline Eigen::Matrix<P, 3, 1> V3(const char* n) {
  P x = R<P>(n), y = R<P>(n), z = R<P>(n);
  return Eigen::Matrix<P, 3, 1>(x, y, z);
}
template <typename P, int N> inline Eigen::Matrix<P, N, 1> VN(const char* n) {
  Eigen::Matrix<P, N, 1> v;
  for (int i = 0; i < N; i++) v[i] = R<P>(n);
  return v;
}
inline Eigen::Quaterniond unitq(const char* n) {
  Eigen::Quaterniond q;
  vf_unit4(q.coeffs().data(), n);
  return q;
}
inline Eigen::Quaternionf unitqf(const char* n) {
  Eigen::Quaternionf q;
  vf_unit4f(q.coeffs().data(), n);
  return q;
}
template <typename P> struct UQ;
template <> struct UQ<double> { static Eigen::Quaterniond get(const char* n) { return unitq(n); } };
template <> struct UQ<float> { static Eigen::Quaternionf get(const char* n) { return unitqf(n); } };

// an arbitrary state with a unit attitude
template <typename P, int N> inline state::State<P, N> any_state() {
  state::State<P, N> s;
  s.kinematics.position             = V3<P>("pos");
  s.kinematics.orientation          = UQ<P>::get("q");
  s.kinematics.linear_velocity      = V3<P>("vel");
  s.kinematics.angular_velocity     = V3<P>("omega");
  s.kinematics.linear_acceleration  = V3<P>("acc");
  s.kinematics.angular_acceleration = V3<P>("alpha");
  s.dynamics.force                  = V3<P>("force");
  s.dynamics.torque                 = V3<P>("torque");
  s.actuators.motor_angular_velocity     = VN<P, N>("w");
  s.actuators.motor_angular_acceleration = VN<P, N>("wdot");
  return s;
}

// motor parameters accepted by the model, arbitrary position and arbitrary linear part of the pose
template <typename P> inline model::MotorParams<P> any_motor(bool tilt) {
  model::MotorParams<P> m;
  m.motor_rotation_direction = vf_bool("dir") ? 1 : -1;
  m.thrust_coefficient       = NNEG<P>("kt");
  m.torque_coefficient       = NNEG<P>("kq");
  m.min_speed                = R<P>("wmin");
  m.max_speed                = m.min_speed + NNEG<P>("wspan");
  m.time_constant      = POS<P>("tau");
  m.rotational_inertia = NNEG<P>("Jr");
  m.pose.translation() = V3<P>("mpos");
  if (tilt) {
    // rotation part: any rotation, from a unit quaternion
    Eigen::Quaternion<P> q = UQ<P>::get("mq");
    m.pose.linear() = q.toRotationMatrix();
  }
  return m;
}

template <typename P, int N> inline model::ModelParams<P, N> any_params(bool tilt = false, bool full_inertia = true) {
  model::ModelParams<P, N> p;
  for (int i = 0; i < N; i++) p.motors_params[i] = any_motor<P>(tilt);
  p.vehicle_mass = POS<P>("mass");
  if (full_inertia) {
    for (int i = 0; i < 9; i++) p.vehicle_inertia(i / 3, i % 3) = R<P>("I");
    vf_assume(p.vehicle_inertia.determinant() > 0);
  } else {
    p.vehicle_inertia.setZero();
    for (int i = 0; i < 3; i++) p.vehicle_inertia(i, i) = POS<P>("I");
  }
  p.vehicle_drag_coefficient = NNEG<P>("cd");
  for (int i = 0; i < 9; i++) p.vehicle_aero_moment_coefficient(i / 3, i % 3) = R<P>("caero");
  vf_assume(!(p.vehicle_aero_moment_coefficient.determinant() < 0));
  p.gravity = V3<P>("g");
  p.force_process_noise_auto_correlation  = NNEG<P>("Sf");
  p.moment_process_noise_auto_correlation = NNEG<P>("Sm");
  return p;
}

template <typename V1, typename V2> inline void eq3(const V1& a, const V2& b, const char* id) {
  for (int i = 0; i < 3; i++) vf_eq(a[i], b[i], id);
}
template <int N, typename V1, typename V2> inline void eqn(const V1& a, const V2& b, const char* id) {
  for (int i = 0; i < N; i++) vf_eq(a[i], b[i], id);
}
// element in row r, column c of the rotation matrix of a unit quaternion
template <typename Q> inline auto rot(const Q& q, int r, int c) -> typename Q::Scalar {
  typedef typename Q::Scalar P;
  const P x = q.x(), y = q.y(), z = q.z(), w = q.w();
  const P m[3][3] = {{1 - 2 * (y * y + z * z), 2 * (x * y - w * z), 2 * (x * z + w * y)},
                     {2 * (x * y + w * z), 1 - 2 * (x * x + z * z), 2 * (y * z - w * x)},
                     {2 * (x * z - w * y), 2 * (y * z + w * x), 1 - 2 * (x * x + y * y)}};
  return m[r][c];
}
template <typename P> inline P lim(P x, P lo, P hi) { return x < lo ? lo : (hi < x ? hi : x); }
// v*|v|
template <typename P> inline P sqs(P x) { return x < P(0) ? -(x * x) : x * x; }

// dynamics with any history: every stored byte arbitrary, then model and state set
template <typename P, int N> struct AnyDynamics : dynamics::Dynamics<P, N> {
  AnyDynamics(const model::ModelParams<P, N>& mp, const state::State<P, N>& s) : dynamics::Dynamics<P, N>(mp, 0, s) {
    vf_havoc(static_cast<dynamics::Dynamics<P, N>*>(this), sizeof(dynamics::Dynamics<P, N>), "history");
    model::Model<P, N> m(mp, 0);
    this->set_model(m);
    this->set_state(s);
  }
};
template <typename P, int N> inline void same_translation(const state::State<P, N>& a, const state::State<P, N>& b, const char* id) {
  eq3(a.kinematics.position, b.kinematics.position, id);
  eq3(a.kinematics.linear_velocity, b.kinematics.linear_velocity, id);
  eq3(a.kinematics.linear_acceleration, b.kinematics.linear_acceleration, id);
  eq3(a.dynamics.force, b.dynamics.force, id);
}
template <typename P, int N> inline void same_rotation(const state::State<P, N>& a, const state::State<P, N>& b, const char* id) {
  eq3(a.kinematics.angular_velocity, b.kinematics.angular_velocity, id);
  eq3(a.kinematics.angular_acceleration, b.kinematics.angular_acceleration, id);
  eq3(a.dynamics.torque, b.dynamics.torque, id);
}
template <typename P, int N> inline void same_attitude(const state::State<P, N>& a, const state::State<P, N>& b, const char* id) {
  eqn<4>(a.kinematics.orientation.coeffs(), b.kinematics.orientation.coeffs(), id);
}
template <typename P, int N> inline void same_motors(const state::State<P, N>& a, const state::State<P, N>& b, const char* id) {
  eqn<N>(a.actuators.motor_angular_velocity, b.actuators.motor_angular_velocity, id);
  eqn<N>(a.actuators.motor_angular_acceleration, b.actuators.motor_angular_acceleration, id);
}
template <typename P, int N> inline void same_state(const state::State<P, N>& a, const state::State<P, N>& b, const char* id) {
  same_translation<P, N>(a, b, id);
  same_rotation<P, N>(a, b, id);
  same_attitude<P, N>(a, b, id);
  same_motors<P, N>(a, b, id);
}
// a long update is the succession of full 10 ms steps and the remaining time, everything else equal
template <typename P, int N, typename F> inline void split(int full, bool noise, F compare) {
  precision<P>();
  auto mp = any_params<P, N>(false, false);
  auto s  = any_state<P, N>();
  AnyDynamics<P, N> d(mp, s), e(mp, s);
  auto u = VN<P, N>("u");
  auto f = V3<P>("fext");
  P rem  = static_cast<P>(vf_real_in("rem", 0, 0.01));
  vf_assume(rem > 0);
  d.process_euler_explicit(u, static_cast<P>(full * 0.01) + rem, f, noise);
  for (int i = 0; i < full; i++) e.process_euler_explicit(u, static_cast<P>(0.01), f, noise);
  e.process_euler_explicit(u, rem, f, noise);
  vf_reached("both updated");
  compare(d.get_state(), e.get_state(), "long-update-is-succession-of-steps");
}
}  // namespace vfc
#endif
