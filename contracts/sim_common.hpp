// Arbitrary simulators.
#ifndef VF_SIM_COMMON_HPP_
#define VF_SIM_COMMON_HPP_
#include "ctl_common.hpp"
#include "multirotor_simulator.hpp"
namespace vfc {
// a simulator with any history: every stored byte arbitrary, attitude a rotation
template <typename P, int N> struct AnySim : Simulator<P, N> {
  typedef Simulator<P, N> S;
  // the motors are stored outside of the object: arbitrary ones, pose without rotation
  static SimulatorParams<P, N> motors() {
    SimulatorParams<P, N> p;
    p.dynamics_params.model_params.vehicle_mass = 1;
    p.dynamics_params.model_params.vehicle_inertia.setIdentity();
    for (int i = 0; i < N; i++) p.dynamics_params.model_params.motors_params[i] = any_motor<P>(false);
    return p;
  }
  state::State<P, N> start = any_state<P, N>();
  AnySim() : S(motors()) {
    vf_havoc(static_cast<S*>(this), sizeof(S), "sim");
    this->get_dynamics().set_state(start);
  }
};
template <typename P> inline void same_motor(const model::MotorParams<P>& x, const model::MotorParams<P>& y, const char* id) {
  vf_assert(x.motor_rotation_direction == y.motor_rotation_direction, id);
  vf_eq(x.thrust_coefficient, y.thrust_coefficient, id);
  vf_eq(x.torque_coefficient, y.torque_coefficient, id);
  vf_eq(x.min_speed, y.min_speed, id);
  vf_eq(x.max_speed, y.max_speed, id);
  vf_eq(x.time_constant, y.time_constant, id);
  vf_eq(x.rotational_inertia, y.rotational_inertia, id);
  for (int i = 0; i < 3; i++)
    for (int j = 0; j < 4; j++) vf_eq(x.pose.matrix()(i, j), y.pose.matrix()(i, j), id);
}
template <typename P, int N> inline void same_dynamics(const Simulator<P, N>& a, const Simulator<P, N>& b, const char* id) {
  vf_same(&a.get_dynamics_const(), &b.get_dynamics_const(), sizeof(dynamics::Dynamics<P, N>), id);
  const auto &x = a.get_dynamics_const().get_model_const().get_motors(), &y = b.get_dynamics_const().get_model_const().get_motors();
  vf_assert(x.size() == N && y.size() == N, id);
  for (int i = 0; i < N; i++) same_motor<P>(x[i], y[i], id);
}
template <typename P, int N> inline void same_controller(const Simulator<P, N>& a, const Simulator<P, N>& b, const char* id) {
  vf_same(&a.get_controller_const(), &b.get_controller_const(), sizeof(controller::Controller<P, N>), id);
}
template <typename P, int N> inline void same_imu(const Simulator<P, N>& a, const Simulator<P, N>& b, const char* id) {
  vf_same(&a.get_imu_const(), &b.get_imu_const(), sizeof(imu::IMU<P>), id);
}
template <typename P, int N> inline void same_odometry(const Simulator<P, N>& a, const Simulator<P, N>& b, const char* id) {
  vf_same(&a.get_inertial_odometry_const(), &b.get_inertial_odometry_const(), sizeof(imu::InertialOdometry<P>), id);
}
template <typename P, int N> inline void same_modes(const Simulator<P, N>& a, const Simulator<P, N>& b, const char* id) {
  vf_assert(a.get_armed() == b.get_armed(), id);
  vf_assert(a.get_control_mode() == b.get_control_mode(), id);
  vf_assert(a.get_yaw_control_mode() == b.get_yaw_control_mode(), id);
  vf_assert(a.get_floor_collision_enabled() == b.get_floor_collision_enabled(), id);
  vf_eq(a.get_floor_height(), b.get_floor_height(), id);
}
enum Ref { THRUST = 1, RATES = 2, POS_ = 4, VEL = 8, ACC = 16, YAW = 32, YAWRATE = 64, MOTORS = 128 };
// references equal, but for the ones named
template <typename P, int N> inline void same_references(const Simulator<P, N>& a, const Simulator<P, N>& b, int but, const char* id) {
  if (!(but & THRUST)) vf_eq(a.get_reference_thrust(), b.get_reference_thrust(), id);
  if (!(but & RATES)) eq3(a.get_reference_angular_velocity(), b.get_reference_angular_velocity(), id);
  if (!(but & POS_)) eq3(a.get_reference_position(), b.get_reference_position(), id);
  if (!(but & VEL)) eq3(a.get_reference_velocity(), b.get_reference_velocity(), id);
  if (!(but & ACC)) eq3(a.get_reference_acceleration(), b.get_reference_acceleration(), id);
  if (!(but & YAW)) vf_eq(a.get_reference_yaw(), b.get_reference_yaw(), id);
  if (!(but & YAWRATE)) vf_eq(a.get_reference_yaw_rate(), b.get_reference_yaw_rate(), id);
  if (!(but & MOTORS)) eqn<N>(a.get_reference_motors_angular_velocity(), b.get_reference_motors_angular_velocity(), id);
}
template <typename P, int N> inline void same_actuation(const Simulator<P, N>& a, const Simulator<P, N>& b, const char* id) {
  eqn<N>(a.get_actuation_motors_angular_velocity(), b.get_actuation_motors_angular_velocity(), id);
}
// heading of a unit quaternion
template <typename P> inline P heading(const Eigen::Quaternion<P>& q) {
  return static_cast<P>(vf_fn2("atan2", 2 * (q.w() * q.z() + q.x() * q.y()), 1 - 2 * (q.y() * q.y() + q.z() * q.z())));
}
}  // namespace vfc
#endif
