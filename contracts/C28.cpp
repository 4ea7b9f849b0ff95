// C28: the textual log of a state: every quantity once, in the documented order, attitude as Euler angles.
#include "sim_common.hpp"
using namespace vfc;

// the number printed at place i
static void near(int& i, double v, const char* id) { vf_near(vf_out_real(i++), v, 1e-6, id); }
static void at(int& i, double v, const char* id) { vf_eq(vf_out_real(i++), v, id); }
template <typename V> static void at3(int& i, const V& v, const char* id) { for (int k = 0; k < 3; k++) at(i, v[k], id); }
// roll, pitch and yaw of a unit quaternion
template <typename P> struct Euler {
  P roll, pitch, yaw;
  explicit Euler(const Eigen::Quaternion<P>& q) {
    roll = static_cast<P>(vf_fn2("atan2", 2 * (q.w() * q.x() + q.y() * q.z()), 1 - 2 * (q.x() * q.x() + q.y() * q.y())));
    P s = 2 * (q.w() * q.y() - q.z() * q.x());
    pitch = s >= 1 ? static_cast<P>(M_PI / 2) : s <= -1 ? static_cast<P>(-M_PI / 2) : static_cast<P>(vf_fn1("asin", s));
    yaw = static_cast<P>(vf_fn2("atan2", 2 * (q.w() * q.z() + q.x() * q.y()), 1 - 2 * (q.y() * q.y() + q.z() * q.z())));
  }
};
template <typename P> static void kinematics_at(int& i, const state::internal::Kinematics<P>& k, bool angacc) {
  Euler<P> e(k.orientation);
  at3(i, k.position, "position-logged");
  at(i, e.roll, "roll-logged"); near(i, e.pitch, "pitch-logged"); at(i, e.yaw, "yaw-logged");
  at3(i, k.linear_velocity, "velocity-logged");
  at3(i, k.angular_velocity, "rates-logged");
  at3(i, k.linear_acceleration, "acceleration-logged");
  if (angacc) at3(i, k.angular_acceleration, "angular-acceleration-logged");
}
// comma separated record of a whole state
template <typename P, int N> static void record(const char* shape) {
  precision<P>();
  auto s = any_state<P, N>();
  const auto before = s;
  vf_out_reset();
  std::cout << s;
  vf_reached("logged");
  vf_assert(vf_out_count() == 24 + 2 * N, "one-number-per-quantity");
  vf_assert(vf_out_text_is(shape), "comma-separated-record");
  int i = 0;
  kinematics_at<P>(i, s.kinematics, true);
  at3(i, s.dynamics.force, "force-logged");
  at3(i, s.dynamics.torque, "torque-logged");
  for (int k = 0; k < N; k++) at(i, s.actuators.motor_angular_velocity[k], "motor-speeds-logged");
  for (int k = 0; k < N; k++) at(i, s.actuators.motor_angular_acceleration[k], "motor-accelerations-logged");
  same_state<P, N>(s, before, "logging-changes-nothing");
}
#define C8 "#,#,#,#,#,#,#,#,"
extern "C" void ob_record() { record<double, 4>(C8 C8 C8 "#,#,#,#,#,#,#,#"); }
extern "C" void ob_record_hexa() { record<double, 6>(C8 C8 C8 C8 "#,#,#,#"); }
extern "C" void ob_record_float() { record<float, 4>(C8 C8 C8 "#,#,#,#,#,#,#,#"); }
// labelled form
#define L3(n) n "_x: #, " n "_y: #, " n "_z: #"
#define POSE L3("position") ", orientation_roll: #, orientation_pitch: #, orientation_yaw: #, " L3("linear_velocity") ", " L3("angular_velocity") ", " L3("linear_acceleration")
#define M1(n) "motor_#_angular_" n ": #"
#define M4(n) M1(n) ", " M1(n) ", " M1(n) ", " M1(n)
template <typename P> static void labelled() {
  precision<P>();
  auto s = any_state<P, 4>();
  vf_out_reset();
  state::internal::print_kinematics(std::cout, s.kinematics);
  vf_assert(vf_out_count() == 18, "one-number-per-quantity");
  vf_assert(vf_out_text_is(POSE ", " L3("angular_acceleration")), "labels");
  int i = 0;
  kinematics_at<P>(i, s.kinematics, true);
  vf_out_reset();
  state::internal::print_dynamics(std::cout, s.dynamics);
  vf_assert(vf_out_count() == 6, "one-number-per-quantity");
  vf_assert(vf_out_text_is(L3("force") ", " L3("torque")), "labels");
  i = 0;
  at3(i, s.dynamics.force, "force-logged");
  at3(i, s.dynamics.torque, "torque-logged");
  vf_out_reset();
  state::internal::print_actuators(std::cout, s.actuators);
  vf_assert(vf_out_count() == 16, "one-number-per-quantity");
  // the two groups follow each other without a separator today: with one would be as good
  vf_assert(vf_out_text_is(M4("velocity") M4("acceleration")) || vf_out_text_is(M4("velocity") ", " M4("acceleration")), "labels");
  i = 0;
  for (int k = 0; k < 4; k++) { at(i, k, "motor-number"); at(i, s.actuators.motor_angular_velocity[k], "motor-speeds-logged"); }
  for (int k = 0; k < 4; k++) { at(i, k, "motor-number"); at(i, s.actuators.motor_angular_acceleration[k], "motor-accelerations-logged"); }
  vf_reached("logged");
}
extern "C" void ob_labelled() { labelled<double>(); }
extern "C" void ob_labelled_float() { labelled<float>(); }
extern "C" void ob_print_state() {
  auto s = any_state<double, 4>();
  vf_out_reset();
  state::print_state(s);
  vf_reached("logged");
  vf_assert(vf_out_count() == 24 + 16, "one-number-per-quantity");
  int i = 0;
  kinematics_at<double>(i, s.kinematics, true);
  at3(i, s.dynamics.force, "force-logged");
  at3(i, s.dynamics.torque, "torque-logged");
}
// odometry, after any history
template <typename P> static void odometry(bool labels) {
  precision<P>();
  imu::InertialOdometry<P> o;
  vf_havoc(&o, sizeof o, "odometry");
  o.set_initial_orientation(UQ<P>::get("q"));
  state::internal::Kinematics<P> k;
  o.get_measurement(k.position, k.orientation, k.linear_velocity, k.angular_velocity, k.linear_acceleration);
  vf_out_reset();
  if (labels)
    print_state(std::cout, o);
  else
    std::cout << o;
  vf_reached("logged");
  vf_assert(vf_out_count() == 15, "one-number-per-quantity");
  if (labels)
    vf_assert(vf_out_text_is(POSE), "labels");
  else
    vf_assert(vf_out_text_is(C8 "#,#,#,#,#,#,#"), "comma-separated-record");
  int i = 0;
  kinematics_at<P>(i, k, false);
}
extern "C" void ob_odometry() { odometry<double>(false); }
extern "C" void ob_odometry_float() { odometry<float>(false); }
extern "C" void ob_odometry_labels() { odometry<double>(true); }
// Euler angles do not depend on the length of the quaternion, and stay in range at the poles
template <typename P> static void euler() {
  precision<P>();
  auto q = UQ<P>::get("q");
  P k = POS<P>("k");
  Eigen::Quaternion<P> kq(k * q.w(), k * q.x(), k * q.y(), k * q.z());
  P r, p, y;
  state::internal::quaternion_to_Euler<P>(kq, r, p, y);
  Euler<P> e(q);
  vf_reached("converted");
  vf_eq(r, e.roll, "roll"); vf_near(p, e.pitch, 1e-6, "pitch"); vf_eq(y, e.yaw, "yaw");
}
extern "C" void ob_euler() { euler<double>(); }
extern "C" void ob_euler_float() { euler<float>(); }
