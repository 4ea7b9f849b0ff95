// C10: a model never holds parameters outside their valid ranges; valid ones are taken over, invalid ones leave it unchanged.
#include "common.hpp"
using namespace vfc;

template <typename P, int N> static model::ModelParams<P, N> raw() {
  model::ModelParams<P, N> p;
  for (int i = 0; i < N; i++) {
    auto& m = p.motors_params[i];
    m.motor_rotation_direction = vf_bool("dir") ? 1 : -1;
    m.thrust_coefficient = R<P>("kt");
    m.torque_coefficient = R<P>("kq");
    m.min_speed          = R<P>("wmin");
    m.max_speed          = R<P>("wmax");
    m.time_constant      = R<P>("tau");
    m.rotational_inertia = R<P>("Jr");
    m.pose.translation() = V3<P>("mpos");
  }
  p.vehicle_mass = R<P>("mass");
  for (int i = 0; i < 9; i++) p.vehicle_inertia(i / 3, i % 3) = R<P>("I");
  p.vehicle_drag_coefficient = R<P>("cd");
  for (int i = 0; i < 9; i++) p.vehicle_aero_moment_coefficient(i / 3, i % 3) = R<P>("caero");
  p.gravity = V3<P>("g");
  p.force_process_noise_auto_correlation  = NNEG<P>("Sf");
  p.moment_process_noise_auto_correlation = NNEG<P>("Sm");
  return p;
}
template <typename P> static P det(const Eigen::Matrix<P, 3, 3>& m) {
  return m(0, 0) * (m(1, 1) * m(2, 2) - m(1, 2) * m(2, 1)) - m(0, 1) * (m(1, 0) * m(2, 2) - m(1, 2) * m(2, 0)) +
         m(0, 2) * (m(1, 0) * m(2, 1) - m(1, 1) * m(2, 0));
}
template <typename P, int N> static bool good(const model::ModelParams<P, N>& p) {
  bool g = p.vehicle_mass > 0;
  g = g & (det<P>(p.vehicle_inertia) > 0);
  g = g & (p.vehicle_drag_coefficient >= 0);
  g = g & (det<P>(p.vehicle_aero_moment_coefficient) >= 0);
  for (int i = 0; i < N; i++) {
    const auto& m = p.motors_params[i];
    g = g & (m.min_speed <= m.max_speed) & (m.time_constant > 0) & (m.rotational_inertia >= 0) & (m.thrust_coefficient >= 0) & (m.torque_coefficient >= 0);
  }
  return g;
}
template <typename P, int N> static void same(const model::ModelParams<P, N>& a, const model::ModelParams<P, N>& b, const char* id) {
  vf_assert(a.motors_params.size() == N, id);
  for (int i = 0; i < N; i++) {
    const auto &x = a.motors_params[i], &y = b.motors_params[i];
    vf_assert(x.motor_rotation_direction == y.motor_rotation_direction, id);
    vf_eq(x.thrust_coefficient, y.thrust_coefficient, id);
    vf_eq(x.torque_coefficient, y.torque_coefficient, id);
    vf_eq(x.min_speed, y.min_speed, id);
    vf_eq(x.max_speed, y.max_speed, id);
    vf_eq(x.time_constant, y.time_constant, id);
    vf_eq(x.rotational_inertia, y.rotational_inertia, id);
    for (int k = 0; k < 3; k++) vf_eq(x.pose.translation()[k], y.pose.translation()[k], id);
  }
  vf_eq(a.vehicle_mass, b.vehicle_mass, id);
  vf_eq(a.vehicle_drag_coefficient, b.vehicle_drag_coefficient, id);
  for (int i = 0; i < 9; i++) {
    vf_eq(a.vehicle_inertia(i / 3, i % 3), b.vehicle_inertia(i / 3, i % 3), id);
    vf_eq(a.vehicle_aero_moment_coefficient(i / 3, i % 3), b.vehicle_aero_moment_coefficient(i / 3, i % 3), id);
  }
  for (int k = 0; k < 3; k++) vf_eq(a.gravity[k], b.gravity[k], id);
  vf_eq(a.force_process_noise_auto_correlation, b.force_process_noise_auto_correlation, id);
  vf_eq(a.moment_process_noise_auto_correlation, b.moment_process_noise_auto_correlation, id);
}
template <typename P, int N> static void getters(const model::Model<P, N>& m, const model::ModelParams<P, N>& p) {
  vf_eq(m.get_mass(), p.vehicle_mass, "mass-reported");
  vf_eq(m.get_vehicle_drag_coefficient(), p.vehicle_drag_coefficient, "drag-reported");
  vf_eq(m.get_force_process_noise_auto_correlation(), p.force_process_noise_auto_correlation, "force-noise-reported");
  vf_eq(m.get_moment_process_noise_auto_correlation(), p.moment_process_noise_auto_correlation, "moment-noise-reported");
  vf_assert(m.get_num_rotors() == N, "number-of-rotors-reported");
  for (int k = 0; k < 3; k++) vf_eq(m.get_gravity()[k], p.gravity[k], "gravity-reported");
  for (int i = 0; i < 9; i++) {
    vf_eq(m.get_vehicle_inertia()(i / 3, i % 3), p.vehicle_inertia(i / 3, i % 3), "inertia-reported");
    vf_eq(m.get_vehicle_aero_moment_coefficient()(i / 3, i % 3), p.vehicle_aero_moment_coefficient(i / 3, i % 3), "aero-reported");
  }
  for (int i = 0; i < N; i++) vf_eq(m.get_motors()[i].max_speed, p.motors_params[i].max_speed, "motors-reported");
}

// any parameters at all offered to a working model
template <typename P, int N> static void offer() {
  precision<P>();
  auto p0 = any_params<P, N>(false, false);
  model::Model<P, N> m(p0, 0);
  auto p  = raw<P, N>();
  bool g  = good<P, N>(p);
  bool ok = m.check_params(p);
  vf_assert(ok == g, "accepts-exactly-the-valid-parameters");
  m.update_params(p);
  vf_reached("offered");
  if (g) {
    same<P, N>(m.get_params(), p, "valid-parameters-taken-over");
    getters<P, N>(m, p);
    for (int i = 0; i < N; i++) vf_eq(m.get_mixer_matrix()(2, i), p.motors_params[i].thrust_coefficient, "mixer-follows-valid-parameters");
  } else {
    same<P, N>(m.get_params(), p0, "invalid-parameters-change-nothing");
    getters<P, N>(m, p0);
    for (int i = 0; i < N; i++) vf_eq(m.get_mixer_matrix()(2, i), p0.motors_params[i].thrust_coefficient, "mixer-kept-with-invalid-parameters");
  }
}
extern "C" void ob_offer_quad() { offer<double, 4>(); }
extern "C" void ob_offer_hexa() { offer<double, 6>(); }
#ifdef VF_THOROUGH
extern "C" void ob_offer_quad_float() { offer<float, 4>(); }
#endif

// a wrong number of motors is refused
template <int N, int K> static void count() {
  auto p0 = any_params<double, N>(false, false);
  model::Model<double, N> m(p0, 0);
  auto p = any_params<double, N>(false, false);
  p.motors_params.resize(K);
  for (int i = 0; i < K; i++) p.motors_params[i] = any_motor<double>(false);
  bool ok = m.check_params(p);
  m.update_params(p);
  vf_reached("offered");
  vf_assert(!ok, "wrong-number-of-motors-refused");
  vf_eq(m.get_mass(), p0.vehicle_mass, "wrong-number-of-motors-changes-nothing");
  vf_assert(m.get_num_rotors() == N, "wrong-number-of-motors-changes-nothing");
}
extern "C" void ob_too_few_motors() { count<4, 3>(); }
extern "C" void ob_too_many_motors() { count<4, 5>(); }
extern "C" void ob_quad_motors_on_hexa() { count<6, 4>(); }
