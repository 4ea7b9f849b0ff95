// C18: acceleration to thrust and body rates: Newton inverse, geometric attitude law, never negative collective thrust.
#include "ctl_common.hpp"
using namespace vfc;

template <typename P> static acro_controller::AcroController<P> any_acro(acro_controller::AcroControllerParams<P>& p) {
  p.vehicle_mass = POS<P>("mass");
  p.gravity      = V3<P>("g");
  p.kp_rot       = MX<P, 3, 3>("k");
  acro_controller::AcroController<P> c;
  vf_havoc(&c, sizeof c, "h");
  c.update_params(p);
  return c;
}
extern "C" void ob_thrust() {
  acro_controller::AcroControllerParams<double> p;
  auto c = any_acro<double>(p);
  auto a = V3<double>("a");
  Eigen::Vector3d f = c.acceleration_to_thrust(a);
  vf_reached("computed");
  for (int i = 0; i < 3; i++) vf_eq(f[i], p.vehicle_mass * (a[i] - p.gravity[i]), "thrust-is-mass-times-specific-acceleration");
}

// the attitude law for any current attitude (rotation matrix or not), any heading, any thrust not along the heading
template <typename P> static void attitude() {
  precision<P>();
  acro_controller::AcroControllerParams<P> p;
  auto c = any_acro<P>(p);
  M3_<P> A = MX<P, 3, 3>("A");
  P yaw = R<P>("yaw");
  auto T = V3<P>("T");
  P ch = static_cast<P>(vf_fn1("cos", yaw)), sh = static_cast<P>(vf_fn1("sin", yaw));
  vf_assume_eq(ch * ch + sh * sh, 1);
  P n2 = T[0] * T[0] + T[1] * T[1] + T[2] * T[2];
  vf_assume(n2 > 0);
  P y[3] = {-T[2] * sh, T[2] * ch, T[0] * sh - T[1] * ch};   // thrust cross heading
  P m2 = y[0] * y[0] + y[1] * y[1] + y[2] * y[2];
  vf_assume(m2 > 0);
  V3_<P> w = c.yaw_angle_to_angular_velocity(A, yaw, T);
  vf_reached("computed");
  P n = static_cast<P>(vf_sqrt(n2)), m = static_cast<P>(vf_sqrt(m2));
  P D[3][3];   // desired attitude, column by column
  for (int i = 0; i < 3; i++) {
    D[i][2] = T[i] / n;
    D[i][1] = y[i] / m;
  }
  D[0][0] = D[1][1] * D[2][2] - D[2][1] * D[1][2];
  D[1][0] = D[2][1] * D[0][2] - D[0][1] * D[2][2];
  D[2][0] = D[0][1] * D[1][2] - D[1][1] * D[0][2];
  P E[3][3];
  for (int i = 0; i < 3; i++)
    for (int j = 0; j < 3; j++) {
      E[i][j] = 0;
      for (int k = 0; k < 3; k++) E[i][j] += D[k][i] * A(k, j) - A(k, i) * D[k][j];
    }
  P e[3] = {E[2][1] / 2, E[0][2] / 2, E[1][0] / 2};
  for (int i = 0; i < 3; i++) {
    vf_eq(w[i], -(p.kp_rot(i, 0) * e[0] + p.kp_rot(i, 1) * e[1] + p.kp_rot(i, 2) * e[2]), "rates-oppose-attitude-error");
    vf_eq(c.get_desired_angular_velocity()[i], w[i], "rates-reported");
  }
}
extern "C" void ob_attitude() { attitude<double>(); }

// collective thrust and rates from an acceleration
template <typename P, int N> static void collective() {
  precision<P>();
  auto c = any_controller<P, N>();
  acro_controller::AcroControllerParams<P> p;
  p.vehicle_mass = POS<P>("mass");
  p.gravity      = V3<P>("g");
  p.kp_rot       = MX<P, 3, 3>("k");
  c.update_acro_controller_params(p);
  auto a = V3<P>("a");
  Eigen::Quaternion<P> q = UQ<P>::get("q");
  P yaw = R<P>("yaw"), dt = POS<P>("dt");
  V3_<P> T;
  for (int i = 0; i < 3; i++) T[i] = p.vehicle_mass * (a[i] - p.gravity[i]);
  auto k = c.get_acro_controller_const();
  V3_<P> rate = k.yaw_angle_to_angular_velocity(q.toRotationMatrix(), yaw, T);
  auto r = c.convert_linear_acceleration_to_acro(a, q.toRotationMatrix(), yaw, dt);
  vf_reached("computed");
  P along = T[0] * rot(q, 0, 2) + T[1] * rot(q, 1, 2) + T[2] * rot(q, 2, 2);
  vf_le(0, r.first, "collective-never-negative");
  vf_eq(r.first, along < 0 ? P(0) : along, "collective-is-thrust-along-body-axis");
  for (int i = 0; i < 3; i++) vf_eq(r.second[i], along < 0 ? P(0) : rate[i], "rates-zero-when-upside-down");
}
extern "C" void ob_collective() { collective<double, 4>(); }
#ifdef VF_THOROUGH
extern "C" void ob_collective_float() { collective<float, 4>(); }
#endif

// level vehicle pointing along the wanted heading and wanting only vertical thrust: no rotation asked
extern "C" void ob_aligned() {
  acro_controller::AcroControllerParams<double> p;
  auto c = any_acro<double>(p);
  double yaw = vf_real("yaw"), f = vf_pos("f");
  double ch = vf_fn1("cos", yaw), sh = vf_fn1("sin", yaw);
  vf_assume_eq(ch * ch + sh * sh, 1);
  Eigen::Matrix3d A;
  A << ch, -sh, 0, sh, ch, 0, 0, 0, 1;
  Eigen::Vector3d w = c.yaw_angle_to_angular_velocity(A, yaw, Eigen::Vector3d(0, 0, f));
  vf_reached("computed");
  for (int i = 0; i < 3; i++) vf_eq(w[i], 0, "aligned-vehicle-does-not-rotate");
}

// each setting replaces only itself
extern "C" void ob_settings() {
  acro_controller::AcroControllerParams<double> p;
  auto c = any_acro<double>(p);
  auto same = [&](int but, const char* id) {
    if (but != 0) vf_eq(c.get_vehicle_mass(), p.vehicle_mass, id);
    for (int i = 0; i < 3; i++) {
      if (but != 1) vf_eq(c.get_gravity()[i], p.gravity[i], id);
      for (int j = 0; j < 3; j++)
        if (but != 2) vf_eq(c.get_kp_rot()(i, j), p.kp_rot(i, j), id);
    }
  };
  same(-1, "settings-reported");
  p.vehicle_mass = vf_real("mass2");
  c.update_vehicle_mass(p.vehicle_mass);
  same(-1, "mass-replaced-alone");
  p.gravity = V3<double>("g2");
  c.update_gravity(p.gravity);
  same(-1, "gravity-replaced-alone");
  p.kp_rot = MX<double, 3, 3>("k2");
  c.update_kp_rot(p.kp_rot);
  same(-1, "gain-replaced-alone");
  vf_reached("replaced");
}
// built from values
extern "C" void ob_construct() {
  double m = vf_real("m");
  auto g = V3<double>("g");
  auto k = MX<double, 3, 3>("k");
  acro_controller::AcroController<double> a(m, k, g), d(m, k), e(acro_controller::AcroControllerParams<double>{});
  vf_reached("built");
  vf_eq(a.get_vehicle_mass(), m, "mass-as-built");
  vf_eq(d.get_vehicle_mass(), m, "mass-as-built");
  for (int i = 0; i < 3; i++) {
    vf_eq(a.get_gravity()[i], g[i], "gravity-as-built");
    vf_eq(d.get_gravity()[i], i == 2 ? -9.81 : 0, "standard-gravity");
    vf_eq(e.get_gravity()[i], i == 2 ? -9.81 : 0, "standard-gravity");
    for (int j = 0; j < 3; j++) {
      vf_eq(a.get_kp_rot()(i, j), k(i, j), "gain-as-built");
      vf_eq(d.get_kp_rot()(i, j), k(i, j), "gain-as-built");
    }
  }
}
