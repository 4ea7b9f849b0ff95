// C21: inertial odometry: low pass filter, then integration of attitude, velocity and position.
#include "imu_simulator/inertial_odometry.hpp"
#include "common.hpp"
using namespace vfc;
template <typename P> using V = Eigen::Matrix<P, 3, 1>;
template <typename P> struct Read {
  V<P> p, v, w, a;
  Eigen::Quaternion<P> q;
  explicit Read(const imu::InertialOdometry<P>& o) { o.get_measurement(p, q, v, w, a); }
};
template <typename P> static void same_read(const imu::InertialOdometry<P>& o, const Read<P>& r) {
  eq3(o.get_position(), r.p, "single-reads-agree");
  eq3(o.get_linear_velocity(), r.v, "single-reads-agree");
  eq3(o.get_angular_velocity(), r.w, "single-reads-agree");
  eq3(o.get_linear_acceleration(), r.a, "single-reads-agree");
  eqn<4>(o.get_orientation().coeffs(), r.q.coeffs(), "single-reads-agree");
}
// an odometry with any history (every stored byte arbitrary) and any attitude, looked at from outside
template <typename P> struct Odo {
  imu::InertialOdometry<P> o;
  V<P> x, v, w0, a0;             // estimate; rate and acceleration left by a zero measurement
  P alpha;                       // weight of a new measurement
  Eigen::Quaternion<P> q = UQ<P>::get("q");
  Odo() {
    vf_havoc(&o, sizeof o, "h");
    o.set_initial_orientation(q);
    x = o.get_position();
    v = o.get_linear_velocity();
    auto z = o;
    z.update(V<P>::Zero(), V<P>::Zero(), P(0));
    w0 = z.get_angular_velocity();
    a0 = z.get_linear_acceleration();
    auto c = o;
    c.reset();
    c.update(V<P>(1, 0, 0), V<P>::Zero(), P(0));
    alpha = c.get_angular_velocity()[0];
  }
};
template <typename P> static void step() {
  precision<P>();
  Odo<P> o;
  auto g = V3<P>("g"), a = V3<P>("a");
  P dt = R<P>("dt");
  o.o.update(g, a, dt);
  vf_reached("updated");
  Read<P> r(o.o);
  same_read<P>(o.o, r);
  P w[3];
  for (int i = 0; i < 3; i++) w[i] = o.alpha * g[i] + o.w0[i];
  const auto& q = o.q;
  P d[4] = {q.w() * w[0] + q.y() * w[2] - q.z() * w[1], q.w() * w[1] + q.z() * w[0] - q.x() * w[2], q.w() * w[2] + q.x() * w[1] - q.y() * w[0],
            -q.x() * w[0] - q.y() * w[1] - q.z() * w[2]};
  P u[4] = {q.x() + d[0] * dt / 2, q.y() + d[1] * dt / 2, q.z() + d[2] * dt / 2, q.w() + d[3] * dt / 2};
  P n2 = u[0] * u[0] + u[1] * u[1] + u[2] * u[2] + u[3] * u[3];
  P n  = static_cast<P>(vf_sqrt(n2));
  for (int i = 0; i < 3; i++) {
    P acc = o.alpha * (rot(q, i, 0) * a[0] + rot(q, i, 1) * a[1] + rot(q, i, 2) * a[2]) + o.a0[i];
    vf_eq(r.w[i], w[i], "rate-is-filtered-gyro");
    vf_eq(r.a[i], acc, "acceleration-is-filtered-and-rotated-to-earth");
    vf_eq(r.v[i], o.v[i] + acc * dt, "velocity-integrates-acceleration");
    vf_eq(r.p[i], o.x[i] + (o.v[i] + acc * dt) * dt, "position-integrates-velocity");
  }
  for (int i = 0; i < 4; i++) vf_eq(n > 0 ? r.q.coeffs()[i] * n : r.q.coeffs()[i], u[i], "attitude-integrates-rate");
}
extern "C" void ob_step() { step<double>(); }
extern "C" void ob_step_float() { step<float>(); }
// the estimate stays a rotation
extern "C" void ob_unit() {
  Odo<double> o;
  auto g = V3<double>("g"), a = V3<double>("a");
  double dt = vf_real("dt");
  o.o.update(g, a, dt);
  vf_reached("updated");
  auto c = o.o.get_orientation().coeffs();
  vf_eq(c[0] * c[0] + c[1] * c[1] + c[2] * c[2] + c[3] * c[3], 1, "attitude-stays-unit");
}
// the memory decays by the filter constant; rate and acceleration memories of any history
template <typename P> static void memory() {
  precision<P>();
  Odo<P> o;
  auto g = V3<P>("g"), a = V3<P>("a");
  auto z = o.o;
  z.update(g, a, P(0));
  z.set_initial_orientation(o.q);
  Read<P> one(z);
  z.update(V<P>::Zero(), V<P>::Zero(), P(0));
  vf_reached("updated");
  for (int i = 0; i < 3; i++) {
    vf_eq(z.get_angular_velocity()[i], (1 - o.alpha) * one.w[i], "rate-memory-decays");
    vf_eq(z.get_linear_acceleration()[i], (1 - o.alpha) * one.a[i], "acceleration-memory-decays");
  }
}
extern "C" void ob_memory() { memory<double>(); }
extern "C" void ob_memory_float() { memory<float>(); }
// two updates through the public interface only: the filter remembers
extern "C" void ob_filter_memory() {
  double alpha = vf_real_in("alpha", 0, 1);
  vf_assume(alpha > 0);
  imu::InertialOdometryParams<double> p;
  p.alpha = alpha;
  p.initial_world_orientation = unitq("q0");
  imu::InertialOdometry<double> o(p);
  auto g = V3<double>("g"), g2 = V3<double>("g2"), a = V3<double>("a"), a2 = V3<double>("a2");
  o.update(g, a, 0.0);
  o.update(g2, a2, 0.0);
  vf_reached("updated");
  const auto& q = p.initial_world_orientation;
  double b[3];
  for (int i = 0; i < 3; i++) {
    vf_eq(o.get_angular_velocity()[i], alpha * g2[i] + (1 - alpha) * alpha * g[i], "filter-remembers-gyro");
    b[i] = alpha * a2[i] + (1 - alpha) * alpha * a[i];
  }
  for (int i = 0; i < 3; i++) vf_eq(o.get_linear_acceleration()[i], rot(q, i, 0) * b[0] + rot(q, i, 1) * b[1] + rot(q, i, 2) * b[2], "filter-remembers-accelerometer");
}
template <typename P> static void start(int how) {
  precision<P>();
  P alpha = static_cast<P>(vf_real_in("alpha", 0, 1));
  vf_assume(alpha > 0);
  Eigen::Quaternion<P> q0 = UQ<P>::get("q0");
  imu::InertialOdometryParams<P> p;
  p.alpha = alpha; p.initial_world_orientation = q0;
  imu::InertialOdometry<P> fresh(p);
  imu::InertialOdometry<P> o(alpha, q0);
  if (how == 1) {          // after any history
    vf_havoc(&o, sizeof o, "h");
    Eigen::Quaternion<P> q1 = UQ<P>::get("q1");
    imu::InertialOdometry<P> before = o;
    o.set_initial_orientation(q1);
    Read<P> b(before), r(o);
    eqn<4>(r.q.coeffs(), q1.coeffs(), "initial-attitude-applies-at-once");
    eq3(r.p, b.p, "setting-attitude-keeps-the-rest"); eq3(r.v, b.v, "setting-attitude-keeps-the-rest");
    eq3(r.w, b.w, "setting-attitude-keeps-the-rest"); eq3(r.a, b.a, "setting-attitude-keeps-the-rest");
    o.reset();
    Read<P> z(o);
    eqn<4>(z.q.coeffs(), q1.coeffs(), "reset-returns-to-initial-attitude");
    for (int i = 0; i < 3; i++) { vf_eq(z.p[i], 0, "reset-zeroes-estimate"); vf_eq(z.v[i], 0, "reset-zeroes-estimate"); vf_eq(z.w[i], 0, "reset-zeroes-estimate"); vf_eq(z.a[i], 0, "reset-zeroes-estimate"); }
    // and forgets the filter memory: the next measurement is weighted by the filter constant alone
    auto g = V3<P>("g"), g2 = V3<P>("g2"), a = V3<P>("a");
    imu::InertialOdometry<P> quiet = o;
    quiet.update(V<P>::Zero(), V<P>::Zero(), R<P>("dtq"));
    Read<P> n(quiet);
    for (int i = 0; i < 3; i++) { vf_eq(n.w[i], 0, "reset-forgets-filter-memory"); vf_eq(n.a[i], 0, "reset-forgets-filter-memory"); vf_eq(n.v[i], 0, "reset-forgets-filter-memory"); vf_eq(n.p[i], 0, "reset-forgets-filter-memory"); }
    eqn<4>(n.q.coeffs(), q1.coeffs(), "reset-forgets-filter-memory");
    o.update(g, a, P(0));
    Read<P> u(o);
    imu::InertialOdometry<P> c = o;
    c.reset();
    c.update(g2, a, P(0));
    for (int i = 0; i < 3; i++) vf_eq(c.get_angular_velocity()[i] * g[i], u.w[i] * g2[i], "reset-forgets-filter-memory");
  } else {
    vf_same(&o, &fresh, sizeof o, "both-constructions-agree");
    Read<P> z(o);
    eqn<4>(z.q.coeffs(), q0.coeffs(), "starts-at-initial-attitude");
    for (int i = 0; i < 3; i++) { vf_eq(z.p[i], 0, "starts-at-zero"); vf_eq(z.v[i], 0, "starts-at-zero"); vf_eq(z.w[i], 0, "starts-at-zero"); vf_eq(z.a[i], 0, "starts-at-zero"); }
  }
  vf_reached("done");
}
extern "C" void ob_start() { start<double>(0); }
extern "C" void ob_reset() { start<double>(1); }
extern "C" void ob_start_float() { start<float>(0); }
extern "C" void ob_reset_float() { start<float>(1); }
