// Arbitrary controllers.
#ifndef VF_CTL_COMMON_HPP_
#define VF_CTL_COMMON_HPP_
#include "pid_common.hpp"
#include "multirotor_controllers/multirotor_controllers.hpp"
namespace vfc {
template <typename P> using V3_ = Eigen::Matrix<P, 3, 1>;
template <typename P> using M3_ = Eigen::Matrix<P, 3, 3>;
template <typename P, int R, int C> inline Eigen::Matrix<P, R, C> MX(const char* n) {
  Eigen::Matrix<P, R, C> m;
  for (int i = 0; i < R; i++)
    for (int j = 0; j < C; j++) m(i, j) = vfc::R<P>(n);
  return m;
}
// a controller cascade with any parameters and any history
template <typename P, int N> inline controller::Controller<P, N> any_controller() {
  controller::Controller<P, N> c;
  vf_havoc(&c, sizeof c, "ctl");
  return c;
}
template <typename P> inline M3_<P> any_rotation(const char* n) { return UQ<P>::get(n).toRotationMatrix(); }
// the plain PID inside a controller
template <typename P, typename C> inline pid_controller::PID<P, 3> pid_of(const C& c) { return static_cast<const pid_controller::PID<P, 3>&>(c); }
}  // namespace vfc
#endif
