// Shared helpers for harness entry points.  Entry points call only the public
// API of the code under verification; inputs and outputs travel through flat
// arrays so that the same entry can be executed symbolically and natively.
#pragma once
#include <Eigen/Dense>
#include <array>
#include <cstdint>
#include "resim/transforms/se3.hh"
#include "resim/transforms/so3.hh"
#include "resim/transforms/frame.hh"
#include "resim/transforms/framed_vector.hh"
#include "resim/assert/assert.hh"
#include <type_traits>
#include "harness_min.hh"
namespace irv {
using resim::UUID;
using resim::transforms::SE3;
using resim::transforms::SO3;
using Frame3 = resim::transforms::Frame<3>;
using FV3 = resim::transforms::FramedVector<3>;
inline Eigen::Matrix3d rd_m3(const double *x) {
  Eigen::Matrix3d m;
  for (int i = 0; i < 9; ++i) m(i / 3, i % 3) = x[i];
  return m;
}
inline Eigen::Vector3d rd_v3(const double *x) { return Eigen::Vector3d(x[0], x[1], x[2]); }
template <int N>
inline Eigen::Matrix<double, N, 1> rd_v(const double *x) {
  Eigen::Matrix<double, N, 1> v;
  for (int i = 0; i < N; ++i) v(i) = x[i];
  return v;
}
inline Frame3 rd_frame(const uint8_t *b) {
  std::array<unsigned char, 16> a{};
  for (int i = 0; i < 16; ++i) a[i] = b[i];
  return Frame3(UUID(a));
}
inline SO3 rd_so3(const double *x) { return SO3(rd_m3(x)); }
inline SO3 rd_so3(const double *x, const uint8_t *b) { return SO3(rd_m3(x), rd_frame(b), rd_frame(b + 16)); }
inline SE3 rd_se3(const double *x) { return SE3(rd_so3(x), rd_v3(x + 9)); }
inline SE3 rd_se3(const double *x, const uint8_t *b) {
  return SE3(rd_so3(x), rd_v3(x + 9), rd_frame(b), rd_frame(b + 16));
}
template <class M>
inline void wr_m(const M &m, double *o) {
  int n = 0;
  for (int i = 0; i < m.rows(); ++i)
    for (int j = 0; j < m.cols(); ++j) o[n++] = m(i, j);
}
inline void wr_frame(const Frame3 &f, uint8_t *bo) {
  for (int i = 0; i < 16; ++i) bo[i] = f.id().id()[i];
}
// into, from
template <class G>
inline void wr_frames(const G &g, uint8_t *bo) {
  wr_frame(g.into(), bo);
  wr_frame(g.from(), bo + 16);
}
inline void wr(const SO3 &g, double *o) { wr_m(g.rotation_matrix(), o); }
inline void wr(const SE3 &g, double *o) {
  wr_m(g.rotation().rotation_matrix(), o);
  for (int i = 0; i < 3; ++i) o[9 + i] = g.translation()(i);
}
}  // namespace irv
