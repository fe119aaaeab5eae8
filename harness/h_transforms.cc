#include "irv.hh"
using namespace irv;
// Every entry h_name also exists as h_name_f, with framed operands: the first from frame b[16..31] into b[0..15], the second
// from b[32..47] into b[16..31]; and as h_name_m, where only the first is framed.
#define ARGS const double *x, const int64_t *k, const uint8_t *b, double *o, int64_t *io, uint8_t *bo
#define HF(name) \
  template <int F> static void t_##name(ARGS); \
  H(h_##name) { t_##name<0>(x, k, b, o, io, bo); } \
  H(h_##name##_f) { t_##name<1>(x, k, b, o, io, bo); } \
  H(h_##name##_m) { t_##name<2>(x, k, b, o, io, bo); } \
  template <int F> static void t_##name(ARGS)
#define SO3_1(x) (F ? rd_so3(x, b) : rd_so3(x))
#define SO3_2(x) (F == 1 ? rd_so3(x, b + 16) : rd_so3(x))
#define SE3_1(x) (F ? rd_se3(x, b) : rd_se3(x))
#define SE3_2(x) (F == 1 ? rd_se3(x, b + 16) : rd_se3(x))
#define INTO rd_frame(b)
#define FROM rd_frame(b + 16)
// ---- SO3
HF(so3_mul) { wr(SO3_1(x) * SO3_2(x + 9), o); }
HF(so3_inv) { wr(SO3_1(x).inverse(), o); }
HF(so3_identity) { wr((F ? SO3::identity(INTO, FROM) : SO3::identity()), o); }
HF(so3_act) {
  const SO3 g = SO3_1(x);
  const Eigen::Vector3d v = rd_v3(x + 9);
  wr_m(Eigen::Vector3d(g * v), o);
  wr_m(Eigen::Vector3d(g.rotate(v)), o + 3);
}
HF(so3_exp) { wr((F ? SO3::exp(rd_v3(x), INTO, FROM) : SO3::exp(rd_v3(x))), o); }
HF(so3_log) { wr_m(SO3_1(x).log(), o); }
// ---- SE3
HF(se3_mul) { wr(SE3_1(x) * SE3_2(x + 12), o); }
HF(se3_inv) { wr(SE3_1(x).inverse(), o); }
HF(se3_identity) { wr((F ? SE3::identity(INTO, FROM) : SE3::identity()), o); }
HF(se3_act) {
  const SE3 g = SE3_1(x);
  const Eigen::Vector3d v = rd_v3(x + 12);
  wr_m(Eigen::Vector3d(g * v), o);
  wr_m(Eigen::Vector3d(g.rotate(v)), o + 3);
}
HF(se3_exp) { wr((F ? SE3::exp(rd_v<6>(x), INTO, FROM) : SE3::exp(rd_v<6>(x))), o); }
HF(se3_log) { wr_m(SE3_1(x).log(), o); }
HF(so3_inv_mul) {
  const SO3 a = SO3_1(x), c = SO3_2(x + 9);
  wr((a * c).inverse(), o);
  wr(c.inverse() * a.inverse(), o + 9);
}
HF(so3_from_quat) {
  const Eigen::Quaterniond p(x[0], x[1], x[2], x[3]);
  const SO3 g = F ? SO3(p, INTO, FROM) : SO3(p);
  wr(g, o);
  const Eigen::Quaterniond q = g.quaternion();
  o[9] = q.w(); o[10] = q.x(); o[11] = q.y(); o[12] = q.z();
}
HF(so3_from_aa) {
  const Eigen::AngleAxisd a(x[0], rd_v3(x + 1));
  wr(F ? SO3(a, INTO, FROM) : SO3(a), o);
  wr(F ? SO3(x[0], rd_v3(x + 1), INTO, FROM) : SO3(x[0], rd_v3(x + 1)), o + 9);
}
HF(se3_inv_mul) {
  const SE3 a = SE3_1(x), c = SE3_2(x + 12);
  wr((a * c).inverse(), o);
  wr(c.inverse() * a.inverse(), o + 12);
}
HF(se3_ctors) {
  wr(F == 1 ? SE3(rd_so3(x), INTO, FROM) : SE3(SO3_1(x)), o);
  wr(F ? SE3(rd_v3(x + 9), INTO, FROM) : SE3(rd_v3(x + 9)), o + 12);
  wr(F == 1 ? SE3(SO3_1(x), rd_v3(x + 9), INTO, FROM) : SE3(SO3_1(x), rd_v3(x + 9)), o + 24);
}
#include "resim/transforms/liegroup_exp_diff.hh"
HF(exp_coeffs) {
  const auto c = resim::transforms::derivative_of_exp_so3(x[0]);
  o[0] = c.a; o[1] = c.b; o[2] = c.c;
}
#include "resim/transforms/cross_matrix.hh"
HF(so3_adj) {  // R(9) v(3) w(3)
  const SO3 g = SO3_1(x);
  const Eigen::Vector3d v = rd_v3(x + 9), w = rd_v3(x + 12);
  wr_m(g.adjoint(), o);
  wr_m(Eigen::Vector3d(g.adjoint_times(v)), o + 9);
  wr_m(SO3::adjoint(v), o + 12);
  wr_m(Eigen::Vector3d(SO3::adjoint_times(v, w)), o + 21);
  wr_m(resim::transforms::cross_matrix(v), o + 24);
}
HF(se3_adj) {  // pose(12) v(6) w(6)
  const SE3 g = SE3_1(x);
  const SE3::TangentVector v = rd_v<6>(x + 12), w = rd_v<6>(x + 18);
  wr_m(g.adjoint(), o);
  wr_m(SE3::TangentVector(g.adjoint_times(v)), o + 36);
  wr_m(SE3::adjoint(v), o + 42);
  wr_m(SE3::TangentVector(SE3::adjoint_times(v, w)), o + 78);
}
HF(so3_expdiff) { wr_m(SO3::exp_diff(rd_v3(x)), o); }
HF(se3_parts) {
  SE3::TangentVector v = rd_v<6>(x);
  const SE3::TangentVector c = v;
  wr_m(Eigen::Vector3d(SE3::tangent_vector_rotation_part(c)), o);
  wr_m(Eigen::Vector3d(SE3::tangent_vector_translation_part(c)), o + 3);
  wr_m(SE3::TangentVector(SE3::tangent_vector_from_parts(rd_v3(x), rd_v3(x + 3))), o + 6);
  SE3::tangent_vector_rotation_part(v) = rd_v3(x + 6);
  SE3::tangent_vector_translation_part(v) = rd_v3(x + 9);
  wr_m(v, o + 12);
}
