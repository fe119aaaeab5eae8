// Sample statistics and multivariate Gaussians.
#include <Eigen/Dense>
#include <cstdint>
#include "harness_min.hh"
#include "resim/assert/assert.hh"
#include "resim/math/multivariate_gaussian.hh"
#include "resim/math/sample_statistics.hh"
static Eigen::MatrixXd rd(const double *x, int n, int m) {
  Eigen::MatrixXd a(n, m);
  for (int i = 0; i < n; ++i)
    for (int j = 0; j < m; ++j) a(i, j) = x[i * m + j];
  return a;
}
template <class M>
static int wr(const M &a, double *o) {
  int q = 0;
  for (int i = 0; i < a.rows(); ++i)
    for (int j = 0; j < a.cols(); ++j) o[q++] = a(i, j);
  return q;
}
// k[0] samples (rows) of dimension k[1]
H(h_mean) {
  const Eigen::MatrixXd s = rd(x, k[0], k[1]);
  const Eigen::VectorXd m = resim::math::mean(s);
  io[0] = m.rows();
  io[1] = m.cols();
  wr(m, o);
}
H(h_cov) {
  const Eigen::MatrixXd s = rd(x, k[0], k[1]);
  const Eigen::MatrixXd c = resim::math::covariance(s);
  io[0] = c.rows();
  io[1] = c.cols();
  wr(c, o);
}
using resim::math::Gaussian;
// k[0] size of the mean, k[1] x k[2] covariance, k[3] samples drawn at once, k[4] single samples drawn afterwards
H(h_gauss) {
  const Eigen::VectorXd mu = rd(x, k[0], 1);
  const Eigen::MatrixXd cov = rd(x + k[0], k[1], k[2]);
  Gaussian g{mu, cov};
  io[0] = g.dimensionality();
  io[1] = g.mu().rows();
  io[2] = g.cov().rows();
  io[3] = g.cov().cols();
  io[4] = g.eigenvalues().rows();
  io[5] = g.eigenvectors().rows();
  io[6] = g.eigenvectors().cols();
  int q = wr(g.mu(), o);
  q += wr(g.cov(), o + q);
  q += wr(g.eigenvalues(), o + q);
  q += wr(g.eigenvectors(), o + q);
  const Eigen::MatrixXd sq = g.sqrt_eigenvalues_mat();
  q += wr(sq, o + q);
  io[7] = q;
  io[8] = io[9] = 0;
  if (k[3] > 0) {
    const Eigen::MatrixXd s = g.samples(k[3]);
    io[8] = s.rows();
    io[9] = s.cols();
    q += wr(s, o + q);
  }
  io[10] = 1;
  for (int i = 0; i < k[4]; ++i) {
    const Gaussian::SampleVec s = g.sample();
    if (s.cols() != k[0]) io[10] = 0;
    q += wr(s, o + q);
  }
}
