#include "irv.hh"
using namespace irv;
// k[0] selects the operation; frames in b: a.into a.from b.into b.from (16 bytes each)
template <class G> G rd_g(const double *x, const uint8_t *b);
template <> SO3 rd_g<SO3>(const double *x, const uint8_t *b) { return rd_so3(x, b); }
template <> SE3 rd_g<SE3>(const double *x, const uint8_t *b) { return rd_se3(x, b); }
template <class G> constexpr int N = std::is_same_v<G, SO3> ? 9 : 12;
template <class G>
void mul(const double *x, const uint8_t *b, double *o, int64_t *io, uint8_t *bo) {
  const G p = rd_g<G>(x, b), q = rd_g<G>(x + N<G>, b + 32);
  const G r = p * q;
  wr(r, o);
  wr_frames(r, bo);
  io[0] = r.is_framed();
}
H(h_so3_fmul) { mul<SO3>(x, b, o, io, bo); }
H(h_se3_fmul) { mul<SE3>(x, b, o, io, bo); }
// inverse, set_unframed, verify_*; candidate frames b+32, b+48
template <class G>
void misc(const double *x, const uint8_t *b, double *o, int64_t *io, uint8_t *bo) {
  G p = rd_g<G>(x, b);
  const G i = p.inverse();
  wr_frames(p, bo);
  wr_frames(i, bo + 32);
  io[0] = p.is_framed();
  io[1] = p.verify_into(rd_frame(b + 32));
  io[2] = p.verify_from(rd_frame(b + 48));
  io[3] = p.verify_frames(rd_frame(b + 32), rd_frame(b + 48));
  p.set_unframed();
  wr_frames(p, bo + 64);
  io[4] = p.is_framed();
  wr(p, o);
}
H(h_so3_fmisc) { misc<SO3>(x, b, o, io, bo); }
H(h_se3_fmisc) { misc<SE3>(x, b, o, io, bo); }
template <class G>
void setf(const double *x, const uint8_t *b, double *o, int64_t *io, uint8_t *bo) {
  G p = rd_g<G>(x, b);
  io[0] = 0;
  try {
    p.set_frames(rd_frame(b + 32), rd_frame(b + 48));
  } catch (const resim::AssertException &) {
    io[0] = 1;
  }
  wr_frames(p, bo);
  wr(p, o);
}
H(h_so3_fset) { setf<SO3>(x, b, o, io, bo); }
H(h_se3_fset) { setf<SE3>(x, b, o, io, bo); }
// constructors with frames: k[0]
H(h_so3_fctor) {
  const Frame3 i = rd_frame(b), f = rd_frame(b + 16);
  SO3 g;
  switch (k[0]) {
    case 0: g = SO3(rd_m3(x), i, f); break;
    case 1: g = SO3(Eigen::Quaterniond(x[0], x[1], x[2], x[3]), i, f); break;
    case 2: g = SO3(Eigen::AngleAxisd(x[0], rd_v3(x + 1)), i, f); break;
    case 3: g = SO3(x[0], rd_v3(x + 1), i, f); break;
    case 4: g = SO3::identity(i, f); break;
    case 5: g = SO3::exp(rd_v3(x), i, f); break;
    case 6: g = SO3::exp(rd_v3(x), rd_frame(b), rd_frame(b + 16)); break;
    default: g = SO3::identity(rd_frame(b), rd_frame(b + 16)); break;
  }
  wr_frames(g, bo);
  io[0] = g.is_framed();
}
H(h_se3_fctor) {
  const Frame3 i = rd_frame(b), f = rd_frame(b + 16);
  SE3 g;
  SO3 r = rd_so3(x);
  r.set_frames(rd_frame(b + 32), rd_frame(b + 48));
  const SE3::TangentVector v = rd_v<6>(x);
  switch (k[0]) {
    case 0: g = SE3(r, i, f); break;
    case 1: g = SE3(rd_v3(x + 9), i, f); break;
    case 2: g = SE3(r, rd_v3(x + 9), i, f); break;
    case 3: g = SE3::identity(i, f); break;
    case 4: g = SE3::exp(v, i, f); break;
    case 5: g = SE3::exp(v, rd_frame(b), rd_frame(b + 16)); break;
    default: g = SE3::identity(rd_frame(b), rd_frame(b + 16)); break;
  }
  wr_frames(g, bo);
  io[0] = g.is_framed();
  io[1] = g.rotation().is_framed();
}
H(h_se3_unctor) {
  SO3 r = rd_so3(x);
  r.set_frames(rd_frame(b + 32), rd_frame(b + 48));
  SE3 g;
  switch (k[0]) {
    case 0: g = SE3(r); break;
    case 1: g = SE3(rd_v3(x + 9)); break;
    case 2: g = SE3(r, rd_v3(x + 9)); break;
    case 3: g = SE3::identity(); break;
    default: break;
  }
  wr_frames(g, bo);
  io[0] = g.is_framed();
  io[1] = g.rotation().is_framed();
}
// rotate a framed vector: frame b+32
template <class G>
void frot(const double *x, const uint8_t *b, double *o, uint8_t *bo) {
  const G p = rd_g<G>(x, b);
  const FV3 r = p.rotate(FV3(rd_v3(x + N<G>), rd_frame(b + 32)));
  wr_m(r.vector(), o);
  wr_frame(r.frame(), bo);
}
H(h_so3_frot) { frot<SO3>(x, b, o, bo); }
H(h_se3_frot) { frot<SE3>(x, b, o, bo); }
// interp(fraction), interp(fraction, new_from b+32)
template <class G>
void finterp(const double *x, const int64_t *k, const uint8_t *b, double *o, uint8_t *bo) {
  const G p = rd_g<G>(x, b);
  const G r = k[0] ? p.interp(x[N<G>], rd_frame(b + 32)) : p.interp(x[N<G>]);
  wr(r, o);
  wr_frames(r, bo);
}
H(h_so3_finterp) { finterp<SO3>(x, k, b, o, bo); }
H(h_se3_finterp) { finterp<SE3>(x, k, b, o, bo); }
// framed vectors
H(h_fv) {
  FV3 p(rd_v3(x), rd_frame(b)), q(rd_v3(x + 3), rd_frame(b + 16));
  const FV3 m = p * x[6], n = x[6] * p;
  wr_m(m.vector(), o);
  wr_frame(m.frame(), bo);
  wr_m(n.vector(), o + 3);
  wr_frame(n.frame(), bo + 16);
  io[0] = p == q;
  wr_m(Eigen::Vector3d(p + Eigen::Vector3d(rd_v3(x + 3))), o + 6);
  p.set_frame(rd_frame(b + 16));
  wr_frame(p.frame(), bo + 32);
  wr_m(p.vector(), o + 9);
}
H(h_fv_add) {
  const FV3 p(rd_v3(x), rd_frame(b)), q(rd_v3(x + 3), rd_frame(b + 16));
  const FV3 r = p + q;
  wr_m(r.vector(), o);
  wr_frame(r.frame(), bo);
}
// new frames: vectors built without one, and frames asked for
H(h_new_frames) {
  const FV3 p(rd_v3(x)), q(rd_v3(x + 3));
  const auto f = resim::transforms::Frame<3>::new_frame(), g = resim::transforms::Frame<3>::new_frame();
  const resim::transforms::Frame<3> *fs[] = {&p.frame(), &q.frame(), &f, &g};
  io[0] = 0;
  for (int i = 0; i < 4; ++i) {
    io[0] += fs[i]->is_null();
    for (int j = 0; j < i; ++j) io[0] += *fs[i] == *fs[j];
  }
  wr_m(p.vector(), o);
  wr_m(q.vector(), o + 3);
  wr_m((p + p).vector(), o + 6);
  const FV3 r;
  io[1] = r.frame().is_null();
  io[2] = 0;
  try {
    const FV3 s = p + q;
  } catch (const resim::AssertException &) {
    io[2] = 1;
  }
}
H(h_fv_approx) {
  const FV3 p(rd_v3(x), rd_frame(b)), q(rd_v3(x + 3), rd_frame(b + 16));
  io[0] = p.isApprox(q);
}
// distances
H(h_dist) { o[0] = resim::transforms::se3_distance(rd_se3(x, b), rd_se3(x + 12, b + 32)); }
H(h_inv_dist) { o[0] = resim::transforms::se3_inverse_distance(rd_se3(x, b), rd_se3(x + 12, b + 32)); }
H(h_arc) { o[0] = rd_se3(x).arc_length(); }
H(h_approx) {
  io[0] = rd_so3(x, b).is_approx(rd_so3(x + 12, b + 32));
  io[1] = rd_so3(x, b).is_approx_transform(rd_so3(x + 12, b + 32));
  io[2] = rd_se3(x, b).is_approx(rd_se3(x + 12, b + 32));
  io[3] = rd_se3(x, b).is_approx_transform(rd_se3(x + 12, b + 32));
}
