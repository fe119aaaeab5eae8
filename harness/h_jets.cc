#include "irv.hh"
#include "resim/curves/two_jet.hh"
#include "resim/curves/quintic_poly_coeffs.hh"
#include "resim/curves/t_curve_segment.hh"
#include "jets.hh"
#include "ghost.hh"
using namespace irv;
// products, inverse, conversion; frames of a: b, of b: b+32
H(h_jl_mul_so3) { jmul<TwoJetL<SO3>>(x, b, o, bo); }
H(h_jl_mul_se3) { jmul<TwoJetL<SE3>>(x, b, o, bo); }
H(h_jr_mul_so3) { jmul<TwoJetR<SO3>>(x, b, o, bo); }
H(h_jr_mul_se3) { jmul<TwoJetR<SE3>>(x, b, o, bo); }
H(h_jl_inv_so3) { jinv<TwoJetL<SO3>>(x, b, o, bo); }
H(h_jl_inv_se3) { jinv<TwoJetL<SE3>>(x, b, o, bo); }
H(h_jr_inv_so3) { jinv<TwoJetR<SO3>>(x, b, o, bo); }
H(h_jr_inv_se3) { jinv<TwoJetR<SE3>>(x, b, o, bo); }
H(h_jl_conv_so3) { jwr(rd_jet<TwoJetL<SO3>>(x, b).right_two_jet(), o, bo); }
H(h_jl_conv_se3) { jwr(rd_jet<TwoJetL<SE3>>(x, b).right_two_jet(), o, bo); }
H(h_jr_conv_so3) { jwr(rd_jet<TwoJetR<SO3>>(x, b).left_two_jet(), o, bo); }
H(h_jr_conv_se3) { jwr(rd_jet<TwoJetR<SE3>>(x, b).left_two_jet(), o, bo); }
template <class J>
void jid(const uint8_t *b, double *o, uint8_t *bo) {
  constexpr int n = JN<J>;
  jwr(J::identity(), o, bo);
  const Frame3 i = rd_frame(b), f = rd_frame(b + 16);
  jwr(J::identity(i, f), o + n, bo + 32);
  jwr(J(), o + 2 * n, bo + 64);
}
H(h_jl_id_so3) { jid<TwoJetL<SO3>>(b, o, bo); }
H(h_jl_id_se3) { jid<TwoJetL<SE3>>(b, o, bo); }
H(h_jr_id_so3) { jid<TwoJetR<SO3>>(b, o, bo); }
H(h_jr_id_se3) { jid<TwoJetR<SE3>>(b, o, bo); }
// setters: k[0] bit 0/1/2: replace value / first / second derivative of a by b's
template <class J>
void jset(const double *x, const int64_t *k, const uint8_t *b, double *o, uint8_t *bo) {
  J p = rd_jet<J>(x, b);
  const J q = rd_jet<J>(x + JN<J>, b + 32);
  if (k[0] & 1) set0(p, val(q));
  if (k[0] & 2) set1(p, d1(q));
  if (k[0] & 4) set2(p, d2(q));
  jwr(p, o, bo);
}
H(h_jl_set_so3) { jset<TwoJetL<SO3>>(x, k, b, o, bo); }
H(h_jl_set_se3) { jset<TwoJetL<SE3>>(x, k, b, o, bo); }
H(h_jr_set_so3) { jset<TwoJetR<SO3>>(x, k, b, o, bo); }
H(h_jr_set_se3) { jset<TwoJetR<SE3>>(x, k, b, o, bo); }
template <class J>
void japprox(const double *x, const uint8_t *b, int64_t *io) {
  io[0] = rd_jet<J>(x, b).is_approx(rd_jet<J>(x + JN<J>, b + 32));
}
H(h_jl_approx_so3) { japprox<TwoJetL<SO3>>(x, b, io); }
H(h_jl_approx_se3) { japprox<TwoJetL<SE3>>(x, b, io); }
H(h_jr_approx_so3) { japprox<TwoJetR<SO3>>(x, b, io); }
H(h_jr_approx_se3) { japprox<TwoJetR<SE3>>(x, b, io); }

// quintic coefficients
H(h_quintic) {
  using Q = resim::curves::QuinticPolyCoeffs;
  resim::curves::TwoJetPolyCoeffs c{};
  switch (k[0]) {
    case 0: c = Q::dest_from_orig(x[0]); break;
    case 1: c = Q::d_orig(x[0]); break;
    case 2: c = Q::d_dest(x[0]); break;
    case 3: c = Q::d2_orig(x[0]); break;
    default: c = Q::d2_dest(x[0]); break;
  }
  o[0] = c.a;
  o[1] = c.da;
  o[2] = c.d2a;
}
// segments: orig jet, dest jet, time
template <class G>
void seg(const double *x, const uint8_t *b, double *o, int64_t *io, uint8_t *bo) {
  using J = TwoJetL<G>;
  constexpr int n = JN<J>;
  const resim::curves::TCurveSegment<G> s(rd_jet<J>(x, b), rd_jet<J>(x + n, b + 32));
  jwr(s.point_at(x[2 * n]), o, bo);
  jwr(s.orig(), o + n, bo + 32);
  jwr(s.dest(), o + 2 * n, bo + 64);
  wr_frame(s.point_frame(), bo + 96);
  wr_frame(s.reference_frame(), bo + 112);
  io[0] = s.is_framed();
}
H(h_seg_so3) { seg<SO3>(x, b, o, io, bo); }
H(h_seg_se3) { seg<SE3>(x, b, o, io, bo); }
