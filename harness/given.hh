// Elements of a curve of arbitrary length, built on demand (symbolic runs only)
#pragma once
#include "jets.hh"
#include "resim/curves/t_curve.hh"
#ifdef IRV_SYMBOLIC
namespace irv {
template <class G> using TSeg = typename resim::curves::TCurve<G>::Segment;
template <class G> using TCtl = typename resim::curves::TCurve<G>::Control;
template <class G>
void mk_seg(void *o, double t0, const double *x0, double t1, const double *x1, const uint8_t *b) {
  const auto end = [&](const double *y) {
    const auto j = rd_jet<TwoJetL<G>>(y, b);
    const double dt = t1 - t0;
    return TwoJetL<G>(j.frame_from_ref(), j.d_frame_from_ref() * dt, j.d2_frame_from_ref() * dt * dt);
  };
  new (o) TSeg<G>{t0, t1, resim::curves::TCurveSegment<G>(end(x0), end(x1))};
}
}  // namespace irv
extern "C" {
#define GIVEN(g, G) \
  const void *irv_tc_vec_##g(const resim::curves::TCurve<G> *c, int64_t w) { return w ? (const void *)&c->segments() : (const void *)&c->control_pts(); } \
  int64_t irv_tc_size_##g(int64_t w) { return w ? sizeof(irv::TSeg<G>) : sizeof(irv::TCtl<G>); } \
  void irv_mk_ctl_##g(void *o, double t, const double *x, const uint8_t *b) { new (o) irv::TCtl<G>{t, irv::rd_jet<irv::TwoJetL<G>>(x, b)}; } \
  void irv_mk_seg_##g(void *o, double t0, const double *x0, double t1, const double *x1, const uint8_t *b) { irv::mk_seg<G>(o, t0, x0, t1, x1, b); }
GIVEN(so3, irv::SO3)
GIVEN(se3, irv::SE3)
}
#endif
