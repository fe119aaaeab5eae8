// Constructors used by callee contracts (symbolic runs only) to build a result object of the real type.
#pragma once
#include "irv.hh"
#include "jets.hh"
#ifdef IRV_SYMBOLIC
extern "C" {
void irv_mk_so3(irv::SO3 *o, const double *x) { new (o) irv::SO3(irv::rd_so3(x)); }
void irv_mk_se3(irv::SE3 *o, const double *x) { new (o) irv::SE3(irv::rd_se3(x)); }
void irv_mk_so3_f(irv::SO3 *o, const double *x, const irv::Frame3 *i, const irv::Frame3 *f) {
  new (o) irv::SO3(irv::rd_m3(x), *i, *f);
}
void irv_mk_se3_f(irv::SE3 *o, const double *x, const irv::Frame3 *i, const irv::Frame3 *f) {
  new (o) irv::SE3(irv::rd_so3(x), irv::rd_v3(x + 9), *i, *f);
}
void irv_rd_so3(const irv::SO3 *g, double *o) { irv::wr(*g, o); }
void irv_rd_se3(const irv::SE3 *g, double *o) { irv::wr(*g, o); }
void irv_mk_jl_so3(irv::TwoJetL<irv::SO3> *o, const irv::TwoJetL<irv::SO3> *p, const irv::TwoJetL<irv::SO3> *q, const double *x) {
  irv::SO3 g = p->frame_from_ref() * q->frame_from_ref();
  irv::SO3 h = g.is_framed() ? irv::SO3(irv::rd_m3(x), g.into(), g.from()) : irv::rd_so3(x);
  new (o) irv::TwoJetL<irv::SO3>(h, irv::rd_v<3>(x + 9), irv::rd_v<3>(x + 12));
}
void irv_mk_jl_se3(irv::TwoJetL<irv::SE3> *o, const irv::TwoJetL<irv::SE3> *p, const irv::TwoJetL<irv::SE3> *q, const double *x) {
  irv::SE3 g = p->frame_from_ref() * q->frame_from_ref();
  irv::SE3 h = g.is_framed() ? irv::SE3(irv::rd_so3(x), irv::rd_v3(x + 9), g.into(), g.from()) : irv::rd_se3(x);
  new (o) irv::TwoJetL<irv::SE3>(h, irv::rd_v<6>(x + 12), irv::rd_v<6>(x + 18));
}
void irv_mk_jl1_so3(irv::TwoJetL<irv::SO3> *o, const irv::TwoJetL<irv::SO3> *p, const double *x) {
  const irv::SO3 &g = p->frame_from_ref();
  new (o) irv::TwoJetL<irv::SO3>(irv::SO3(irv::rd_m3(x), g.into(), g.from()), irv::rd_v<3>(x + 9), irv::rd_v<3>(x + 12));
}
void irv_mk_jl1_se3(irv::TwoJetL<irv::SE3> *o, const irv::TwoJetL<irv::SE3> *p, const double *x) {
  const irv::SE3 &g = p->frame_from_ref();
  new (o) irv::TwoJetL<irv::SE3>(irv::SE3(irv::rd_so3(x), irv::rd_v3(x + 9), g.into(), g.from()), irv::rd_v<6>(x + 12),
                                 irv::rd_v<6>(x + 18));
}
void irv_rd_jl_so3(const irv::TwoJetL<irv::SO3> *j, double *o) {
  irv::wr(j->frame_from_ref(), o);
  irv::wr_m(j->d_frame_from_ref(), o + 9);
  irv::wr_m(j->d2_frame_from_ref(), o + 12);
}
void irv_rd_jl_se3(const irv::TwoJetL<irv::SE3> *j, double *o) {
  irv::wr(j->frame_from_ref(), o);
  irv::wr_m(j->d_frame_from_ref(), o + 12);
  irv::wr_m(j->d2_frame_from_ref(), o + 18);
}
}
#endif
