#include "irv.hh"
#include "jets.hh"
#include "ghost.hh"
#include "given.hh"
#include "resim/curves/t_curve.hh"
#include "resim/curves/d_curve.hh"
using namespace irv;
using resim::curves::DCurve;
using resim::curves::TCurve;
template <class G> using TC = typename TCurve<G>::Control;
// control point i: time, jet; frames b + 32 i
template <class G>
TC<G> rd_ctl(const double *x, const uint8_t *b, int i) {
  constexpr int n = JN<TwoJetL<G>> + 1;
  return TC<G>{x[i * n], rd_jet<TwoJetL<G>>(x + i * n + 1, b + 32 * i)};
}
// k[0] points; appended one at a time, io[i] = rejected
template <class G>
void tbuild(const double *x, const int64_t *k, const uint8_t *b, int64_t *io, TCurve<G> &c) {
  for (int i = 0; i < k[0]; ++i) {
    io[i] = 0;
    try {
      c.append(rd_ctl<G>(x, b, i));
    } catch (const resim::AssertException &) {
      io[i] = 1;
    }
  }
}
// observable state: io[8]=points io[9]=segments; o: per point time+jet; then per segment times, orig, dest (at 4 points)
template <class G>
void tobs(const TCurve<G> &c, double *o, int64_t *io, uint8_t *bo) {
  constexpr int j = JN<TwoJetL<G>>, n = j + 1;
  io[8] = c.control_pts().size();
  io[9] = c.segments().size();
  uint8_t dummy[32];
  for (int i = 0; i < io[8]; ++i) {
    o[i * n] = c.control_pts()[i].time;
    jwr(c.control_pts()[i].point, o + i * n + 1, bo + 32 * i);
  }
  double *s = o + 4 * n;
  for (int i = 0; i < io[9]; ++i) {
    const auto &g = c.segments()[i];
    s[0] = g.orig_time;
    s[1] = g.dest_time;
    jwr(g.curve.orig(), s + 2, dummy);
    jwr(g.curve.dest(), s + 2 + j, dummy);
    s += 2 + 2 * j;
  }
}
template <class G>
void tcurve(const double *x, const int64_t *k, const uint8_t *b, double *o, int64_t *io, uint8_t *bo) {
  TCurve<G> c;
  tbuild<G>(x, k, b, io, c);
  tobs<G>(c, o, io, bo);
}
H(h_tcurve_so3) { tcurve<SO3>(x, k, b, o, io, bo); }
H(h_tcurve_se3) { tcurve<SE3>(x, k, b, o, io, bo); }
// bulk construction: k[1] = 0 vector constructor, 1 initializer-list constructor, 2 initializer-list append (3 points)
template <class G>
void tbulk(const double *x, const int64_t *k, const uint8_t *b, double *o, int64_t *io, uint8_t *bo) {
  if (k[1] == 0) {
    std::vector<TC<G>> v;
    for (int i = 0; i < k[0]; ++i) v.push_back(rd_ctl<G>(x, b, i));
    const TCurve<G> c(v);
    tobs<G>(c, o, io, bo);
  } else if (k[1] == 1) {
    const TCurve<G> c{rd_ctl<G>(x, b, 0), rd_ctl<G>(x, b, 1), rd_ctl<G>(x, b, 2)};
    tobs<G>(c, o, io, bo);
  } else {
    TCurve<G> c;
    c.append({rd_ctl<G>(x, b, 0), rd_ctl<G>(x, b, 1), rd_ctl<G>(x, b, 2)});
    tobs<G>(c, o, io, bo);
  }
}
H(h_tbulk_so3) { tbulk<SO3>(x, k, b, o, io, bo); }
H(h_tbulk_se3) { tbulk<SE3>(x, k, b, o, io, bo); }
template <class G>
void tinfo(const double *x, const int64_t *k, const uint8_t *b, double *o, int64_t *io, uint8_t *bo) {
  TCurve<G> c;
  tbuild<G>(x, k, b, io, c);
  io[8] = io[9] = 0;
  try {
    o[0] = c.start_time();
  } catch (const resim::AssertException &) {
    io[8] |= 1;
  }
  try {
    o[1] = c.end_time();
  } catch (const resim::AssertException &) {
    io[8] |= 2;
  }
  try {
    wr_frame(c.point_frame(), bo);
  } catch (const resim::AssertException &) {
    io[8] |= 4;
  }
  try {
    wr_frame(c.reference_frame(), bo + 16);
  } catch (const resim::AssertException &) {
    io[8] |= 8;
  }
  try {
    io[9] = c.is_framed();
  } catch (const resim::AssertException &) {
    io[8] |= 16;
  }
}
H(h_tinfo_so3) { tinfo<SO3>(x, k, b, o, io, bo); }
H(h_tinfo_se3) { tinfo<SE3>(x, k, b, o, io, bo); }
// query at x[k[0]*n]
template <class G>
void tat(const double *x, const int64_t *k, const uint8_t *b, double *o, int64_t *io, uint8_t *bo) {
  TCurve<G> c;
  for (int i = 0; i < k[0]; ++i) c.append(rd_ctl<G>(x, b, i));
  io[0] = 0;
  try {
    jwr(c.point_at(x[k[0] * (JN<TwoJetL<G>> + 1)]), o, bo);
  } catch (const resim::AssertException &) {
    io[0] = 1;
  }
}
H(h_tat_so3) { tat<SO3>(x, k, b, o, io, bo); }
H(h_tat_se3) { tat<SE3>(x, k, b, o, io, bo); }

// ---- curves of arbitrary length: symbolically the curve is one whose vectors the contract supplies (elements are built
// by the functions below when they are first looked at), natively it is built from k[0] control points
#ifdef IRV_SYMBOLIC
template <class G> TCurve<G> *tgiven;
extern "C" {
#define NEW_TC(g, G) const void *irv_tc_new_##g() { return tgiven<G> = new TCurve<G>; }
NEW_TC(so3, SO3)
NEW_TC(se3, SE3)
}
#endif
template <class G>
TCurve<G> &tany(const double *x, const int64_t *k, const uint8_t *b, TCurve<G> &c) {
#ifdef IRV_SYMBOLIC
  return *tgiven<G>;
#else
  for (int i = 0; i < k[0]; ++i) c.append(rd_ctl<G>(x, b, i));
  return c;
#endif
}
// query at x[0]; points from x[1]
template <class G>
void tany_at(const double *x, const int64_t *k, const uint8_t *b, double *o, int64_t *io, uint8_t *bo) {
  TCurve<G> d;
  const TCurve<G> &c = tany<G>(x + 1, k, b, d);
  io[0] = 0;
  try {
    jwr(c.point_at(x[0]), o, bo);
  } catch (const resim::AssertException &) {
    io[0] = 1;
  }
  o[JN<TwoJetL<G>>] = c.start_time();
  o[JN<TwoJetL<G>> + 1] = c.end_time();
  io[1] = c.is_framed();
  wr_frame(c.point_frame(), bo + 32);
  wr_frame(c.reference_frame(), bo + 48);
}
H(h_tany_at_so3) { tany_at<SO3>(x, k, b, o, io, bo); }
H(h_tany_at_se3) { tany_at<SE3>(x, k, b, o, io, bo); }
// append the point at x (frames at b); then sizes, the last two control points, the last segment, and control point k[1]
// and segment k[2] of the curve before; the curve's own points from x + n, frames from b + 32
template <class G>
void tany_append(const double *x, const int64_t *k, const uint8_t *b, double *o, int64_t *io, uint8_t *bo) {
  constexpr int n = JN<TwoJetL<G>> + 1;
  TCurve<G> d;
  TCurve<G> &c = tany<G>(x + n, k, b + 32, d);
  io[0] = 0;
  try {
    c.append(rd_ctl<G>(x, b, 0));
  } catch (const resim::AssertException &) {
    io[0] = 1;
  }
  const auto ctl = [&](int64_t i, double *q, uint8_t *bq) {
    q[0] = c.control_pts()[i].time;
    jwr(c.control_pts()[i].point, q + 1, bq);
  };
  const auto seg = [&](int64_t i, double *q) {
    uint8_t dummy[32];
    const auto &g = c.segments()[i];
    q[0] = g.orig_time;
    q[1] = g.dest_time;
    jwr(g.curve.orig(), q + 2, dummy);
    jwr(g.curve.dest(), q + 1 + n, dummy);
  };
  io[1] = c.control_pts().size();
  io[2] = c.segments().size();
  ctl(k[1], o, bo);
  seg(k[2], o + n);
  ctl(io[1] - 1, o + 3 * n, bo + 32);
  seg(io[2] - 1, o + 4 * n);
}
H(h_tany_append_so3) { tany_append<SO3>(x, k, b, o, io, bo); }
H(h_tany_append_se3) { tany_append<SE3>(x, k, b, o, io, bo); }

// ---- DCurve<SE3>: poses ref_from_control; frames b + 32 i (into = ref, from = point)
void dbuild(const double *x, const int64_t *k, const uint8_t *b, int64_t *io, DCurve<SE3> &c) {
  for (int i = 0; i < k[0]; ++i) {
    io[i] = 0;
    try {
      c.append(rd_se3(x + 12 * i, b + 32 * i));
    } catch (const resim::AssertException &) {
      io[i] = 1;
    }
  }
}
// io[8]=points io[9]=segments; o: per point: arc length, pose; then (at 4*13) per segment: arc lengths, orig, dest, orig_from_dest
void dobs(const DCurve<SE3> &c, double *o, int64_t *io, uint8_t *bo) {
  io[8] = c.control_pts().size();
  io[9] = c.segments().size();
  for (int i = 0; i < io[8]; ++i) {
    o[13 * i] = c.control_pts()[i].arc_length;
    wr(*c.control_pts()[i].ref_from_control, o + 13 * i + 1);
    wr_frames(*c.control_pts()[i].ref_from_control, bo + 32 * i);
  }
  double *s = o + 52;
  for (int i = 0; i < io[9]; ++i, s += 38) {
    const auto &g = c.segments()[i];
    s[0] = g.orig_arc_length;
    s[1] = g.dest_arc_length;
    wr(*g.ref_from_orig, s + 2);
    wr(*g.ref_from_dest, s + 14);
    wr(g.orig_from_dest, s + 26);
  }
}
H(h_dcurve) {
  DCurve<SE3> c;
  dbuild(x, k, b, io, c);
  dobs(c, o, io, bo);
  o[170] = c.curve_length();
}
H(h_dbulk) {
  if (k[1] == 0) {
    std::vector<SE3> v;
    for (int i = 0; i < k[0]; ++i) v.push_back(rd_se3(x + 12 * i, b + 32 * i));
    const DCurve<SE3> c(v);
    dobs(c, o, io, bo);
  } else if (k[1] == 1) {
    const DCurve<SE3> c{rd_se3(x, b), rd_se3(x + 12, b + 32), rd_se3(x + 24, b + 64)};
    dobs(c, o, io, bo);
  } else {
    DCurve<SE3> c;
    c.append({rd_se3(x, b), rd_se3(x + 12, b + 32), rd_se3(x + 24, b + 64)});
    dobs(c, o, io, bo);
  }
}
H(h_dinfo) {
  DCurve<SE3> c;
  dbuild(x, k, b, io, c);
  io[8] = io[9] = 0;
  o[0] = c.curve_length();
  try {
    wr_frame(c.point_frame(), bo);
  } catch (const resim::AssertException &) {
    io[8] |= 1;
  }
  try {
    wr_frame(c.reference_frame(), bo + 16);
  } catch (const resim::AssertException &) {
    io[8] |= 2;
  }
  try {
    io[9] = c.is_framed();
  } catch (const resim::AssertException &) {
    io[8] |= 4;
  }
}
// query at x[12*k[0]] (k[1]=0), at the arc length of control point k[2] (k[1]=1), at the curve length (k[1]=2);
// io[0]=rejected; o[12..] arc lengths of the control points
H(h_dat) {
  DCurve<SE3> c;
  for (int i = 0; i < k[0]; ++i) c.append(rd_se3(x + 12 * i, b + 32 * i));
  for (int i = 0; i < k[0]; ++i) o[12 + i] = c.control_pts()[i].arc_length;
  const double s = k[1] == 0 ? x[12 * k[0]] : k[1] == 1 ? c.control_pts()[k[2]].arc_length : c.curve_length();
  io[0] = 0;
  try {
    const SE3 p = c.point_at(s);
    wr(p, o);
    wr_frames(p, bo);
  } catch (const resim::AssertException &) {
    io[0] = 1;
  }
}
// ---- arc-length curves of arbitrary length
#ifdef IRV_SYMBOLIC
DCurve<SE3> *dgiven;
extern "C" {
const void *irv_dc_new() { return dgiven = new DCurve<SE3>; }
const void *irv_dc_vec(int64_t w) { return w ? (const void *)&dgiven->segments() : (const void *)&dgiven->control_pts(); }
int64_t irv_dc_size(int64_t w) { return w ? sizeof(DCurve<SE3>::Segment) : sizeof(DCurve<SE3>::Control); }
void irv_mk_dctl(void *o, double s, const double *x, const uint8_t *b) {
  new (o) DCurve<SE3>::Control{s, std::make_shared<SE3>(rd_se3(x, b))};
}
void irv_mk_dseg(void *o, double s0, const double *x0, double s1, const double *x1, const uint8_t *b) {
  const auto p = std::make_shared<SE3>(rd_se3(x0, b)), q = std::make_shared<SE3>(rd_se3(x1, b));
  new (o) DCurve<SE3>::Segment{s0, s1, p, q, p->inverse() * *q};
}
}
#endif
DCurve<SE3> &dany(const double *x, const int64_t *k, const uint8_t *b, DCurve<SE3> &c) {
#ifdef IRV_SYMBOLIC
  return *dgiven;
#else
  for (int i = 0; i < k[0]; ++i) c.append(rd_se3(x + 12 * i, b + 32 * i));
  return c;
#endif
}
// query at x[0] (k[1] = 0) or at the arc length of control pose k[2] (k[1] = 1); poses from x + 1
H(h_dany_at) {
  DCurve<SE3> d;
  const DCurve<SE3> &c = dany(x + 1, k, b, d);
  io[0] = 0;
  try {
    const SE3 p = c.point_at(k[1] ? c.control_pts()[k[2]].arc_length : x[0]);
    wr(p, o);
    wr_frames(p, bo);
  } catch (const resim::AssertException &) {
    io[0] = 1;
  }
  o[12] = c.curve_length();
  io[1] = c.is_framed();
  wr_frame(c.reference_frame(), bo + 32);
  wr_frame(c.point_frame(), bo + 48);
}
// append the pose at x; then control pose k[1] and segment k[2] of the curve before, the last control pose and segment
H(h_dany_append) {
  DCurve<SE3> d;
  DCurve<SE3> &c = dany(x + 12, k, b + 32, d);
  io[0] = 0;
  try {
    c.append(rd_se3(x, b));
  } catch (const resim::AssertException &) {
    io[0] = 1;
  }
  io[1] = c.control_pts().size();
  io[2] = c.segments().size();
  o[102] = c.curve_length();
  const auto ctl = [&](int64_t i, double *q, uint8_t *bq) {
    q[0] = c.control_pts()[i].arc_length;
    wr(*c.control_pts()[i].ref_from_control, q + 1);
    wr_frames(*c.control_pts()[i].ref_from_control, bq);
  };
  const auto seg = [&](int64_t i, double *q) {
    const auto &g = c.segments()[i];
    q[0] = g.orig_arc_length;
    q[1] = g.dest_arc_length;
    wr(*g.ref_from_orig, q + 2);
    wr(*g.ref_from_dest, q + 14);
    wr(g.orig_from_dest, q + 26);
  };
  ctl(k[1], o, bo);
  seg(k[2], o + 13);
  ctl(io[1] - 1, o + 51, bo + 32);
  seg(io[2] - 1, o + 64);
}
H(h_se3_interp) { wr(rd_se3(x).interp(x[12]), o); }
