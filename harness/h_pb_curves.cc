// Messages of two-jets, curves and trajectories.
#include <vector>
#include "irv.hh"
#include "jets.hh"
#include "ghost.hh"
#include "pb.hh"
#include "resim/actor/state/proto/trajectory.pb.h"
#include "resim/actor/state/proto/trajectory_to_proto.hh"
#include "resim/actor/state/trajectory.hh"
#include "resim/curves/d_curve.hh"
#include "resim/curves/proto/d_curve.pb.h"
#include "resim/curves/proto/d_curve_se3_to_proto.hh"
#include "resim/curves/proto/t_curve.pb.h"
#include "resim/curves/proto/t_curve_se3_to_proto.hh"
#include "resim/curves/proto/t_curve_so3_to_proto.hh"
#include "resim/curves/proto/two_jet.pb.h"
#if __has_include("resim/curves/proto/t_curve_to_proto.hh")
#include "resim/curves/proto/t_curve_to_proto.hh"
#endif
#if __has_include("resim/curves/proto/d_curve_to_proto.hh")
#include "resim/curves/proto/d_curve_to_proto.hh"
#endif
#if __has_include("resim/curves/proto/two_jet_to_proto.hh")
#include "resim/curves/proto/two_jet_to_proto.hh"
#endif
#include "resim/utils/inout.hh"
#include "resim/curves/proto/two_jetl_se3_to_proto.hh"
#include "resim/curves/proto/two_jetl_so3_to_proto.hh"
#include "resim/curves/proto/two_jetr_se3_to_proto.hh"
#include "resim/curves/proto/two_jetr_so3_to_proto.hh"
#include "resim/curves/t_curve.hh"
#include "resim/time/timestamp.hh"
#include "resim/transforms/proto/se3_to_proto.hh"
#include "resim/transforms/proto/so3_to_proto.hh"
using namespace irv;
using resim::actor::state::Trajectory;
using resim::curves::DCurve;
using resim::curves::TCurve;
namespace cp = resim::curves::proto;
namespace ap = resim::actor::state::proto;
namespace rt = resim::time;
template <class F> static int64_t rejected(F f) {
  try {
    f();
  } catch (const resim::AssertException &) {
    return 1;
  }
  return 0;
}
// unpacking into an object that is in use already (plainly unpacked where there is no such function)
template <class T, class M> static T unpack_over(const M &m, T used) {
  if constexpr (requires { cp::unpack_t_curve(m, resim::InOut<T>(used)); })
    cp::unpack_t_curve(m, resim::InOut<T>(used));
  else if constexpr (requires { cp::unpack_d_curve(m, resim::InOut<T>(used)); })
    cp::unpack_d_curve(m, resim::InOut<T>(used));
  else if constexpr (requires { cp::unpack_two_jetl(m, resim::InOut<T>(used)); })
    cp::unpack_two_jetl(m, resim::InOut<T>(used));
  else if constexpr (requires { cp::unpack_two_jetr(m, resim::InOut<T>(used)); })
    cp::unpack_two_jetr(m, resim::InOut<T>(used));
  else
    used = cp::unpack(m);
  return used;
}
// ---- two-jets: the first is packed over a message that holds the second
template <class J, class M>
static void jet(const double *x, const int64_t *k, const uint8_t *b, double *o, int64_t *io, uint8_t *bo) {
  irv_pb_init();
  M m;
  cp::pack(rd_jet<J>(x + JN<J>, b + 32), &m);
  cp::pack(rd_jet<J>(x, b), &m);
  if (k[0])
    jwr(unpack_over(m, rd_jet<J>(x + JN<J>, b + 32)), o, bo);
  else
    jwr(cp::unpack(m), o, bo);
  io[0] = rejected([&] { cp::pack(rd_jet<J>(x, b), nullptr); });
}
H(h_pb_jetl_so3) { jet<TwoJetL<SO3>, cp::TwoJetL_SO3>(x, k, b, o, io, bo); }
H(h_pb_jetl_se3) { jet<TwoJetL<SE3>, cp::TwoJetL_SE3>(x, k, b, o, io, bo); }
H(h_pb_jetr_so3) { jet<TwoJetR<SO3>, cp::TwoJetR_SO3>(x, k, b, o, io, bo); }
H(h_pb_jetr_se3) { jet<TwoJetR<SE3>, cp::TwoJetR_SE3>(x, k, b, o, io, bo); }
// messages with k[0] first and k[1] second derivative numbers; k[2]: pose present
template <class J, class M>
static void badjet(const double *x, const int64_t *k, double *o, int64_t *io, uint8_t *bo) {
  irv_pb_init();
  M m;
  using G = typename J::GroupType;
  if constexpr (std::is_same_v<J, TwoJetL<G>>) {
    if (k[2]) pack(G::identity(), m.mutable_frame_from_ref());
    for (int i = 0; i < k[0]; ++i) m.add_d_frame_from_ref(x[i]);
    for (int i = 0; i < k[1]; ++i) m.add_d2_frame_from_ref(x[8 + i]);
  } else {
    if (k[2]) pack(G::identity(), m.mutable_ref_from_frame());
    for (int i = 0; i < k[0]; ++i) m.add_d_ref_from_frame(x[i]);
    for (int i = 0; i < k[1]; ++i) m.add_d2_ref_from_frame(x[8 + i]);
  }
  io[0] = rejected([&] { jwr(cp::unpack(m), o, bo); });
}
H(h_pb_badl_so3) { badjet<TwoJetL<SO3>, cp::TwoJetL_SO3>(x, k, o, io, bo); }
H(h_pb_badl_se3) { badjet<TwoJetL<SE3>, cp::TwoJetL_SE3>(x, k, o, io, bo); }
H(h_pb_badr_so3) { badjet<TwoJetR<SO3>, cp::TwoJetR_SO3>(x, k, o, io, bo); }
H(h_pb_badr_se3) { badjet<TwoJetR<SE3>, cp::TwoJetR_SE3>(x, k, o, io, bo); }
// ---- time curves: k[0] points; packed over a message that holds the curve of the first k[1] points
template <class G>
static typename TCurve<G>::Control rd_ctl(const double *x, const uint8_t *b, int i) {
  constexpr int n = JN<TwoJetL<G>> + 1;
  return typename TCurve<G>::Control{x[i * n], rd_jet<TwoJetL<G>>(x + i * n + 1, b + 32 * i)};
}
template <class G>
static void tobs(const TCurve<G> &c, double *o, int64_t *io, uint8_t *bo) {
  constexpr int j = JN<TwoJetL<G>>, n = j + 1;
  io[8] = c.control_pts().size();
  io[9] = c.segments().size();
  uint8_t dummy[32];
  for (int i = 0; i < io[8]; ++i) {
    o[i * n] = c.control_pts()[i].time;
    jwr(c.control_pts()[i].point, o + i * n + 1, bo + 32 * i);
  }
  double *s = o + 4 * n;
  for (int i = 0; i < io[9]; ++i) {
    const auto &g = c.segments()[i];
    s[0] = g.orig_time;
    s[1] = g.dest_time;
    jwr(g.curve.orig(), s + 2, dummy);
    jwr(g.curve.dest(), s + 2 + j, dummy);
    s += 2 + 2 * j;
  }
}
template <class G, class M>
static void tcurve(const double *x, const int64_t *k, const uint8_t *b, double *o, int64_t *io, uint8_t *bo) {
  irv_pb_init();
  TCurve<G> c, d;
  for (int i = 0; i < k[0]; ++i) c.append(rd_ctl<G>(x, b, i));
  for (int i = 0; i < k[1]; ++i) d.append(rd_ctl<G>(x, b, i));
  M m;
  cp::pack(d, &m);
  cp::pack(c, &m);
  if (k[2])
    tobs<G>(unpack_over(m, std::move(d)), o, io, bo);
  else
    tobs<G>(cp::unpack(m), o, io, bo);
  io[0] = rejected([&] { cp::pack(c, nullptr); });
}
H(h_pb_tc_so3) { tcurve<SO3, cp::TCurve_SO3>(x, k, b, o, io, bo); }
H(h_pb_tc_se3) { tcurve<SE3, cp::TCurve_SE3>(x, k, b, o, io, bo); }
// a message with arbitrary control points
template <class G, class M>
static void anytc(const double *x, const int64_t *k, const uint8_t *b, double *o, int64_t *io, uint8_t *bo) {
  irv_pb_init();
  M m;
  for (int i = 0; i < k[0]; ++i) {
    const auto c = rd_ctl<G>(x, b, i);
    auto *p = m.add_points();
    p->set_time(c.time);
    cp::pack(c.point, p->mutable_point());
  }
  io[0] = rejected([&] { tobs<G>(cp::unpack(m), o, io, bo); });
}
H(h_pb_anytc_so3) { anytc<SO3, cp::TCurve_SO3>(x, k, b, o, io, bo); }
H(h_pb_anytc_se3) { anytc<SE3, cp::TCurve_SE3>(x, k, b, o, io, bo); }
// ---- distance curves
static void dobs(const DCurve<SE3> &c, double *o, int64_t *io, uint8_t *bo) {
  io[8] = c.control_pts().size();
  io[9] = c.segments().size();
  for (int i = 0; i < io[8]; ++i) {
    o[13 * i] = c.control_pts()[i].arc_length;
    wr(*c.control_pts()[i].ref_from_control, o + 13 * i + 1);
    wr_frames(*c.control_pts()[i].ref_from_control, bo + 32 * i);
  }
}
H(h_pb_dc) {
  irv_pb_init();
  DCurve<SE3> c, d;
  for (int i = 0; i < k[0]; ++i) c.append(rd_se3(x + 12 * i, b + 32 * i));
  for (int i = 0; i < k[1]; ++i) d.append(rd_se3(x + 12 * i, b + 32 * i));
  cp::DCurve_SE3 m;
  cp::pack(d, &m);
  cp::pack(c, &m);
  if (k[2])
    dobs(unpack_over(m, std::move(d)), o, io, bo);
  else
    dobs(cp::unpack(m), o, io, bo);
  io[0] = rejected([&] { cp::pack(c, nullptr); });
  for (int i = 0; i < k[0]; ++i) o[52 + i] = c.control_pts()[i].arc_length;
}
H(h_pb_anydc) {
  irv_pb_init();
  cp::DCurve_SE3 m;
  for (int i = 0; i < k[0]; ++i) resim::transforms::proto::pack(rd_se3(x + 12 * i, b + 32 * i), m.add_ref_from_control());
  io[0] = rejected([&] { dobs(cp::unpack(m), o, io, bo); });
  DCurve<SE3> c;
  io[1] = 0;
  for (int i = 0; i < k[0] && !io[1]; ++i) io[1] = rejected([&] { c.append(rd_se3(x + 12 * i, b + 32 * i)); });
}
// ---- trajectories: start time k[2]
H(h_pb_tr) {
  irv_pb_init();
  TCurve<SE3> c, d;
  for (int i = 0; i < k[0]; ++i) c.append(rd_ctl<SE3>(x, b, i));
  for (int i = 0; i < k[1]; ++i) d.append(rd_ctl<SE3>(x, b, i));
  const Trajectory t{c, rt::Timestamp(rt::Duration(k[2]))}, u{d, rt::Timestamp(rt::Duration(k[3]))};
  ap::Trajectory m;
  ap::pack(u, &m);
  ap::pack(t, &m);
  const Trajectory r = ap::unpack(m);
  tobs<SE3>(r.curve(), o, io, bo);
  io[1] = r.start_time().time_since_epoch().count();
  io[0] = rejected([&] { ap::pack(t, nullptr); });
}
// long objects (bounded native check): kind k[0], k[1] points over a message of k[2]; k[3] seed, k[4] start
#ifndef IRV_SYMBOLIC
#include "big.hh"
H(h_pb_long) {
  irv_pb_init();
  Maker mk{std::mt19937_64(k[3])};
  const int n = k[1], m = k[2];
  auto round = [&](auto msg, const auto &c, const auto &d, auto diff) {
    cp::pack(d, &msg);
    cp::pack(c, &msg);
    const auto r = cp::unpack(msg);
    io[0] = r.control_pts().size();
    o[0] = diff(c, r);
    cp::pack(r, &msg);
    o[1] = diff(c, cp::unpack(msg));
  };
  auto td = [](const auto &a, const auto &b) { return tgap(a, b); };
  if (k[0] == 0)
    round(cp::TCurve_SO3{}, tmake<TCurve<SO3>>(mk, n), tmake<TCurve<SO3>>(mk, m), td);
  else if (k[0] == 1)
    round(cp::TCurve_SE3{}, tmake<TCurve<SE3>>(mk, n), tmake<TCurve<SE3>>(mk, m), td);
  else if (k[0] == 2)
    round(cp::DCurve_SE3{}, dmake<DCurve<SE3>>(mk, n), dmake<DCurve<SE3>>(mk, m), [](const auto &a, const auto &b) { return dgap(a, b); });
  else {
    const Trajectory t{tmake<TCurve<SE3>>(mk, n), rt::Timestamp(rt::Duration(k[4]))}, u{tmake<TCurve<SE3>>(mk, m), rt::Timestamp(rt::Duration(k[4] / 3))};
    ap::Trajectory msg;
    ap::pack(u, &msg);
    ap::pack(t, &msg);
    const Trajectory r = ap::unpack(msg);
    io[0] = r.curve().control_pts().size();
    o[0] = tgap(t.curve(), r.curve());
    o[1] = r.start_time() == t.start_time() ? 0. : 1.;
  }
}
#endif
