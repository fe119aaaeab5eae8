#include "irv.hh"
#include "jets.hh"
#include "ghost.hh"
#include "given.hh"
#include "resim/actor/state/rigid_body_state.hh"
#include "resim/actor/state/trajectory.hh"
#include "resim/curves/t_curve.hh"
#include "resim/time/timestamp.hh"
using namespace irv;
using State = resim::actor::state::RigidBodyState<SE3>;
using resim::actor::state::Trajectory;
using resim::curves::TCurve;
namespace rt = resim::time;
// pose (12), angular and linear velocity (3+3), angular and linear acceleration (3+3)
State::StateDerivatives rd_der(const double *x) {
  State::StateDerivatives d;
  d.velocity.angular_radps = rd_v3(x);
  d.velocity.linear_mps = rd_v3(x + 3);
  d.acceleration.angular_radpss = rd_v3(x + 6);
  d.acceleration.linear_mpss = rd_v3(x + 9);
  return d;
}
State rd_state(const double *x, const uint8_t *b) { return State(rd_se3(x, b), rd_der(x + 12)); }
// o[0..24) through the single getters, o[24..36) through the bundled getter, o[36..60) the two-jet
void swr(const State &s, double *o, uint8_t *bo) {
  wr(s.ref_from_body(), o);
  wr_frames(s.ref_from_body(), bo);
  wr_m(s.body_angular_velocity_radps(), o + 12);
  wr_m(s.body_linear_velocity_mps(), o + 15);
  wr_m(s.body_angular_acceleration_radpss(), o + 18);
  wr_m(s.body_linear_acceleration_mpss(), o + 21);
  const State::StateDerivatives d = s.body_derivatives();
  wr_m(d.velocity.angular_radps, o + 24);
  wr_m(d.velocity.linear_mps, o + 27);
  wr_m(d.acceleration.angular_radpss, o + 30);
  wr_m(d.acceleration.linear_mpss, o + 33);
  uint8_t dummy[32];
  jwr(s.ref_from_body_two_jet(), o + 36, dummy);
}
H(h_state_ctor) {
  switch (k[0]) {
    case 0: swr(rd_state(x, b), o, bo); break;
    case 1: swr(State(rd_se3(x, b)), o, bo); break;
    case 2: swr(State(rd_jet<TwoJetR<SE3>>(x, b)), o, bo); break;
    case 3: swr(State::identity(), o, bo); break;
    case 4: {
      const Frame3 i = rd_frame(b), f = rd_frame(b + 16);
      swr(State::identity(i, f), o, bo);
      break;
    }
    default: swr(State(), o, bo);
  }
}
H(h_state_mul) { swr(rd_state(x, b) * rd_state(x + 24, b + 32), o, bo); }
H(h_state_invtimes) { swr(rd_state(x, b).inverse_times(rd_state(x + 24, b + 32)), o, bo); }
H(h_state_set) {
  State s = rd_state(x, b);
  const double *y = x + 24;
  switch (k[0]) {
    case 0: s.set_ref_from_body(rd_se3(y, b + 32)); break;
    case 1: s.set_body_angular_velocity_radps(rd_v3(y + 12)); break;
    case 2: s.set_body_linear_velocity_mps(rd_v3(y + 15)); break;
    case 3: s.set_body_angular_acceleration_radpss(rd_v3(y + 18)); break;
    default: s.set_body_linear_acceleration_mpss(rd_v3(y + 21)); break;
  }
  swr(s, o, bo);
}
// ---- trajectories: control i: timestamp k[8+i], state x+24i, frames b+32i
Trajectory::Control rd_tc(const double *x, const int64_t *k, const uint8_t *b, int i) {
  return Trajectory::Control{rt::Timestamp(rt::Duration(k[8 + i])), rd_state(x + 24 * i, b + 32 * i)};
}
void trbuild(const double *x, const int64_t *k, const uint8_t *b, int64_t *io, Trajectory &t) {
  for (int i = 0; i < k[0]; ++i) {
    io[i] = 0;
    try {
      t.append(rd_tc(x, k, b, i));
    } catch (const resim::AssertException &) {
      io[i] = 1;
    }
  }
}
// io[8] points, io[9] start, io[10] failures, o: times and left jets of the curve's control points
void trobs(const Trajectory &t, double *o, int64_t *io, uint8_t *bo) {
  io[8] = t.curve().control_pts().size();
  io[9] = t.start_time().time_since_epoch().count();
  for (int i = 0; i < io[8]; ++i) {
    o[25 * i] = t.curve().control_pts()[i].time;
    jwr(t.curve().control_pts()[i].point, o + 25 * i + 1, bo + 32 * i);
  }
}
H(h_traj_append) {
  Trajectory t;
  trbuild(x, k, b, io, t);
  trobs(t, o, io, bo);
}
H(h_traj_bulk) {
  if (k[1] == 0) {
    const Trajectory t{rd_tc(x, k, b, 0), rd_tc(x, k, b, 1), rd_tc(x, k, b, 2)};
    trobs(t, o, io, bo);
  } else if (k[1] == 1) {
    Trajectory t;
    t.append({rd_tc(x, k, b, 0), rd_tc(x, k, b, 1), rd_tc(x, k, b, 2)});
    trobs(t, o, io, bo);
  } else {
    Trajectory s;
    for (int i = 0; i < k[0]; ++i) s.append(rd_tc(x, k, b, i));
    const Trajectory t(s.curve(), rt::Timestamp(rt::Duration(k[2])));
    trobs(t, o, io, bo);
  }
}
H(h_traj_info) {
  Trajectory t;
  trbuild(x, k, b, io, t);
  io[8] = 0;
  io[9] = t.start_time().time_since_epoch().count();
  try {
    io[10] = t.end_time().time_since_epoch().count();
  } catch (const resim::AssertException &) {
    io[8] |= 4;
  }
  try {
    io[11] = t.time_duration().count();
  } catch (const resim::AssertException &) {
    io[8] |= 8;
  }
  try {
    wr_frame(t.reference_frame(), bo);
  } catch (const resim::AssertException &) {
    io[8] |= 1;
  }
  try {
    wr_frame(t.body_frame(), bo + 16);
  } catch (const resim::AssertException &) {
    io[8] |= 2;
  }
}
// k[1]: 0 query by timestamp k[2], 1 by duration k[2]
H(h_traj_at) {
  Trajectory t;
  for (int i = 0; i < k[0]; ++i) t.append(rd_tc(x, k, b, i));
  io[0] = 0;
  try {
    swr(k[1] == 0 ? t.point_at(rt::Timestamp(rt::Duration(k[2]))) : t.point_at(rt::Duration(k[2])), o, bo);
  } catch (const resim::AssertException &) {
    io[0] = 1;
  }
}
#ifdef IRV_SYMBOLIC
extern "C" const TwoJetL<SE3> *irv_tc_first(const TCurve<SE3> *c) { return &c->control_pts().front().point; }
#endif

// ---- trajectories of arbitrary length (given.hh); natively built from k[0] states at timestamps k[8..]
#ifdef IRV_SYMBOLIC
Trajectory *trgiven;
extern "C" const void *irv_tr_new(int64_t start) {
  trgiven = new Trajectory(TCurve<SE3>{}, rt::Timestamp(rt::Duration(start)));
  return &trgiven->curve();
}
#endif
Trajectory &trany(const double *x, const int64_t *k, const uint8_t *b, Trajectory &t) {
#ifdef IRV_SYMBOLIC
  return *trgiven;
#else
  for (int i = 0; i < k[0]; ++i) t.append(rd_tc(x, k, b, i));
  return t;
#endif
}
// query by timestamp (k[1] = 0) or duration (k[1] = 1) k[2]
H(h_trany_at) {
  Trajectory d;
  const Trajectory &t = trany(x, k, b, d);
  io[0] = 0;
  try {
    swr(k[1] == 0 ? t.point_at(rt::Timestamp(rt::Duration(k[2]))) : t.point_at(rt::Duration(k[2])), o, bo);
  } catch (const resim::AssertException &) {
    io[0] = 1;
  }
  io[1] = t.start_time().time_since_epoch().count();
  io[2] = t.end_time().time_since_epoch().count();
  io[3] = t.time_duration().count();
  wr_frame(t.reference_frame(), bo + 32);
  wr_frame(t.body_frame(), bo + 48);
}
// append the state at x, timestamp k[3]; then control k[1] of the trajectory before, and the last one
H(h_trany_append) {
  Trajectory d;
  Trajectory &t = trany(x + 24, k, b + 32, d);
  io[0] = 0;
  try {
    t.append(Trajectory::Control{rt::Timestamp(rt::Duration(k[3])), rd_state(x, b)});
  } catch (const resim::AssertException &) {
    io[0] = 1;
  }
  const auto &c = t.curve().control_pts();
  io[1] = c.size();
  io[2] = t.start_time().time_since_epoch().count();
  io[3] = t.end_time().time_since_epoch().count();
  o[0] = c[k[1]].time;
  jwr(c[k[1]].point, o + 1, bo);
  o[25] = c[io[1] - 1].time;
  jwr(c[io[1] - 1].point, o + 26, bo + 32);
}
