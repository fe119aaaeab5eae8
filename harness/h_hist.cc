// Histories: an object that has been used and then changed behaves like a fresh one with the same content.
#include "irv.hh"
#include "jets.hh"
#include "resim/actor/state/rigid_body_state.hh"
#include "resim/actor/state/trajectory.hh"
#include "resim/curves/d_curve.hh"
#include "resim/curves/t_curve.hh"
#include "resim/curves/t_curve_segment.hh"
#include "resim/time/timestamp.hh"
using namespace irv;
using resim::actor::state::Trajectory;
using resim::curves::DCurve;
using resim::curves::TCurve;
using resim::curves::TCurveSegment;
using State = resim::actor::state::RigidBodyState<SE3>;
namespace rt = resim::time;
namespace {
// ---- two-jets
template <class J>
void jobs(const J &j, const J &h, double *o, uint8_t *bo) {
  constexpr int n = JN<J>;
  jwr(j, o, bo);
  jwr(j.inverse(), o + n, bo + 32);
  jwr(j * h, o + 2 * n, bo + 64);
  jwr(h * j, o + 3 * n, bo + 96);
  if constexpr (std::is_same_v<J, TwoJetL<typename J::GroupType>>)
    jwr(j.right_two_jet(), o + 4 * n, bo + 128);
  else
    jwr(j.left_two_jet(), o + 4 * n, bo + 128);
}
// k[0]: 0..2 set component, 3 copy-assign, 4 move-assign, 5 nothing, 6 a copy taken before, 7 both derivatives then the value
template <class J>
void jhist(const double *x, const int64_t *k, const uint8_t *b, double *o, uint8_t *bo) {
  using G = typename J::GroupType;
  constexpr int n = GN<G>, d = GD<J>, N = JN<J>;
  J j = rd_jet<J>(x, b), h = rd_jet<J>(x + N, b);
  const J u(rd_grp<G>(x + 2 * N, b + 32), rd_v<d>(x + 2 * N + n), rd_v<d>(x + 2 * N + n + d));
  const G g(rd_grp<G>(x + N, b));
  jobs(j, u, o, bo);
  J w = j;
  double e[24];
  for (int i = 0; i < N; ++i) e[i] = x[i];
  const auto take = [&](int lo, int hi) {
    for (int i = lo; i < hi; ++i) e[i] = x[N + i];
  };
  switch (k[0]) {
    case 0: set0(j, g); take(0, n); break;
    case 1: set1(j, rd_v<d>(x + N + n)); take(n, n + d); break;
    case 2: set2(j, rd_v<d>(x + N + n + d)); take(n + d, N); break;
    case 3: j = h; take(0, N); break;
    case 4: j = std::move(h); take(0, N); break;
    case 6: set0(j, g); set1(j, rd_v<d>(x + N + n)); j = w; break;
    case 7:
      set2(j, rd_v<d>(x + N + n + d));
      set1(j, rd_v<d>(x + N + n));
      jobs(j, u, o, bo);
      set0(j, g);
      take(0, N);
      break;
  }
  jobs(j, u, o, bo);
  jobs(rd_jet<J>(e, b), u, o + 5 * N, bo + 160);
}
// ---- states
State::StateDerivatives rd_der(const double *x) {
  State::StateDerivatives d;
  d.velocity.angular_radps = rd_v3(x);
  d.velocity.linear_mps = rd_v3(x + 3);
  d.acceleration.angular_radpss = rd_v3(x + 6);
  d.acceleration.linear_mpss = rd_v3(x + 9);
  return d;
}
State rd_state(const double *x, const uint8_t *b) { return State(rd_se3(x, b), rd_der(x + 12)); }
void swr(const State &s, double *o, uint8_t *bo) {
  wr(s.ref_from_body(), o);
  wr_frames(s.ref_from_body(), bo);
  wr_m(s.body_angular_velocity_radps(), o + 12);
  wr_m(s.body_linear_velocity_mps(), o + 15);
  wr_m(s.body_angular_acceleration_radpss(), o + 18);
  wr_m(s.body_linear_acceleration_mpss(), o + 21);
}
void sobs(const State &s, const State &t, double *o, uint8_t *bo) {
  swr(s, o, bo);
  const auto d = s.body_derivatives();
  wr_m(d.velocity.angular_radps, o + 24);
  wr_m(d.velocity.linear_mps, o + 27);
  wr_m(d.acceleration.angular_radpss, o + 30);
  wr_m(d.acceleration.linear_mpss, o + 33);
  jwr(s.ref_from_body_two_jet(), o + 36, bo + 32);
  swr(s * t, o + 60, bo + 64);
  swr(s.inverse_times(s), o + 84, bo + 96);
  swr(t.inverse_times(t * s), o + 108, bo + 128);
}
void set(State &s, int i, const double *y, const uint8_t *b) {
  switch (i) {
    case 0: s.set_ref_from_body(rd_se3(y, b)); break;
    case 1: s.set_body_angular_velocity_radps(rd_v3(y + 12)); break;
    case 2: s.set_body_linear_velocity_mps(rd_v3(y + 15)); break;
    case 3: s.set_body_angular_acceleration_radpss(rd_v3(y + 18)); break;
    default: s.set_body_linear_acceleration_mpss(rd_v3(y + 21)); break;
  }
}
constexpr int LO[] = {0, 12, 15, 18, 21, 24};
// ---- curves
// final object after a history; k[0] points, k[1]: 0 queries only, 1 append after them, 2 a copy taken before an append to the
// original, 3 the original after an append to a copy, 4 moved, 5 move-assigned over another used curve, 6 a rejected append
// between, 7 two appends with a query between
template <class C, class Add, class Use>
C hist(const int64_t *k, const Add &add, const Use &use, int &n) {
  const int m = k[0];
  C c;
  for (int i = 0; i < m; ++i) add(c, i);
  use(c, 0);
  n = m;
  switch (k[1]) {
    case 1: add(c, m); n = m + 1; break;
    case 2: {
      C d(c);
      add(c, m);
      use(c, 0);
      return d;
    }
    case 3: {
      C d(c);
      add(d, m);
      use(d, 0);
      break;
    }
    case 4: {
      C d(std::move(c));
      use(d, 1);
      return d;
    }
    case 5: {
      C d;
      add(d, m);
      add(d, m + 1);
      use(d, 0);
      d = std::move(c);
      return d;
    }
    case 6:
      try {
        add(c, -1);
      } catch (const resim::AssertException &) {
      }
      use(c, 1);
      add(c, m);
      n = m + 1;
      break;
    case 7:
      add(c, m);
      use(c, 1);
      add(c, m + 1);
      n = m + 2;
      break;
  }
  return c;
}
template <class F>
bool rejected(const F &f) {
  try {
    f();
  } catch (const resim::AssertException &) {
    return true;
  }
  return false;
}
}  // namespace
H(h_hist_jl_so3) { jhist<TwoJetL<SO3>>(x, k, b, o, bo); }
H(h_hist_jl_se3) { jhist<TwoJetL<SE3>>(x, k, b, o, bo); }
H(h_hist_jr_so3) { jhist<TwoJetR<SO3>>(x, k, b, o, bo); }
H(h_hist_jr_se3) { jhist<TwoJetR<SE3>>(x, k, b, o, bo); }
// two components set (k[0], k[1]), each after use; k[2]: 0 as is, 1 copied in between, 2 the copy from before
H(h_hist_state) {
  State s = rd_state(x, b);
  const State t = rd_state(x + 48, b + 32);
  sobs(s, t, o, bo);
  double e[24];
  for (int i = 0; i < 24; ++i) e[i] = x[i];
  const State w = s;
  for (int j = 0; j < 2; ++j) {
    set(s, k[j], x + 24, b);
    if (k[2] != 2)
      for (int i = LO[k[j]]; i < LO[k[j] + 1]; ++i) e[i] = x[24 + i];
    swr(t.inverse_times(t * s), o, bo);
    jwr(s.ref_from_body_two_jet(), o, bo);
    if (k[2] == 1) {
      State q = s;
      set(s, k[j], x, b);
      s = q;
    }
  }
  if (k[2] == 2) s = w;
  sobs(s, t, o, bo);
  sobs(rd_state(e, b), t, o + 132, bo + 160);
}
// queries at the first k[0] - 1 times x[2N + 2 ...], then at the last; the same on a fresh segment
template <class G>
void seghist(const double *x, const int64_t *k, const uint8_t *b, double *o, uint8_t *bo) {
  using J = TwoJetL<G>;
  constexpr int N = JN<J>;
  const J p = rd_jet<J>(x, b), q = rd_jet<J>(x + N, b);
  const TCurveSegment<G> s(p, q), f(p, q);
  const int n = k[0];
  for (int i = 0; i < n; ++i) jwr(s.point_at(x[2 * N + i]), o, bo);
  jwr(f.point_at(x[2 * N + n - 1]), o + N, bo + 32);
}
H(h_hist_seg_so3) { seghist<SO3>(x, k, b, o, bo); }
H(h_hist_seg_se3) { seghist<SE3>(x, k, b, o, bo); }
// points i: time, jet; then the two times used before and the query time
template <class G>
void tchist(const double *x, const int64_t *k, const uint8_t *b, double *o, int64_t *io, uint8_t *bo) {
  using C = TCurve<G>;
  constexpr int N = JN<TwoJetL<G>> + 1;
  const int tot = k[0] + 2;
  const double *t = x + tot * N;
  const auto add = [&](C &c, int i) {
    if (i < 0)
      c.append({c.end_time(), c.control_pts().front().point});
    else
      c.append({x[i * N], rd_jet<TwoJetL<G>>(x + i * N + 1, b)});
  };
  double dump[24];
  uint8_t bdump[32];
  const auto use = [&](const C &c, int i) { rejected([&] { jwr(c.point_at(t[i]), dump, bdump); }); };
  int n = 0;
  const C c = hist<C>(k, add, use, n);
  const auto obs = [&](const C &q, int w) {
    io[3 * w] = rejected([&] { jwr(q.point_at(t[2]), o + w * (N + 2), bo + 32 * w); });
    io[3 * w + 1] = q.control_pts().size();
    io[3 * w + 2] = q.segments().size();
    o[w * (N + 2) + N] = q.start_time();
    o[w * (N + 2) + N + 1] = q.end_time();
  };
  obs(c, 0);
  C f;
  for (int i = 0; i < n; ++i) add(f, i);
  obs(f, 1);
}
H(h_hist_tc_so3) { tchist<SO3>(x, k, b, o, io, bo); }
H(h_hist_tc_se3) { tchist<SE3>(x, k, b, o, io, bo); }
// poses; then arc lengths used before and queried; the rejected pose has swapped frames
H(h_hist_dc) {
  using C = DCurve<SE3>;
  const double *t = x + 12 * (k[0] + 2);
  const auto add = [&](C &c, int i) {
    if (i < 0)
      c.append(rd_se3(x, b + 16));
    else
      c.append(rd_se3(x + 12 * i, b));
  };
  double dump[12];
  const auto use = [&](const C &c, int i) { rejected([&] { wr(c.point_at(t[i]), dump); }); };
  int n = 0;
  const C c = hist<C>(k, add, use, n);
  const auto obs = [&](const C &q, int w) {
    io[3 * w] = rejected([&] {
      const SE3 p = q.point_at(t[2]);
      wr(p, o + 13 * w);
      wr_frames(p, bo + 32 * w);
    });
    io[3 * w + 1] = q.control_pts().size();
    io[3 * w + 2] = q.segments().size();
    o[13 * w + 12] = q.curve_length();
  };
  obs(c, 0);
  C f;
  for (int i = 0; i < n; ++i) add(f, i);
  obs(f, 1);
}
// timestamps k[8 + i]; the times used before and queried k[4], k[5], k[6]
H(h_hist_traj) {
  using C = Trajectory;
  const auto ts = [](int64_t q) { return rt::Timestamp(rt::Duration(q)); };
  const auto add = [&](C &c, int i) {
    if (i < 0)
      c.append(C::Control{ts(k[8]), rd_state(x, b)});
    else
      c.append(C::Control{ts(k[8 + i]), rd_state(x + 24 * i, b)});
  };
  double dump[24];
  uint8_t bdump[32];
  const auto use = [&](const C &c, int i) { rejected([&] { swr(c.point_at(ts(k[4 + i])), dump, bdump); }); };
  int n = 0;
  const C c = hist<C>(k, add, use, n);
  const auto obs = [&](const C &q, int w) {
    io[5 * w] = rejected([&] { swr(q.point_at(ts(k[6])), o + 24 * w, bo + 32 * w); });
    io[5 * w + 1] = q.curve().control_pts().size();
    io[5 * w + 2] = q.start_time().time_since_epoch().count();
    io[5 * w + 3] = q.end_time().time_since_epoch().count();
    io[5 * w + 4] = q.time_duration().count();
  };
  obs(c, 0);
  C f;
  for (int i = 0; i < n; ++i) add(f, i);
  obs(f, 1);
}
