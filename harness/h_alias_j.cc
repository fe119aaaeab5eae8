// Two-jets and states with themselves.
#include "alias.hh"
#include "jets.hh"
#include "resim/actor/state/rigid_body_state.hh"
using namespace irv;
template <class J>
static void jet(const double *x, const uint8_t *b, double *o, int64_t *io, uint8_t *bo) {
  const J p = rd_jet<J>(x, b);
  alias(
      p, [](const J &a, const J &c) { return a * c; }, [&](int i, const J &r) { jwr(r, o + 24 * i, bo + 32 * i); }, io);
  const J q = p;
  io[6] = p.is_approx(q);
  io[7] = p.is_approx(p);
}
H(h_alias_l_so3) { jet<TwoJetL<SO3>>(x, b, o, io, bo); }
H(h_alias_l_se3) { jet<TwoJetL<SE3>>(x, b, o, io, bo); }
H(h_alias_r_so3) { jet<TwoJetR<SO3>>(x, b, o, io, bo); }
H(h_alias_r_se3) { jet<TwoJetR<SE3>>(x, b, o, io, bo); }
using State = resim::actor::state::RigidBodyState<SE3>;
H(h_alias_state) {
  const State p(rd_jet<TwoJetR<SE3>>(x, b));
  const auto out = [&](int i, const State &r) { jwr(r.ref_from_body_two_jet(), o + 24 * i, bo + 32 * i); };
  if (k[0])
    alias(p, [](const State &a, const State &c) { return a.inverse_times(c); }, out, io);
  else
    alias(p, [](const State &a, const State &c) { return a * c; }, out, io);
}
