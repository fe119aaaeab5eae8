// Transforms and framed vectors with themselves.
#include "alias.hh"
using namespace irv;
template <class G>
static void grp(const G &p, double *o, int64_t *io, uint8_t *bo) {
  alias(
      p, [](const G &a, const G &b) { return a * b; },
      [&](int i, const G &r) {
        wr(r, o + 12 * i);
        wr_frames(r, bo + 32 * i);
      },
      io);
  const G q = p;
  io[6] = p.is_approx(q);
  io[7] = p.is_approx(p);
  io[8] = p.is_approx_transform(q);
  io[9] = p.is_approx_transform(p);
  io[10] = q.verify_frames(p.into(), p.from());
  io[11] = p.verify_frames(p.into(), p.from());
  // its own frames, exchanged, given to itself
  G r = p;
  io[12] = 0;
  try {
    r.set_frames(r.from(), r.into());
  } catch (const resim::AssertException &) {
    io[12] = 1;
  }
  wr_frames(r, bo + 192);
  r = p;
  r = r.inverse();
  wr(r, o + 72);
  wr_frames(r, bo + 224);
  r = p;
  r = *&r;
  wr(r, o + 84);
  wr_frames(r, bo + 256);
}
H(h_alias_so3) { grp(rd_so3(x, b), o, io, bo); }
H(h_alias_se3) { grp(rd_se3(x, b), o, io, bo); }
H(h_alias_dist) {
  const SE3 p = rd_se3(x, b), q = p;
  o[0] = resim::transforms::se3_distance(p, q);
  o[1] = resim::transforms::se3_distance(p, p);
  o[2] = resim::transforms::se3_inverse_distance(p, q);
  o[3] = resim::transforms::se3_inverse_distance(p, p);
}
H(h_alias_fv) {
  const FV3 p(rd_v3(x), rd_frame(b));
  alias(
      p, [](const FV3 &a, const FV3 &c) { return a + c; },
      [&](int i, const FV3 &r) {
        wr_m(r.vector(), o + 3 * i);
        wr_frame(r.frame(), bo + 16 * i);
      },
      io);
  const FV3 q = p;
  io[6] = p.isApprox(q);
  io[7] = p.isApprox(p);
  io[8] = p == q;
  io[9] = p == p;
}
