// Histories of group elements (see h_hist.cc).
#include "irv.hh"
using namespace irv;
namespace {
template <class G> constexpr int GN = std::is_same_v<G, SO3> ? 9 : 12;
template <class G> G rd_grp(const double *x, const uint8_t *b);
template <> SO3 rd_grp<SO3>(const double *x, const uint8_t *b) { return rd_so3(x, b); }
template <> SE3 rd_grp<SE3>(const double *x, const uint8_t *b) { return rd_se3(x, b); }
// ---- group elements
template <class G>
void gobs(const G &g, const G &h, const double *v, double *o, uint8_t *bo) {
  constexpr int n = GN<G>;
  wr(g, o);
  wr_frames(g, bo);
  const G i = g.inverse();
  wr(i, o + n);
  wr_frames(i, bo + 32);
  const G p = g * h;
  wr(p, o + 2 * n);
  wr_frames(p, bo + 64);
  const G q = h * g;
  wr(q, o + 3 * n);
  wr_frames(q, bo + 96);
  const Eigen::Vector3d r = g * rd_v3(v), s = g.rotate(rd_v3(v));
  wr_m(r, o + 4 * n);
  wr_m(s, o + 4 * n + 3);
  wr_m(g.adjoint(), o + 4 * n + 6);
  wr_m(g.log(), o + 4 * n + 42);
  bo[128] = g.is_framed();
}
// k[0]: 0 set_frames, 1 set_unframed, 2 copy-assign h, 3 move-assign h, 4 assign to itself, 5 nothing, 6 a copy taken
// before set_frames, 7 a copy taken after; x: g, h, v; b: frames of g, of h, new
template <class G>
void ghist(const double *x, const int64_t *k, const uint8_t *b, double *o, uint8_t *bo) {
  constexpr int n = GN<G>;
  const double *v = x + 2 * n;
  G g = rd_grp<G>(x, b), h = rd_grp<G>(x + n, b + 32);
  G u = h;
  u.set_unframed();
  gobs(g, u, v, o, bo);  // used
  const uint8_t *c = b;
  const double *y = x;
  const uint8_t zero[32] = {};
  G w = g;
  switch (k[0]) {
    case 0: g.set_frames(rd_frame(b + 64), rd_frame(b + 80)); c = b + 64; break;
    case 1: g.set_unframed(); c = zero; break;
    case 2: g = h; c = b + 32; y = x + n; break;
    case 3: g = std::move(h); c = b + 32; y = x + n; break;
    case 4: { const G &s = g; g = s; } break;
    case 6: g.set_frames(rd_frame(b + 64), rd_frame(b + 80)); g = std::move(w); break;
    case 7: g.set_frames(rd_frame(b + 64), rd_frame(b + 80)); w = g; g = rd_grp<G>(x + n, b + 32); g = w; c = b + 64; break;
  }
  gobs(g, u, v, o, bo);
  const G f = rd_grp<G>(y, c);
  gobs(f, u, v, o + 100, bo + 160);
}
}  // namespace
H(h_hist_so3) { ghist<SO3>(x, k, b, o, bo); }
H(h_hist_se3) { ghist<SE3>(x, k, b, o, bo); }
