#pragma once
#include "irv.hh"
#include "resim/curves/two_jet.hh"
namespace irv {
using resim::curves::TwoJetL;
using resim::curves::TwoJetR;
template <class G> constexpr int GN = std::is_same_v<G, SO3> ? 9 : 12;
template <class J> constexpr int GD = std::is_same_v<typename J::GroupType, SO3> ? 3 : 6;
template <class J> constexpr int JN = GN<typename J::GroupType> + 2 * GD<J>;
template <class G> G rd_grp(const double *x, const uint8_t *b);
template <> inline SO3 rd_grp<SO3>(const double *x, const uint8_t *b) { return rd_so3(x, b); }
template <> inline SE3 rd_grp<SE3>(const double *x, const uint8_t *b) { return rd_se3(x, b); }
template <class J>
J rd_jet(const double *x, const uint8_t *b) {
  using G = typename J::GroupType;
  constexpr int n = GN<G>, d = GD<J>;
  return J(rd_grp<G>(x, b), rd_v<d>(x + n), rd_v<d>(x + n + d));
}
template <class G> const G &val(const TwoJetL<G> &j) { return j.frame_from_ref(); }
template <class G> const G &val(const TwoJetR<G> &j) { return j.ref_from_frame(); }
template <class G> const auto &d1(const TwoJetL<G> &j) { return j.d_frame_from_ref(); }
template <class G> const auto &d1(const TwoJetR<G> &j) { return j.d_ref_from_frame(); }
template <class G> const auto &d2(const TwoJetL<G> &j) { return j.d2_frame_from_ref(); }
template <class G> const auto &d2(const TwoJetR<G> &j) { return j.d2_ref_from_frame(); }
template <class G, class V> void set0(TwoJetL<G> &j, const V &v) { j.set_frame_from_ref(v); }
template <class G, class V> void set0(TwoJetR<G> &j, const V &v) { j.set_ref_from_frame(v); }
template <class G, class V> void set1(TwoJetL<G> &j, const V &v) { j.set_d_frame_from_ref(v); }
template <class G, class V> void set1(TwoJetR<G> &j, const V &v) { j.set_d_ref_from_frame(v); }
template <class G, class V> void set2(TwoJetL<G> &j, const V &v) { j.set_d2_frame_from_ref(v); }
template <class G, class V> void set2(TwoJetR<G> &j, const V &v) { j.set_d2_ref_from_frame(v); }
template <class J>
void jwr(const J &j, double *o, uint8_t *bo) {
  constexpr int n = GN<typename J::GroupType>, d = GD<J>;
  wr(val(j), o);
  wr_m(d1(j), o + n);
  wr_m(d2(j), o + n + d);
  wr_frames(val(j), bo);
}
template <class J>
void jmul(const double *x, const uint8_t *b, double *o, uint8_t *bo) {
  jwr(rd_jet<J>(x, b) * rd_jet<J>(x + JN<J>, b + 32), o, bo);
}
template <class J>
void jinv(const double *x, const uint8_t *b, double *o, uint8_t *bo) {
  jwr(rd_jet<J>(x, b).inverse(), o, bo);
}
}  // namespace irv
