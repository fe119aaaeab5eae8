// Objects with many parts, made from a seed (bounded native checks only)
#pragma once
#include <cmath>
#include <random>
#include <string>
#include "irv.hh"
#include "jets.hh"
namespace irv {
struct Maker {
  std::mt19937_64 g;
  double u(double a = -3., double b = 3.) { return std::uniform_real_distribution<double>(a, b)(g); }
  int n(int a, int b) { return std::uniform_int_distribution<int>(a, b)(g); }
  Frame3 frame() {
    uint8_t b[16];
    for (auto &c : b) c = n(0, 255);
    return rd_frame(b);
  }
  SO3 so3(const Frame3 &i, const Frame3 &f) {
    Eigen::Quaterniond q(u(), u(), u(), u());
    return SO3(q.normalized(), i, f);
  }
  SE3 se3(const Frame3 &i, const Frame3 &f) {
    const SO3 r = so3(i, f);
    return SE3(SO3(r.rotation_matrix()), Eigen::Vector3d(u(), u(), u()), i, f);
  }
  template <class G> G grp(const Frame3 &i, const Frame3 &f) {
    if constexpr (std::is_same_v<G, SO3>)
      return so3(i, f);
    else
      return se3(i, f);
  }
  template <class J> J jet(const Frame3 &i, const Frame3 &f) {
    constexpr int d = GD<J>;
    Eigen::Matrix<double, d, 1> p, q;
    for (int k = 0; k < d; ++k) p(k) = u(), q(k) = u();
    return J(grp<typename J::GroupType>(i, f), p, q);
  }
  std::string text(int most) {
    std::string s;
    const int len = n(0, 3) ? n(0, 40) : n(0, most);
    for (int i = 0; i < len; ++i) s += char(n(1, 127));
    return s;
  }
};
template <class G> bool same_frames(const G &a, const G &b) { return a.into().id() == b.into().id() && a.from().id() == b.from().id(); }
template <class G> double gap(const G &a, const G &b) {
  if (!same_frames(a, b)) return 1e9;
  double p[12] = {}, q[12] = {}, m = 0.;
  wr(a, p);
  wr(b, q);
  for (int i = 0; i < 12; ++i) m = std::max(m, std::abs(p[i] - q[i]));
  return m;
}
template <class J> double jgap(const J &a, const J &b) {
  return std::max({gap(val(a), val(b)), (d1(a) - d1(b)).cwiseAbs().maxCoeff(), (d2(a) - d2(b)).cwiseAbs().maxCoeff()});
}
template <class C> double tgap(const C &a, const C &b) {
  if (a.control_pts().size() != b.control_pts().size() || a.segments().size() != b.segments().size()) return 1e9;
  double m = 0.;
  for (size_t i = 0; i < a.control_pts().size(); ++i) {
    if (a.control_pts()[i].time != b.control_pts()[i].time) return 1e9;
    m = std::max(m, jgap(a.control_pts()[i].point, b.control_pts()[i].point));
  }
  for (size_t i = 0; i < a.segments().size(); ++i) {
    const auto &s = a.segments()[i], &t = b.segments()[i];
    if (s.orig_time != t.orig_time || s.dest_time != t.dest_time) return 1e9;
    m = std::max({m, jgap(s.curve.orig(), t.curve.orig()), jgap(s.curve.dest(), t.curve.dest())});
  }
  return m;
}
template <class C> double dgap(const C &a, const C &b) {
  if (a.control_pts().size() != b.control_pts().size() || a.segments().size() != b.segments().size()) return 1e9;
  double m = 0.;
  for (size_t i = 0; i < a.control_pts().size(); ++i) {
    m = std::max(m, gap(*a.control_pts()[i].ref_from_control, *b.control_pts()[i].ref_from_control));
    m = std::max(m, std::abs(a.control_pts()[i].arc_length - b.control_pts()[i].arc_length));
  }
  return m;
}
template <class C, class M> C tmake(M &mk, int n) {
  C c;
  const bool fr = mk.n(0, 1);
  const Frame3 z, i = fr ? mk.frame() : z, f = fr ? mk.frame() : z;
  double t = mk.u();
  for (int k = 0; k < n; ++k) {
    c.append({t, mk.template jet<std::decay_t<decltype(c.control_pts()[0].point)>>(i, f)});
    t += mk.u(1e-3, 1.5);
  }
  return c;
}
template <class C, class M> C dmake(M &mk, int n) {
  C c;
  const bool fr = mk.n(0, 1);
  const Frame3 z, i = fr ? mk.frame() : z, f = fr ? mk.frame() : z;
  for (int k = 0; k < n; ++k) c.append(mk.se3(i, f));
  return c;
}
}  // namespace irv
