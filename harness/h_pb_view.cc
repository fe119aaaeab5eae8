// Messages of view primitives and view updates.
#include <optional>
#include <string>
#include <variant>
#include "prims.hh"
#include "ghost.hh"
#include "pb.hh"
#include "resim/time/timestamp.hh"
#include "resim/utils/proto/uuid_to_proto.hh"
#include "resim/utils/status_value.hh"
#include "resim/visualization/proto/view_primitive.pb.h"
#include "resim/visualization/proto/view_primitive_to_proto.hh"
#include "resim/visualization/proto/view_update.pb.h"
#include "resim/visualization/proto/view_update_to_proto.hh"
#include "resim/visualization/view_primitive.hh"
#include "resim/visualization/view_update.hh"
using namespace irv;
using resim::visualization::ViewUpdate;
namespace vp = resim::visualization::proto;
template <class F> static int64_t rejected(F f) {
  try {
    f();
  } catch (const resim::AssertException &) {
    return 1;
  }
  return 0;
}
// the first primitive is packed over a message that holds the second
H(h_pb_prim) {
  irv_pb_init();
  vp::ViewPrimitive m;
  vp::pack(rd_prim(x + KX, k + KK, b + KB), &m);
  vp::pack(rd_prim(x, k, b), &m);
  wr_prim(vp::unpack(m), o, io, bo);
  io[7] = rejected([&] { vp::pack(rd_prim(x, k, b), nullptr); });
}
// a message without payload, with or without identifier
H(h_pb_prim_unset) {
  irv_pb_init();
  vp::ViewPrimitive m;
  if (k[0]) resim::proto::pack(rd_frame(b).id(), m.mutable_id());
  if (k[1]) m.set_user_defined_name("n");
  m.set_file_name("f");
  m.set_line_number(3);
  io[0] = rejected([&] { vp::unpack(m); });
  io[1] = k[0] ? !vp::detail::unpack(m).ok() : 1;
}
// k[0] primitives packed over a message that holds k[1] of them; afterwards k[2] is dropped from the front
H(h_pb_update) {
  irv_pb_init();
  ViewUpdate u, w;
  for (int i = 0; i < k[0]; ++i) u.primitives.push_back(rd_prim(x + KX * i, k + 8 + KK * i, b + KB * i));
  for (int i = 0; i < k[1]; ++i) w.primitives.push_back(rd_prim(x + KX * i, k + 8 + KK * i, b + KB * i));
  vp::ViewUpdate m;
  vp::pack(w, &m);
  vp::pack(u, &m);
  const ViewUpdate r = vp::unpack(m);
  io[0] = r.primitives.size();
  io[1] = m.primitive_size();
  io[2] = rejected([&] { vp::pack(u, nullptr); });
  for (int i = 0; i < io[0] && i < 4; ++i) wr_prim(r.primitives[i], o + KX * i, io + 8 + 8 * i, bo + KB * i);
}
// long updates (bounded native check): k[0] primitives over a message of k[1], payload curves of up to k[3] points; k[2] seed
#ifndef IRV_SYMBOLIC
#include "big.hh"
static ViewPrimitive some(Maker &mk, int most) {
  ViewPrimitive p{.id = mk.frame().id()};
  const Frame3 i = mk.frame(), f = mk.frame();
  switch (mk.n(0, 6)) {
    case 0: p.payload = mk.se3(i, f); break;
    case 1: p.payload = mk.so3(i, f); break;
    case 2: p.payload.emplace<2>(dmake<DCurve<SE3>>(mk, mk.n(0, most))); break;
    case 3: p.payload.emplace<3>(tmake<TCurve<SE3>>(mk, mk.n(0, most))); break;
    case 4: p.payload.emplace<4>(tmake<TCurve<SE3>>(mk, mk.n(0, most)), rt::Timestamp(rt::Duration(int64_t(mk.g())))); break;
    case 5: p.payload = i; break;
    default: p.payload = FV3(Eigen::Vector3d(mk.u(), mk.u(), mk.u()), f); break;
  }
  if (mk.n(0, 2)) {
    p.user_defined_name = mk.text(3000);
    if (p.user_defined_name->empty()) p.user_defined_name.reset();
  }
  p.file_name = mk.text(3000);
  p.line_number = int(mk.g());
  return p;
}
static double pgap(const ViewPrimitive &a, const ViewPrimitive &b) {
  if (a.id != b.id || a.payload.index() != b.payload.index() || a.user_defined_name != b.user_defined_name || a.file_name != b.file_name || a.line_number != b.line_number) return 1e9;
  switch (a.payload.index()) {
    case 0: return gap(std::get<0>(a.payload), std::get<0>(b.payload));
    case 1: return gap(std::get<1>(a.payload), std::get<1>(b.payload));
    case 2: return dgap(std::get<2>(a.payload), std::get<2>(b.payload));
    case 3: return tgap(std::get<3>(a.payload), std::get<3>(b.payload));
    case 4:
      if (std::get<4>(a.payload).start_time() != std::get<4>(b.payload).start_time()) return 1e9;
      return tgap(std::get<4>(a.payload).curve(), std::get<4>(b.payload).curve());
    case 5: return std::get<5>(a.payload).id() == std::get<5>(b.payload).id() ? 0. : 1e9;
    default: {
      const auto &v = std::get<6>(a.payload), &w = std::get<6>(b.payload);
      return v.frame().id() == w.frame().id() ? (v.vector() - w.vector()).norm() : 1e9;
    }
  }
}
H(h_pb_update_long) {
  irv_pb_init();
  Maker mk{std::mt19937_64(k[2])};
  ViewUpdate u, w;
  for (int i = 0; i < k[0]; ++i) u.primitives.push_back(some(mk, k[3]));
  for (int i = 0; i < k[1]; ++i) w.primitives.push_back(some(mk, k[3]));
  vp::ViewUpdate m;
  vp::pack(w, &m);
  vp::pack(u, &m);
  const ViewUpdate r = vp::unpack(m);
  io[0] = r.primitives.size();
  o[0] = 0.;
  io[1] = -1;
  for (int i = 0; i < io[0] && i < k[0]; ++i) {
    const double d = pgap(u.primitives[i], r.primitives[i]);
    if (d > 1e-6 && io[1] < 0) io[1] = i;
    o[0] = std::max(o[0], d);
  }
}
#endif
