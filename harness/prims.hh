// Reading and observing view primitives.
#pragma once
#include <optional>
#include <string>
#include <variant>
#include "irv.hh"
#include "jets.hh"
#include "resim/time/timestamp.hh"
#include "resim/visualization/view_primitive.hh"
namespace irv {
using resim::actor::state::Trajectory;
using resim::curves::DCurve;
using resim::curves::TCurve;
using resim::visualization::ViewPrimitive;
namespace rt = resim::time;
// One primitive: k: payload kind, has name, name length, file name length, line, start time; x: 26 numbers; b: id, into,
// from, 24 bytes of name, 24 bytes of file name
constexpr int KX = 26, KB = 96, KK = 6;
inline ViewPrimitive rd_prim(const double *x, const int64_t *k, const uint8_t *b) {
  ViewPrimitive p{.id = rd_frame(b).id()};
  const uint8_t *f = b + 16;
  switch (k[0]) {
    case 0: p.payload = rd_se3(x, f); break;
    case 1: p.payload = rd_so3(x, f); break;
    case 2: {
      DCurve<SE3> c;
      c.append(rd_se3(x, f));
      p.payload.emplace<2>(c);
      break;
    }
    case 3:
    case 4: {
      TCurve<SE3> c;
      c.append({x[24], rd_jet<TwoJetL<SE3>>(x, f)});
      if (k[0] == 3)
        p.payload.emplace<3>(c);
      else
        p.payload.emplace<4>(c, rt::Timestamp(rt::Duration(k[5])));
      break;
    }
    case 5: p.payload = rd_frame(f); break;
    default: p.payload = FV3(rd_v3(x), rd_frame(f)); break;
  }
  if (k[1]) p.user_defined_name = std::string(reinterpret_cast<const char *>(b + 48), k[2]);
  p.file_name = std::string(reinterpret_cast<const char *>(b + 72), k[3]);
  p.line_number = k[4];
  return p;
}
inline void wr_prim(const ViewPrimitive &p, double *o, int64_t *io, uint8_t *bo) {
  for (int i = 0; i < 16; ++i) bo[i] = p.id.id()[i];
  bo += 16;
  io[0] = p.payload.index();
  io[1] = p.user_defined_name.has_value();
  io[2] = io[1] ? p.user_defined_name->size() : 0;
  for (int i = 0; i < io[2] && i < 24; ++i) bo[32 + i] = (*p.user_defined_name)[i];
  io[3] = p.file_name.size();
  for (int i = 0; i < io[3] && i < 24; ++i) bo[56 + i] = p.file_name[i];
  io[4] = p.line_number;
  io[5] = 0;
  io[6] = 1;
  switch (p.payload.index()) {
    case 0: {
      const auto &g = std::get<0>(p.payload);
      wr(g, o);
      wr_frames(g, bo);
      break;
    }
    case 1: {
      const auto &g = std::get<1>(p.payload);
      wr(g, o);
      wr_frames(g, bo);
      break;
    }
    case 2: {
      const auto &c = std::get<2>(p.payload);
      io[6] = c.control_pts().size();
      if (io[6] == 1) {
        wr(*c.control_pts()[0].ref_from_control, o);
        wr_frames(*c.control_pts()[0].ref_from_control, bo);
      }
      break;
    }
    case 3:
    case 4: {
      const auto &c = p.payload.index() == 3 ? std::get<3>(p.payload) : std::get<4>(p.payload).curve();
      io[6] = c.control_pts().size();
      if (io[6] == 1) {
        jwr(c.control_pts()[0].point, o, bo);
        o[24] = c.control_pts()[0].time;
      }
      if (p.payload.index() == 4) io[5] = std::get<4>(p.payload).start_time().time_since_epoch().count();
      break;
    }
    case 5: wr_frame(std::get<5>(p.payload), bo); break;
    default: {
      const auto &v = std::get<6>(p.payload);
      wr_m(v.vector(), o);
      wr_frame(v.frame(), bo);
      break;
    }
  }
}
}  // namespace irv
