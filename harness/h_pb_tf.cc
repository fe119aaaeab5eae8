// Messages of identifiers, frames, transforms and framed vectors.
#include <string>
#include "irv.hh"
#include "pb.hh"
#include "resim/math/proto/matrix_to_proto.hh"
#include "resim/transforms/proto/frame_3.pb.h"
#include "resim/transforms/proto/frame_3_to_proto.hh"
#include "resim/transforms/proto/framed_vector_3.pb.h"
#include "resim/transforms/proto/framed_vector_3_to_proto.hh"
#include "resim/transforms/proto/liegroup_to_proto.hh"
#include "resim/transforms/proto/se3.pb.h"
#include "resim/transforms/proto/se3_to_proto.hh"
#include "resim/transforms/proto/so3.pb.h"
#include "resim/transforms/proto/so3_to_proto.hh"
#include "resim/utils/inout.hh"
#include "resim/utils/proto/uuid.pb.h"
#include "resim/utils/proto/uuid_to_proto.hh"
using namespace irv;
namespace tp = resim::transforms::proto;
namespace up = resim::proto;
static UUID rd_id(const uint8_t *b) { return rd_frame(b).id(); }
static void wr_id(const UUID &u, uint8_t *bo) {
  for (int i = 0; i < 16; ++i) bo[i] = u.id()[i];
}
template <class F> static int64_t rejected(F f) {
  try {
    f();
  } catch (const resim::AssertException &) {
    return 1;
  }
  return 0;
}
// The second identifier is packed over a message that already holds the first.
H(h_pb_uuid) {
  irv_pb_init();
  up::UUID m;
  up::pack(rd_id(b), &m);
  wr_id(up::unpack(m), bo);
  up::pack(rd_id(b + 16), &m);
  wr_id(up::unpack(m), bo + 16);
  const up::UUID c{m};
  wr_id(up::unpack(c), bo + 32);
}
H(h_pb_frame) {
  irv_pb_init();
  tp::Frame_3 m;
  tp::pack(rd_frame(b), &m);
  wr_frame(tp::unpack(m), bo);
  tp::pack(rd_frame(b + 16), &m);
  wr_frame(tp::unpack(m), bo + 16);
}
H(h_pb_fv) {
  irv_pb_init();
  tp::FramedVector_3 m;
  tp::pack(FV3(rd_v3(x), rd_frame(b)), &m);
  FV3 v = tp::unpack(m);
  wr_m(v.vector(), o);
  wr_frame(v.frame(), bo);
  tp::pack(FV3(rd_v3(x + 3), rd_frame(b + 16)), &m);
  v = tp::unpack(m);
  wr_m(v.vector(), o + 3);
  wr_frame(v.frame(), bo + 16);
}
template <class G, class M>
static void group(const double *x, const int64_t *k, const uint8_t *b, double *o, int64_t *io, uint8_t *bo) {
  irv_pb_init();
  constexpr int N = std::is_same_v<G, SO3> ? 9 : 12;
  G p, q;
  if constexpr (std::is_same_v<G, SO3>) {
    p = rd_so3(x, b);
    q = rd_so3(x + N, b + 32);
  } else {
    p = rd_se3(x, b);
    q = rd_se3(x + N, b + 32);
  }
  M m;
  tp::pack(q, &m);
  tp::pack(p, &m);
  G r = q;
  if constexpr (requires { tp::unpack_liegroup(m, resim::InOut<G>(r)); }) {
    if (k[0])
      tp::unpack_liegroup(m, resim::InOut<G>(r));
    else
      r = tp::unpack(m);
  } else {
    r = tp::unpack(m);
  }
  wr(r, o);
  wr_frames(r, bo);
  io[0] = r.is_framed();
  wr(G::exp(p.log(), p.into(), p.from()), o + N);
}
H(h_pb_so3) { group<SO3, tp::SO3>(x, k, b, o, io, bo); }
H(h_pb_se3) { group<SE3, tp::SE3>(x, k, b, o, io, bo); }
// null targets
H(h_pb_null) {
  irv_pb_init();
  io[0] = rejected([&] { up::pack(rd_id(b), nullptr); });
  io[1] = rejected([&] { tp::pack(rd_frame(b), nullptr); });
  io[2] = rejected([&] { tp::pack(FV3(rd_v3(x), rd_frame(b)), nullptr); });
  io[3] = rejected([&] { tp::pack(SO3::identity(), nullptr); });
  io[4] = rejected([&] { tp::pack(SE3::identity(), nullptr); });
  io[5] = rejected([&] { resim::math::proto::pack_matrix(rd_v3(x), nullptr); });
}
// malformed messages: k[0] numbers in the algebra; k[1] into, k[2] from: 0 missing, 1 the null frame, 2 a good frame,
// otherwise the first k - 3 characters of a good identifier
static void id_text(int64_t kind, const uint8_t *b, up::UUID *(*mut)(void *), void *msg) {
  if (kind == 0) return;
  if (kind == 1) {
    up::pack(UUID{}, mut(msg));
  } else if (kind == 2) {
    up::pack(rd_id(b), mut(msg));
  } else {
    mut(msg)->set_data(rd_id(b).to_string().substr(0, kind - 3));
  }
}
template <class G, class M>
static void bad(const double *x, const int64_t *k, const uint8_t *b, double *o, int64_t *io, uint8_t *bo) {
  irv_pb_init();
  M m;
  for (int i = 0; i < k[0]; ++i) m.add_algebra(x[i]);
  id_text(k[1], b, [](void *p) { return static_cast<M *>(p)->mutable_into()->mutable_id(); }, &m);
  id_text(k[2], b + 16, [](void *p) { return static_cast<M *>(p)->mutable_from()->mutable_id(); }, &m);
  io[0] = rejected([&] {
    const G r = tp::unpack(m);
    wr_frames(r, bo);
    wr_m(r.log(), o);
  });
}
H(h_pb_bad_so3) { bad<SO3, tp::SO3>(x, k, b, o, io, bo); }
H(h_pb_bad_se3) { bad<SE3, tp::SE3>(x, k, b, o, io, bo); }
H(h_pb_bad_fv) {
  irv_pb_init();
  tp::FramedVector_3 m;
  for (int i = 0; i < k[0]; ++i) m.add_algebra(x[i]);
  id_text(k[1], b, [](void *p) { return static_cast<tp::FramedVector_3 *>(p)->mutable_frame()->mutable_id(); }, &m);
  io[0] = rejected([&] {
    const FV3 r = tp::unpack(m);
    wr_frame(r.frame(), bo);
    wr_m(r.vector(), o);
  });
}
// k[0] numbers into an R x C matrix, packed R x C matrix
template <int R, int C>
static void matrix(const double *x, const int64_t *k, double *o, int64_t *io) {
  google::protobuf::RepeatedField<double> f;
  f.Add(x[0]);
  Eigen::Matrix<double, R, C> m, n;
  for (int i = 0; i < R; ++i)
    for (int j = 0; j < C; ++j) m(i, j) = x[i * C + j];
  resim::math::proto::pack_matrix(m, &f);
  io[1] = f.size();
  resim::math::proto::unpack_matrix(f, resim::InOut(n));
  wr_m(n, o);
  f.Clear();
  for (int i = 0; i < k[0]; ++i) f.Add(x[i]);
  io[0] = rejected([&] { resim::math::proto::unpack_matrix(f, resim::InOut(n)); });
}
H(h_pb_mat23) { matrix<2, 3>(x, k, o, io); }
H(h_pb_mat31) { matrix<3, 1>(x, k, o, io); }
H(h_pb_mat14) { matrix<1, 4>(x, k, o, io); }
