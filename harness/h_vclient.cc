// The HTTP view client against a scripted server and a scripted authentication client.
#include <google/protobuf/util/json_util.h>
#include <cstdint>
#include <cstdlib>
#include <memory>
#include <string>
#include <utility>
#include <vector>
#include "cpr/cpr.h"
#include "prims.hh"
#include "ghost.hh"
#include "pb.hh"
#include "resim/auth/auth_client_interface.hh"
#include "resim/utils/status.hh"
#include "resim/visualization/client/proto/view_client.pb.h"
#include "resim/visualization/client/view_client.hh"
#include "resim/visualization/proto/view_update.pb.h"
#include "resim/visualization/proto/view_update_to_proto.hh"
#include "resim/visualization/view_update.hh"
using namespace irv;
using resim::visualization::ViewClient;
using resim::visualization::ViewUpdate;
namespace vp = resim::visualization::proto;
namespace {
constexpr int T = 48;
struct Sent {
  std::string url, bearer, type;
  bool has_bearer;
  int body;  // 0 none, 1 + n: the n-th message serialised, -1 unreadable
  std::vector<UUID> update;  // identifiers of the primitives
};
struct World {
  const int64_t *k;
  const uint8_t *b;
  std::vector<Sent> posts;
  std::vector<std::vector<UUID>> serialised;
  int refreshes, tokens;
};
World *w;
std::string text(const uint8_t *b, int64_t n) {
  std::string s;
  for (int64_t i = 0; i < n; ++i) s.push_back(static_cast<char>(b[i]));
  return s;
}
std::vector<UUID> content(const vp::ViewUpdate &m) {
  std::vector<UUID> v;
  const ViewUpdate u = vp::unpack(m);
  for (const auto &p : u.primitives) v.push_back(p.id);
  return v;
}
struct Auth : resim::auth::AuthClientInterface {
  std::string get_jwt() override {
    ++w->tokens;
    return text(w->b + 4 * w->refreshes, 4);
  }
  void refresh() override { ++w->refreshes; }
};
}  // namespace
namespace cpr {
Response irv_server(const Request &r) {
  Sent p{r.url, r.bearer, "", r.has_bearer, 0, {}};
  for (const auto &h : r.header.v)
    if (h.first == "Content-Type") p.type = h.second;
  if (!r.body.empty()) {
#ifdef IRV_SYMBOLIC
    p.body = r.body.size() == 2 && r.body[0] == '#' ? 1 + (r.body[1] - '0') : -1;
    if (p.body > 0) p.update = w->serialised[p.body - 1];
#else
    vp::ViewUpdate m;
    if (m.ParseFromString(r.body)) {
      p.body = 1;
      p.update = content(m);
    } else {
      p.body = -1;
    }
#endif
  }
  Response a;
  const size_t i = w->posts.size();
  a.status_code = static_cast<long>(i < 12 ? w->k[i] : 500);
  w->posts.push_back(std::move(p));
  a.text = text(w->b + 64, w->k[12]);
  return a;
}
}  // namespace cpr
#ifdef IRV_SYMBOLIC
namespace google::protobuf::util {
namespace status_internal {
Status::Status() : error_code_(StatusCode::kOk) {}
Status::Status(StatusCode c, StringPiece) : error_code_(c) {}
Status::Status(const Status &o) : error_code_(o.error_code_), error_message_(o.error_message_) {}
}  // namespace status_internal
util::Status MessageToJsonString(const Message &, std::string *, const JsonPrintOptions &) { return util::Status(); }
util::Status JsonStringToMessage(StringPiece, Message *, const JsonParseOptions &) { return util::Status(); }
}  // namespace google::protobuf::util
namespace google::protobuf {
// serialising: the message is recorded, its text is a reference to it
std::string MessageLite::SerializeAsString() const {
  w->serialised.push_back(content(static_cast<const vp::ViewUpdate &>(*this)));
  std::string s = "#";
  s.push_back(static_cast<char>('0' + w->serialised.size() - 1));
  return s;
}
bool MessageLite::SerializeToString(std::string *s) const { return *s = SerializeAsString(), true; }
}  // namespace google::protobuf
#endif
// k: status of each answer (12), [12] length of the session text, [13] length of the base address, [14] number of updates, [15 + u] number of
//    primitives of update u (up to 4); b: tokens (4 each, by number of refreshes), at 64 the session text, at 96 the base address, at 128
//    the identifiers of the primitives (16 each, two per update)
// io: per update: 0 not sent, 1 okay, 2 bad, 3 thrown; at 4: number of posts, refreshes; from 8 on per post (8): lengths of address, token, type,
//    has token, body, primitives; bo: per post 256: address, at 48 token, at 64 type, at 128 identifiers
H(h_vclient) {
  irv_pb_init();
#ifndef IRV_SYMBOLIC
  setenv("HOME", "/nonexistent", 0);
#endif
  delete w;
  w = new World{k, b, {}, {}, 0, 0};
  ViewClient client(text(b + 96, k[13]));
  client.set_auth_client(std::make_unique<Auth>());
  for (int u = 0; u < 4; ++u) io[u] = 0;
  for (int u = 0; u < k[14]; ++u) {
    ViewUpdate up;
    for (int i = 0; i < k[15 + u]; ++i) {
      resim::visualization::ViewPrimitive p{.id = rd_frame(b + 128 + 32 * u + 16 * i).id()};
      p.payload = Frame3(p.id);
      p.file_name = "f";
      p.line_number = 1;
      up.primitives.push_back(p);
    }
    try {
      const resim::Status s = client.send_view_update(up);
      io[u] = s.ok() ? 1 : 2;
    } catch (const resim::AssertException &) {
      io[u] = 3;
    }
  }
  io[4] = static_cast<int64_t>(w->posts.size());
  io[5] = w->refreshes;
  for (size_t i = 0; i < w->posts.size() && i < 10; ++i) {
    const Sent &p = w->posts[i];
    int64_t *q = io + 8 + 8 * i;
    uint8_t *o2 = bo + 256 * i;
    q[0] = p.url.size();
    for (size_t j = 0; j < p.url.size() && j < 48; ++j) o2[j] = p.url[j];
    q[1] = p.bearer.size();
    for (size_t j = 0; j < p.bearer.size() && j < 16; ++j) o2[48 + j] = p.bearer[j];
    q[2] = p.type.size();
    for (size_t j = 0; j < p.type.size() && j < 64; ++j) o2[64 + j] = p.type[j];
    q[3] = p.has_bearer;
    q[4] = p.body > 0 ? 1 : p.body;
    q[5] = p.update.size();
    for (size_t j = 0; j < p.update.size() && j < 4; ++j)
      for (int l = 0; l < 16; ++l) o2[128 + 16 * j + l] = p.update[j].id()[l];
  }
}
