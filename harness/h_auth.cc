// The device-code authentication client and the view client, against a scripted server (cpr's stand-in), a clock that
// only the server's latency and the client's own sleeping advance, and a directory of their own.
#include <google/protobuf/util/json_util.h>
#include <time.h>
#include <chrono>
#include <cstdint>
#include <cstdlib>
#include <filesystem>
#include <fstream>
#include <memory>
#include <sstream>
#include <string>
#include <utility>
#include "cpr/cpr.h"
#include "harness_min.hh"
#include "resim/assert/assert.hh"
#include "resim/auth/auth_client_interface.hh"
#include "resim/auth/device_code_client.hh"
#include "resim/auth/proto/auth_messages.pb.h"
using resim::auth::DeviceCodeClient;
namespace au = resim::auth::proto;
namespace {
constexpr int T = 24;      // room for a text
constexpr int POLLS = 6;   // scripted polls
struct Server {
  // script
  const int64_t *k;
  const uint8_t *b;
  // the conversation
  int64_t now;
  int codes, polls, bad;  // requests for a device code, polls, requests that are neither
  std::string last_code[4], last_poll[4], header[2];
  int kind;               // what is being answered: 1 code, 2 poll
  int poll;               // which poll
};
Server *svp;
#define sv (*svp)
std::string text(const uint8_t *b, int64_t n) {
  std::string s;
  for (int64_t i = 0; i < n; ++i) s.push_back(static_cast<char>(b[i]));
  return s;
}
void give(const std::string &s, int64_t *n, uint8_t *bo, size_t cap = T) {
  *n = static_cast<int64_t>(s.size());
  for (size_t i = 0; i < s.size() && i < cap; ++i) bo[i] = static_cast<uint8_t>(s[i]);
}
// script: k[0] status of the device-code answer, k[1] expires_in, k[2] interval, k[3] latency, k[4] readable?
//         poll i at k + 8 + 4 i: error?, token length (-1: no token field), latency, readable?
// texts:  b: device code (4), tokens from b + T on
const int64_t *poll_script(int i) { return sv.k + 8 + 4 * (i < POLLS ? i : POLLS - 1); }
const uint8_t *poll_token(int i) { return sv.b + T * (1 + (i < POLLS ? i : POLLS - 1)); }
void fill(au::DeviceCodeResponse *m) {
  m->set_device_code(text(sv.b, 4));
  m->set_user_code("user");
  m->set_verification_uri("u");
  m->set_verification_uri_complete("uc");
  m->set_expires_in(static_cast<int32_t>(sv.k[1]));
  m->set_interval(static_cast<int32_t>(sv.k[2]));
}
void fill(au::PollingResponse *m, int i) {
  const int64_t *p = poll_script(i);
  if (i >= POLLS || p[0]) {
    m->set_error("authorization_pending");
    m->set_error_description("d");
  }
  if (i < POLLS && p[1] >= 0) {
    m->set_access_token(text(poll_token(i), p[1]));
    m->set_expires_in(86400);
    m->set_token_type("Bearer");
  }
}
bool readable() { return sv.kind == 1 ? sv.k[4] : sv.poll >= POLLS || poll_script(sv.poll)[3]; }
template <class M>
bool is(const google::protobuf::Message &m) {
  M x;
  return *reinterpret_cast<void *const *>(&m) == *reinterpret_cast<void *const *>(&x);
}
void received(const google::protobuf::Message &m) {
  if (is<au::DeviceCodeRequest>(m)) {
    const auto &r = static_cast<const au::DeviceCodeRequest &>(m);
    sv.last_code[1] = r.client_id();
    sv.last_code[2] = r.scope();
    sv.last_code[3] = r.audience();
  } else if (is<au::PollingRequest>(m)) {
    const auto &r = static_cast<const au::PollingRequest &>(m);
    sv.last_poll[1] = r.grant_type();
    sv.last_poll[2] = r.device_code();
    sv.last_poll[3] = r.client_id();
  } else {
    ++sv.bad;
  }
}
bool ends_with(const std::string &s, const char *e) {
  const std::string t(e);
  return s.size() >= t.size() && s.compare(s.size() - t.size(), t.size(), t) == 0;
}
}  // namespace
namespace cpr {
Response irv_server(const Request &r) {
  Response a;
  const bool code = ends_with(r.url, "/oauth/device/code");
  sv.kind = code ? 1 : 2;
  if (!code && !ends_with(r.url, "/oauth/token")) ++sv.bad;
  for (const auto &h : r.header.v)
    if (h.first == "Content-Type") {
      sv.header[0] = h.first;
      sv.header[1] = h.second;
    }
#ifndef IRV_SYMBOLIC
  // the real text of the request
  if (code) {
    au::DeviceCodeRequest m;
    if (google::protobuf::util::JsonStringToMessage(r.body, &m).ok()) received(m); else ++sv.bad;
  } else {
    au::PollingRequest m;
    if (google::protobuf::util::JsonStringToMessage(r.body, &m).ok()) received(m); else ++sv.bad;
  }
#else
  if (r.body.size() != 1 || r.body[0] != (code ? 'c' : 'p')) ++sv.bad;
#endif
  if (code) {
    ++sv.codes;
    sv.last_code[0] = r.url;
    sv.now += sv.k[3];
    a.status_code = static_cast<long>(sv.k[0]);
  } else {
    sv.poll = sv.polls++;
    sv.last_poll[0] = r.url;
    sv.now += sv.poll < POLLS ? poll_script(sv.poll)[2] : (int64_t{1} << 61);
    a.status_code = sv.poll < POLLS && !poll_script(sv.poll)[0] ? 200 : 403;
  }
#ifndef IRV_SYMBOLIC
  if (!readable()) {
    a.text = "{ not json";
  } else if (code) {
    au::DeviceCodeResponse m;
    fill(&m);
    google::protobuf::util::MessageToJsonString(m, &a.text);
  } else {
    au::PollingResponse m;
    fill(&m, sv.poll);
    google::protobuf::util::MessageToJsonString(m, &a.text);
  }
#endif
  return a;
}
}  // namespace cpr
#ifdef IRV_SYMBOLIC
namespace google::protobuf::util::status_internal {
Status::Status() : error_code_(StatusCode::kOk) {}
Status::Status(StatusCode c, StringPiece) : error_code_(c) {}
Status::Status(const Status &o) : error_code_(o.error_code_), error_message_(o.error_message_) {}
Status &Status::operator=(const Status &o) {
  error_code_ = o.error_code_;
  error_message_ = o.error_message_;
  return *this;
}
}  // namespace google::protobuf::util::status_internal
// JSON: a request is recorded when it is formatted; an answer is the scripted message
namespace google::protobuf::util {
util::Status MessageToJsonString(const Message &m, std::string *out, const JsonPrintOptions &) {
  received(m);
  *out = is<au::DeviceCodeRequest>(m) ? "c" : "p";
  return util::Status();
}
util::Status JsonStringToMessage(StringPiece, Message *m, const JsonParseOptions &) {
  if (!readable()) return util::Status(util::status_internal::StatusCode::kInvalidArgument, "unreadable");
  if (sv.kind == 1) {
    if (!is<au::DeviceCodeResponse>(*m)) {
      ++sv.bad;
      return util::Status();
    }
    auto *r = static_cast<au::DeviceCodeResponse *>(m);
    r->Clear();
    fill(r);
  } else {
    if (!is<au::PollingResponse>(*m)) {
      ++sv.bad;
      return util::Status();
    }
    auto *r = static_cast<au::PollingResponse *>(m);
    r->Clear();
    fill(r, sv.poll);
  }
  return util::Status();
}
}  // namespace google::protobuf::util
#endif
// the clock
namespace std::chrono {
inline namespace _V2 {
steady_clock::time_point steady_clock::now() noexcept { return time_point(duration(sv.now)); }
}  // namespace _V2
}  // namespace std::chrono
extern "C" int nanosleep(const struct timespec *t, struct timespec *) {
  sv.now += t->tv_sec * 1000000000 + t->tv_nsec;
  return 0;
}
namespace {
std::string *scratch;
int outside;  // attempts to remove something outside the scratch directory
}
#ifndef IRV_SYMBOLIC
#include <unistd.h>
// Deleting is confined to the scratch directory, whatever path the code computes.
extern "C" int irv_really_remove(const char *p) { return ::remove(p); }
namespace {
bool inside(const std::filesystem::path &p) {
  const std::string s = p.lexically_normal().string();
  return scratch && s.size() > scratch->size() && s.compare(0, scratch->size() + 1, *scratch + "/") == 0;
}
std::uintmax_t wipe(const std::filesystem::path &p) {
  if (!inside(p)) {
    ++outside;
    return 0;
  }
  std::uintmax_t n = 0;
  std::error_code e;
  if (std::filesystem::is_directory(std::filesystem::symlink_status(p, e))) {
    std::vector<std::filesystem::path> v;
    for (const auto &x : std::filesystem::directory_iterator(p)) v.push_back(x.path());
    for (const auto &x : v) n += wipe(x);
  }
  return n + (irv_really_remove(p.c_str()) == 0);
}
}  // namespace
namespace std::filesystem {
uintmax_t remove_all(const path &p) { return wipe(p); }
uintmax_t remove_all(const path &p, error_code &e) { return e.clear(), wipe(p); }
bool remove(const path &p) { return inside(p) ? irv_really_remove(p.c_str()) == 0 : (++outside, false); }
bool remove(const path &p, error_code &e) noexcept { return e.clear(), inside(p) ? irv_really_remove(p.c_str()) == 0 : (++outside, false); }
}  // namespace std::filesystem
#endif
extern "C" {
// k: [0] status [1] expires_in [2] interval [3] latency [4] readable; polls 8 + 4 i; then at 32: number of operations, operations (up to
//    5), [38] token file present, [39] its length, [40] length of the replacement, [41] directory present
// b: device code, tokens T (1 + i), at 7 T the file, at 8 T the replacement, at 9 T the configuration: server, client, scope, audience (4 each)
// io: per operation 3 i: outcome (0 not reached, 1 done, 2 thrown), length, number of requests so far; at 15: codes, polls, bad, file present, its
//    length, outside; at 21: lengths of the recorded texts (10)
// bo: per operation T i; at 5 T the file; at 6 T.. the recorded texts (10)
void h_auth(const double *, const int64_t *k, const uint8_t *b, double *, int64_t *io, uint8_t *bo) {
  delete svp;
  svp = new Server{};
  sv.k = k;
  sv.b = b;
  outside = 0;
#ifdef IRV_SYMBOLIC
  const std::string dir = "/s";
#else
  char tmpl[] = "/tmp/irv_auth_XXXXXX";
  const std::string dir = mkdtemp(tmpl);
#endif
  scratch = new std::string(dir);
  const std::string home = dir + "/d", file = home + "/tok";
  const auto put = [&](const std::string &s) {
    std::filesystem::create_directories(std::filesystem::path(home));
    std::ofstream f;
    f.open(std::filesystem::path(file));
    f << s;
    f.close();
  };
  if (k[41]) {
    std::filesystem::create_directories(std::filesystem::path(home));
    std::ofstream f;
    f.open(std::filesystem::path(home + "/other"));
    f << "x";
    f.close();
  }
  if (k[38]) put(text(b + 7 * T, k[39]));
  const auto make = [&] {
    DeviceCodeClient::Config c;
    c.server = text(b + 9 * T, 4);
    c.client_id = text(b + 9 * T + 4, 4);
    c.scope = text(b + 9 * T + 8, 4);
    c.audience = text(b + 9 * T + 12, 4);
    c.token_path = std::filesystem::path(file);
    return std::make_unique<DeviceCodeClient>(std::move(c));
  };
  auto client = make();
  for (int i = 0; i < k[32]; ++i) {
    io[3 * i] = 0;
    try {
      switch (k[33 + i]) {
        case 1: give(client->get_jwt(), io + 3 * i + 1, bo + T * i); break;
        case 2: client->refresh(); break;
        case 3: client = make(); break;
        case 4: put(text(b + 8 * T, k[40])); break;
        case 5: std::filesystem::remove_all(std::filesystem::path(file)); break;
      }
      io[3 * i] = 1;
    } catch (const resim::AssertException &) {
      io[3 * i] = 2;
    }
    io[3 * i + 2] = sv.codes + sv.polls;
  }
  io[15] = sv.codes;
  io[16] = sv.polls;
  io[17] = sv.bad;
  io[18] = std::filesystem::exists(std::filesystem::path(file));
  io[19] = 0;
  if (io[18]) {
    std::ostringstream s;
    std::ifstream f{std::filesystem::path(file)};
    s << f.rdbuf();
    give(s.str(), io + 19, bo + 5 * T);
  }
  io[20] = outside + (k[41] && !std::filesystem::exists(std::filesystem::path(home + "/other")));
  for (int i = 0; i < 4; ++i) give(sv.last_code[i], io + 21 + i, bo + (6 + 2 * i) * T, 2 * T);
  for (int i = 0; i < 4; ++i) give(sv.last_poll[i], io + 25 + i, bo + (14 + 2 * i) * T, 2 * T);
  for (int i = 0; i < 2; ++i) give(sv.header[i], io + 29 + i, bo + (22 + 2 * i) * T, 2 * T);
  client.reset();
  std::filesystem::remove_all(std::filesystem::path(home));
#ifndef IRV_SYMBOLIC
  rmdir(dir.c_str());
#endif
  delete scratch;
  scratch = nullptr;
}
}
