// Stand-in for the cpr HTTP library (not installed): the interface the repository uses, with every POST handed to the
// harness's server.
#pragma once
#include <cstdint>
#include <initializer_list>
#include <string>
#include <utility>
#include <vector>
namespace cpr {
struct Text {
  std::string s;
  Text() = default;
  Text(std::string v) : s(std::move(v)) {}
  Text(const char *v) : s(v) {}
  const std::string &str() const { return s; }
  operator std::string() const { return s; }
  const char *c_str() const { return s.c_str(); }
  const char *data() const { return s.data(); }
  bool empty() const { return s.empty(); }
  size_t size() const { return s.size(); }
};
struct Url : Text {
  using Text::Text;
};
struct Body : Text {
  using Text::Text;
};
struct Bearer : Text {
  using Text::Text;
};
struct Timeout {
  int64_t ms;
  Timeout(int64_t m) : ms(m) {}
};
struct Header {
  std::vector<std::pair<std::string, std::string>> v;
  Header() = default;
  Header(std::initializer_list<std::pair<std::string, std::string>> l) : v(l) {}
  std::string &operator[](const std::string &n) {
    for (auto &p : v)
      if (p.first == n) return p.second;
    v.emplace_back(n, std::string());
    return v.back().second;
  }
  template <class K, class U>
  void emplace(K &&n, U &&t) {
    v.emplace_back(std::forward<K>(n), std::forward<U>(t));
  }
  bool empty() const { return v.empty(); }
  size_t size() const { return v.size(); }
  auto begin() const { return v.begin(); }
  auto end() const { return v.end(); }
};
struct Error {
  int code = 0;
  std::string message;
  explicit operator bool() const { return code != 0; }
};
struct Response {
  std::string text;
  long status_code = 0;
  Header header;
  Url url;
  Error error;
  std::string reason, status_line;
  double elapsed = 0;
};
struct Request {
  std::string url, body, bearer;
  bool has_bearer = false;
  Header header;
  void set(const Url &u) { url = u.s; }
  void set(const Body &u) { body = u.s; }
  void set(const Bearer &u) {
    bearer = u.s;
    has_bearer = true;
  }
  void set(const Header &h) { header = h; }
  void set(const Timeout &) {}
};
Response irv_server(const Request &r);
template <class... A>
Response Post(const A &...a) {
  Request r;
  (r.set(a), ...);
  return irv_server(r);
}
}  // namespace cpr
