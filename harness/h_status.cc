// Statuses and value-or-status results.
#include <cstdint>
#include <memory>
#include <string>
#include "harness_min.hh"
#include "resim/assert/assert.hh"
#include "resim/utils/status.hh"
#include "resim/utils/status_value.hh"
using resim::OKAY_STATUS;
using resim::Status;
using resim::StatusValue;
// texts: three error origins; b holds 6 NUL-terminated texts of 8 bytes each (file, message)
static Status err(const int64_t *line, const uint8_t *b, int j) {
  return Status::make_at_line(
      reinterpret_cast<const char *>(b) + 16 * j, static_cast<int>(line[j]), reinterpret_cast<const char *>(b) + 16 * j + 8);
}
// io[0] ok, io[1] length of what(), bo what()
static void wr(const Status &s, int64_t *io, uint8_t *bo) {
  io[0] = s.ok();
  const std::string w = s.what();
  io[1] = w.size();
  for (size_t i = 0; i < w.size() && i < 40; ++i) bo[i] = w[i];
}
// k[0..2] lines, k[3] number of operations, then (op, dst, src) each; dumps the three statuses
H(h_status) {
  Status s[3];
  for (int i = 0; i < k[3]; ++i) {
    const int op = k[4 + 3 * i], d = k[5 + 3 * i], r = k[6 + 3 * i];
    switch (op) {
      case 0: s[d] = Status{}; break;
      case 1: s[d] = err(k, b, r); break;
      case 2: s[d] = s[r]; break;
      case 3: s[d] = std::move(s[r]); break;
      case 4: {
        const Status t{s[r]};
        s[d] = t;
        break;
      }
      default: s[d] = OKAY_STATUS; break;
    }
  }
  for (int i = 0; i < 3; ++i) wr(s[i], io + 2 * i, bo + 40 * i);
}
// long texts: k[0] line, k[1] place of the message in b (file first), both NUL-terminated; how k[2]: 0 the status itself, 1 through a result
H(h_status_long) {
  const char *f = reinterpret_cast<const char *>(b);
  const Status s = Status::make_at_line(f, static_cast<int>(k[0]), f + k[1]);
  const std::string w = k[2] ? StatusValue<int64_t>{s}.status().what() : s.what();
  io[0] = s.ok();
  io[1] = w.size();
  for (size_t i = 0; i < w.size() && i < 1400; ++i) bo[i] = w[i];
}
// the same for value-or-status; values k[20..22]
template <class T>
struct Io;
template <>
struct Io<int64_t> {
  static int64_t in(int64_t v) { return v; }
  static int64_t out(int64_t v) { return v; }
};
template <>
struct Io<std::string> {
  static std::string in(int64_t v) {
    std::string s(24, 'x');
    for (int i = 0; i < 8; ++i) s[i] = static_cast<char>(v);
    return s;
  }
  static int64_t out(const std::string &s) { return s.size() == 24 && s[0] == s[7] && s[23] == 'x' ? s[0] : -1000; }
};
template <class T>
static void values(const int64_t *k, const uint8_t *b, int64_t *io, uint8_t *bo) {
  using SV = StatusValue<T>;
  int64_t thrown = 0;
  {
    SV s[3];
    for (int i = 0; i < k[3]; ++i) {
      const int op = k[4 + 3 * i], d = k[5 + 3 * i], r = k[6 + 3 * i];
      try {
        switch (op) {
          case 0: s[d] = SV{}; break;
          case 1: s[d] = err(k, b, r); break;
          case 2: s[d] = s[r]; break;
          case 3: s[d] = std::move(s[r]); break;
          case 4: {
            const SV t{s[r]};
            s[d] = t;
            break;
          }
          case 5: s[d] = SV{OKAY_STATUS}; break;
          case 6: s[d] = Io<T>::in(k[20 + r]); break;
          case 7: {
            const T v = Io<T>::in(k[20 + r]);
            s[d] = SV{v};
            break;
          }
          case 8: {
            SV t{std::move(s[r])};
            s[d] = std::move(t);
            break;
          }
          default: s[d] = s[r].status(); break;  // rejected when s[r] holds a value
        }
      } catch (const resim::AssertException &) {
        thrown += int64_t{1} << i;
      }
    }
    for (int i = 0; i < 3; ++i) {
      int64_t *q = io + 1 + 5 * i;
      const SV &c = s[i];
      q[0] = c.ok();
      wr(c.status(), q + 1, bo + 40 * i);
      try {
        q[3] = Io<T>::out(c.value());
      } catch (const resim::AssertException &) {
        q[3] = -2000;
      }
      try {
        const T m = std::move(s[i]).value();
        q[4] = Io<T>::out(m);
      } catch (const resim::AssertException &) {
        q[4] = -2000;
      }
    }
  }
  io[0] = thrown;
}
H(h_sv_int) { values<int64_t>(k, b, io, bo); }
H(h_sv_str) { values<std::string>(k, b, io, bo); }
// references: k[0..2] lines, k[3] 0: error, 1: reference
H(h_sv_ref) {
  int64_t v = k[4];
  StatusValue<int64_t &> r = k[3] ? StatusValue<int64_t &>{v} : StatusValue<int64_t &>{err(k, b, 0)};
  StatusValue<const int64_t &> c = k[3] ? StatusValue<const int64_t &>{v} : StatusValue<const int64_t &>{err(k, b, 1)};
  io[0] = r.ok();
  io[1] = c.ok();
  wr(r.status(), io + 2, bo);
  wr(c.status(), io + 4, bo + 40);
  int64_t thr = 0;
  try {
    int64_t &x = r.value();
    io[6] = &x == &v;
    x = k[5];
    io[7] = v;
  } catch (const resim::AssertException &) {
    ++thr;
  }
  try {
    io[8] = &c.value() == &v;
    io[9] = c.value();
  } catch (const resim::AssertException &) {
    ++thr;
  }
  io[10] = thr;
}
// move-only values
H(h_sv_move) {
  using U = std::unique_ptr<int64_t>;
  StatusValue<U> s = k[3] ? StatusValue<U>{std::make_unique<int64_t>(k[4])} : StatusValue<U>{err(k, b, 0)};
  io[0] = s.ok();
  StatusValue<U> t{std::move(s)};
  io[1] = t.ok();
  io[2] = 0;
  try {
    io[3] = *t.value();
    const U got = std::move(t).value();
    io[4] = *got;
  } catch (const resim::AssertException &) {
    io[2] = 1;
  }
}
// helpers; k[3] 0 error / 1 okay
namespace {
struct Probe {
  const int64_t *k;
  const uint8_t *b;
  int64_t evaluated = 0;
  int64_t after = 0;
  Status status() {
    ++evaluated;
    return k[3] ? OKAY_STATUS : err(k, b, 2);
  }
  StatusValue<int64_t> value() {
    ++evaluated;
    if (k[3] == 0) return err(k, b, 2);
    return k[4] + 0;
  }
  Status ret() {
    RETURN_IF_NOT_OK(status());
    after = 1;
    return err(k, b, 1);
  }
  StatusValue<int64_t> ret_value() {
    RETURN_IF_NOT_OK(status());
    after = 1;
    return k[5] + 0;
  }
  StatusValue<int64_t> assign() {
    const int64_t v = RETURN_OR_ASSIGN(value());
    after = 1;
    return v - 1;
  }
  Status assign_lvalue() {
    const StatusValue<int64_t> sv = value();
    const int64_t &v = RETURN_OR_ASSIGN(sv);
    after = &v == &sv.value();
    return OKAY_STATUS;
  }
  StatusValue<std::unique_ptr<int64_t>> owned() {
    ++evaluated;
    if (k[3] == 0) return err(k, b, 2);
    return std::make_unique<int64_t>(k[4]);
  }
  StatusValue<int64_t> assign_owned() {
    const std::unique_ptr<int64_t> v = RETURN_OR_ASSIGN(owned());
    after = 1;
    return *v + 0;
  }
  StatusValue<int64_t> assign_moved() {
    auto sv = owned();
    const std::unique_ptr<int64_t> v = RETURN_OR_ASSIGN(std::move(sv));
    after = sv.value() == nullptr;
    return *v + 0;
  }
  StatusValue<std::string> text() {
    ++evaluated;
    if (k[3] == 0) return err(k, b, 2);
    return std::string(24, 'q');
  }
  StatusValue<int64_t> assign_text() {
    const std::string &v = RETURN_OR_ASSIGN(text());
    after = v.size() == 24;
    return v[23] + k[4];
  }
  StatusValue<int64_t &> ref() {
    ++evaluated;
    if (k[3] == 0) return err(k, b, 2);
    return after;
  }
  StatusValue<int64_t> assign_ref() {
    int64_t &v = RETURN_OR_ASSIGN(ref());
    v = 1;
    return (&v == &after) + k[4];
  }
  void check() {
    const Status s = status();
    CHECK_STATUS_OK(s);
    after = 1;
  }
};
}  // namespace
H(h_status_macros) {
  int n = 0;
  auto put = [&](const Probe &p) {
    io[n++] = p.evaluated;
    io[n++] = p.after;
  };
  {
    Probe p{k, b};
    const Status s = p.ret();
    put(p);
    wr(s, io + n, bo);
    n += 2;
  }
  {
    Probe p{k, b};
    const StatusValue<int64_t> s = p.ret_value();
    put(p);
    wr(s.status(), io + n, bo + 40);
    n += 2;
    io[n++] = s.ok() ? s.value() : -2000;
  }
  {
    Probe p{k, b};
    const StatusValue<int64_t> s = p.assign();
    put(p);
    wr(s.status(), io + n, bo + 80);
    n += 2;
    io[n++] = s.ok() ? s.value() : -2000;
  }
  {
    Probe p{k, b};
    const Status s = p.assign_lvalue();
    put(p);
    wr(s, io + n, bo + 120);
    n += 2;
  }
  {
    Probe p{k, b};
    io[n] = 0;
    try {
      p.check();
    } catch (const resim::AssertException &) {
      io[n] = 1;
    }
    ++n;
    put(p);
  }
}
H(h_status_macros2) {
  int i = 0;
  auto run = [&](auto f) {
    Probe p{k, b};
    const StatusValue<int64_t> s = f(p);
    io[5 * i] = p.evaluated;
    io[5 * i + 1] = p.after;
    wr(s.status(), io + 5 * i + 2, bo + 40 * i);
    io[5 * i + 4] = s.ok() ? s.value() : -2000;
    ++i;
  };
  run([](Probe &p) { return p.assign_owned(); });
  run([](Probe &p) { return p.assign_moved(); });
  run([](Probe &p) { return p.assign_text(); });
  run([](Probe &p) { return p.assign_ref(); });
}
static int64_t made_line() { return __LINE__ + 2; }
static Status made() {
  return MAKE_STATUS("m");
}
#define MAKE_STATUS_HERE 1
H(h_status_macro_make) {
  using resim::Status;
  wr(made(), io, bo);
  io[2] = made_line();
  io[3] = std::string(__FILE__).size();
  const std::string f = __FILE__;
  io[4] = 1;
  const std::string w = made().what();
  for (size_t i = 0; i < f.size(); ++i)
    if (w[i + 1] != f[i]) io[4] = 0;
}
