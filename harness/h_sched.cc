#include <cstdint>
#include "harness_min.hh"
#include "resim/assert/assert.hh"
#include "resim/time/event_schedule.hh"
namespace rt = resim::time;
template <class S>
static void top(const S &s, int64_t *io) {
  io[0] = s.size();
  if (s.size() > 0) {
    io[1] = s.top_event().time.time_since_epoch().count();
    io[2] = s.top_event().payload;
  } else {
    io[1] = io[2] = 0;
  }
}
// k[0] operations; operation i: k[1+3i] 0 remove / 1 schedule(time k[2+3i], payload k[3+3i]); after each: io[4i] thrown, size, top time, top payload
template <class S>
static void ops(const int64_t *k, int64_t *io) {
  S s;
  for (int i = 0; i < k[0]; ++i) {
    io[4 * i] = 0;
    if (k[1 + 3 * i] == 0) {
      s.pop_event();
    } else {
      try {
        s.schedule_event(rt::Timestamp(rt::Duration(k[2 + 3 * i])), k[3 + 3 * i]);
      } catch (const resim::AssertException &) {
        io[4 * i] = 1;
      }
    }
    top(s, io + 4 * i + 1);
  }
}
H(h_sched) { ops<rt::EventSchedule<int64_t>>(k, io); }
H(h_sched8) { ops<rt::EventSchedule<int64_t, uint8_t>>(k, io); }
// lifetime limit of an 8-bit counter: k[0] schedules (payload i, time k[1]) with a removal after every k[2]-th one
H(h_sched_limit) {
  rt::EventSchedule<int64_t, uint8_t> s;
  int64_t thrown = 0, popped = 0;
  for (int64_t i = 0; i < k[0]; ++i) {
    try {
      s.schedule_event(rt::Timestamp(rt::Duration(k[1])), i);
    } catch (const resim::AssertException &) {
      ++thrown;
    }
    if (k[2] && (i + 1) % k[2] == 0 && s.size()) {
      s.pop_event();
      ++popped;
    }
  }
  io[0] = thrown;
  io[1] = s.size();
  io[2] = popped;
  io[3] = 0;
  while (s.size()) {  // first in, first out
    if (s.top_event().payload != popped + io[3] || s.top_event().time.time_since_epoch().count() != k[1]) break;
    ++io[3];
    s.pop_event();
  }
  io[4] = s.size();
  io[5] = decltype(s)::MAX_EVENTS;
}
// single steps on an object held by the contract (symbolic runs only)
#ifdef IRV_SYMBOLIC
#include <new>
extern "C" {
#define STEPS(n, S) \
  int64_t irv_sc_size_##n() { return sizeof(S); } \
  void irv_sc_new_##n(void *p) { new (p) S; } \
  int64_t irv_sc_add_##n(S *s, int64_t t, int64_t v) { \
    try { \
      s->schedule_event(rt::Timestamp(rt::Duration(t)), v); \
    } catch (const resim::AssertException &) { \
      return 1; \
    } \
    return 0; \
  } \
  void irv_sc_pop_##n(S *s) { s->pop_event(); } \
  int64_t irv_sc_count_##n(const S *s) { return s->size(); } \
  int64_t irv_sc_time_##n(const S *s) { return s->top_event().time.time_since_epoch().count(); } \
  int64_t irv_sc_value_##n(const S *s) { return s->top_event().payload; }
using Sched64 = rt::EventSchedule<int64_t>;
using Sched8 = rt::EventSchedule<int64_t, uint8_t>;
STEPS(64, Sched64)
STEPS(8, Sched8)
}
#endif
#ifndef IRV_SYMBOLIC
#include <cstring>
#include <memory>
#include <new>
// A schedule through which k[0] events have already passed. Scheduling and removing one event is seen to change a single word
// of the object, by one: that word is advanced to k[0], as k[0] such rounds would do. Then k[1] events (time, payload) are
// scheduled and all are removed. io[0] whether such a word was found; io[1+i] thrown; then per removal time, payload; last size
H(h_sched_far) {
  using S = rt::EventSchedule<int64_t>;
  constexpr size_t W = sizeof(S) / 8;
  auto s = std::make_unique<S>();
  uint64_t a[W], c[W];
  const auto round = [&] {
    s->schedule_event(rt::Timestamp(), 0);
    s->pop_event();
  };
  round();
  const int n = k[1];
  for (int i = 0; i <= 3 * n + 1; ++i) io[i] = 0;
  int at = -1, changed = 0;
  for (int r = 0; r < 3; ++r) {
    std::memcpy(a, static_cast<const void *>(s.get()), sizeof a);
    round();
    std::memcpy(c, static_cast<const void *>(s.get()), sizeof c);
    changed = 0;
    for (size_t i = 0; i < W; ++i) {
      if (a[i] == c[i]) continue;
      ++changed;
      if (c[i] != a[i] + 1 || (at >= 0 && at != (int)i)) return;
      at = i;
    }
    if (changed != 1) return;
  }
  io[0] = 1;
  std::memcpy(reinterpret_cast<char *>(s.get()) + 8 * at, &k[0], 8);
  for (int i = 0; i < n; ++i) {
    try {
      s->schedule_event(rt::Timestamp(rt::Duration(k[2 + 2 * i])), k[3 + 2 * i]);
    } catch (const resim::AssertException &) {
      io[1 + i] = 1;
    }
  }
  int64_t *p = io + 1 + n;
  for (int i = 0; s->size() > 0 && i < n; ++i, p += 2) {
    p[0] = s->top_event().time.time_since_epoch().count();
    p[1] = s->top_event().payload;
    s->pop_event();
  }
  io[3 * n + 1] = s->size();
}
// k[0] events, the i-th at time (i * k[1]) % k[2] with payload i; io[0]: how many come out in order of (time, payload), io[1]: left
H(h_sched_many) {
  rt::EventSchedule<int64_t> s;
  for (int64_t i = 0; i < k[0]; ++i) s.schedule_event(rt::Timestamp(rt::Duration(i * k[1] % k[2])), i);
  int64_t t = -1, v = -1;
  io[0] = 0;
  while (s.size() > 0) {
    const auto e = s.top_event();
    const int64_t et = e.time.time_since_epoch().count();
    if (!(et > t || (et == t && e.payload > v)) || et != e.payload * k[1] % k[2]) break;
    t = et, v = e.payload, ++io[0];
    s.pop_event();
  }
  io[1] = s.size();
}
#endif
