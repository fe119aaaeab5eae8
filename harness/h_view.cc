// The visualization front end: streaming objects into the view, several threads sharing one view.
// Lock functions are redirected (locks.hh, included first in every file of this build) to the functions below: they
// keep the set of held locks and, at every acquisition by the observed thread, let other threads act first.
#include <cstdint>
#include <functional>
#include <memory>
#include <mutex>
#include <optional>
#include <string>
#include <utility>
#include <vector>
#include <pthread.h>
#include "prims.hh"
#include "ghost.hh"
#include "resim/auth/auth_client_interface.hh"
#include "resim/utils/status.hh"
#include "resim/visualization/client/view_client.hh"
#include "resim/visualization/view_client_interface.hh"
#include "resim/visualization/view_update.hh"
#define private public
#include "resim/visualization/view.hh"
#undef private
using namespace irv;
using resim::Status;
using resim::visualization::View;
using resim::visualization::ViewClient;
using resim::visualization::ViewClientInterface;
using resim::visualization::ViewUpdate;
// ---- the HTTP client is not part of the offline build; the default client is replaced before anything is viewed
namespace resim::visualization {
ViewClient::ViewClient(std::string) {}
Status ViewClient::send_view_update(const ViewUpdate &) { return resim::OKAY_STATUS; }
}  // namespace resim::visualization
// ---- locks
#ifdef IRV_SYMBOLIC
extern "C" void irv_lock_event(void *m, int64_t held);
#else
static void irv_lock_event(void *, int64_t) {}
#endif
struct Paused {};
static int held, lock_errors, locks_taken, env_depth, env_locks, env_pause_at;
static void environment(int64_t n);
static const int64_t *plan;  // plan[i]: what other threads do just before the observed thread's i-th acquisition
static int plan_size;
static void acquire(void *m) {
  if (env_depth == 0) {
    const int i = locks_taken++;
    if (plan && i < plan_size) environment(plan[i]);
  } else if (env_locks++ == env_pause_at) {
    throw Paused{};  // the other thread is not scheduled again
  }
  if (held) ++lock_errors;  // deadlock
  ++held;
  irv_lock_event(m, 1);
}
static void release(void *m) {
  if (!held) ++lock_errors;
  --held;
  irv_lock_event(m, 0);
}
extern "C" {
int irv_mutex_lock(pthread_mutex_t *m) { return acquire(m), 0; }
int irv_mutex_unlock(pthread_mutex_t *m) noexcept { return release(m), 0; }
int irv_rwlock_wrlock(pthread_rwlock_t *m) { return acquire(m), 0; }
int irv_rwlock_rdlock(pthread_rwlock_t *m) { return acquire(m), 0; }
int irv_rwlock_unlock(pthread_rwlock_t *m) noexcept { return release(m), 0; }
}
// ---- the server's end: primitives in the order in which they arrive
static std::vector<ViewPrimitive> *arrived;
static int sends, fail_at, empty_sends;
struct Recorder : ViewClientInterface {
  Status send_view_update(const ViewUpdate &u) override {
    if (!held) ++lock_errors;
    if (sends++ == fail_at) return MAKE_STATUS("failed");
    for (const auto &p : u.primitives) arrived->push_back(p);
    if (u.primitives.empty()) ++empty_sends;
    return resim::OKAY_STATUS;
  }
};
// what another thread does: 0 nothing; 1 views an object; 2 views an object and is suspended before its second
// acquisition; 3 flushes; 4 and 5: two actions of kind 2, or 2 and then 3
static int env_views;
static void environment(int64_t n) {
  ++env_depth;
  auto one = [](int64_t a) {
    if (a == 0) return;
    env_locks = 0;
    env_pause_at = a == 2 ? 1 : -1;
    try {
      if (a == 3)
        View::get_instance().flush();
      else
        View::get_instance().view_object(resim::visualization::ViewObject<Frame3>(Frame3(), "other", 1 + env_views++));
    } catch (const Paused &) {
    }
  };
  if (n <= 3) {
    one(n);
  } else {
    one(2);
    one(n == 4 ? 2 : 3);
  }
  --env_depth;
}
static void start() {
  held = lock_errors = locks_taken = env_depth = 0;
  plan = nullptr;
  plan_size = 0;
  sends = empty_sends = env_views = 0;
  fail_at = -1;
  delete arrived;
  arrived = new std::vector<ViewPrimitive>;
  View::get_instance().set_client(std::make_unique<Recorder>());
  locks_taken = 0;
}
template <class T>
static void show(const T &obj, int64_t how, const std::string &name, const char *file, int line) {
  switch (how) {
    case 0: View::get_instance() << obj; break;
    case 1: resim::visualization::view_impl(obj, name, file, line); break;
    case 2: resim::visualization::view_impl(obj, file, line) << name; break;
    default: View::get_instance().view_object(resim::visualization::ViewObject<T>(obj, file, line)); break;
  }
}
static void show(const ViewPrimitive &p, int64_t how) {
  const std::string name = p.user_defined_name.value_or("");
  const char *f = p.file_name.c_str();
  switch (p.payload.index()) {
    case 0: show(std::get<0>(p.payload), how, name, f, p.line_number); break;
    case 1: show(std::get<1>(p.payload), how, name, f, p.line_number); break;
    case 2: show(std::get<2>(p.payload), how, name, f, p.line_number); break;
    case 3: show(std::get<3>(p.payload), how, name, f, p.line_number); break;
    case 4: show(std::get<4>(p.payload), how, name, f, p.line_number); break;
    case 5: show(std::get<5>(p.payload), how, name, f, p.line_number); break;
    default: show(std::get<6>(p.payload), how, name, f, p.line_number); break;
  }
}
extern "C" View *irv_view() { return &View::get_instance(); }
// one object, viewed in way k[6]
H(h_view_one) {
  start();
  show(rd_prim(x, k, b), k[6]);
  io[8] = arrived->size();
  io[9] = sends;
  io[10] = lock_errors;
  io[11] = held;
  if (io[8] == 1) wr_prim((*arrived)[0], o, io, bo);
  View::get_instance().flush();
  io[12] = arrived->size();
  io[13] = lock_errors + held;
}
// k[0] frames (line numbers 1001..) viewed one after the other, other threads act as k[4..] says;
// k[1]: the send that fails (-1: none); io[0..15] line numbers in order of arrival
H(h_view_sched) {
  start();
  plan = k + 4;
  plan_size = 8;
  fail_at = k[1];
  io[19] = io[20] = 0;
  for (int i = 0; i < k[0]; ++i) {
    try {
      View::get_instance().view_object(resim::visualization::ViewObject<Frame3>(Frame3(), "ours", 1001 + i));
    } catch (const resim::AssertException &) {
      io[19] |= 1 << i;
    }
    io[20] += held;
    io[24 + i] = arrived->size();
  }
  plan = nullptr;
  View::get_instance().flush();
  io[16] = arrived->size();
  io[17] = env_views;
  io[18] = lock_errors + held;
  for (int i = 0; i < io[16] && i < 16; ++i) io[i] = (*arrived)[i].line_number;
}
// no client: viewing and flushing are rejected and the lock is released
H(h_view_noclient) {
  start();
  View::get_instance().set_client(nullptr);
  io[0] = io[1] = 0;
  try {
    View::get_instance() << Frame3();
  } catch (const resim::AssertException &) {
    io[0] = 1;
  }
  io[2] = held + lock_errors;
  try {
    View::get_instance().flush();
  } catch (const resim::AssertException &) {
    io[1] = 1;
  }
  io[3] = held + lock_errors;
  // a client set later gets only what is viewed from then on
  start();
  View::get_instance().view_object(resim::visualization::ViewObject<Frame3>(Frame3(), "ours", 7));
  io[4] = arrived->size();
  io[5] = io[4] == 1 ? (*arrived)[0].line_number : 0;
}
// the VIEW macro itself: one object viewed at line io[0] of this file, in way k[6] (1: with a name, 2: name streamed)
template <class T>
static int64_t by_macro(const T &v, int64_t how, const std::string &name) {
  if (how == 1) {
    VIEW(v, name); return __LINE__;
  }
  VIEW(v) << name; return __LINE__;
}
H(h_view_macro) {
  start();
  const ViewPrimitive p = rd_prim(x, k, b);
  const std::string name = p.user_defined_name.value_or("");
  int64_t line = 0;
  std::visit([&](const auto &v) { line = by_macro(v, k[6], name); }, p.payload);
  io[8] = arrived->size();
  io[9] = sends;
  io[10] = lock_errors + held;
  io[11] = line;
  io[12] = 0;
  if (io[8] == 1) {
    wr_prim((*arrived)[0], o, io, bo);
    io[12] = (*arrived)[0].file_name == __FILE__;
  }
  // an argument is evaluated once
  int n = 0;
  VIEW((++n, Frame3()), "once");
  VIEW((++n, Frame3())) << "twice";
  io[13] = n;
  io[14] = arrived->size();
}
// the global view: objects streamed one after the other
H(h_view_chain) {
  start();
  const ViewPrimitive p = rd_prim(x, k, b), q = rd_prim(x + KX, k + KK, b + KB);
  std::visit([&](const auto &v, const auto &w) { resim::view << v << w; }, p.payload, q.payload);
  io[16] = arrived->size();
  io[17] = lock_errors + held;
  if (io[16] == 2) {
    wr_prim((*arrived)[0], o, io, bo);
    wr_prim((*arrived)[1], o + KX, io + 8, bo + KB);
  }
}
// many views of one thread, others acting as k[4..] says, repeatedly (bounded native check); every k[2]-th send fails (0: none)
#ifndef IRV_SYMBOLIC
H(h_view_many) {
  start();
  const int n = k[0];
  std::vector<int64_t> pl;
  for (int i = 0; i < 4 * n + 8; ++i) pl.push_back(k[4 + i % k[3]]);
  plan = pl.data();
  plan_size = pl.size();
  int64_t thrown = 0, missing = 0, twice = 0, order = 0, late = 0;
  std::vector<char> failed(n);
  for (int i = 0; i < n; ++i) {
    if (k[2] && i % k[2] == 0) fail_at = sends;
    try {
      View::get_instance().view_object(resim::visualization::ViewObject<Frame3>(Frame3(), "ours", 1000001 + i));
      if (failed[i] == 0) {
        bool in = false;
        for (int j = int(arrived->size()) - 1; j >= 0 && !in; --j) in = (*arrived)[j].line_number == 1000001 + i;
        if (!in) ++late;
      }
    } catch (const resim::AssertException &) {
      failed[i] = 1;
      ++thrown;
    }
  }
  plan = nullptr;
  fail_at = -1;
  View::get_instance().flush();
  std::vector<int> seen(n), env(env_views + 1);
  int last = 0, elast = 0;
  for (const auto &p : *arrived) {
    if (p.line_number > 1000000) {
      ++seen[p.line_number - 1000001];
      if (p.line_number <= last) ++order;
      last = p.line_number;
    } else {
      ++env[p.line_number];
      if (p.line_number <= elast) ++order;
      elast = p.line_number;
    }
  }
  for (int i = 0; i < n; ++i) {
    if (seen[i] > 1) ++twice;
    if (!seen[i] && !failed[i]) ++missing;
  }
  for (int i = 1; i <= env_views; ++i) {
    if (env[i] > 1) ++twice;
    if (!env[i] && !k[2]) ++missing;
  }
  io[0] = thrown;
  io[1] = missing;
  io[2] = twice;
  io[3] = order;
  io[4] = late;
  io[5] = lock_errors + held;
}
#endif
