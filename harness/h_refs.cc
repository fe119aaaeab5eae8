// Reference wrappers and variant matching.
#include <cstdint>
#include <memory>
#include <string>
#include <variant>
#include "harness_min.hh"
#include "resim/assert/assert.hh"
#include "resim/utils/inout.hh"
#include "resim/utils/match.hh"
#include "resim/utils/nullable_reference.hh"
using resim::InOut;
using resim::NullableReference;
using resim::match;
namespace {
struct Two {
  int64_t p;
  int64_t q;
  int64_t sum() const { return p - q; }
  void set(int64_t v) { q = v; }
};
}  // namespace
// nullable reference to one of three objects (k[0..5]); k[6] which (3: none); writes k[7] through * and k[8] through ->
H(h_nref) {
  Two t[3] = {{k[0], k[1]}, {k[2], k[3]}, {k[4], k[5]}};
  const int w = k[6];
  const NullableReference<Two> r = w < 3 ? NullableReference<Two>{t[w]} : NullableReference<Two>{};
  NullableReference<Two> c{r};  // copies refer to the same object
  NullableReference<Two> d;
  d = c;
  const NullableReference<Two> *all[3] = {&r, &c, &d};
  int n = 0;
  for (auto *p : all) {
    io[n++] = p->has_value();
    io[n++] = static_cast<bool>(*p);
    int64_t thr = 0;
    try {
      Two &x = **p;
      io[n++] = &x - t;
      io[n++] = x.p;
    } catch (const resim::AssertException &) {
      ++thr;
      n += 2;
      io[n - 1] = io[n - 2] = -1;
    }
    try {
      io[n++] = (*p)->sum();
    } catch (const resim::AssertException &) {
      ++thr;
      io[n++] = -1;
    }
    io[n++] = thr;
  }
  int64_t thr = 0;
  try {
    (*r).p = k[7];
  } catch (const resim::AssertException &) {
    ++thr;
  }
  try {
    c->set(k[8]);
  } catch (const resim::AssertException &) {
    ++thr;
  }
  io[n++] = thr;
  for (auto &x : t) {
    io[n++] = x.p;
    io[n++] = x.q;
  }
  // rebinding
  d = NullableReference<Two>{t[0]};
  io[n++] = d.has_value();
  io[n++] = &*d - t;
  io[n++] = w < 3 ? &*r - t : -1;
  d = resim::null_reference<Two>;
  io[n++] = d.has_value();
}
// const element and reference to a primitive
H(h_nref_const) {
  const int64_t a = k[0];
  int64_t m = k[1];
  const NullableReference<const int64_t> r{a};
  const NullableReference<int64_t> s{m};
  const NullableReference<const int64_t> e;
  io[0] = *r;
  io[1] = &*r == &a;
  m = k[2];
  io[2] = *s;
  *s = k[3];
  io[3] = m;
  io[4] = e.has_value();
  io[5] = resim::null_reference<const int64_t>.has_value();
  io[6] = 0;
  try {
    io[6] = *e;
  } catch (const resim::AssertException &) {
    io[6] = 77;
  }
}
// in-out parameters
static void bump(InOut<int64_t> v, int64_t by) { *v = *v + by; }
static void fill(InOut<Two> v, int64_t a, int64_t b) {
  v->p = a;
  v->set(b);
}
H(h_inout) {
  int64_t a = k[0], b2 = k[1];
  Two t{k[2], k[3]}, u{k[4], k[5]};
  InOut<int64_t> io1{a};
  io[0] = *io1;
  io[1] = &*io1 == &a;
  a = k[6];
  io[2] = *io1;
  InOut<int64_t> io2{io1};
  *io2 = k[7];
  io[3] = a;
  bump(InOut{b2}, 1);
  io[4] = b2;
  InOut<Two> w{u};
  io[5] = w->sum();
  io[6] = w.operator->() == &u;
  fill(InOut{t}, k[8], k[9]);
  io[7] = t.p;
  io[8] = t.q;
  io[9] = u.p;
  io[10] = u.q;
  InOut<const int64_t> ro{b2};
  io[11] = *ro;
}
namespace {
struct A { int64_t v; };
struct B { int64_t v; };
struct C { int64_t v; };
using V = std::variant<A, B, int64_t, C, double>;
V mk(int w, int64_t v, double d) {
  switch (w) {
    case 0: return A{v};
    case 1: return B{v};
    case 2: return v;
    case 3: return C{v};
    default: return d;
  }
}
}  // namespace
// k[0] alternative, k[1] payload, x[0] payload of the double alternative
H(h_match) {
  const int w = k[0];
  V v = mk(w, k[1], x[0]);
  int64_t calls[5] = {0, 0, 0, 0, 0};
  // exact branches, in an order other than that of the alternatives
  io[0] = match(
      v, [&](const C &c) { ++calls[3]; io[1] = c.v; return int64_t{13}; },
      [&](const double d) { ++calls[4]; o[0] = d; io[1] = 0; return int64_t{14}; },
      [&](const A &a) { ++calls[0]; io[1] = a.v; return int64_t{10}; },
      [&](const int64_t i) { ++calls[2]; io[1] = i; return int64_t{12}; },
      [&](const B &q) { ++calls[1]; io[1] = q.v; return int64_t{11}; });
  for (int i = 0; i < 5; ++i) io[2 + i] = calls[i];
  // a catch-all branch takes what no exact branch takes
  io[7] = match(
      v, [&](const auto &) { return int64_t{99}; }, [&](const B &q) { return q.v; }, [&](const int64_t &i) { return i; });
  // the branch sees the held object itself: writes reach it
  match(v, [&](auto &&held) {
    using T = std::decay_t<decltype(held)>;
    if constexpr (std::is_same_v<T, double>) {
      held = x[1];
    } else {
      held = T{k[2]};
    }
  });
  o[1] = 0;
  io[8] = v.index();
  io[9] = 0;
  if (v.index() == 0) io[9] = std::get<0>(v).v;
  if (v.index() == 1) io[9] = std::get<1>(v).v;
  if (v.index() == 2) io[9] = std::get<2>(v);
  if (v.index() == 3) io[9] = std::get<3>(v).v;
  if (v.index() == 4) o[1] = std::get<4>(v);
  // results by reference
  int64_t cell[2] = {k[3], k[4]};
  int64_t &ref = match(
      v, [&](const A &) -> int64_t & { return cell[0]; }, [&](const auto &) -> int64_t & { return cell[1]; });
  io[10] = &ref - cell;
  io[11] = ref;
  // const variants and rvalues
  const V cv{v};
  io[12] = match(
      cv, [&](const A &) { return 0; }, [&](const B &) { return 1; }, [&](const int64_t &) { return 2; }, [&](const C &) { return 3; },
      [&](const double &) { return 4; });
  io[13] = match(
      mk(w, k[1], x[0]), [&](A &&a) { return a.v; }, [&](B &&q) { return q.v; }, [&](int64_t &&i) { return i; }, [&](C &&c) { return c.v; },
      [&](double &&) { return int64_t{0}; });
}
// move-only alternatives: the held object is handed over, exactly once
H(h_match_move) {
  std::variant<std::unique_ptr<int64_t>, A> v;
  if (k[0] == 0) {
    v = std::make_unique<int64_t>(k[1]);
  } else {
    v = A{k[1]};
  }
  std::unique_ptr<int64_t> got = match(
      std::move(v), [&](std::unique_ptr<int64_t> &&p) { return std::move(p); },
      [&](A &&a) { return std::make_unique<int64_t>(a.v); });
  io[0] = *got;
  io[1] = k[0] == 0 ? std::get<0>(v) == nullptr : 1;
}
