// One object standing for both operands: the result must be the one for two equal objects.
#pragma once
#include "irv.hh"
namespace irv {
// out(i, r): writes result i.  Results: 0 p op copy, 1 p op p, 2 r = r op r, 3 r = r op copy, 4 copy = p op copy; 5 p afterwards
template <class T, class F, class W>
void alias(const T &p, F op, W out, int64_t *io) {
  const auto guard = [&](int i, auto f) {
    io[i] = 0;
    try {
      f();
    } catch (const resim::AssertException &) {
      io[i] = 1;
    }
  };
  guard(0, [&] {
    const T q = p;
    out(0, op(p, q));
  });
  guard(1, [&] { out(1, op(p, p)); });
  guard(2, [&] {
    T r = p;
    r = op(r, r);
    out(2, r);
  });
  guard(3, [&] {
    T r = p;
    const T q = p;
    r = op(r, q);
    out(3, r);
  });
  guard(4, [&] {
    T q = p;
    q = op(p, q);
    out(4, q);
  });
  out(5, p);
}
}  // namespace irv
