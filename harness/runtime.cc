// Native side of the harness: runs an entry point, maps exceptions to codes.
#include <cxxabi.h>
#include <cstdint>
#include <cstring>
#include <exception>
#include <stdexcept>
#include <typeinfo>
#include "resim/assert/assert.hh"
extern "C" {
int64_t irv_emit_n = 0;
double irv_emit_buf[1 << 16];
void ghost_emit(double a, double b, double c, double d, int64_t i, int64_t j, int64_t k, int64_t l) {
  if (irv_emit_n < (1 << 13)) {
    double *p = irv_emit_buf + 8 * irv_emit_n;
    p[0] = a; p[1] = b; p[2] = c; p[3] = d;
    std::memcpy(p + 4, &i, 8); std::memcpy(p + 5, &j, 8); std::memcpy(p + 6, &k, 8); std::memcpy(p + 7, &l, 8);
  }
  ++irv_emit_n;
}
typedef void (*fn)(const double *, const int64_t *, const uint8_t *, double *, int64_t *, uint8_t *);
int irv_run(fn f, const double *x, const int64_t *k, const uint8_t *b, double *o, int64_t *io, uint8_t *bo, char *msg) {
  msg[0] = 0;
  try {
    f(x, k, b, o, io, bo);
    return 0;
  } catch (const resim::AssertException &) {
    return 1;
  } catch (const std::invalid_argument &) {
    return 4;
  } catch (const std::exception &e) {
    std::strncpy(msg, typeid(e).name(), 200);
    return 2;
  } catch (...) {
    std::strncpy(msg, "unknown", 200);
    return 3;
  }
}
}
