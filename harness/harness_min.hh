#pragma once
#include <cstdint>
#define H(name) extern "C" void name(const double *x, const int64_t *k, const uint8_t *b, double *o, int64_t *io, uint8_t *bo)
extern "C" void ghost_emit(double, double, double, double, int64_t, int64_t, int64_t, int64_t);
