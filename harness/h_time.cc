#include <cstdint>
#include "harness_min.hh"
#include "resim/math/safe_integer_utils.hh"
#include "resim/time/sample_interval.hh"
#include "resim/time/timestamp.hh"
namespace rt = resim::time;
namespace rm = resim::math;
H(h_safe_sum) { io[0] = rm::safe_sum(k[0], k[1]); }
H(h_safe_difference) { io[0] = rm::safe_difference(k[0], k[1]); }
H(h_safe_abs) { io[0] = rm::safe_abs(k[0]); }
static rt::Timestamp ts(int64_t n) { return rt::Timestamp(rt::Duration(n)); }
H(h_num_samples_t) { io[0] = rt::num_samples(ts(k[0]), ts(k[1]), rt::Duration(k[2])); }
H(h_num_samples_d) { io[0] = rt::num_samples(x[0], x[1], x[2]); }
H(h_sample_t) {
  rt::sample_interval(ts(k[0]), ts(k[1]), rt::Duration(k[2]), [](const rt::Timestamp t) {
    ghost_emit(0., 0., 0., 0., t.time_since_epoch().count(), 0, 0, 0);
  });
}
H(h_sample_d) {
  rt::sample_interval(x[0], x[1], x[2], [](const double t) { ghost_emit(t, 0., 0., 0., 0, 0, 0, 0); });
}
H(h_as_seconds) { o[0] = rt::as_seconds(rt::Duration(k[0])); }
H(h_as_duration) { io[0] = rt::as_duration(x[0]).count(); }
H(h_seconds_round_trip) { io[0] = rt::as_duration(rt::as_seconds(rt::Duration(k[0]))).count(); }
H(h_to_sn) {
  const rt::SecsAndNanos s = rt::to_seconds_and_nanos(rt::Duration(k[0]));
  io[0] = s.secs;
  io[1] = s.nanos;
  io[2] = rt::from_seconds_and_nanos(s).count();
}
H(h_from_sn) { io[0] = rt::from_seconds_and_nanos(rt::SecsAndNanos{k[0], static_cast<int32_t>(k[1])}).count(); }
