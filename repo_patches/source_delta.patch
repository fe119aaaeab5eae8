From a5bd820c73ea255d1b9bdee5602115a8a2a261b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:58:02 +0000
Subject: [PATCH 01/10] fix: se3_distance returns the norm of a_from_b's
 translation for every pair of poses

It returned the distance of the two translation vectors, which differs from
the documented a_from_b.translation().norm() as soon as the rotations differ,
e.g. a = (I, (1,0,0)), b = (rotation by pi about z, (1,0,0)).
---
 resim/transforms/se3.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/resim/transforms/se3.cc b/resim/transforms/se3.cc
index f63d57e..163547d 100644
--- a/resim/transforms/se3.cc
+++ b/resim/transforms/se3.cc
@@ -266,7 +266,10 @@ template SE3 SE3::exp(const TangentVector &, Frame3 &&, const Frame3 &);
 
 double se3_distance(const SE3 &a_from_ref, const SE3 &b_from_ref) {
   REASSERT(a_from_ref.from() == b_from_ref.from(), "From frames must match");
-  return (a_from_ref.translation() - b_from_ref.translation()).norm();
+  // The distance between the origins of a and b, both expressed in ref.
+  return (a_from_ref.rotation().inverse() * a_from_ref.translation() -
+          b_from_ref.rotation().inverse() * b_from_ref.translation())
+      .norm();
 }
 
 double se3_inverse_distance(const SE3 &ref_from_a, const SE3 &ref_from_b) {
-- 
2.43.0


From eb174517996d6663f92a08e9f9d9d77c9bebdf41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:17:00 +0000
Subject: [PATCH 02/10] fix: DCurve::point_at(0) is the first control point
 when the curve starts with a zero-length segment

The fraction along a zero-length first segment was 0/0, so the returned pose
was all NaN.
---
 resim/curves/d_curve.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/resim/curves/d_curve.cc b/resim/curves/d_curve.cc
index faa6036..8ddf9d0 100644
--- a/resim/curves/d_curve.cc
+++ b/resim/curves/d_curve.cc
@@ -132,8 +132,13 @@ typename DCurve<Group>::PointAtData DCurve<Group>::point_at_impl(
       });
   REASSERT(s != segments_.end(), "Did not find valid segment.");
 
-  const double fraction = (arc_length - s->orig_arc_length) /
-                          (s->dest_arc_length - s->orig_arc_length);
+  // A curve may begin with a segment of zero length (e.g. coincident control
+  // points). Such a segment is only ever queried at its origin.
+  const double segment_length = s->dest_arc_length - s->orig_arc_length;
+  const double fraction =
+      segment_length > ZERO
+          ? (arc_length - s->orig_arc_length) / segment_length
+          : ZERO;
   return {.fraction = fraction, .s = s};
 }
 
-- 
2.43.0


From ecd9ec9f5cee380e1f1df50b9753084ca62016bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:23:29 +0000
Subject: [PATCH 03/10] fix: as_duration rounds to the nearest nanosecond
 instead of truncating

as_duration(as_seconds(15ns)) was 14ns, and Trajectory::end_time() could be
one nanosecond before the time of its last control point.
---
 resim/time/timestamp.hh | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/resim/time/timestamp.hh b/resim/time/timestamp.hh
index 89dd585..b3867cd 100644
--- a/resim/time/timestamp.hh
+++ b/resim/time/timestamp.hh
@@ -26,10 +26,11 @@ constexpr double as_seconds(const Duration duration) {
   return std::chrono::duration<double>(duration).count();
 }
 
-// Create a duration from seconds as a double
+// Create a duration from seconds as a double, rounding to the nearest
+// representable duration so that as_duration(as_seconds(d)) == d as long as
+// d is small enough to be represented to nanosecond precision by a double.
 constexpr Duration as_duration(const double t_s) {
-  return std::chrono::duration_cast<Duration>(
-      std::chrono::duration<double>(t_s));
+  return std::chrono::round<Duration>(std::chrono::duration<double>(t_s));
 }
 
 // A timestamp represented as integer seconds and nanoseconds. This
-- 
2.43.0


From ae80ccf64ef3eb020cdaa9863bec04dc0c9da554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:23:30 +0000
Subject: [PATCH 04/10] fix: num_samples(double) does not overflow int for more
 than 2^31 samples

---
 resim/time/sample_interval.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resim/time/sample_interval.cc b/resim/time/sample_interval.cc
index 4d842c1..3926c93 100644
--- a/resim/time/sample_interval.cc
+++ b/resim/time/sample_interval.cc
@@ -29,7 +29,7 @@ int64_t num_samples(double start_time, double end_time, double max_abs_dt) {
   //
   // n = ceil(total_time / max_abs_dt) + 1
   //
-  return static_cast<int>(std::ceil(total_time / max_abs_dt)) + 1;
+  return static_cast<int64_t>(std::ceil(total_time / max_abs_dt)) + 1;
 }
 
 void sample_interval(
-- 
2.43.0


From 8109a40e56b5d9e8aaaa4c97eb45908dd6f16511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:23:30 +0000
Subject: [PATCH 05/10] fix: num_samples(Timestamp) is 1 for an empty interval
 whatever max_abs_dt is

---
 resim/time/sample_interval.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/resim/time/sample_interval.cc b/resim/time/sample_interval.cc
index 3926c93..e772342 100644
--- a/resim/time/sample_interval.cc
+++ b/resim/time/sample_interval.cc
@@ -58,6 +58,11 @@ int64_t num_samples(
       end_time.time_since_epoch().count(),
       start_time.time_since_epoch().count()))};
 
+  // A single sample covers an empty interval.
+  if (total_time.count() == 0) {
+    return 1;
+  }
+
   // We want to find the smallest integer n such that:
   //
   // max_abs_dt * (n - 1) >= total_time
-- 
2.43.0


From 97347b9f426c3418efbb45ad138825b9d8f3c2f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:23:30 +0000
Subject: [PATCH 06/10] fix: sample_interval(Timestamp) samples the nearest
 timestamps for reversed and very long intervals

sample_interval(8ns, 0ns, 3ns) sampled (8, 6, 3, 0) instead of (8, 5, 3, 0);
intervals close to INT64_MAX nanoseconds threw part way through or overflowed
after the last sample.
---
 resim/time/sample_interval.cc | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/resim/time/sample_interval.cc b/resim/time/sample_interval.cc
index e772342..8218ea2 100644
--- a/resim/time/sample_interval.cc
+++ b/resim/time/sample_interval.cc
@@ -96,15 +96,15 @@ void sample_interval(
   }
   const int64_t samples = num_samples(start_time, end_time, max_abs_dt);
   const int64_t intervals = samples - 1;
-  const Duration total_time{math::safe_difference(
+  const int64_t total_time = math::safe_abs(math::safe_difference(
       end_time.time_since_epoch().count(),
-      start_time.time_since_epoch().count())};
+      start_time.time_since_epoch().count()));
 
   // When we divide the range into perfect intervals, we get rational
   // samples. We track the locations of these rational samples using a
   // mixed number so that we don't risk integer overflow in our
-  // numerator. In particular, every rational sample position is given
-  // by:
+  // numerator. In particular, every rational sample position is at a distance
+  // from the start given by:
   //
   // whole + numerator / intervals
   //
@@ -118,14 +118,19 @@ void sample_interval(
     const int64_t rounded = whole + ((2 * numerator >= intervals) ? 1 : 0);
     const Duration time{rounded};
 
-    func(start_time + time);
-
-    // Increment
-    numerator = math::safe_sum(numerator, total_time.count());
-
-    // Restore the mixed number
-    whole += numerator / intervals;
-    numerator %= intervals;
+    func(end_time > start_time ? start_time + time : start_time - time);
+
+    if (ii < intervals) {
+      // Increment, restoring the mixed number. If there are more than
+      // INT64_MAX / 2 intervals then they are all 1ns long and numerator is
+      // always zero, so this can't overflow.
+      whole += total_time / intervals;
+      numerator += total_time % intervals;
+      if (numerator >= intervals) {
+        ++whole;
+        numerator -= intervals;
+      }
+    }
   }
 }
 
-- 
2.43.0


From 54c3442493334d20ad73a070f871d73c1494d46c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:38:38 +0000
Subject: [PATCH 07/10] fix: RETURN_OR_ASSIGN no longer reads a destroyed
 temporary

The macro bound a reference to the result of std::forward() on its argument,
so for the documented use RETURN_OR_ASSIGN(f(x)) the StatusValue returned by
f(x) was destroyed before its status and value were read. Hold temporaries by
value instead.
---
 resim/utils/status_value.hh | 41 ++++++++++++++++++++++++++-----------
 1 file changed, 29 insertions(+), 12 deletions(-)

diff --git a/resim/utils/status_value.hh b/resim/utils/status_value.hh
index 3d73fc6..da608cc 100644
--- a/resim/utils/status_value.hh
+++ b/resim/utils/status_value.hh
@@ -146,22 +146,39 @@ constexpr const Status &StatusValue<T>::status() const {
       [](const Status &status) -> const Status & { return status; });
 }
 
+namespace detail {
+
+// A helper for RETURN_OR_ASSIGN() below which holds the StatusValue that macro
+// was given and returns the contained value when called. If the macro was given
+// an lvalue or xvalue, SV is a reference and the value is returned in the same
+// manner as SV's value() would. If it was given a temporary, SV is not a
+// reference and the temporary itself is held here so that it doesn't dangle.
+template <typename SV>
+struct ValueGetter {
+  SV status_value;
+
+  constexpr auto operator()() -> std::conditional_t<
+      std::is_reference_v<SV>,
+      decltype(std::declval<SV>().value()),
+      typename std::decay_t<SV>::ValueType> {
+    return std::forward<SV>(status_value).value();
+  }
+};
+
+}  // namespace detail
+
 // Return from the enclosing function if the given status result is not
 // ok. Otherwise, assign the value as the value of this expression. We don't
 // really have a choice but to use the GNU statement expression extension here
-// unless we pass the assignment target in too. We use the lambda because
-// otherwise the statement expression doesn't preserve references.
+// unless we pass the assignment target in too. We use the callable ValueGetter
+// because otherwise the statement expression doesn't preserve references.
 // NOLINTNEXTLINE(cppcoreguidelines-macro-usage)
-#define RETURN_OR_ASSIGN(status_value)                        \
-  ({                                                          \
-    auto &&evalutated_status_value =                          \
-        std::forward<decltype(status_value)>(status_value);   \
-    RETURN_IF_NOT_OK(evalutated_status_value.status());       \
-    [&]() -> decltype(auto) {                                 \
-      return std::forward<decltype(evalutated_status_value)>( \
-                 evalutated_status_value)                     \
-          .value();                                           \
-    };                                                        \
+#define RETURN_OR_ASSIGN(status_value)                                      \
+  ({                                                                        \
+    decltype((status_value)) evalutated_status_value = status_value;        \
+    RETURN_IF_NOT_OK(evalutated_status_value.status());                     \
+    resim::detail::ValueGetter<decltype((status_value))>{                   \
+        static_cast<decltype((status_value)) &&>(evalutated_status_value)}; \
   })()
 
 }  // namespace resim
-- 
2.43.0


From 753fabeaad5cde3e3c6b5476a3eced0903302f87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:27 +0000
Subject: [PATCH 08/10] fix: set_frames with references to the transform's own
 frames

g.set_frames(g.from(), g.into()) overwrote the into frame before reading it
as the new from frame, leaving both frames equal. Take the frames by value.
---
 resim/transforms/liegroup.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resim/transforms/liegroup.hh b/resim/transforms/liegroup.hh
index dc3fce5..a70ee7a 100644
--- a/resim/transforms/liegroup.hh
+++ b/resim/transforms/liegroup.hh
@@ -54,7 +54,7 @@ class LieGroup {
   using TangentMapping = Eigen::Matrix<double, DOF, DOF>;
 
   // Set frames
-  void set_frames(const Frame<DIMS> &into, const Frame<DIMS> &from) {
+  void set_frames(Frame<DIMS> into, Frame<DIMS> from) {
     constexpr auto NULL_FRAME_ERR =
         "Cannot set frames as null {0}. If you want to make this group "
         "unframed "
-- 
2.43.0


From ab474d46925836391fec47448ab59c59f6972f23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:19:00 +0000
Subject: [PATCH 09/10] fix: Trajectory::end_time and time_duration of an empty
 trajectory are rejected

They read the last element of an empty vector; TCurve::end_time() checks.
---
 resim/actor/state/trajectory.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resim/actor/state/trajectory.cc b/resim/actor/state/trajectory.cc
index 1375305..80f9dd0 100644
--- a/resim/actor/state/trajectory.cc
+++ b/resim/actor/state/trajectory.cc
@@ -73,7 +73,7 @@ time::Timestamp Trajectory::end_time() const {
 }
 
 time::Duration Trajectory::time_duration() const {
-  return time::as_duration(curve_.control_pts().back().time);
+  return time::as_duration(curve_.end_time());
 }
 
 const Frame &Trajectory::reference_frame() const {
-- 
2.43.0


From d4c7ebf18ec93099e5215b453ee5ccc2ae1de96c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:19:00 +0000
Subject: [PATCH 10/10] fix: UUID text with anything after a null character is
 rejected

uuid_parse() only sees the text up to the first null character.
---
 resim/utils/uuid.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/resim/utils/uuid.cc b/resim/utils/uuid.cc
index fd9d817..3e09c2c 100644
--- a/resim/utils/uuid.cc
+++ b/resim/utils/uuid.cc
@@ -23,7 +23,10 @@ UUID::UUID(std::array<unsigned char, ARRAY_SIZE> id) : id_(id) {}
 UUID::UUID(const std::string &str) : id_{} {
   constexpr int SUCCESS = 0;
   const int result = uuid_parse(str.c_str(), id_.data());
-  REASSERT(SUCCESS == result, "Invalid UUID string!");
+  // uuid_parse() stops at the first null character, so we also make sure that
+  // there is nothing after it.
+  constexpr std::size_t NUM_CHARS = 36;
+  REASSERT(SUCCESS == result and str.size() == NUM_CHARS, "Invalid UUID string!");
 }
 
 UUID UUID::new_uuid() {
-- 
2.43.0

