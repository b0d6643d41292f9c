#include "rc.h"
#include <time.h>
#include "rcutils/time.h"
// BUILD wrap: clock_gettime
using namespace pbt;
static bool g_fake, g_fail; static struct timespec g_ts[2]; static unsigned g_calls[2]; static int g_advance;
extern "C" int __real_clock_gettime(clockid_t id, struct timespec * ts);
extern "C" int __wrap_clock_gettime(clockid_t id, struct timespec * ts)
{
  if (!g_fake) {return __real_clock_gettime(id, ts);}
  int k = id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE || id == CLOCK_TAI ? 0 : 1;
  g_calls[k]++;
  if (g_fail) {errno = EINVAL; return -1;}
  *ts = g_ts[k];
  return 0;
}
namespace pbt
{
const char * const kPropertyId = "C19";
const char * const kRule =
  "a case is a history of readings of the system and steady clock with generated kernel clock values (also failing and negative "
  "ones) and of the real clocks, and conversions of integers and doubles between seconds, milli-, micro- and nanoseconds against "
  "exact arithmetic; non-trivial: readings of both clocks at different scripted values, or a failing or negative clock";
const Budget kBudget = {1500000, 20000000, 200000};
void property_setup() {}
static void reading(bool steady)
{
  rcutils_time_point_value_t v = 0x5a5a5a5a; 
  unsigned c0 = g_calls[0], c1 = g_calls[1];
  g_fake = true;
  rcutils_ret_t r = steady ? rcutils_steady_time_now(&v) : rcutils_system_time_now(&v);
  g_fake = false;
  const char * w = steady ? "the steady clock" : "the system clock";
  if (g_calls[0] == c0 && g_calls[1] == c1) {discard(); rc::clear_error(); return;}   // read in some other way than clock_gettime
  struct timespec & t = g_ts[steady];
  if (g_fail || t.tv_sec < 0 || t.tv_nsec < 0) {
    CHECK(r == RCUTILS_RET_ERROR && rcutils_error_is_set(), "%s gave %s when the kernel clock %s", w, rc::ret_name(r), g_fail ? "fails" : "is negative");
    CHECK(v == 0x5a5a5a5a, "%s failed and wrote its output", w);
    nontrivial();
  } else {
    int64_t want = (int64_t)t.tv_sec * 1000000000ll + t.tv_nsec;
    CHECK(r == RCUTILS_RET_OK && v == want, "%s gave %s, %" PRId64 ", expected %" PRId64, w, rc::ret_name(r), v, want);
  }
  rc::clear_error();
}
void property_case()
{
  rc::clear_error();
  g_fake = g_fail = false;
  bool both[2] = {false, false};
  size_t n = 1 + draw_small(0, 4);
  for (size_t i = 0; i < n; i++) {
    for (auto & t : g_ts) {
      t.tv_sec = chance(1, 15) ? -(time_t)draw_edge(1, 1ull << 40) : chance(1, 8) ? 0 : (time_t)draw_edge(0, 9223372035ull);
      t.tv_nsec = chance(1, 4) ? (chance(1, 2) ? 0 : 999999999) : (long)draw(0, 999999999);
      if (t.tv_sec == 0 && chance(1, 8)) {t.tv_nsec = -1 - (long)draw(0, 999999998);}    // a little before the epoch
    }
    g_fail = chance(1, 12); bool steady = chance(1, 2);
    say("%s at %lld.%09ld%s", steady ? "steady" : "system", (long long)g_ts[steady].tv_sec, g_ts[steady].tv_nsec, g_fail ? " failing" : "");
    reading(steady); both[steady] = true;
    g_fail = false;
  }
  if (both[0] && both[1]) {nontrivial();}
  if (chance(1, 20)) {
    rcutils_time_point_value_t a = 0, b = 0, c = 0; struct timespec t1, t2;
    say("real clocks");
    __real_clock_gettime(CLOCK_MONOTONIC, &t1);
    CHECK(rcutils_steady_time_now(&a) == RCUTILS_RET_OK && rcutils_steady_time_now(&b) == RCUTILS_RET_OK, "the steady clock failed");
    __real_clock_gettime(CLOCK_MONOTONIC, &t2);
    CHECK(a <= b, "the steady clock went back from %" PRId64 " to %" PRId64, a, b);
    int64_t lo = t1.tv_sec * 1000000000ll + t1.tv_nsec, hi = t2.tv_sec * 1000000000ll + t2.tv_nsec;
    CHECK(b - a <= hi - lo + 1000000000ll, "the steady clock advanced %" PRId64 " ns in %" PRId64 " ns", b - a, hi - lo);
    __real_clock_gettime(CLOCK_REALTIME, &t1);
    CHECK(rcutils_system_time_now(&c) == RCUTILS_RET_OK, "the system clock failed");
    lo = t1.tv_sec * 1000000000ll + t1.tv_nsec;
    CHECK(c >= lo - 60000000000ll && c <= lo + 60000000000ll, "the system clock is %" PRId64 ", the time is %" PRId64, c, lo);
  }
  CHECK(rcutils_system_time_now(nullptr) == RCUTILS_RET_INVALID_ARGUMENT, "system_time_now(NULL) is accepted");
  CHECK(rcutils_steady_time_now(nullptr) == RCUTILS_RET_INVALID_ARGUMENT, "steady_time_now(NULL) is accepted");
  rc::clear_error();
  // conversions
  const int64_t f[3] = {1000000000, 1000000, 1000};
  for (int k = 0; k < 3; k++) {
    int64_t lim = INT64_MAX / f[k]; int64_t x = chance(1, 2) ? draw_s(-lim, lim) : draw_s(-3000, 3000), y = draw_s(-1, 1);
    if (x + y > lim || x + y < -lim) {y = 0;}
    int64_t got = k == 0 ? RCUTILS_S_TO_NS(x + y) : k == 1 ? RCUTILS_MS_TO_NS(x + y) : RCUTILS_US_TO_NS(x + y);
    CHECK(got == (x + y) * f[k], "conversion of %" PRId64 " to nanoseconds (factor %" PRId64 ") gave %" PRId64, x + y, f[k], got);
    int64_t back = k == 0 ? RCUTILS_NS_TO_S(got) : k == 1 ? RCUTILS_NS_TO_MS(got) : RCUTILS_NS_TO_US(got);
    CHECK(back == x + y, "conversion of %" PRId64 " and back gave %" PRId64, x + y, back);
    int64_t ns = draw_s(INT64_MIN + 2, INT64_MAX - 2);
    int64_t d = k == 0 ? RCUTILS_NS_TO_S(ns + y) : k == 1 ? RCUTILS_NS_TO_MS(ns + y) : RCUTILS_NS_TO_US(ns + y);
    CHECK(d == (ns + y) / f[k], "conversion of %" PRId64 " ns (factor %" PRId64 ") gave %" PRId64, ns + y, f[k], d);
    int32_t small = (int32_t)draw_s(INT32_MIN, INT32_MAX);       // a narrow argument must not overflow
    int64_t w = k == 0 ? RCUTILS_S_TO_NS(small) : k == 1 ? RCUTILS_MS_TO_NS(small) : RCUTILS_US_TO_NS(small);
    CHECK(w == (int64_t)small * f[k], "conversion of the 32-bit %d to nanoseconds gave %" PRId64, small, w);
    double q = (double)draw_s(-1000000, 1000000) / 1024.0;
    double e = k == 0 ? RCUTILS_S_TO_NS(q) : k == 1 ? RCUTILS_MS_TO_NS(q) : RCUTILS_US_TO_NS(q);
    CHECK(e == q * (double)f[k], "conversion of %g gave %g", q, e);
    double g = k == 0 ? RCUTILS_NS_TO_S(q) : k == 1 ? RCUTILS_NS_TO_MS(q) : RCUTILS_NS_TO_US(q);
    CHECK(g == q / (double)f[k], "conversion of %g ns gave %g", q, g);
  }
}
}  // namespace pbt
