#include "rc.h"
#include <time.h>
#include "rcutils/time.h"
using namespace pbt;
namespace pbt
{
const char * const kPropertyId = "C18";
const char * const kRule =
  "a case formats one 64-bit time point (uniform, around the epoch, second and day boundaries, extremes) as seconds, nanoseconds "
  "and local date under a generated time zone into buffers of 0..40 bytes, compared with an independent formatting, and parses "
  "the seconds and nanoseconds back; non-trivial: a negative time, a time with under 100 ms in its second, or a truncated result";
const Budget kBudget = {1500000, 20000000, 400000};
void property_setup() {rc::foreign_locale_ready();}
static std::string civil(int64_t local, unsigned ms)
{
  int64_t days = local / 86400, sec = local % 86400;
  if (sec < 0) {sec += 86400; days--;}
  int64_t y = 1970;
  auto leap = [](int64_t k) {return (k % 4 == 0 && k % 100 != 0) || k % 400 == 0;};
  while (days < 0) {y--; days += leap(y) ? 366 : 365;}
  while (days >= (leap(y) ? 366 : 365)) {days -= leap(y) ? 366 : 365; y++;}
  int m = 0; int ml[] = {31, leap(y) ? 29 : 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
  while (days >= ml[m]) {days -= ml[m++];}
  char b[64]; snprintf(b, sizeof b, "%04d-%02d-%02d %02d:%02d:%02d.%03u", (int)y, m + 1, (int)days + 1, (int)(sec / 3600), (int)(sec / 60 % 60), (int)(sec % 60), ms);
  return b;
}
static void one(const char * what, rcutils_ret_t (* fn)(const rcutils_time_point_value_t *, char *, size_t), const rcutils_time_point_value_t & t,
  const std::string & want, size_t size)
{
  rc::Exact buf(std::string(size, '\x5a'), false);
  rcutils_ret_t r = fn(&t, buf, size);
  CHECK(r == RCUTILS_RET_OK, "%s of %" PRId64 " into %zu bytes returned %s", what, t, size, rc::ret_name(r));
  if (!size) {return;}
  CHECK(memchr(buf.p, 0, size), "%s of %" PRId64 " into %zu bytes is not terminated", what, t, size);
  std::string w = want.substr(0, size - 1);
  if (w.size() < want.size()) {nontrivial(); label("truncated");}
  CHECK(w == buf.p, "%s of %" PRId64 " into %zu bytes is %s, expected %s", what, t, size, quote(buf.p, strlen(buf.p)).c_str(), quote(w).c_str());
}
void property_case()
{
  rc::ForeignLocale foreign(chance(1, 8));
  rc::clear_error();
  int64_t t;
  switch (weighted({3, 3, 3, 2, 1})) {
    case 0: t = draw_s(INT64_MIN + 1, INT64_MAX); break;
    case 1: t = (int64_t)draw(0, 2200000000ull) * 1000000000ll + (int64_t)draw_edge(0, 999999999); break;
    case 2: t = draw_s(-2000000000, 2000000000); break;
    case 3: t = draw_s(-100000, 100000) * 86400000000000ll + draw_s(-2, 2); if (chance(1, 2)) {t += draw_s(-3, 3) * 1000000ll;} break;
    default: t = draw_plain(0, 1) ? INT64_MAX - (int64_t)draw_small(0, 2000) : INT64_MIN + (int64_t)draw_small(0, 2000);
  }
  static const struct {const char * tz; int off;} zones[] = {
    {"UTC0", 0}, {"AAA-5:45", 20700}, {"BBB+9:30", -34200}, {"CCC-14", 50400}, {"DDD+12", -43200}, {"EEE-0:00:07", 7}};
  static int current = -1; int z = (int)weighted({8, 1, 1, 1, 1, 1});
  if (z != current) {setenv("TZ", zones[z].tz, 1); tzset(); current = z;}
  say("time point %" PRId64 ", zone %s", t, zones[z].tz);
  uint64_t a = t < 0 ? (uint64_t)(-(t + 1)) + 1 : (uint64_t)t;
  char b[64];
  snprintf(b, sizeof b, "%s%010" PRIu64 ".%09" PRIu64, t < 0 ? "-" : "", a / 1000000000u, a % 1000000000u); std::string sec = b;
  snprintf(b, sizeof b, "%s%019" PRIu64, t < 0 ? "-" : "", a); std::string ns = b;
  int64_t s = t / 1000000000, n = t % 1000000000; if (n < 0) {n += 1000000000; s--;}
  std::string date = civil(s + zones[z].off, (unsigned)(n / 1000000));
  if (t < 0) {nontrivial(); label("negative");}
  if (n < 100000000) {nontrivial(); label("under 100 ms");}
  auto size = [&](size_t full) {return chance(1, 2) ? (size_t)32 : chance(1, 2) ? full + draw_plain(0, 2) : (size_t)draw_plain(0, 40);};
  one("the seconds string", rcutils_time_point_value_as_seconds_string, t, sec, size(sec.size()));
  one("the nanoseconds string", rcutils_time_point_value_as_nanoseconds_string, t, ns, size(ns.size()));
  one("the date string", rcutils_time_point_value_as_date_string, t, date, size(date.size()));
  char buf[32];
  CHECK(rcutils_time_point_value_as_nanoseconds_string(&t, buf, sizeof buf) == RCUTILS_RET_OK && strtoll(buf, nullptr, 10) == t,
    "the nanoseconds string of %" PRId64 " reads back as %lld", t, strtoll(buf, nullptr, 10));
  CHECK(!rcutils_error_is_set(), "formatting a time set an error");
}
}  // namespace pbt
