// BUILD sanitize: thread
#include "rc.h"
#include <thread>
#include <atomic>
#include <algorithm>
#include "rcutils/testing/fault_injection.h"
#include "rcutils/macros.h"
#include "rcutils/env.h"
#include "rcutils/format_string.h"
#include "rcutils/snprintf.h"
#include "rcutils/strdup.h"
#include "rcutils/types/string_array.h"
#include "rcutils/shared_library.h"
#include "rcutils/time.h"
#include "rcutils/filesystem.h"
#include "rcutils/split.h"
#include "rcutils/logging.h"
#include "rcutils/types/char_array.h"
#include "rcutils/types/string_map.h"
using namespace pbt;
namespace pbt
{
const char * const kPropertyId = "C27";
const char * const kRule =
  "a case is a generated history of counter settings, readings, fault points (all macros, in functions and blocks, paused sections) "
  "and completeness queries against a counter model; or whole fault-injection loops over generated code with a known number of "
  "points; or two to four threads that pass points at once; or library calls under every counter value up to the first run without "
  "a fault, with an allocator that tracks leaks, and single calls with the counter at 0; non-trivial: at least one fault was injected";
const Budget kBudget = {60000, 900000, 20000};
static rc::FdCapture * cap;
static int64_t g_initial;
void property_setup() {g_initial = rcutils_fault_injection_get_count(); cap = new rc::FdCapture(1);}
static int of_int() {RCUTILS_CAN_RETURN_WITH_ERROR_OF(77); return 1;}
static void * of_ptr() {RCUTILS_CAN_RETURN_WITH_ERROR_OF(nullptr); return (void *)&of_int;}
static int of_msg() {RCUTILS_CAN_SET_MSG_AND_RETURN_WITH_ERROR_OF(78); return 1;}
static int of_block() {int x = 1; RCUTILS_CAN_FAIL_WITH({x = 79;}); return x;}
static int of_two() {RCUTILS_CAN_RETURN_WITH_ERROR_OF(80); RCUTILS_CAN_RETURN_WITH_ERROR_OF(81); return 1;}
static void counter()
{
  CHECK(g_initial == RCUTILS_FAULT_INJECTION_NEVER_FAIL, "the count starts at %" PRId64, g_initial);
  int64_t m = -1; bool injected = false;
  rcutils_fault_injection_set_count(-1);
  auto point = [&] {if (m < 0) {return false;} return m-- == 0;};
  auto see = [&](bool fault) {if (fault) {injected = true; nontrivial();} };
  while (more(14)) {
    int64_t k;
    switch (weighted({4, 3, 2, 2, 2, 2, 2, 2, 1})) {
      case 0: k = chance(1, 4) ? draw_s(INT64_MIN, INT64_MAX) : chance(1, 3) ? draw_s(-3, 0) : (int64_t)draw_small(0, 8); rcutils_fault_injection_set_count(k); say("set %" PRId64, k); m = k; break;
      case 1: {
          int64_t want = m; k = _rcutils_fault_injection_maybe_fail(); say("pass a point: %" PRId64, k);
          CHECK(want < 0 ? k < 0 : k == want, "a point at counter %" PRId64 " gave %" PRId64, want, k); see(point()); break;
        }
      case 2: {bool w = point(); see(w); CHECK_EQ(of_int(), w ? 77 : 1, "function with a fault point"); break;}
      case 3: {bool w = point(); see(w); CHECK((of_ptr() == nullptr) == w, "pointer function with a fault point"); break;}
      case 4: {
          bool w = point(); see(w); CHECK_EQ(of_msg(), w ? 78 : 1, "function with a message and a fault point");
          CHECK(rc::error_is_set() == w, "the error message is %sset", w ? "not " : ""); rc::clear_error(); break;
        }
      case 5: {bool w = point(); see(w); CHECK_EQ(of_block(), w ? 79 : 1, "block with a fault point"); break;}
      case 6: {bool a = point(), b = a ? false : point(); see(a || b); CHECK_EQ(of_two(), a ? 80 : b ? 81 : 1, "function with two fault points"); break;}
      case 7: {
          size_t n = draw_small(0, 4); int bad = 0;
          RCUTILS_NO_FAULT_INJECTION({for (size_t i = 0; i < n; i++) {if (of_int() != 1 || of_block() != 1) {bad++;}}});
          say("%zu paused points", 2 * n);
          CHECK(!bad, "%d paused points injected a fault", bad); break;
        }
      default: CHECK(rcutils_fault_injection_is_test_complete() == (m > -1), "is_test_complete is %d at counter %" PRId64, m <= -1, m);
    }
    k = rcutils_fault_injection_get_count();
    CHECK(k == m, "the counter is %" PRId64 ", expected %" PRId64, k, m);
  }
  if (injected) {label("fault injected");}
  rcutils_fault_injection_set_count(-1);
}
static void loops()
{
  size_t n = draw_small(0, 20), runs = 0, faults = 0; bool stop = chance(1, 2); std::vector<size_t> where;
  RCUTILS_FAULT_INJECTION_TEST({
    runs++;
    for (size_t i = 0; i < n; i++) {
      if (of_int() != 1) {faults++; where.push_back(i); if (stop) {break;}}
    }
  });
  say("loop over %zu points: %zu runs", n, runs);
  CHECK_EQ(runs, n + 1, "runs of the fault injection loop");
  CHECK_EQ(faults, n, "injected faults");
  for (size_t i = 0; i < where.size(); i++) {CHECK_EQ(where[i], i, "place of the fault in a run");}
  CHECK(rcutils_fault_injection_get_count() < 0, "the counter is left armed");
  if (n) {nontrivial();}
}
// everything by which memory can be had from the default allocator, and every call with fault points, fails with the counter at 0
static void first()
{
  rcutils_allocator_t d = rcutils_get_default_allocator(); size_t n = draw_small(1, 40); char b[8]; const char * o; rc::TrackAlloc ta;
  char * p = (char *)d.allocate(n, d.state); CHECK(p, "default allocate");
  memset(p, 7, n);
  int w = (int)draw_plain(0, 8); bool failed = false; char * q = nullptr;
  rcutils_string_array_t sa = rcutils_get_zero_initialized_string_array(); rcutils_allocator_t a = ta.get();
  static const char * const names[] = {"allocate", "reallocate", "zero_allocate", "snprintf", "get_env", "set_env", "strdup", "reallocf", "string_array_init"};
  say("%s with the counter at 0", names[w]);
  unsetenv("C27_FIRST");
  rcutils_fault_injection_set_count(0);
  switch (w) {
    case 0: failed = !(q = (char *)d.allocate(n, d.state)); break;
    case 1: failed = !(q = (char *)d.reallocate(p, n + 3, d.state)); if (q) {p = nullptr;} break;
    case 2: failed = !(q = (char *)d.zero_allocate(n, 1, d.state)); break;
    case 3: failed = rcutils_snprintf(b, sizeof b, "%s", "x") < 0; break;
    case 4: failed = rcutils_get_env("HOME", &o) != nullptr; break;
    case 5: failed = !rcutils_set_env("C27_FIRST", "v") && !getenv("C27_FIRST"); break;
    case 6: failed = !(q = rcutils_strdup("abc", d)); break;
    case 7: failed = !(q = (char *)rcutils_reallocf(p, n + 3, &d)); p = nullptr; break;
    default: failed = rcutils_string_array_init(&sa, 2, &a) != RCUTILS_RET_OK; if (!failed && rcutils_string_array_fini(&sa)) {}
  }
  int64_t c = rcutils_fault_injection_get_count();
  rcutils_fault_injection_set_count(-1);
  CHECK(failed && c < 0, "%s with the counter at 0 %s, the counter is then %" PRId64, names[w], failed ? "failed" : "succeeded", c);
  if (p) {for (size_t i = 0; i < n; i++) {CHECK(p[i] == 7, "a failed %s changed the memory it was given", names[w]);} d.deallocate(p, d.state);}
  if (q) {d.deallocate(q, d.state);}
  ta.expect_empty(names[w]); rc::clear_error(); nontrivial();
}
static void threads()
{
  size_t T = draw_plain(2, 4), N = draw_plain(20, 800); int64_t start = chance(1, 3) ? (int64_t)draw_plain(0, 3) : (int64_t)draw_plain(0, T * N + 5);
  rcutils_fault_injection_set_count(start);
  std::vector<std::vector<int64_t>> out(T); std::atomic<size_t> ready{0}; std::vector<std::thread> th;
  for (size_t t = 0; t < T; t++) {
    out[t].reserve(N);
    th.emplace_back([&, t] {ready++; while (ready < T) {} for (size_t i = 0; i < N; i++) {out[t].push_back(_rcutils_fault_injection_maybe_fail());}});
  }
  for (auto & t : th) {t.join();}
  std::vector<int64_t> seen; size_t neg = 0;
  for (auto & o : out) {for (auto v : o) {if (v < 0) {neg++;} else {seen.push_back(v);}}}
  std::sort(seen.rbegin(), seen.rend());
  size_t want = std::min((size_t)start + 1, T * N);
  say("%zu threads pass %zu points each from counter %" PRId64, T, N, start);
  CHECK_EQ(seen.size(), want, "points passed at a counter of 0 or more");
  for (size_t i = 0; i < seen.size(); i++) {CHECK_EQ(seen[i], start - (int64_t)i, "every counter value is seen by exactly one thread");}
  if (want == (size_t)start + 1) {nontrivial(); CHECK(rcutils_fault_injection_get_count() < 0, "the counter is left armed");}
  else {CHECK_EQ(rcutils_fault_injection_get_count(), start - (int64_t)want, "counter afterwards");}
  rcutils_fault_injection_set_count(-1);
  label("threads");
}
// every function with fault points reports each injected fault as one of its documented errors and leaves nothing behind
static void library()
{
  int which = (int)draw_plain(0, 18); std::string s = cstr(30), v = cstr(20); size_t n = draw_small(0, 5);
  rc::Exact es(s), ev(v);
  size_t runs = 0; bool clean = false;
  for (int64_t c = 0; !clean; c++) {
    CHECK(c < 200, "no run without a fault after 200 counter values");
    runs++;
    rc::TrackAlloc ta; rcutils_allocator_t a = ta.get(), def = rcutils_get_default_allocator();
    rcutils_fault_injection_set_count(c);
    const char * what = ""; bool ok = true; std::string got, want;
    switch (which) {
      case 0: {what = "strdup"; char * p = rcutils_strdup(es, a); ok = p; if (p) {got = p; want = s; a.deallocate(p, a.state);} break;}
      case 1: {what = "strndup"; char * p = rcutils_strndup(es, s.size(), a); ok = p; if (p) {got = p; want = s; a.deallocate(p, a.state);} break;}
      case 2: {what = "format_string"; char * p = rcutils_format_string(a, "<%s|%d>", (char *)es, 5); ok = p; if (p) {got = p; want = "<" + s + "|5>"; a.deallocate(p, a.state);} break;}
      case 3: {what = "snprintf"; char b[128]; int r = rcutils_snprintf(b, sizeof b, "%s", (char *)es); ok = r >= 0; if (ok) {got = b; want = s; CHECK_EQ(r, s.size(), "snprintf");} break;}
      case 4: {what = "set_env"; ok = rcutils_set_env("C27_VAR", ev); if (ok) {got = getenv("C27_VAR") ? getenv("C27_VAR") : "<unset>"; want = v;} break;}
      case 5: {setenv("C27_VAR", v.c_str(), 1); what = "get_env"; const char * o = nullptr; const char * e = rcutils_get_env("C27_VAR", &o); ok = !e; if (ok) {got = o; want = v;} break;}
      case 6: {
          what = "string_array";
          rcutils_string_array_t sa = rcutils_get_zero_initialized_string_array();
          rcutils_ret_t r = rcutils_string_array_init(&sa, n, &a);
          ok = r == RCUTILS_RET_OK;
          CHECK(ok || r == RCUTILS_RET_BAD_ALLOC || r == RCUTILS_RET_INVALID_ARGUMENT, "a fault in string_array_init gave %s", rc::ret_name(r));
          if (ok) {
            for (size_t i = 0; i < n && ok; i++) {sa.data[i] = rcutils_strdup(es, a); ok = sa.data[i];}
            rcutils_ret_t f = rcutils_string_array_fini(&sa);
            if (f != RCUTILS_RET_OK) {ok = false; f = rcutils_string_array_fini(&sa);}
            CHECK_EQ(f, RCUTILS_RET_OK, "second fini after an injected fault");
          }
          break;
        }
      case 7: {
          what = "the default allocator"; char * p = (char *)def.allocate(n + 1, def.state);
          ok = p; if (p) {char * q = (char *)def.reallocate(p, n + 9, def.state); ok = q; def.deallocate(q ? q : p, def.state);}
          if (ok) {char * z = (char *)def.zero_allocate(n + 1, 3, def.state); ok = z; if (z) {for (size_t i = 0; i < 3 * (n + 1); i++) {CHECK(!z[i], "zero_allocate gave memory that is not zero");} def.deallocate(z, def.state);}}
          break;
        }
      case 8: case 9: case 10: {
          rcutils_time_point_value_t t = 1234567890123456789; char b[64]; static rcutils_ret_t (*const f[])(const rcutils_time_point_value_t *, char *, size_t) =
          {rcutils_time_point_value_as_nanoseconds_string, rcutils_time_point_value_as_seconds_string, rcutils_time_point_value_as_date_string};
          static const char * const fn[] = {"as_nanoseconds_string", "as_seconds_string", "as_date_string"}, * const w[] = {"1234567890123456789", "1234567890.123456789", nullptr};
          what = fn[which - 8];
          rcutils_ret_t r = f[which - 8](&t, b, sizeof b); ok = r == RCUTILS_RET_OK;
          CHECK(ok || (r == RCUTILS_RET_ERROR && rc::error_is_set()), "a fault in %s gave %s", what, rc::ret_name(r));
          if (ok && w[which - 8]) {got = b; want = w[which - 8];}
          break;
        }
      case 11: {what = "join_path"; char * p = rcutils_join_path(es, ev, a); ok = p; if (p) {got = p; want = s + "/" + v; a.deallocate(p, a.state);} break;}
      case 12: {setenv("HOME", "/h", 1); what = "expand_user"; char * p = rcutils_expand_user("~/x", a); ok = p; if (p) {got = p; want = "/h/x"; a.deallocate(p, a.state);} break;}
      case 13: {setenv("HOME", "/h", 1); what = "get_home_dir"; const char * p = rcutils_get_home_dir(); ok = p; if (p) {got = p; want = "/h";} break;}
      case 14: {
          what = "string_map_set"; rcutils_string_map_t m = rcutils_get_zero_initialized_string_map();
          CHECK_EQ(rcutils_string_map_init(&m, n, a), RCUTILS_RET_OK, "string_map_init");
          rcutils_ret_t r = rcutils_string_map_set(&m, es, ev); ok = r == RCUTILS_RET_OK; size_t z = 9; const char * g = rcutils_string_map_get(&m, es);
          CHECK_EQ(rcutils_string_map_get_size(&m, &z), RCUTILS_RET_OK, "string_map_get_size");
          CHECK(ok || r == RCUTILS_RET_BAD_ALLOC, "a fault in string_map_set gave %s", rc::ret_name(r));
          CHECK(z == (size_t)ok && (g != nullptr) == ok, "string_map_set %s, but %zu keys are set", ok ? "succeeded" : "failed", z);
          if (g) {got = g; want = v;}
          CHECK_EQ(rcutils_string_map_fini(&m), RCUTILS_RET_OK, "string_map_fini"); break;
        }
      case 15: {
          what = "get_platform_library_name"; char b[64]; rcutils_ret_t r = rcutils_get_platform_library_name("ab", b, (unsigned)sizeof b, false); ok = r == RCUTILS_RET_OK;
          CHECK(ok || r == RCUTILS_RET_ERROR, "a fault in get_platform_library_name gave %s", rc::ret_name(r));
          if (ok) {got = b; want = "libab.so";}
          break;
        }
      case 16: {
          what = "split"; rcutils_string_array_t sa = rcutils_get_zero_initialized_string_array();
          ok = (chance(1, 2) ? rcutils_split("a,b", ',', a, &sa) : rcutils_split_last("a,b", ',', a, &sa)) == RCUTILS_RET_OK;
          if (ok) {got = std::string(sa.data[0]) + "+" + sa.data[1]; want = "a+b"; RCUTILS_NO_FAULT_INJECTION({CHECK_EQ(rcutils_string_array_fini(&sa), RCUTILS_RET_OK, "string_array_fini");});}
          break;
        }
      case 17: {
          what = "logging_initialize"; setenv("RCUTILS_CONSOLE_OUTPUT_FORMAT", "{message}!", 1);
          rcutils_ret_t r = rcutils_logging_initialize_with_allocator(a); ok = r == RCUTILS_RET_OK;
          bool armed = rcutils_fault_injection_get_count() > -1; int64_t left = rcutils_fault_injection_get_count();
          rcutils_fault_injection_set_count(-1);
          CHECK(ok || (rc::error_is_set() && !g_rcutils_logging_initialized), "a failed initialisation left logging initialised or set no error");
          if (ok) {
            // only the output format may be replaced by the default one when it cannot be read
            rcutils_char_array_t out = rcutils_get_zero_initialized_char_array(); rcutils_allocator_t d = rcutils_get_default_allocator();
            CHECK(rcutils_char_array_init(&out, 1, &d) == RCUTILS_RET_OK && rcutils_logging_format_message(nullptr, 20, "nm", 7, "hi", &out) == RCUTILS_RET_OK, "format_message");
            got = out.buffer; want = armed ? "hi!" : "[INFO] [0000000000.000000007] [nm]: hi";
            if (rcutils_char_array_fini(&out)) {}
            CHECK_EQ(rcutils_logging_shutdown(), RCUTILS_RET_OK, "logging_shutdown");
            ok = armed || !rc::error_is_set();
          }
          unsetenv("RCUTILS_CONSOLE_OUTPUT_FORMAT");
          rcutils_fault_injection_set_count(left);
          break;
        }
      default: {
          what = "load_shared_library"; rcutils_shared_library_t l = rcutils_get_zero_initialized_shared_library();
          rcutils_ret_t r = rcutils_load_shared_library(&l, "libm.so.6", a);
          ok = r == RCUTILS_RET_OK;
          if (ok) {RCUTILS_NO_FAULT_INJECTION({CHECK_EQ(rcutils_unload_shared_library(&l), RCUTILS_RET_OK, "unload");});}
          else {CHECK(!l.lib_pointer && !l.library_path, "a failed load left something in the handle");}
        }
    }
    int64_t after = rcutils_fault_injection_get_count();
    clean = after > -1;
    rcutils_fault_injection_set_count(-1);
    say("%s with the counter at %" PRId64 ": %s, counter then %" PRId64, what, c, ok ? "fine" : "failed", after);
    CHECK(ok == clean, "%s at counter %" PRId64 " %s, but a fault was %sinjected", what, c, ok ? "succeeded" : "failed", clean ? "not " : "");
    CHECK(got == want, "%s gave %s, expected %s", what, quote(got).c_str(), quote(want).c_str());
    ta.expect_empty(what);
    rc::clear_error();
  }
  CHECK(runs > 1, "no fault point was passed"); nontrivial();
  unsetenv("C27_VAR");
}
void property_case()
{
  rc::clear_error();
  cap->start();
  switch (weighted({12, 3, 1, 6, 2})) {case 0: counter(); break; case 1: loops(); break; case 2: threads(); break; case 3: library(); break; default: first();}
  cap->stop();
}
}  // namespace pbt
