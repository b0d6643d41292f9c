#include "rc.h"
#include "rcutils/logging.h"
#include "rcutils/types/char_array.h"
using namespace pbt;
namespace pbt
{
const char * const kPropertyId = "C31";
const char * const kRule =
  "a case is a generated history of logging initialisations (explicit with one of two tracking allocators, with failing "
  "allocations, an invalid allocator or a refused environment, repeated, or implicit by the first use), shutdowns (also repeated), "
  "output formats from the environment, level and handler changes and queries, against a model that forgets everything at "
  "shutdown; non-trivial: at least two initialisations that took effect with levels, handler or format changed in between";
const Budget kBudget = {300000, 4000000, 100000};
static rc::TrackAlloc * ta[2]; static rc::FdCapture * cap;
void property_setup() {cap = new rc::FdCapture(2); ta[0] = new rc::TrackAlloc; ta[1] = new rc::TrackAlloc;}
static unsigned calls[2]; static int last_sev; static std::string last_msg;
static void note(int h, int sev, const char * f, va_list * a) {char b[200]; vsnprintf(b, sizeof b, f, *a); calls[h]++; last_sev = sev; last_msg = b;}
static void h0(const rcutils_log_location_t *, int s, const char *, rcutils_time_point_value_t, const char * f, va_list * a) {note(0, s, f, a);}
static void h1(const rcutils_log_location_t *, int s, const char *, rcutils_time_point_value_t, const char * f, va_list * a) {note(1, s, f, a);}

static const char * const kFormats[] = {
  nullptr, "", "{message}", "<{name}>{message}", "{severity}:{message}:{name} and a tail that is much longer than the others", "x", "\\t{message}\\n", "{file_name}{message}"};
static std::string expand(int f)
{
  switch (f) {
    case 0: case 1: return "[WARN] [0000000000.000000007] [nm]: hello";
    case 2: return "hello";
    case 3: return "<nm>hello";
    case 4: return "WARN:hello:nm and a tail that is much longer than the others";
    case 5: return "x";
    case 6: return "\thello\n";
    default: return "hello";
  }
}
void property_case()
{
  rc::clear_error();
  for (auto t : ta) {t->closed = false; t->disarm();}
  bool init = false; int owner = -1, deflt = 20, fmt = 0, envfmt = 0, handler = 2; bool envbad = false, changed = false;
  std::map<std::string, int> lv; unsigned effective_inits = 0; bool good = false;
  static const char * const names[] = {"a", "a.b", "b", "b.c.d", "c"};
  rcutils_logging_output_handler_t H[] = {h0, h1, rcutils_logging_console_output_handler, nullptr};
  unsetenv("RCUTILS_CONSOLE_OUTPUT_FORMAT"); unsetenv("RCUTILS_COLORIZED_OUTPUT"); unsetenv("RCUTILS_LOGGING_USE_STDOUT"); unsetenv("RCUTILS_LOGGING_BUFFERED_STREAM"); unsetenv("RCUTILS_CONSOLE_STDOUT_LINE_BUFFERED");
  auto fresh = [&](int who) {
      init = true; owner = who; deflt = 20; fmt = envfmt; handler = 2; lv.clear(); effective_inits++;
      if (changed && effective_inits >= 2) {good = true;}
      changed = false;
    };
  auto implicit = [&]() {if (!init && !envbad) {fresh(-1); label("initialised by first use");}};
  auto unaffected = [&](const char * when) {
      CHECK(g_rcutils_logging_initialized == init, "%s: logging is %sinitialised", when, init ? "not " : "");
    };
  while (more(25)) {
    bool was = init, capture = !init && chance(1, 4);
    if (capture) {cap->start();}
    switch (weighted({5, 4, 3, 1, 5, 2, 2, 6, 3, 2})) {
      case 0: {
          int k = (int)draw_plain(0, 1); bool faulty = chance(1, 4), invalid = chance(1, 12);
          if (faulty) {ta[k]->arm((int64_t)draw_small(0, 3), chance(1, 2));}
          rcutils_allocator_t al = ta[k]->get();
          if (invalid) {switch (draw_plain(0, 2)) {case 0: al.allocate = nullptr; break; case 1: al.deallocate = nullptr; break; default: al = rcutils_get_zero_initialized_allocator();}}
          say("initialize with allocator %d%s%s", k, invalid ? " (invalid)" : "", faulty ? " (failing)" : "");
          rcutils_ret_t r = rcutils_logging_initialize_with_allocator(al);
          bool failed = ta[k]->n_failed; ta[k]->disarm();
          if (init) {CHECK(r == RCUTILS_RET_OK, "initialising again returned %s", rc::ret_name(r));} else if (invalid || envbad) {
            CHECK(r == RCUTILS_RET_INVALID_ARGUMENT && rcutils_error_is_set(), "initialisation with %s returned %s", invalid ? "an invalid allocator" : "a refused environment", rc::ret_name(r));
          } else if (failed) {
            CHECK(r == RCUTILS_RET_ERROR && rcutils_error_is_set(), "initialisation out of memory returned %s", rc::ret_name(r));
            label("initialisation ran out of memory");
          } else {CHECK(r == RCUTILS_RET_OK, "initialisation returned %s", rc::ret_name(r)); fresh(k);}
          if (!init) {ta[k]->expect_empty("after a refused initialisation");}
          break;
        }
      case 1: {
          say("shutdown");
          rcutils_ret_t r = rcutils_logging_shutdown();
          CHECK(r == RCUTILS_RET_OK, "shutdown returned %s", rc::ret_name(r));
          init = false;
          ta[0]->expect_empty("after shutdown"); ta[1]->expect_empty("after shutdown");
          break;
        }
      case 2: {
          envfmt = (int)draw_plain(0, 7); say("output format %s", kFormats[envfmt] ? kFormats[envfmt] : "(not set)");
          if (kFormats[envfmt]) {setenv("RCUTILS_CONSOLE_OUTPUT_FORMAT", kFormats[envfmt], 1);} else {unsetenv("RCUTILS_CONSOLE_OUTPUT_FORMAT");}
          changed |= envfmt != fmt; break;
        }
      case 3: {
          envbad = chance(1, 2); static const char * const vars[] = {"RCUTILS_COLORIZED_OUTPUT", "RCUTILS_LOGGING_USE_STDOUT", "RCUTILS_LOGGING_BUFFERED_STREAM"};
          for (auto v : vars) {unsetenv(v);}
          if (envbad) {const char * v = vars[draw_plain(0, 2)]; say("%s=maybe", v); setenv(v, "maybe", 1);} else {say("environment cleaned");}
          static const char * const lb[] = {"", "0", "1", "maybe"}; size_t k = draw_plain(0, 7);   // obsolete: a notice at most
          if (k < 4) {setenv("RCUTILS_CONSOLE_STDOUT_LINE_BUFFERED", lb[k], 1); say("STDOUT_LINE_BUFFERED=%s", lb[k]);} else {unsetenv("RCUTILS_CONSOLE_STDOUT_LINE_BUFFERED");}
          break;
        }
      case 4: {
          implicit();
          const char * n = names[draw_plain(0, 4)]; int l = 10 * (int)draw_plain(0, 5); say("level of %s = %d", n, l);
          rcutils_ret_t r = rcutils_logging_set_logger_level(n, l);
          if (init) {CHECK(r == RCUTILS_RET_OK, "set_logger_level returned %s", rc::ret_name(r)); lv[n] = l; changed = true;} else {
            CHECK(r == RCUTILS_RET_LOGGING_SEVERITY_MAP_INVALID, "set_logger_level without an initialised logging returned %s", rc::ret_name(r));
          }
          break;
        }
      case 5: {
          implicit();
          int l = 10 * (int)draw_plain(1, 5); say("default level = %d", l); rcutils_logging_set_default_logger_level(l);
          if (init) {deflt = l; changed = true;}
          break;
        }
      case 6: {
          implicit();
          int h = (int)draw_plain(0, 3); say("output handler %d", h); rcutils_logging_set_output_handler(H[h]);
          if (init) {handler = h; changed = true;}
          break;
        }
      case 7: {
          implicit();
          say("query");
          const char * n = names[draw_plain(0, 4)];
          int l = rcutils_logging_get_logger_level(n), e = rcutils_logging_get_logger_effective_level(n), d = rcutils_logging_get_default_logger_level();
          bool en = rcutils_logging_logger_is_enabled_for(n, 30);
          rcutils_logging_output_handler_t h = rcutils_logging_get_output_handler();
          if (!init) {CHECK(l == 0 && e == -1 && !en, "levels exist without an initialised logging: %d %d %d", l, e, en); break;}
          std::string s = n; int want = deflt;
          while (true) {
            auto it = lv.find(s); if (it != lv.end() && it->second) {want = it->second; break;}
            size_t p = s.rfind('.'); if (p == std::string::npos) {break;} s.resize(p);
          }
          int wl = lv.count(n) ? lv[n] : 0;
          CHECK(l == wl, "the level of %s is %d, expected %d", n, l, wl);
          CHECK(e == want, "the effective level of %s is %d, expected %d", n, e, want);
          CHECK(en == (30 >= want), "is_enabled_for(%s, WARN) is %d at level %d", n, en, want);
          CHECK(d == deflt, "the default level is %d, expected %d", d, deflt);
          CHECK(h == H[handler], "the output handler is not the one expected (%d)", handler);
          break;
        }
      case 8: {
          if (!init) {break;}
          rcutils_char_array_t out = rcutils_get_zero_initialized_char_array(); rcutils_allocator_t al = rcutils_get_default_allocator();
          CHECK(rcutils_char_array_init(&out, 8, &al) == RCUTILS_RET_OK, "char_array_init failed"); say("format");
          rcutils_ret_t r = rcutils_logging_format_message(nullptr, 30, "nm", 7, "hello", &out);
          std::string got = out.buffer; if (rcutils_char_array_fini(&out)) {}
          CHECK(r == RCUTILS_RET_OK && got == expand(fmt), "the message is formatted as %s, expected %s", quote(got).c_str(), quote(expand(fmt)).c_str());
          break;
        }
      default: {
          if (init ? handler == 2 : !envbad) {break;}    // would be printed
          unsigned b0 = calls[0], b1 = calls[1]; say("log");
          rcutils_log(nullptr, 60, "a", "%s", "message");
          if (init) {
            CHECK(calls[0] - b0 == (handler == 0) && calls[1] - b1 == (handler == 1), "the message reached handlers %u/%u times, handler %d is set", calls[0] - b0, calls[1] - b1, handler);
          } else {CHECK(calls[0] == b0 && calls[1] == b1, "a message was logged without an initialised logging");}
        }
    }
    rc::clear_error();
    if (capture) {
      std::string err = cap->stop();
      const char * lb = getenv("RCUTILS_CONSOLE_STDOUT_LINE_BUFFERED");
      bool notice = lb && *lb;
      CHECK(was == init || (notice ? err.empty() || err.find("RCUTILS_CONSOLE_STDOUT_LINE_BUFFERED") != std::string::npos : err.empty()), "initialising printed %s", quote(err).c_str());
      if (was != init) {label("initialisation observed on standard error");}
    }
    unaffected("after the call");
    if (init) {int o = owner < 0 ? 2 : owner; for (int k = 0; k < 2; k++) {if (k != o) {ta[k]->expect_empty("of an allocator logging was not initialised with");}}}
  }
  CHECK(rcutils_logging_shutdown() == RCUTILS_RET_OK, "shutdown failed");
  ta[0]->expect_empty("after the last shutdown"); ta[1]->expect_empty("after the last shutdown");
  unsetenv("RCUTILS_CONSOLE_OUTPUT_FORMAT"); unsetenv("RCUTILS_COLORIZED_OUTPUT"); unsetenv("RCUTILS_LOGGING_USE_STDOUT"); unsetenv("RCUTILS_LOGGING_BUFFERED_STREAM"); unsetenv("RCUTILS_CONSOLE_STDOUT_LINE_BUFFERED");
  rc::clear_error();
  if (good) {nontrivial();}
}
}  // namespace pbt
