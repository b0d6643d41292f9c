#include "rc.h"
#include <time.h>
#include "c15.h"
#include "rcutils/logging.h"
#include "rcutils/logging_macros.h"
// BUILD wrap: clock_gettime
using namespace pbt;
// the system clock as everybody here sees it: the real one, or one that stands still and is set anew at times
static bool g_fixed; static long long g_wall; static uint64_t g_wall_reads;
extern "C" {
int __real_clock_gettime(clockid_t id, struct timespec * ts);
int __wrap_clock_gettime(clockid_t id, struct timespec * ts)
{
  if (!g_fixed || id != CLOCK_REALTIME) {return __real_clock_gettime(id, ts);}
  g_wall_reads++; ts->tv_sec = g_wall / 1000000000; ts->tv_nsec = g_wall % 1000000000; return 0;
}
bool c15_take; int c15_else, c15_num; const char * c15_name;
static int g_args, g_conds; static bool g_cond; static std::string g_arg; static long long g_now; static bool g_clock_fails;
const char * c15_arg(void) {g_args++; return g_arg.c_str();}
bool c15_expr(void) {g_conds++; return g_cond;}
bool c15_filter(void) {g_conds++; return g_cond;}
rcutils_ret_t c15_clock(rcutils_time_point_value_t * t) {if (g_clock_fails) {return RCUTILS_RET_ERROR;} *t = g_now; return RCUTILS_RET_OK;}
extern char __start_c15bss[], __stop_c15bss[], __start_c15data[], __stop_c15data[];
}
namespace pbt
{
const char * const kPropertyId = "C15";
const char * const kRule =
  "a case is a generated history of calls through all 70 logging macros at C and C++ call sites (and sites compiled with each "
  "RCUTILS_LOG_MIN_SEVERITY), rcutils_log and rcutils_log_internal, under changing logger levels, output handlers, filter "
  "results and a scripted clock, compared with a model of what reaches the handler and what gets evaluated; non-trivial: a "
  "throttled, once or skip-first site reached at least three times while enabled, or a disabled conditional site";
const Budget kBudget = {200000, 3000000, 100000};
static std::vector<std::vector<c15_site>> tables; static std::vector<int> min_sev;
static std::vector<char> snap_bss, snap_data;
__attribute__((no_sanitize("address"))) static void copy_bytes(char * d, const char * s, size_t n) {for (size_t i = 0; i < n; i++) {((volatile char *)d)[i] = s[i];}}

struct Event
{
  int handler, sev; std::string name, msg, func, file; size_t line; bool loc;
};
static std::vector<Event> events;
// what the handlers do themselves: log that many messages inside each other, and set another handler first
static const c15_site * g_again; static int g_again_n, g_again_depth;     // or come back to the call site they are called from
static int g_nested, g_depth; static bool g_switch; static rcutils_logging_output_handler_t g_switch_to;
static void record(int h, const rcutils_log_location_t * l, int sev, const char * name, rcutils_time_point_value_t ts, const char * fmt, va_list * args)
{
  static char buf[150000]; vsnprintf(buf, sizeof buf, fmt, *args);
  CHECK(name, "the output handler was called with a NULL name");
  if (!g_fixed) {
    rcutils_time_point_value_t now; struct timespec t; clock_gettime(CLOCK_REALTIME, &t); now = t.tv_sec * 1000000000ll + t.tv_nsec;
    CHECK(ts <= now + 2000000000ll && ts >= now - 60000000000ll, "the time stamp %" PRId64 " of a message is not the system time %" PRId64, ts, now);
  } else if (g_wall_reads) {
    CHECK(ts == g_wall, "the time stamp %" PRId64 " of a message is not the system time %lld", ts, g_wall);
  }
  events.push_back({h, sev, name, buf, l ? l->function_name : "", l ? l->file_name : "", l ? l->line_number : 0, l != nullptr});
  if (!g_depth && g_switch) {rcutils_logging_set_output_handler(g_switch_to);}
  if (g_again && g_again_depth < g_again_n) {
    struct Depth {Depth() {g_again_depth++;} ~Depth() {g_again_depth--;}} deeper;
    g_again->run();
  }
  if (g_depth < g_nested) {
    struct Depth {Depth() {g_depth++;} ~Depth() {g_depth--;}} deeper;
    rcutils_log(nullptr, 50, "a.nested", "from inside, %d", g_depth);
  }
}
static void handler0(const rcutils_log_location_t * l, int s, const char * n, rcutils_time_point_value_t t, const char * f, va_list * a) {record(0, l, s, n, t, f, a);}
static void handler1(const rcutils_log_location_t * l, int s, const char * n, rcutils_time_point_value_t t, const char * f, va_list * a) {record(1, l, s, n, t, f, a);}

void property_setup()
{
  void (* get[])(c15_table *) = {c15c_get, c15cpp_get, c15info_get, c15warn_get, c15error_get, c15fatal_get, c15none_get};
  for (auto g : get) {
    c15_table t; g(&t);
    tables.emplace_back(t.sites, t.sites + t.n); min_sev.push_back(t.min_severity);
  }
  snap_bss.resize(__stop_c15bss - __start_c15bss); snap_data.resize(__stop_c15data - __start_c15data);
  copy_bytes(snap_bss.data(), __start_c15bss, snap_bss.size());
  copy_bytes(snap_data.data(), __start_c15data, snap_data.size());
}
struct State {bool once = false, first = true; long long last = 0; unsigned reached = 0;};

static const char * kNames[] = {"a", "a.b", "a.b.c", "b", "", nullptr, ""};
void property_case()
{
  rc::clear_error();
  copy_bytes(__start_c15bss, snap_bss.data(), snap_bss.size());
  copy_bytes(__start_c15data, snap_data.data(), snap_data.size());
  CHECK(rcutils_logging_initialize() == RCUTILS_RET_OK, "initialisation failed");
  CHECK(rcutils_logging_get_output_handler() == rcutils_logging_console_output_handler, "the console handler is not the default");
  rcutils_logging_output_handler_t H[] = {handler0, handler1, nullptr};
  int handler = 0; rcutils_logging_set_output_handler(H[0]);
  std::map<std::string, int> lv; int deflt = 20;
  std::string any = stretch((chance(1, 2) ? "a." : "") + printable(30), 60, 70000);   // any bytes, also below a configured ancestor
  kNames[6] = any.c_str();
  auto eff = [&](const char * n) {
      if (!n) {return deflt;}
      std::string s = n;
      while (true) {
        auto it = lv.find(s);
        if (!s.empty() && it != lv.end() && it->second) {return it->second;}
        size_t p = s.rfind('.'); if (p == std::string::npos) {return deflt;} s.resize(p);
      }
    };
  // a few sites used repeatedly
  struct Use {int t, s; State st;};
  std::vector<Use> uses;
  size_t nuse = 1 + draw_small(0, 5);
  for (size_t i = 0; i < nuse; i++) {
    int t = (int)weighted({6, 6, 1, 1, 1, 1, 1});
    int s = (int)draw_plain(0, tables[t].size() - 1);
    if (chance(1, 2)) {s = s / 14 * 14 + 8 + (int)draw_plain(0, 5);}
    bool dup = false; for (auto & u : uses) {dup |= u.t == t && u.s == s;}
    if (!dup) {uses.push_back({t, s, {}});}
  }
  g_now = chance(1, 2) ? (long long)draw_edge(0, 1ull << 50) : 0;
  bool good = false;
  struct Fixed {Fixed(bool y) {g_fixed = y; g_wall_reads = 0;} ~Fixed() {g_fixed = false;}} fixed(chance(1, 2));
  auto set_wall = [&]() {g_wall = (long long)draw_edge(0, 4000000000000000000ll); say("the system clock is set to %lld", g_wall); label("a clock that stands still");};
  if (g_fixed) {set_wall();}
  while (more(35)) {
    if (chance(1, 8)) {
      const char * n = kNames[chance(1, 6) ? 6 : draw_plain(0, 4)]; int l = 10 * (int)draw_plain(0, 5);
      say("level of \"%s\" = %d", n, l);
      CHECK(rcutils_logging_set_logger_level(n, l) == RCUTILS_RET_OK, "set_logger_level failed");
      if (*n) {lv[n] = l;} else {deflt = l;}
    }
    if (chance(1, 12)) {int l = chance(1, 6) ? (int)draw_plain(1, 60) : 10 * (int)draw_plain(1, 5); say("default level %d", l); rcutils_logging_set_default_logger_level(l); deflt = l;}
    if (chance(1, 16)) {
      handler = (int)draw_plain(0, 2); say("output handler %d", handler);
      rcutils_logging_set_output_handler(H[handler]);
      CHECK(rcutils_logging_get_output_handler() == H[handler], "get_output_handler does not give the handler that was set");
    }
    if (g_fixed && chance(1, 12)) {set_wall();}
    events.clear(); g_args = g_conds = c15_else = 0;
    g_cond = !chance(1, 3); c15_num = (int)draw_s(-5, 100); g_arg = chance(1, 3) ? stretch(printable(400), 60, 100000) : printable(8);
    c15_name = kNames[chance(1, 8) ? 6 : draw_plain(0, 5)]; g_clock_fails = chance(1, 25); c15_take = !chance(1, 30);
    g_nested = chance(1, 6) ? (int)draw_plain(1, 4) : 0; g_depth = 0; g_switch = chance(1, 20);
    int to = g_switch ? (int)draw_plain(0, 2) : 0; g_switch_to = H[to];
    if (g_nested || g_switch) {say("the handler logs %d messages%s", g_nested, g_switch ? to == 2 ? " after unsetting the handler" : to ? " after setting handler 1" : " after setting handler 0" : "");}
    std::vector<Event> want; int wargs = 0, wconds = 0;
    g_again = nullptr; g_again_n = chance(1, 8) ? (int)draw_plain(1, 4) : 0; g_again_depth = 0;
    unsigned reps = chance(1, 120) ? (unsigned)draw_plain(2, 600) : 1;
    if (g_nested || g_switch || g_clock_fails || !c15_take) {g_again_n = 0; reps = 1;}
    if (reps > 1) {g_again_n = 0;}
    std::string text = g_arg + "-" + std::to_string(c15_num) + "%";
    if (chance(1, 8)) {
      bool internal = chance(1, 3), noloc = chance(1, 4); int sev = chance(1, 3) ? (int)draw_s(0, 60) : 10 * (int)draw_plain(1, 5);
      rcutils_log_location_t loc = {"f", "g", (size_t)draw(0, 99999)};
      say("%s(severity %d, name %s)", internal ? "rcutils_log_internal" : "rcutils_log", sev, c15_name ? c15_name : "NULL");
      (internal ? rcutils_log_internal : rcutils_log)(noloc ? nullptr : &loc, sev, c15_name, "%s-%d%%", g_arg.c_str(), c15_num);
      if ((internal || sev >= eff(c15_name)) && H[handler]) {
        want.push_back({handler, sev, c15_name ? c15_name : "", text, noloc ? "" : "f", noloc ? "" : "g", noloc ? 0 : loc.line_number, !noloc});
      }
    } else {
      Use & u = uses[draw_plain(0, uses.size() - 1)];
      const c15_site & s = tables[u.t][u.s];
      long long d = s.duration_ms * 1000000;
      if (s.kind >= 10) {
        switch (weighted({4, 3, 1})) {
          case 0: g_now += (long long)draw_edge(0, 2 * d + 5); break;
          case 1: {long long x = u.st.last + d + (long long)draw_plain(0, 2) - 1; if (x >= g_now) {g_now = x;} break;}
          default: g_now += d;
        }
      }
      say("%s%s, name %s, condition %d, clock %lld%s", s.func, c15_take ? "" : " (branch not taken)", c15_name ? c15_name : "NULL", g_cond, g_now, g_clock_fails ? " (failing)" : "");
      if (g_again_n) {g_again = &s; say("the handler comes back to it %d times", g_again_n);}
      if (reps > 1) {say("%u times", reps); label("a call site reached many times at once");}
      for (unsigned i = 0; i < reps; i++) {s.run();}
      const char * nm = s.kind & 1 ? c15_name : nullptr;
      for (unsigned run = 0; run < reps + g_again_n; run++) {
      bool emit = false;
      if (!c15_take) {
        CHECK(c15_else == 1, "the else branch of an if around %s was not taken", s.func);
      } else {
        CHECK(c15_else == 0, "the else branch of an if around %s was taken", s.func);
        bool enabled = s.severity >= min_sev[u.t] && s.severity >= eff(nm);
        if (!enabled) {if (s.kind >= 2) {good = true; label("a conditional site while disabled");}} else {
          emit = true;
          u.st.reached++;
          switch (s.kind / 2) {
            case 1: emit = !u.st.once; u.st.once = true; break;
            case 2: case 3: wconds++; emit = g_cond; break;
            case 4: emit = !u.st.first; u.st.first = false; break;
            case 5: case 6: {
                bool c = true; long long now = g_now;
                if (g_clock_fails) {
                  now = 0;
                  if (40 >= eff("") && H[handler]) {want.push_back({handler, 40, "", "?", s.func, s.file, (size_t)s.line, true});}
                } else {c = g_now >= u.st.last + d;}
                if (c) {
                  u.st.last = now;
                  if (s.kind >= 12) {c = !u.st.first; u.st.first = false;}
                }
                emit = c; label(c ? "throttle passes" : "throttled");
                break;
              }
          }
          if (s.kind >= 2 && (s.kind < 4 || s.kind >= 8) && u.st.reached >= 3) {good = true;}
        }
      }
      if (emit) {
        wargs++;
        if (H[handler]) {want.push_back({handler, s.severity, nm ? nm : "", text, s.func, s.file, (size_t)s.line, true});}
      }
      if (g_again_n && !(emit && H[handler])) {break;}        // nobody comes back
      if (g_again_n && run) {label("a call site reached again from its own message");}
      }
      CHECK(g_args == wargs, "the arguments of %s were evaluated %d times, expected %d", s.func, g_args, wargs);
      CHECK(g_conds == wconds, "the condition of %s was evaluated %d times, expected %d", s.func, g_conds, wconds);
    }
    std::vector<Event> plain; plain.swap(want);
    for (auto & w : plain) {
      if (!H[handler]) {break;}
      w.handler = handler; want.push_back(w);
      if (g_switch) {handler = to; label("the handler sets another one");}
      for (int k = 1; k <= g_nested && H[handler] && 50 >= eff("a.nested"); k++) {
        want.push_back({handler, 50, "a.nested", "from inside, " + std::to_string(k), "", "", 0, false}); label("a message logged by the handler");
      }
    }
    CHECK(rcutils_logging_get_output_handler() == H[handler], "the output handler is not the one that was set last");
    CHECK(events.size() == want.size(), "%zu message(s) reached the handler, expected %zu", events.size(), want.size());
    for (size_t i = 0; i < want.size(); i++) {
      const Event & g = events[i], & w = want[i];
      CHECK(g.handler == w.handler, "handler %d was called, handler %d is set", g.handler, w.handler);
      CHECK(g.sev == w.sev, "the severity is %d, expected %d", g.sev, w.sev);
      CHECK(g.name == w.name, "the logger name is %s, expected %s", quote(g.name).c_str(), quote(w.name).c_str());
      CHECK(w.msg == "?" || g.msg == w.msg, "the message is %s, expected %s", quote(g.msg).c_str(), quote(w.msg).c_str());
      CHECK(g.loc == w.loc && g.func == w.func && g.file == w.file && g.line == w.line, "the location is %s %s:%zu, expected %s %s:%zu",
        g.func.c_str(), g.file.c_str(), g.line, w.func.c_str(), w.file.c_str(), w.line);
    }
  }
  CHECK(rcutils_logging_shutdown() == RCUTILS_RET_OK, "shutdown failed");
  rc::clear_error();
  if (good) {nontrivial();}
}
}  // namespace pbt
