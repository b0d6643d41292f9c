#include "rc.h"
#include "rcutils/snprintf.h"
using namespace pbt;
namespace pbt
{
const char * const kPropertyId = "C13";
const char * const kRule =
  "a case is a generated history of set (messages and file names of 0..1500 bytes, any line number, arguments aliasing the "
  "current state), the message macros, the checking macros, the append-previous macros, get, is_set, reset and thread initialisation calls, compared "
  "with a model of the error state after every call, including what an overwrite prints; non-trivial: an overwrite without "
  "reset, a truncated message or file name, or an appended previous error";
const Budget kBudget = {260000, 3000000, 200000};
static rc::FdCapture * cap;
void property_setup() {cap = new rc::FdCapture(2);}

static bool is_set; static std::string msg, file; static uint64_t line;
static std::string formatted() {return is_set ? msg + ", at " + file + ":" + std::to_string(line) : std::string("error not set");}
static void model_set(const std::string & m, const std::string & f, uint64_t l)
{
  msg = m.substr(0, RCUTILS_ERROR_STATE_MESSAGE_MAX_LENGTH - 1);
  file = f.substr(0, RCUTILS_ERROR_STATE_FILE_MAX_LENGTH - 1); line = l; is_set = true;
}
static std::string text(size_t near)
{
  switch (weighted({4, 3, 1, 1})) {
    case 0: return printable(30);
    case 1: {size_t n = near + draw_plain(0, 6); n = n > 3 ? n - 3 : 0; return std::string(n, (char)draw(33, 126));}
    case 2: return cstr(1500);
    default: return str_of("%sd: ,", 0, 20);
  }
}
static void verify(const char * when)
{
  CHECK(rcutils_error_is_set() == is_set, "%s: error_is_set gave %d", when, !is_set);
  rcutils_error_string_t s = rcutils_get_error_string();
  CHECK(memchr(s.str, 0, sizeof s.str), "%s: the error string is not terminated", when);
  CHECK(formatted() == s.str, "%s: the error string is %s, expected %s", when, quote(s.str, strlen(s.str)).c_str(), quote(formatted()).c_str());
  const rcutils_error_state_t * st = rcutils_get_error_state();
  if (!is_set) {CHECK(!st, "%s: an error state is returned although none is set", when); return;}
  CHECK(st, "%s: no error state is returned although one is set", when);
  CHECK(memchr(st->message, 0, sizeof st->message) && memchr(st->file, 0, sizeof st->file), "%s: the state is not terminated", when);
  CHECK(msg == st->message, "%s: the message is %s, expected %s", when, quote(st->message, strlen(st->message)).c_str(), quote(msg).c_str());
  CHECK(file == st->file, "%s: the file is %s, expected %s", when, quote(st->file, strlen(st->file)).c_str(), quote(file).c_str());
  CHECK(st->line_number == line, "%s: the line is %" PRIu64 ", expected %" PRIu64, when, st->line_number, line);
}

void property_case()
{
  rc::clear_error();
  is_set = false; msg.clear(); file.clear(); line = 0;
  bool good = false; bool lazy = chance(1, 2);   // lazy: do not look (and so format) after every call
  verify("at the start");
  bool capture = chance(1, 3);
  while (more(12)) {
    bool had = is_set; std::string old = formatted(), om = msg; std::string err; bool warn = false, may = true;
    if (capture) {cap->start();}
    switch (weighted({8, 3, 3, 2, 3, 2, 1, 1, 3})) {
      case 0: {
          std::string m = text(RCUTILS_ERROR_STATE_MESSAGE_MAX_LENGTH), f = text(RCUTILS_ERROR_STATE_FILE_MAX_LENGTH);
          uint64_t l = draw_edge(0, UINT64_MAX);
          if (is_set && chance(1, 5)) {m = chance(1, 2) ? msg : old;}
          if (is_set && chance(1, 4)) {
            // arguments that live inside the state being replaced
            const rcutils_error_state_t * st = rcutils_get_error_state();
            CHECK(st, "no error state is returned although one is set");
            bool am = chance(2, 3), af = !am || chance(1, 2);
            size_t off = am ? draw_small(0, msg.size()) : 0;
            if (am) {m = msg.substr(off);}
            if (af) {f = file;}
            rc::Exact em(m), ef(f);
            say("set(%s%s, %s%s, %" PRIu64 ")", am ? "own " : "", quote(m).c_str(), af ? "own " : "", quote(f).c_str(), l);
            rcutils_set_error_state(am ? st->message + off : em.p, af ? st->file : ef.p, l);
          } else {
            rc::Exact em(m), ef(f);
            say("set(%s, %s, %" PRIu64 ")", quote(m).c_str(), quote(f).c_str(), l);
            rcutils_set_error_state(em, ef, l);
            CHECK(m == em.p && f == ef.p, "set modified its arguments");
          }
          if (m.size() >= RCUTILS_ERROR_STATE_MESSAGE_MAX_LENGTH || f.size() >= RCUTILS_ERROR_STATE_FILE_MAX_LENGTH || had) {good = true;}
          model_set(m, f, l);
          // certainly different from what is overwritten / certainly the same
          warn = had && !m.empty() && !om.empty() && m[0] != om[0];
          may = had && m != om;
          break;
        }
      case 1: {
          std::string m = text(RCUTILS_ERROR_STATE_MESSAGE_MAX_LENGTH);
          rc::Exact em(m); uint64_t l;
          RCUTILS_SET_ERROR_MSG(em.p); l = __LINE__;
          say("SET_ERROR_MSG(%s)", quote(m).c_str());
          model_set(m, __FILE__, l); good |= had;
          break;
        }
      case 2: {
          std::string m = text(RCUTILS_ERROR_MESSAGE_MAX_LENGTH - 6); int v = (int)draw_s(INT_MIN, INT_MAX); uint64_t l;
          if (chance(1, 3)) {
            rc::GenFormat g(60, chance(1, 2) ? &m : nullptr); rc::Exact f(g.f);
            RCUTILS_SET_ERROR_MSG_WITH_FORMAT_STRING(f.p, RC_FMT_ARGS(g)); l = __LINE__;
            say("SET_ERROR_MSG_WITH_FORMAT_STRING(%s) of %s", quote(g.f).c_str(), quote(g.want).c_str());
            model_set(g.want.substr(0, RCUTILS_ERROR_MESSAGE_MAX_LENGTH - 1), __FILE__, l); good |= had;
            break;
          }
          RCUTILS_SET_ERROR_MSG_WITH_FORMAT_STRING("%d|%s", v, m.c_str()); l = __LINE__;
          say("SET_ERROR_MSG_WITH_FORMAT_STRING(%d, %s)", v, quote(m).c_str());
          model_set((std::to_string(v) + "|" + m).substr(0, RCUTILS_ERROR_MESSAGE_MAX_LENGTH - 1), __FILE__, l); good |= had;
          break;
        }
      case 3: {
          uint64_t l;
          RCUTILS_SET_ERROR_MSG_AND_APPEND_PREV_ERROR("outer"); l = __LINE__;
          say("SET_ERROR_MSG_AND_APPEND_PREV_ERROR(outer)");
          model_set(had ? "outer: " + old : std::string("outer"), __FILE__, l); good |= had;
          may = false;
          break;
        }
      case 4: {
          std::string m = text(400); uint64_t l;
          RCUTILS_SET_ERROR_MSG_WITH_FORMAT_STRING_AND_APPEND_PREV_ERROR("<%s>", m.c_str()); l = __LINE__;
          say("SET_ERROR_MSG_WITH_FORMAT_STRING_AND_APPEND_PREV_ERROR(%s)", quote(m).c_str());
          std::string t = "<" + m + ">"; if (had) {t += ": " + old;}
          model_set(t.substr(0, RCUTILS_ERROR_MESSAGE_MAX_LENGTH - 1), __FILE__, l); good |= had;
          may = false;
          break;
        }
      case 5: rcutils_reset_error(); say("reset"); is_set = false; msg.clear(); file.clear(); line = 0; may = false; break;
      case 6:
        rcutils_set_error_state(nullptr, "f", 3); rcutils_set_error_state("m", nullptr, 3); say("set with null arguments");
        break;
      case 7: {
          // a thread's storage may be initialised explicitly; after an error was set, or the second time, that changes nothing
          rcutils_allocator_t ok = rcutils_get_default_allocator(), bad = rcutils_get_zero_initialized_allocator();
          rcutils_ret_t r = rcutils_initialize_error_handling_thread_local_storage(is_set && chance(1, 2) ? bad : ok);
          CHECK(r == RCUTILS_RET_OK, "initialising the thread's storage returned %s", rc::ret_name(r));
          r = rcutils_initialize_error_handling_thread_local_storage(bad);
          CHECK(r == RCUTILS_RET_OK, "initialising the thread's storage again returned %s", rc::ret_name(r));
          say("initialize thread storage");
          may = false;
          break;
        }
      default: {
          // the checking macros: the error statement is run, after the error was set, exactly when the check fails
          uint64_t l = 0; int which = (int)draw_plain(0, 4); bool fails = chance(1, 2), sets = which != 3; int ran = 0, want = sets && fails; const char * m = "";
          static int something; const int * none = nullptr, * thing = fails ? none : &something, * same = thing; bool side = chance(1, 2);
          rcutils_allocator_t a = rcutils_get_default_allocator();
          if (which >= 3 && fails) {
            switch (draw_plain(0, 4)) {
              case 0: a.allocate = nullptr; break;
              case 1: a.deallocate = nullptr; break;
              case 2: a.reallocate = nullptr; break;
              case 3: a.zero_allocate = nullptr; break;
              default: a = rcutils_get_zero_initialized_allocator();
            }
          }
          rc::Exact own(text(RCUTILS_ERROR_STATE_MESSAGE_MAX_LENGTH));
          bool set_before = false;
          int got = [&]() -> int {
              switch (which) {
                case 0: l = __LINE__; RCUTILS_CHECK_ARGUMENT_FOR_NULL(thing, 37); m = "thing argument is null"; return 0;
                case 1: l = __LINE__; RCUTILS_CHECK_FOR_NULL_WITH_MSG(thing, own.p, ran++; set_before = rcutils_error_is_set(); return 37); return 0;
                case 2: l = __LINE__; RCUTILS_CHECK_FOR_NULL_WITH_MSG(side ? thing : same, own.p, ran++; set_before = rcutils_error_is_set(); return 37); return 0;
                case 3: RCUTILS_CHECK_ALLOCATOR(&a, ran++; return 37); return 0;
                default: l = __LINE__; RCUTILS_CHECK_ALLOCATOR_WITH_MSG(&a, own.p, ran++; set_before = rcutils_error_is_set(); return 37); return 0;
              }
            }();
          static const char * const names[] = {"CHECK_ARGUMENT_FOR_NULL", "CHECK_FOR_NULL_WITH_MSG", "CHECK_FOR_NULL_WITH_MSG(?:)", "CHECK_ALLOCATOR", "CHECK_ALLOCATOR_WITH_MSG"};
          say("%s %s", names[which], fails ? "fails" : "passes");
          CHECK(got == (fails ? 37 : 0), "%s %s, so the statement should%s have been run", names[which], fails ? "failed" : "passed", fails ? "" : " not");
          CHECK(which == 0 || ran == (fails ? 1 : 0), "the statement of %s was run %d times", names[which], ran);
          CHECK(!want || which == 0 || set_before, "the statement of %s was run before the error was set", names[which]);
          if (want) {model_set(which == 0 ? "thing argument is null" : own.p, __FILE__, l); good |= had; may = had; label("a checking macro failed");} else {may = false;}
          (void)m;
          break;
        }
    }
    if (capture) {
      err = cap->stop();
      if (warn) {
        CHECK(err.find(old) != std::string::npos, "overwriting an error did not print the old one (%s) but %s", quote(old).c_str(), quote(err).c_str());
        CHECK(err.find(formatted()) != std::string::npos, "overwriting an error did not print the new one (%s) but %s", quote(formatted()).c_str(), quote(err).c_str());
        label("overwrite reported");
      }
      if (!may && is_set) {CHECK(err.find("is being overwritten") == std::string::npos, "an overwrite was reported although nothing was overwritten: %s", quote(err).c_str());}
    }
    if (!lazy || chance(1, 4)) {verify("after the call");}
  }
  verify("at the end");
  rc::clear_error();
  is_set = false;
  verify("after reset");
  if (capture) {
    // the macros that print and consume the previous error
    std::string m = printable(40), p = printable(30); bool had = chance(2, 3);
    if (had) {rcutils_set_error_state(p.c_str(), "file", 7);}
    std::string old = had ? rcutils_get_error_string().str : "";
    cap->start();
    bool f = chance(1, 2);
    if (f) {RCUTILS_SAFE_FWRITE_TO_STDERR_WITH_FORMAT_STRING_AND_APPEND_PREV_ERROR("%s", m.c_str());} else {
      RCUTILS_SAFE_FWRITE_TO_STDERR_AND_APPEND_PREV_ERROR(m.c_str());
    }
    std::string out = cap->stop(), want = had ? m + ": " + old : m;
    CHECK(out == want, "printed %s, expected %s", quote(out).c_str(), quote(want).c_str());
    CHECK(!rcutils_error_is_set(), "the printed previous error is still set");
  }
  if (good) {nontrivial();}
}
}  // namespace pbt
