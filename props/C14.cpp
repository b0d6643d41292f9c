#include "rc.h"
#include "rcutils/logging.h"
#include "wildcmp.h"
// BUILD wrap: strcmp strncmp
extern "C" {
WILD2(strcmp)
WILD3(strncmp)
}
using namespace pbt;
namespace pbt
{
const char * const kPropertyId = "C14";
const char * const kRule =
  "a case is a generated history of logger levels set on dotted names (shared prefixes, empty components, the empty name, names "
  "up to 300 bytes), default level changes, refused levels and NULL names, failing allocations, queries of plain, length-limited "
  "and effective levels and enablement, and severity names parsed, compared with a map of names to levels; non-trivial: an "
  "effective level inherited from an ancestor, overridden by a nearer one, or skipping an unset one";
const Budget kBudget = {140000, 3000000, 150000};
static rc::TrackAlloc * ta;
void property_setup() {ta = new rc::TrackAlloc; rc::foreign_locale_ready();}

static std::map<std::string, int> levels; static int deflt;
static std::vector<std::string> pool;
static bool good;
static int level_of(const std::string & n) {if (n.empty()) {return deflt;} auto it = levels.find(n); return it == levels.end() ? 0 : it->second;}
static int effective(std::string n)
{
  bool skipped = false, inherited = false;
  while (true) {
    auto it = levels.find(n);
    if (!n.empty() && it != levels.end()) {
      if (it->second) {
        if (inherited) {good = true; label(skipped ? "inherited past an unset logger" : "inherited");}
        return it->second;
      }
      skipped = true;
    }
    size_t p = n.rfind('.');
    if (p == std::string::npos) {return deflt;}
    n.resize(p); inherited = true;
  }
}
static std::string name_gen()
{
  if (chance(1, 800)) {std::string s = "r"; for (size_t n = draw_edge(1, 600); n; n--) {s += ".a"; if (n % 7 == 0) {s += 'b';}} return s;}
  if (chance(1, 1500)) {std::string s = stretch("a.b", 1, 70000); return chance(1, 2) ? s : s + ".c";}
  switch (weighted({6, 6, 3, 1, 1})) {
    case 0: if (!pool.empty()) {return pick(pool);} [[fallthrough]];
    case 1: {
        if (pool.empty() || chance(1, 4)) {return str_of("ab.", 1, 7);}
        std::string s = pick(pool);
        switch (weighted({4, 2, 2, 1})) {
          case 0: return s + "." + str_of("abc", 1, 2);
          case 1: return s + str_of("abc.", 1, 2);
          case 2: return s.substr(0, draw_plain(0, s.size()));
          default: return "." + s;
        }
      }
    case 2: {std::string s; size_t n = 1 + draw_small(0, 5); for (size_t i = 0; i < n; i++) {s += (i ? "." : "") + str_of("ab", 0, 2);} return s;}
    case 3: return "";
    default: {std::string s = cstr(300); for (auto & c : s) {if (c == '~') {c = '.';}} return s;}
  }
}
static const int kLevels[] = {0, 10, 20, 30, 40, 50};
static void check_name(const std::string & n, const char * when)
{
  rc::Exact e(n);
  int got = rcutils_logging_get_logger_level(e);
  CHECK(got == level_of(n), "%s: the level of %s is %d, expected %d", when, quote(n).c_str(), got, level_of(n));
  got = rcutils_logging_get_logger_effective_level(e);
  int want = effective(n);
  CHECK(got == want, "%s: the effective level of %s is %d, expected %d", when, quote(n).c_str(), got, want);
}
void property_case()
{
  rc::ForeignLocale foreign(chance(1, 8));
  rc::clear_error();
  levels.clear(); pool.clear(); deflt = RCUTILS_DEFAULT_LOGGER_DEFAULT_LEVEL; good = false;
  ta->closed = false; ta->disarm();
  CHECK(rcutils_logging_initialize_with_allocator(ta->get()) == RCUTILS_RET_OK, "initialisation failed");
  CHECK(rcutils_logging_get_default_logger_level() == deflt, "the default level after initialisation is %d", rcutils_logging_get_default_logger_level());
  rcutils_allocator_t da = ta->get();
  while (more(30)) {
    std::string n = name_gen();
    if (pool.size() < 24) {pool.push_back(n);}
    rc::Exact e(n);
    bool faulty = chance(1, 12);
    if (faulty) {ta->arm((int64_t)draw_small(0, 3), chance(1, 2));}
    switch (weighted({10, 2, 1, 3, 5, 3, 2})) {
      case 0: {
          int l = kLevels[draw_plain(0, 5)];
          std::string before = level_of(n) ? "a set" : "an unset"; say("set_logger_level(%s, %d)%s", quote(n).c_str(), l, faulty ? " with a failing allocation" : "");
          rcutils_ret_t r = rcutils_logging_set_logger_level(e, l);
          if (r != RCUTILS_RET_OK) {
            CHECK(ta->n_failed, "set_logger_level(%s, %d) returned %s", quote(n).c_str(), l, rc::ret_name(r));
            label("setting a level ran out of memory");
          } else if (n.empty()) {deflt = l;} else {levels[n] = l;}
          break;
        }
      case 1: {
          int l = chance(1, 3) ? 0 : (int)draw(1, 60); say("set_default_logger_level(%d)", l);
          rcutils_logging_set_default_logger_level(l);
          deflt = l ? l : RCUTILS_DEFAULT_LOGGER_DEFAULT_LEVEL;
          break;
        }
      case 2: {
          static const int bad[] = {-1, 51, 60, 1000, INT_MIN, INT_MAX, 5, 11, 25, 49, 1};
          int l = bad[draw_plain(0, sizeof bad / sizeof *bad - 1)]; bool nul = chance(1, 4);
          say("set_logger_level(%s, %d) must be refused", nul ? "NULL" : quote(n).c_str(), l);
          rcutils_ret_t r = rcutils_logging_set_logger_level(nul ? nullptr : e.p, nul ? 10 : l);
          CHECK(r == RCUTILS_RET_INVALID_ARGUMENT, "set_logger_level(%s, %d) returned %s", nul ? "NULL" : quote(n).c_str(), l, rc::ret_name(r));
          CHECK(rcutils_logging_get_logger_level(nullptr) == -1 && rcutils_logging_get_logger_leveln(nullptr, 3) == -1 &&
            rcutils_logging_get_logger_effective_level(nullptr) == -1, "a NULL name has a level");
          break;
        }
      case 3: {
          size_t k = draw_plain(0, n.size()); say("get_logger_leveln(%s, %zu)", quote(n).c_str(), k);
          rc::Exact part(n.substr(0, k), false);
          bool cut = chance(1, 2) && k;                   // the name need not be terminated where it is cut
          int got = rcutils_logging_get_logger_leveln(cut ? part.p : e.p, k);
          if (ta->n_failed) {CHECK(got == -1, "get_logger_leveln gave %d when out of memory", got); break;}
          CHECK(got == level_of(n.substr(0, k)), "get_logger_leveln(%s, %zu) gave %d, expected %d", quote(n).c_str(), k, got, level_of(n.substr(0, k)));
          break;
        }
      case 4: {
          say("get_logger_effective_level(%s)", quote(n).c_str());
          int got = rcutils_logging_get_logger_effective_level(e);
          if (ta->n_failed) {CHECK(got == -1, "get_logger_effective_level gave %d when out of memory", got); break;}
          int want = effective(n);
          CHECK(got == want, "the effective level of %s is %d, expected %d", quote(n).c_str(), got, want);
          break;
        }
      case 5: {
          bool nul = chance(1, 4); int want = nul ? deflt : effective(n);
          int s = chance(1, 2) ? want + (int)draw_plain(0, 2) - 1 : chance(1, 6) ? (int)draw_s(INT_MIN, INT_MAX) : (int)draw_s(-2, 55);
          say("is_enabled_for(%s, %d)", nul ? "NULL" : quote(n).c_str(), s);
          bool got = rcutils_logging_logger_is_enabled_for(nul ? nullptr : e.p, s);
          if (ta->n_failed) {CHECK(!got, "a logger is enabled when its level cannot be determined"); break;}
          CHECK(got == (s >= want), "is_enabled_for(%s, %d) gave %d, the effective level is %d", nul ? "NULL" : quote(n).c_str(), s, got, want);
          break;
        }
      default: {
          static const char * const names[] = {"UNSET", "DEBUG", "INFO", "WARN", "ERROR", "FATAL"};
          int i = (int)draw_plain(0, 5); std::string s = names[i];
          for (auto & c : s) {if (chance(1, 2)) {c |= 0x20;}}
          switch (weighted({3, 1, 1, 1, 1})) {
            case 0: break;
            case 1: s += str_of("sSg \n", 1, 2); break;
            case 2: s = s.substr(0, draw_plain(0, s.size())); break;
            case 3: if (!s.empty()) {size_t p = draw_plain(0, s.size() - 1); s[p] = (char)draw(1, 255);} break;
            default: s = cstr(12);
          }
          std::string up = s; int want = -1;
          for (auto & c : up) {if (c >= 'a' && c <= 'z') {c &= ~0x20;}}
          for (int k = 0; k < 6; k++) {if (up == names[k]) {want = kLevels[k];}}
          rc::Exact se(s); int out = 4711; say("severity_level_from_string(%s)", quote(s).c_str());
          rcutils_ret_t r = rcutils_logging_severity_level_from_string(se, da, &out);
          if (ta->n_failed) {CHECK(r == RCUTILS_RET_BAD_ALLOC && out == 4711, "severity_level_from_string out of memory gave %s, %d", rc::ret_name(r), out); break;}
          CHECK(r == (want < 0 ? RCUTILS_RET_LOGGING_SEVERITY_STRING_INVALID : RCUTILS_RET_OK) && out == (want < 0 ? 4711 : want),
            "severity_level_from_string(%s) gave %s, %d; expected %d", quote(s).c_str(), rc::ret_name(r), out, want);
        }
    }
    ta->disarm();
    rc::clear_error();
    CHECK(rcutils_logging_get_default_logger_level() == deflt, "the default level is %d, expected %d", rcutils_logging_get_default_logger_level(), deflt);
    if (chance(1, 3)) {check_name(n, "right after the call");}
    rc::clear_error();
  }
  for (auto & n : pool) {check_name(n, "at the end");}
  for (auto & kv : levels) {check_name(kv.first, "at the end");}
  rc::clear_error();
  rcutils_ret_t r = rcutils_logging_shutdown();
  CHECK(r == RCUTILS_RET_OK, "shutdown returned %s", rc::ret_name(r));
  ta->expect_empty("after the shutdown of logging");
  rc::clear_error();
  if (good) {nontrivial();}
}
}  // namespace pbt
