#include "rc.h"
#include "rcutils/env.h"
using namespace pbt;
extern char ** environ;
namespace pbt
{
const char * const kPropertyId = "C24";
const char * const kRule =
  "a case runs a history of set (overwriting or not), unset, get and home directory calls over a few related names and generated "
  "values (empty, long, with '=' and any bytes; also empty, NULL and '=' names) against a map model, and compares the whole process "
  "environment at the end; non-trivial: the history keeps an existing value, refuses a name or unsets a variable";
const Budget kBudget = {250000, 3000000, 60000};
void property_setup() {rc::foreign_locale_ready();}
static std::string name_gen()
{
  switch (weighted({10, 3, 1, 1})) {
    case 0: {static const std::vector<std::string> n{"A", "AB", "ABC", "a", "HOME", "HOM", "HOMEX", "B"}; return pick(n);}
    case 1: return str_of("AB_", 1, 3);
    case 2: return str_of("A=B", 1, 3);
    default: {std::string s = cstr(12); return s.empty() ? "Z" : s;}
  }
}
void property_case()
{
  rc::ForeignLocale foreign(chance(1, 8));
  rc::clear_error();
  clearenv();
  std::map<std::string, std::string> m;
  while (more(12)) {
    std::string n = chance(1, 40) ? "" : name_gen(), v = chance(1, 12) ? std::string(draw_edge(0, 5000), 'v') : chance(1, 4) ? str_of("=B", 0, 3) : cstr(16);
    v = stretch(v, 1500, 140000); if (!n.empty()) {n = stretch(n, 3000, 70000);}
    rc::Exact en(n), ev(v);
    bool valid = !n.empty() && n.find('=') == std::string::npos, has = m.count(n) != 0;
    switch (weighted({5, 4, 3, 4, 2, 1})) {
      case 0: case 1: {
          bool plain = chance(1, 2), over = plain || chance(1, 2), null = chance(1, 5);
          say("set %s to %s%s", quote(n).c_str(), null ? "NULL" : quote(v).c_str(), over ? "" : " unless set");
          bool r = plain ? rcutils_set_env(en, null ? nullptr : (char *)ev) : rcutils_set_env_overwrite(en, null ? nullptr : (char *)ev, over);
          CHECK(r == valid, "setting %s gave %d, expected %d", quote(n).c_str(), r, valid);
          CHECK(rc::error_is_set() == !r, "setting gave %d with%s an error message", r, rc::error_is_set() ? "" : "out");
          rc::clear_error();
          if (!valid || (has && !over) || (has && null)) {nontrivial();}
          if (valid && !(has && !over)) {if (null) {m.erase(n);} else {m[n] = v;}}
          break;
        }
      case 2: case 3: {
          const char * out = nullptr;
          const char * e = rcutils_get_env(en, &out);
          CHECK(!e, "get_env(%s) gave the error %s", quote(n).c_str(), e);
          std::string want = has ? m[n] : "";
          say("get %s", quote(n).c_str());
          CHECK(out && want == out, "get_env(%s) gave %s, expected %s", quote(n).c_str(), out ? quote(out, strlen(out)).c_str() : "NULL", quote(want).c_str());
          break;
        }
      case 4: {
          const char * h = rcutils_get_home_dir();
          std::string want = m.count("HOME") ? m["HOME"] : "";
          say("home");
          CHECK((h == nullptr) == want.empty(), "home directory is %s although HOME is %s", h ? h : "NULL", quote(want).c_str());
          if (h) {CHECK(want == h, "home directory is %s, expected %s", quote(h, strlen(h)).c_str(), quote(want).c_str());}
          break;
        }
      default: {
          const char * out = "untouched";
          CHECK(rcutils_get_env(nullptr, &out) && rcutils_get_env(en, nullptr) && rcutils_get_env(nullptr, nullptr), "get_env accepts NULL");
          CHECK(!rcutils_set_env(nullptr, ev) && rc::error_is_set(), "set_env accepts a NULL name"); rc::clear_error();
          CHECK(!rcutils_set_env_overwrite(nullptr, nullptr, chance(1, 2)) && rc::error_is_set(), "set_env_overwrite accepts a NULL name"); rc::clear_error();
        }
    }
  }
  std::map<std::string, std::string> now;
  for (char ** e = environ; e && *e; e++) {
    const char * q = strchr(*e, '=');
    CHECK(q, "the environment holds %s", quote(*e, strlen(*e)).c_str());
    CHECK(now.emplace(std::string(*e, (size_t)(q - *e)), q + 1).second, "the environment holds %s twice", quote(*e, strlen(*e)).c_str());
  }
  CHECK(now.size() == m.size(), "the environment has %zu variables, expected %zu", now.size(), m.size());
  for (auto & k : m) {
    auto it = now.find(k.first);
    CHECK(it != now.end() && it->second == k.second, "%s is not %s", quote(k.first).c_str(), quote(k.second).c_str());
  }
}
}  // namespace pbt
