#include "rc.h"
#include <memory>
#include "rcutils/cmdline_parser.h"
#include "wildcmp.h"
// BUILD wrap: strcmp
extern "C" {
WILD2(strcmp)
}
using namespace pbt;
namespace pbt
{
const char * const kPropertyId = "C29";
const char * const kRule =
  "a case is a generated argument array (0..12 strings over few letters and dashes: equal, prefixes and extensions of each other, "
  "empty) and options to look up in it and in its tails, compared with a linear search; non-trivial: the option occurs, or an "
  "argument starts with it";
const Budget kBudget = {1500000, 12000000, 200000};
void property_setup() {rc::foreign_locale_ready();}
// more arguments than a 16-bit index could tell apart
static void many()
{
  size_t n = draw_plain(1000, 140000), at = chance(1, 2) ? draw_plain(0, n - 1) : n - 1 - draw_small(0, 5); char other[] = "--other", opt[] = "--opt";
  std::vector<char *> v(n, other); v[at] = opt;
  say("%zu arguments, the option is number %zu", n, at); label("very many arguments"); nontrivial();
  char ** b = v.data(), ** e = b + n;
  CHECK(rcutils_cli_option_exist(b, e, "--opt"), "option number %zu of %zu does not exist", at, n);
  char * got = rcutils_cli_get_option(b, e, "--opt");
  CHECK(got == (at + 1 < n ? other : nullptr), "option number %zu of %zu has the wrong value", at, n);
  CHECK(!rcutils_cli_option_exist(b, e, "--op"), "an option that is absent exists among %zu", n);
  CHECK(!rcutils_cli_get_option(b, e, "--opts"), "an option that is absent has a value among %zu", n);
  CHECK(!rcutils_cli_option_exist(b, b + at, "--opt"), "option number %zu exists before it", at);
}
void property_case()
{
  rc::ForeignLocale foreign(chance(1, 8));
  size_t n = draw_small(0, 12);
  if (chance(1, 3000)) {n = draw_edge(12, 2000);}
  static unsigned n_many; if (rarely(30000, 6, n_many)) {many(); return;}
  std::vector<std::string> a(n);
  auto arg = [&](size_t have) {
      if (have && chance(1, 3)) {
        std::string s = a[draw_plain(0, have - 1)];
        switch (draw_plain(0, 3)) {case 0: return s; case 1: return s + str_of("a=-", 1, 2); case 2: return s.substr(0, draw_plain(0, s.size())); default: return "-" + s;}
      }
      return chance(1, 20) ? cstr(40) : (chance(1, 2) ? std::string("--") : std::string()) + stretch(str_of("ab-", 0, 3), 5000, 70000);
    };
  std::string shown;
  for (size_t i = 0; i < n; i++) {a[i] = arg(i); shown += quote(a[i]) + " ";}
  std::vector<std::unique_ptr<rc::Exact>> own;
  // exact-size pointer array, so that a look beyond the end is noticed
  char ** v = (char **)malloc(n * sizeof(char *) + (n ? 0 : 1));
  for (size_t i = 0; i < n; i++) {own.emplace_back(new rc::Exact(a[i])); v[i] = own.back()->p;}
  char ** end = v + n;
  size_t asks = 1 + draw_small(0, 4);
  for (size_t k = 0; k < asks; k++) {
    std::string o = arg(n); rc::Exact eo(o);
    size_t from = chance(1, 2) ? 0 : draw_plain(0, n);
    if (!n) {from = 0;}
    size_t at = from; while (at < n && a[at] != o) {at++;}
    bool exist = at < n;
    for (auto & s : a) {if (s.compare(0, o.size(), o) == 0) {nontrivial();}}
    say("look for %s in [%s] from %zu", quote(o).c_str(), shown.c_str(), from);
    bool got = rcutils_cli_option_exist(v + from, end, eo);
    CHECK(got == exist, "option %s in %s: exists is %d, expected %d", quote(o).c_str(), shown.c_str(), got, exist);
    char * val = rcutils_cli_get_option(v + from, end, eo);
    char * want = exist && at + 1 < n ? v[at + 1] : nullptr;
    CHECK(val == want, "option %s in %s from %zu has value %s, expected %s", quote(o).c_str(), shown.c_str(), from,
      val ? quote(val, strlen(val)).c_str() : "NULL", want ? quote(want, strlen(want)).c_str() : "NULL");
  }
  for (size_t i = 0; i < n; i++) {CHECK(v[i] == own[i]->p && a[i] == v[i], "argument %zu has changed", i);}
  free(v);
}
}  // namespace pbt
