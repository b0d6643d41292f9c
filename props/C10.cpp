#include "rc.h"
#include "rcutils/find.h"
using namespace pbt;
namespace pbt
{
const char * const kPropertyId = "C10";
const char * const kRule =
  "a case is a generated byte string (any bytes, embedded NULs for the counted variants, not terminated for these) and a "
  "delimiter (any byte), given to find/findn/find_last/find_lastn with lengths 0..size; compared with a linear scan; "
  "non-trivial: the delimiter occurs at least twice, or occurs only outside the searched part";
const Budget kBudget = {3000000, 30000000, 600000};
void property_setup() {rc::foreign_locale_ready();}

// more bytes than 31 or 32 bits can count
static void vast()
{
  size_t limit = (size_t)1 << draw_plain(31, 32), n = limit + draw_plain(1, 5000), got; bool first = chance(1, 2);
  // searching for the first one, a delimiter far from the start takes seconds: mostly just behind what the lower bits count
  size_t at = first && (limit >> 32 || chance(3, 4)) ? n - limit + draw_plain(0, 900) : chance(1, 3) ? n - 1 - draw_plain(0, 900) : limit - draw_plain(0, 900);
  if (at >= n) {at = n - 1;}
  rc::Vast v(n + 1, 'x', true); v[n] = 0; v[at] = ':'; label("gigabytes");
  say("%zu bytes, the delimiter at %zu", n, at);
  switch (first ? draw_plain(0, 1) : draw_plain(2, 3)) {
    case 0: got = rcutils_findn(v, ':', n); break;
    case 1: got = rcutils_find(v, ':'); break;
    case 2: if (chance(1, 2)) {v[at] = 'x'; at = draw_plain(0, 9); v[at] = ':';} got = rcutils_find_lastn(v, ':', n); break;
    default: got = rcutils_find_last(v, ':');
  }
  // glibc's memrchr itself is wrong on some processors when it finds its byte 4 GiB or more from the start
  if (!first && got != at && memrchr(v, ':', n) != v + at) {label("the C library is wrong"); discard(); return;}
  CHECK(got == at, "the delimiter was found at %zd, expected %zu", (ssize_t)got, at);
}
void property_case()
{
  static unsigned n_vast; if (seldom(2000, 24, n_vast)) {vast(); nontrivial(); return;}
  rc::ForeignLocale foreign(chance(1, 8));
  std::string s = chance(1, 4) ? bytes(0, 300) : str_of(std::string("ab:\0\xff", 5), 0, 40);
  s = stretch(s, 3000, 140000);
  char d = s.size() > 400 && chance(1, 2) ? s[draw_plain(0, s.size() - 1)] : chance(1, 6) ? (char)draw(0, 255) : std::string(":\0\xff" "a", 4)[draw_plain(0, 3)];
  static unsigned n_far; if (rarely(4000, 60, n_far)) {
    // nothing to be found for a long way from one side or from both
    size_t len = draw_edge(100, 200000); char c = d == 'x' ? 'y' : 'x';
    s.assign(len, c); for (size_t k = draw_plain(0, 2); k; k--) {s[chance(1, 2) ? draw_edge(0, len - 1) : len - 1 - draw_edge(0, len - 1)] = d;}
    label("a single match far away");
  }
  size_t n = chance(1, 2) ? s.size() : draw(0, s.size());
  auto first = [&](const std::string & t) {size_t p = t.find(d); return p == std::string::npos ? SIZE_MAX : p;};
  auto last = [&](const std::string & t) {size_t p = t.rfind(d); return p == std::string::npos ? SIZE_MAX : p;};
  std::string part = s.substr(0, n), z = s.c_str();
  size_t got;
  {
    rc::Exact e(part, false);
    got = rcutils_findn(e, d, n);
    say("findn(%s, %s, %zu) -> %zd", quote(s).c_str(), quote(&d, 1).c_str(), n, (ssize_t)got);
    CHECK(got == first(part), "findn gave %zd, expected %zd", (ssize_t)got, (ssize_t)first(part));
    got = rcutils_find_lastn(e, d, n);
    say("find_lastn -> %zd", (ssize_t)got);
    CHECK(got == last(part), "find_lastn gave %zd, expected %zd", (ssize_t)got, (ssize_t)last(part));
    CHECK(!memcmp(e.p, part.data(), n), "findn modified its input");
  }
  {
    // the terminator is not part of the string, so it is never found
    rc::Exact e(z);
    if (!d) {label("the terminator");}
    got = rcutils_find(e, d);
    say("find(%s, %s) -> %zd", quote(z).c_str(), quote(&d, 1).c_str(), (ssize_t)got);
    CHECK(got == first(z), "find gave %zd, expected %zd", (ssize_t)got, (ssize_t)first(z));
    got = rcutils_find_last(e, d);
    say("find_last -> %zd", (ssize_t)got);
    CHECK(got == last(z), "find_last gave %zd, expected %zd", (ssize_t)got, (ssize_t)last(z));
  }
  CHECK(rcutils_find(nullptr, d) == SIZE_MAX && rcutils_find_last(nullptr, d) == SIZE_MAX &&
    rcutils_findn(nullptr, d, n) == SIZE_MAX && rcutils_find_lastn(nullptr, d, n) == SIZE_MAX, "a null string was found in");
  size_t cnt = 0, in = 0;
  for (size_t i = 0; i < s.size(); i++) {if (s[i] == d) {cnt++; in += i < n;}}
  if (in >= 2 || (cnt && !in)) {nontrivial();}
}
}  // namespace pbt
