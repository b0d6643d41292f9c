#include "rc.h"
#include <locale.h>
#include "rcutils/strdup.h"
#include "rcutils/strcasecmp.h"
#include "rcutils/isalnum_no_locale.h"
#include "wildcmp.h"
// BUILD wrap: strcasecmp strncasecmp
extern "C" {
WILD2(strcasecmp)
WILD3(strncasecmp)
}
using namespace pbt;
namespace pbt
{
const char * const kPropertyId = "C11";
const char * const kRule =
  "a case is a pair of generated strings (any non-zero bytes; the second often a case-flipped, truncated or one-byte-changed "
  "copy of the first), a length bound around the string lengths and an allocation-failure plan, given to strdup/strndup/"
  "strcasecmp/strncasecmp/isalnum_no_locale and compared with byte-wise references; non-trivial: the strings share a "
  "case-insensitive prefix but are not identical, or the bound cuts the string";
const Budget kBudget = {2500000, 30000000, 500000};
void property_setup() {rc::foreign_locale_ready();}
static int low(unsigned char c) {return c >= 'A' && c <= 'Z' ? c + 32 : c;}
static int ref_cmp(const std::string & a, const std::string & b, size_t n)
{
  for (size_t i = 0; i < n; i++) {
    int x = i < a.size() ? low(a[i]) : 0, y = i < b.size() ? low(b[i]) : 0;
    if (x != y) {return x < y ? -1 : 1;}
    if (!x) {return 0;}
  }
  return 0;
}

// more bytes than 31 or 32 bits can count
static void vast()
{
  size_t n = ((size_t)1 << draw_plain(31, 32)) + draw_plain(0, 5000), max = chance(1, 2) ? n + draw_plain(0, 9) : n - draw_plain(0, 9);
  rc::Vast s(n + 1, 'x', true); s[n] = 0; rc::VastAlloc A; rcutils_allocator_t al = A.get(); label("gigabytes");
  if (chance(1, 2)) {
    bool whole = chance(1, 2); size_t want = whole ? n : std::min(n, max);
    char * p = whole ? rcutils_strdup(s, al) : rcutils_strndup(s, max, al);
    say("%s of %zu bytes, at most %zu", whole ? "strdup" : "strndup", n, max);
    CHECK(p, "no copy");
    CHECK(A.size_of(p) != SIZE_MAX && A.size_of(p) > want, "the copy of %zu bytes is in a block of %zu", want, A.size_of(p));
    CHECK(p[want] == 0 && p[want - 1] == 'x', "the copy of %zu bytes does not end there", want);
    al.deallocate(p, al.state); CHECK(A.empty(), "memory is left");
  } else {
    // just behind what the lower bits count
    rc::Vast t(n + 1, 'X', true); t[n] = 0; size_t at = (n & 0x7fffffff) + draw_plain(0, 900); bool differ = true; int r;
    t[at] = 'y';
    size_t bound = chance(1, 2) ? at : n;
    say("%zu bytes, difference at %zd, compared up to %zu", n, differ ? (ssize_t)at : -1, bound);
    CHECK(rcutils_strcasecmp(s, t, &r) == 0, "strcasecmp failed");
    CHECK(rc::sign(r) == (differ ? -1 : 0), "strcasecmp gave %d", r);
    CHECK(rcutils_strncasecmp(s, t, bound, &r) == 0, "strncasecmp failed");
    CHECK(rc::sign(r) == (differ && bound > at ? -1 : 0), "strncasecmp gave %d", r);
  }
}
void property_case()
{
  rc::clear_error();
  static unsigned n_vast; if (seldom(2000, 8, n_vast)) {vast(); return;}
  rc::TrackAlloc A;
  rcutils_allocator_t al = A.get();
  std::string a = chance(1, 3) ? cstr(200) : str_of("aAbB@[`{zZ\xc0\xe0", 0, 20), b;
  a = stretch(a, 1000, 140000);
  if (chance(3, 4)) {
    b = a;
    for (auto & c : b) {if (chance(1, 3)) {if (c >= 'a' && c <= 'z') {c -= 32;} else if (c >= 'A' && c <= 'Z') {c += 32;}}}
    if (chance(1, 2) && !b.empty()) {
      size_t i = draw_plain(0, b.size() - 1);
      if (chance(1, 3)) {b.resize(i);} else {b[i] = (char)(b[i] ^ (chance(1, 2) ? 0x20 : (int)draw(1, 255))); if (!b[i]) {b[i] = 'q';}}
    }
  } else {b = cstr(30);}
  size_t n = chance(1, 3) ? draw_edge(0, SIZE_MAX) : draw_small(0, a.size() + 3);
  size_t common = 0;
  while (common < a.size() && common < b.size() && low(a[common]) == low(b[common])) {common++;}
  {
    rc::Exact ea(a), eb(b); int v = 4711;
    int r = rcutils_strcasecmp(ea, eb, &v);
    say("strcasecmp(%s, %s) -> %d, %d", quote(a).c_str(), quote(b).c_str(), r, v);
    CHECK(r == 0, "strcasecmp returned %d", r);
    CHECK(rc::sign(v) == ref_cmp(a, b, SIZE_MAX), "strcasecmp gave %d, expected sign %d", v, ref_cmp(a, b, SIZE_MAX));
    v = 4711; r = rcutils_strncasecmp(ea, eb, n, &v);
    say("strncasecmp(.., %zu) -> %d, %d", n, r, v);
    CHECK(r == 0, "strncasecmp returned %d", r);
    CHECK(rc::sign(v) == ref_cmp(a, b, n), "strncasecmp(%zu) gave %d, expected sign %d", n, v, ref_cmp(a, b, n));
    CHECK(rcutils_strcasecmp(nullptr, eb, &v) == -1 && rcutils_strcasecmp(ea, nullptr, &v) == -1 && rcutils_strcasecmp(ea, eb, nullptr) == -1,
      "strcasecmp accepted a null argument");
    CHECK(rcutils_strncasecmp(nullptr, eb, n, &v) == -1 && rcutils_strncasecmp(ea, nullptr, n, &v) == -1 && rcutils_strncasecmp(ea, eb, n, nullptr) == -1,
      "strncasecmp accepted a null argument");
  }
  // strdup / strndup, isalnum: whatever the locale (caseless comparison is libc's, hence follows it)
  rc::ForeignLocale foreign(chance(1, 2));
  size_t cut = std::min(n, a.size());
  bool whole = chance(1, 2), term = whole || n > a.size() || chance(1, 2);
  {
    rc::Exact e(term ? a : a.substr(0, cut), term);
    if (chance(1, 6)) {A.arm(0, false);}
    char * p = whole ? rcutils_strdup(e, al) : rcutils_strndup(e, n, al);
    std::string want = whole ? a : a.substr(0, cut);
    say("%s(%s, %zu) -> %s", whole ? "strdup" : "strndup", quote(a).c_str(), n, p ? quote(p, strlen(p)).c_str() : "NULL");
    if (A.n_failed) {
      CHECK(!p, "a duplicate was returned although the allocation failed");
    } else {
      CHECK(p && p != e.p, "no duplicate was returned");
      CHECK(A.owns(p) && A.live.size() == 1, "the duplicate is not one block of the given allocator");
      CHECK(want == p, "the duplicate is %s, expected %s", quote(p, strlen(p)).c_str(), quote(want).c_str());
      al.deallocate(p, al.state);
    }
    A.disarm();
    A.expect_empty("after the duplicate was freed");
    CHECK(!rcutils_strdup(nullptr, al) && !rcutils_strndup(nullptr, n, al), "a null string was duplicated");
  }
  unsigned char c = (unsigned char)draw(0, 255);
  bool an = (c >= '0' && c <= '9') || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z');
  CHECK(rcutils_isalnum_no_locale((char)c) == an, "isalnum_no_locale(%u) gave %d", c, !an);
  if ((common && a != b) || cut < a.size()) {nontrivial();}
}
}  // namespace pbt
