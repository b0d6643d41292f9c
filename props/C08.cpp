#include "rc.h"
#include "rcutils/split.h"
#include "rcutils/types/string_array.h"
using namespace pbt;
namespace pbt
{
const char * const kPropertyId = "C08";
const char * const kRule =
  "a case is a generated string (delimiter runs at the start, end and inside, any bytes, NULL, up to 4000 bytes), a delimiter "
  "(any byte) and an allocation-failure plan, given to rcutils_split and rcutils_split_last and compared with reference "
  "splitters; non-trivial: the string has at least two delimiters or begins or ends with one";
const Budget kBudget = {2000000, 15000000, 600000};
void property_setup() {rc::foreign_locale_ready();}

static std::vector<std::string> ref_split(const std::string & s, char d)
{
  std::vector<std::string> o; std::string cur;
  for (char c : s) {
    if (c == d) {if (!cur.empty()) {o.push_back(cur);} cur.clear();} else {cur += c;}
  }
  if (!cur.empty()) {o.push_back(cur);}
  return o;
}
static std::vector<std::string> ref_last(const std::string & s, char d)
{
  if (s.empty()) {return {};}
  size_t b = s[0] == d, e = s.size() - (s.back() == d && s.size() > 1);
  std::string body = s.substr(b, e > b ? e - b : 0);
  size_t p = body.rfind(d);
  if (p == std::string::npos) {return {body};}
  std::string first = body.substr(0, p);
  if (!first.empty() && first.back() == d) {first.pop_back();}
  return {first, body.substr(p + 1)};
}
static void expect(const rcutils_string_array_t & a, const std::vector<std::string> & want, rc::TrackAlloc & A, const char * fn, bool tail, char d)
{
  CHECK(a.size == want.size(), "%s gave %zu tokens, expected %zu", fn, a.size, want.size());
  for (size_t i = 0; i < want.size(); i++) {
    CHECK(a.data[i] && A.owns(a.data[i]), "%s: token %zu is not an allocated string", fn, i);
    std::string got = a.data[i];   // the sanitizer checks the terminator
    if (tail && want.size() == 1 && got == want[i] + d) {continue;}
    CHECK(got == want[i], "%s: token %zu is %s, expected %s", fn, i, quote(got).c_str(), quote(want[i]).c_str());
  }
}

void property_case()
{
  rc::ForeignLocale foreign(chance(1, 8));
  rc::clear_error();
  rc::TrackAlloc A;
  A.zero_null = chance(1, 4);
  rcutils_allocator_t al = A.get();
  char d = chance(3, 4) ? ':' : (char)draw(0, 255);
  std::string s; bool null = chance(1, 60);
  if (!null) {
    unsigned n = (unsigned)draw_small(0, chance(1, 30) ? 400 : 12);
    if (chance(1, 20000)) {bool dense = chance(1, 2); s = std::string(draw_edge(0, dense ? 3000 : 70000), d ? d : ':'); if (dense) {for (size_t i = 0; i < s.size(); i += 2) {s[i] = 'q';}}}
    for (unsigned i = 0; i < n; i++) {
      unsigned k = weighted({4, 4, 1, 1});
      if (k == 0) {s += d ? std::string(1, d) : std::string();} else if (k == 1) {s += stretch(str_of("ab", 1, 4), s.size() > 1000 ? 1000000 : 30000, 140000);} else if
      (k == 2) {s += d ? std::string(draw_small(1, 5), d) : std::string();} else {s += cstr(10);}
    }
    s = s.c_str();
  }
  size_t nd = 0;
  for (char c : s) {nd += c == d;}
  rc::Exact e(s);
  for (int which = 0; which < 2; which++) {
    const char * fn = which ? "split_last" : "split";
    bool fault = chance(1, 5);
    if (fault) {A.arm(draw_small(0, 12), chance(1, 2));} else {A.disarm();}
    rcutils_string_array_t a = rcutils_get_zero_initialized_string_array();
    rcutils_ret_t r = which ? rcutils_split_last(null ? nullptr : e.p, d, al, &a) : rcutils_split(null ? nullptr : e.p, d, al, &a);
    say("%s(%s, %s) -> %s, %zu tokens", fn, null ? "NULL" : quote(s).c_str(), quote(&d, 1).c_str(), rc::ret_name(r), a.size);
    if (A.n_failed) {
      CHECK(r == RCUTILS_RET_BAD_ALLOC, "%s with a failed allocation returned %s", fn, rc::ret_name(r));
      A.disarm();
      A.expect_empty("after a failed split");
    } else {
      CHECK(r == RCUTILS_RET_OK, "%s returned %s", fn, rc::ret_name(r));
      A.disarm();
      expect(a, which ? ref_last(s, d) : ref_split(s, d), A, fn, which, d);
      r = rcutils_string_array_fini(&a);
      CHECK(r == RCUTILS_RET_OK, "fini of the tokens returned %s", rc::ret_name(r));
      A.expect_empty("after the tokens were finalised");
    }
    rc::clear_error();
  }
  CHECK(!memcmp(e.p, s.c_str(), s.size() + 1), "the input string was modified");
  if (chance(1, 50)) {
    rcutils_ret_t r = rcutils_split("a", ':', al, nullptr);
    CHECK(r == RCUTILS_RET_INVALID_ARGUMENT, "split into NULL returned %s", rc::ret_name(r));
    rc::clear_error();
  }
  if (nd >= 2 || (nd && (s[0] == d || s.back() == d))) {nontrivial();}
}
}  // namespace pbt
