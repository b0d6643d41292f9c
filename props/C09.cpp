// BUILD wrap: strstr
#include "rc.h"
#include "rcutils/repl_str.h"
using namespace pbt;
namespace pbt
{
const char * const kPropertyId = "C09";
const char * const kRule =
  "a case is a generated text made of occurrences, partial and overlapping occurrences of a generated non-empty pattern and "
  "other bytes (0 to some thousand occurrences), a replacement (shorter, equal, longer, empty, containing the pattern) and an "
  "allocation-failure plan, compared with a left-to-right non-overlapping reference; non-trivial: at least one occurrence "
  "together with a partial or overlapping one, or more than 16 occurrences";
const Budget kBudget = {300000, 4000000, 500000};
void property_setup() {}
// AddressSanitizer's strstr() measures the whole text at every call, which makes a search quadratic.
extern "C" char * __wrap_strstr(const char * s, const char * f)
{
  for (;; s++) {
    size_t i = 0; while (f[i] && s[i] == f[i]) {i++;}
    if (!f[i]) {return (char *)s;}
    if (!*s) {return nullptr;}
  }
}

void property_case()
{
  rc::clear_error();
  rc::TrackAlloc A;
  rcutils_allocator_t al = A.get();
  std::string alpha = chance(1, 5) ? std::string("\xff\x01" "a") : "ab";
  std::string from = str_of(alpha, 1, 6), to = chance(1, 5) ? cstr(40) : str_of("abc", 0, 8);
  if (chance(1, 8)) {to = from + to;}
  std::string s;
  uint64_t n = chance(1, 25) ? draw_edge(0, 3000) : draw_small(0, 90);
  bool partial = false;
  static unsigned n_many; if (rarely(2000, 8, n_many)) {n = draw_edge(3000, 4000000); A.limit = 1u << 30; from.resize(1); to.resize(std::min<size_t>(to.size(), 2)); label("up to millions of occurrences");}
  to = stretch(to, n > 200 ? 100000 : 300, 70000); from = stretch(from, n > 200 ? 100000 : 300, 70000);
  n = std::min<uint64_t>(n, 8000000 / std::max(from.size(), to.size() + 1));
  if (n * std::max(from.size(), to.size()) > 300000) {A.limit = 1u << 30;}
  if (n > 200) {
    unsigned gap = (unsigned)draw_plain(0, 3);
    for (uint64_t i = 0; i < n; i++) {s += from; if (gap && i % gap == 0) {s += "z";}}
  } else {
    for (uint64_t i = 0; i < n && s.size() < 1000000; i++) {
      switch (weighted({5, 2, 2, 1})) {
        case 0: s += from; break;
        case 1: s += from.substr(0, draw_plain(0, from.size() - 1)); partial = true; break;
        case 2: s += str_of(alpha, 0, 3); break;
        default: s += cstr(4); break;
      }
    }
  }
  std::string want; size_t count = 0, p = 0;
  for (;;) {
    size_t q = s.find(from, p);
    if (q == std::string::npos) {want += s.substr(p); break;}
    want += s.substr(p, q - p) + to; p = q + from.size(); count++;
  }
  rc::Exact es(s), ef(from), et(to);
  if (chance(1, 5)) {A.arm(draw_small(0, 4), chance(1, 2));}
  char * out = rcutils_repl_str(es, ef, et, &al);
  say("repl_str(%s, %s, %s) with %zu occurrences -> %s", quote(s).c_str(), quote(from).c_str(), quote(to).c_str(), count, out ? quote(out, strlen(out)).c_str() : "NULL");
  if (A.n_failed) {
    CHECK(!out, "repl_str returned a string although an allocation failed");
    label("failed allocation");
  } else {
    CHECK(out, "repl_str returned NULL");
    CHECK(A.owns(out) && A.live.size() == 1, "repl_str left %zu blocks allocated", A.live.size());
    CHECK(strlen(out) == want.size() && want == out, "repl_str gave %s, expected %s", quote(out, strlen(out)).c_str(), quote(want).c_str());
    al.deallocate(out, al.state);
  }
  A.expect_empty("after repl_str");
  CHECK(s == es.p && from == ef.p && to == et.p, "repl_str modified its input");
  if (chance(1, 50)) {
    rcutils_allocator_t bad = rcutils_get_zero_initialized_allocator();
    CHECK(!rcutils_repl_str(es, ef, et, &bad), "repl_str accepted an invalid allocator");
    rc::clear_error();
  }
  if (count > 16) {label("more than 16 occurrences");}
  if ((count && partial) || count > 16) {nontrivial();}
}
}  // namespace pbt
