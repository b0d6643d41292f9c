#include "rc.h"
#include <algorithm>
#include "rcutils/types/string_array.h"
#include "wildcmp.h"
// BUILD wrap: strcmp
extern "C" {
WILD2(strcmp)
}
using namespace pbt;
namespace pbt
{
const char * const kPropertyId = "C05";
const char * const kRule =
  "a case is a generated history of init/assign/resize/cmp/sort/fini calls over three string arrays (empty slots, equal "
  "and prefix-related strings, bytes above 127, huge sizes, optional allocation failures, allocators that give NULL for "
  "empty requests), compared with vectors of optional strings; non-trivial: a resize that dropped or added entries "
  "around assigned ones, a comparison decided after a common prefix, or a sort of at least 3 entries";
const Budget kBudget = {200000, 3000000, 300000};
void property_setup() {}

struct S
{
  rcutils_string_array_t h;
  bool init = false;
  std::vector<char *> p;     // what data[i] must be
};
static std::string str(char * p) {return p ? std::string(p) : std::string("<null>");}
static void check(S & s, int k, rc::TrackAlloc & A, const char * when)
{
  CHECK(s.h.size == s.p.size(), "%s: array %d has size %zu, expected %zu", when, k, s.h.size, s.p.size());
  CHECK(s.h.data || !s.h.size, "%s: array %d has size %zu and no data", when, k, s.h.size);
  for (size_t i = 0; i < s.p.size(); i++) {
    CHECK(s.h.data[i] == s.p[i], "%s: array %d entry %zu is not the string put there", when, k, i);
    CHECK(!s.p[i] || A.owns(s.p[i]), "%s: array %d entry %zu was freed", when, k, i);
  }
}

void property_case()
{
  rc::clear_error();
  rc::TrackAlloc A;
  A.zero_null = chance(1, 4);
  rcutils_allocator_t al = A.get();
  S x[3];
  for (auto & s : x) {s.h = rcutils_get_zero_initialized_string_array();}
  bool faults = chance(1, 4); bool good = false;
  std::string alpha = chance(1, 4) ? std::string("\xff" "a\x01\x80", 4) : "ab";
  unsigned avg = chance(1, 10) ? 100 : 25;
  // strings which differ only far behind a common beginning
  std::string common_prefix;
  if (chance(1, 20)) {common_prefix = std::string((size_t)draw_edge(8, 5000), pick(std::vector<char>{'a', '\xff'})); label("a long common prefix");}
  while (more(avg)) {
    int k = (int)draw_plain(0, 2);
    S & s = x[k];
    rcutils_ret_t r;
    if (faults && chance(1, 4)) {A.arm(draw_small(0, 1), chance(1, 3));}
    if (!s.init) {
      size_t n = draw_small(0, 30);
      if (chance(1, 150)) {n = draw_edge(0, 70000); label("large array");} else if (chance(1, 40)) {n = SIZE_MAX - draw_edge(0, SIZE_MAX - (1u << 26));}
      s.h = rcutils_get_zero_initialized_string_array();
      r = rcutils_string_array_init(&s.h, n, &al);
      say("init(%d, %zu) -> %s", k, n, rc::ret_name(r));
      if (A.n_failed && n) {
        CHECK(r == RCUTILS_RET_BAD_ALLOC, "init with a failed allocation returned %s", rc::ret_name(r));
        A.disarm();
        r = rcutils_string_array_fini(&s.h);
        CHECK(r == RCUTILS_RET_OK, "fini after a failed init returned %s", rc::ret_name(r));
      } else {
        CHECK(r == RCUTILS_RET_OK, "init returned %s", rc::ret_name(r));
        s.init = true; s.p.assign(n, nullptr);
        check(s, k, A, "after init");
      }
      A.disarm(); rc::clear_error();
      continue;
    }
    switch (weighted({8, 5, 4, 2, 1, 1})) {
      case 0: {
          A.disarm();
          if (s.p.empty()) {continue;}
          for (unsigned t = 1 + (unsigned)draw_small(0, 5); t--; ) {
            size_t i = draw_plain(0, s.p.size() - 1);
            if (s.p[i]) {al.deallocate(s.p[i], al.state); s.h.data[i] = s.p[i] = nullptr;}
            if (chance(6, 7)) {
              std::string v = stretch(chance(1, 6) ? cstr(10) : str_of(alpha, 0, 4), 1000, 140000);
              if (chance(2, 3)) {v = common_prefix + v;}
              char * p = (char *)al.allocate(v.size() + 1, al.state);
              memcpy(p, v.c_str(), v.size() + 1);
              s.h.data[i] = s.p[i] = p;
              say("data(%d)[%zu] = %s", k, i, quote(v).c_str());
            }
          }
          break;
        }
      case 1: {
          size_t n = draw_small(0, 40);
          if (chance(1, 3)) {n = s.p.size() + draw_plain(0, 4); n = n > 2 ? n - 2 : 0;}
          bool large = chance(1, 150), huge = !large && chance(1, 40);
          if (large) {n = draw_edge(0, 70000);}
          if (huge) {n = SIZE_MAX - draw_edge(0, SIZE_MAX - (1u << 26));}
          size_t old = s.p.size();
          r = rcutils_string_array_resize(&s.h, n);
          say("resize(%d, %zu) from %zu -> %s", k, n, old, rc::ret_name(r));
          if (n != old && (A.n_failed || huge)) {
            // shrinking to nothing may legitimately need no memory for the array itself
            CHECK(r == RCUTILS_RET_BAD_ALLOC || (n == 0 && r == RCUTILS_RET_OK), "resize with a failed allocation returned %s", rc::ret_name(r));
          } else {
            CHECK(r == RCUTILS_RET_OK, "resize returned %s", rc::ret_name(r));
          }
          if (r == RCUTILS_RET_OK) {
            for (size_t i = n; i < old; i++) {
              CHECK(!s.p[i] || !A.owns(s.p[i]), "resize from %zu to %zu did not free removed entry %zu", old, n, i);
              if (s.p[i] && n) {good = true;}
            }
            if (n > old && old) {good = true;}
            s.p.resize(n, nullptr);
          }
          break;
        }
      case 2: {
          A.disarm();
          int j = (int)draw_plain(0, 2);
          S & o = x[j];
          if (!o.init) {continue;}
          int want = 0; bool err = false; size_t common = 0;
          size_t m = std::min(s.p.size(), o.p.size());
          for (size_t i = 0; i < m; i++) {
            if (!s.p[i] || !o.p[i]) {err = true; break;}
            want = rc::sign(strcmp(s.p[i], o.p[i]));
            if (want) {break;}
            common++;
          }
          if (!err && !want) {want = s.p.size() < o.p.size() ? -1 : s.p.size() > o.p.size();}
          int res = 4711;
          r = rcutils_string_array_cmp(&s.h, &o.h, &res);
          say("cmp(%d, %d) -> %s, %d", k, j, rc::ret_name(r), res);
          if (err) {
            CHECK(r == RCUTILS_RET_ERROR, "cmp over an empty entry returned %s", rc::ret_name(r));
          } else {
            CHECK(r == RCUTILS_RET_OK, "cmp returned %s", rc::ret_name(r));
            CHECK(rc::sign(res) == want, "cmp gave %d, lexicographic order says %d", res, want);
            if (common && k != j) {good = true;}
          }
          break;
        }
      case 3: {
          A.disarm();
          std::vector<char *> b = s.p;
          uint64_t c0 = A.n_calls;
          r = rcutils_string_array_sort(&s.h);
          say("sort(%d) -> %s", k, rc::ret_name(r));
          if (!s.h.data && r == RCUTILS_RET_INVALID_ARGUMENT) {break;}   // an empty array without storage
          CHECK(r == RCUTILS_RET_OK, "sort returned %s", rc::ret_name(r));
          CHECK(A.n_calls == c0, "sort allocated");
          CHECK(s.h.size == b.size(), "sort changed the size");
          for (size_t i = 0; i < b.size(); i++) {
            s.p[i] = s.h.data[i];
            if (i) {
              char * u = s.p[i - 1], * v = s.p[i];
              CHECK(!v || (u && strcmp(u, v) <= 0), "after sort entries %zu and %zu are out of order: %s, %s", i - 1, i,
                quote(str(u)).c_str(), quote(str(v)).c_str());
            }
          }
          std::vector<char *> c = s.p; std::sort(b.begin(), b.end()); std::sort(c.begin(), c.end());
          CHECK(b == c, "sort lost, duplicated or replaced entries");
          if (s.p.size()) {   // the comparison by itself
            char * u = s.p[draw_plain(0, s.p.size() - 1)], * v = s.p[draw_plain(0, s.p.size() - 1)];
            int want = u && v ? rc::sign(std::string(u).compare(v)) : u ? -1 : v ? 1 : 0;
            int got = rcutils_string_array_sort_compare(&u, &v);
            CHECK(rc::sign(got) == want, "the comparison of %s and %s is %d", quote(str(u)).c_str(), quote(str(v)).c_str(), got);
          }
          if (b.size() >= 3) {good = true;}
          break;
        }
      case 4: {
          A.disarm(); int res;
          switch (draw_plain(0, 7)) {
            case 7: {
                // entries without a place for them
                rcutils_string_array_t t = s.h; t.data = nullptr; t.size = draw_plain(1, 3);
                if (!s.h.size) {continue;}
                r = chance(1, 2) ? rcutils_string_array_cmp(&t, &s.h, &res) : rcutils_string_array_cmp(&s.h, &t, &res); break;
              }
            case 0: r = rcutils_string_array_init(nullptr, 2, &al); break;
            case 1: {rcutils_string_array_t t = rcutils_get_zero_initialized_string_array(); r = rcutils_string_array_init(&t, 2, nullptr); break;}
            case 2: r = rcutils_string_array_fini(nullptr); break;
            case 3: r = rcutils_string_array_cmp(nullptr, &s.h, &res); break;
            case 4: r = rcutils_string_array_cmp(&s.h, nullptr, &res); break;
            case 5: r = rcutils_string_array_cmp(&s.h, &s.h, nullptr); break;
            default: r = rcutils_string_array_resize(nullptr, 3); break;
          }
          CHECK(r == RCUTILS_RET_INVALID_ARGUMENT, "a null argument gave %s", rc::ret_name(r));
          break;
        }
      default: {
          A.disarm();
          if (!chance(1, 4)) {continue;}
          r = rcutils_string_array_fini(&s.h);
          say("fini(%d) -> %s", k, rc::ret_name(r));
          CHECK(r == RCUTILS_RET_OK, "fini returned %s", rc::ret_name(r));
          CHECK(!s.h.data && !s.h.size, "fini left size %zu, data %p", s.h.size, (void *)s.h.data);
          for (char * p : s.p) {CHECK(!p || !A.owns(p), "fini did not free an entry");}
          r = rcutils_string_array_fini(&s.h);
          CHECK(r == RCUTILS_RET_OK, "fini of a finalised array returned %s", rc::ret_name(r));
          s.init = false; s.p.clear();
          break;
        }
    }
    A.disarm(); rc::clear_error();
    for (int j = 0; j < 3; j++) {if (x[j].init) {check(x[j], j, A, "after the call");}}
  }
  A.disarm();
  for (int j = 0; j < 3; j++) {
    if (!x[j].init) {continue;}
    rcutils_ret_t r = rcutils_string_array_fini(&x[j].h);
    CHECK(r == RCUTILS_RET_OK, "fini returned %s", rc::ret_name(r));
  }
  A.expect_empty("after all arrays were finalised");
  if (good) {nontrivial();}
}
}  // namespace pbt
