#include "rc.h"
#include <cwchar>
#include "rcutils/types/char_array.h"
// BUILD wrap: vsnprintf
using namespace pbt;
// the n-th call of vsnprintf fails
static int g_vs_at = -1; static bool g_vs_hit;
extern "C" int __real_vsnprintf(char * b, size_t n, const char * f, va_list a);
extern "C" int __wrap_vsnprintf(char * b, size_t n, const char * f, va_list a)
{
  if (g_vs_at >= 0 && g_vs_at-- == 0) {g_vs_hit = true; errno = EIO; return -1;}
  return __real_vsnprintf(b, n, f, a);
}
namespace pbt
{
const char * const kPropertyId = "C06";
const char * const kRule =
  "a case is a generated history of resize/expand_as_needed/memcpy/strcpy/strcat/strncat/vsprintf/fini calls on a char array "
  "that owns its buffer or wraps a caller's one (capacities mostly 0..300, at times up to 140000, texts around the capacity, failing formats, optional "
  "allocation failures), compared with a byte-string model after every call; non-trivial: an append or print that had "
  "to grow, a truncating resize, growth out of a caller's buffer, or a failed allocation with data in the array";
const Budget kBudget = {400000, 5000000, 400000};
void property_setup() {}

static rcutils_ret_t print(rcutils_char_array_t * a, std::string * again, const char * fmt, ...)
{
  va_list ap; va_start(ap, fmt);
  rcutils_ret_t r = rcutils_char_array_vsprintf(a, fmt, ap);
  if (!again) {va_end(ap); return r;}
  // the caller's va_list must still be usable
  static char buf[300000]; int n = vsnprintf(buf, sizeof buf, fmt, ap);
  va_end(ap);
  *again = n < 0 ? std::string() : std::string(buf, n);
  return r;
}

// more bytes than 31 or 32 bits can count; what is written to the array itself is not kept, so only its sizes can be seen
static void vast()
{
  size_t n = ((size_t)1 << draw_plain(31, 32)) + draw_plain(1, 5000), start = draw_plain(0, 40);
  rc::VastAlloc A; rcutils_allocator_t al = A.get(); rcutils_char_array_t a = rcutils_get_zero_initialized_char_array(); rcutils_ret_t r;
  CHECK(rcutils_char_array_init(&a, start, &al) == RCUTILS_RET_OK, "init failed"); label("gigabytes");
  unsigned how = (unsigned)draw_plain(0, 4); size_t len = 0;
  switch (how) {
    case 0: r = rcutils_char_array_resize(&a, n); break;
    case 1: r = rcutils_char_array_expand_as_needed(&a, n); break;
    default: {
        rc::Vast s(n, 'x', true); s[n - 1] = 0; len = n;
        r = how == 2 ? rcutils_char_array_memcpy(&a, s, n) : how == 3 ? rcutils_char_array_strcpy(&a, s) : rcutils_char_array_strncat(&a, s, n - 1);
      }
  }
  say("operation %u with %zu bytes on an array of %zu -> %s", how, n, start, rc::ret_name(r));
  CHECK(r == RCUTILS_RET_OK, "an operation with %zu bytes returned %s", n, rc::ret_name(r));
  CHECK(a.buffer_capacity >= n && A.size_of(a.buffer) != SIZE_MAX && A.size_of(a.buffer) >= a.buffer_capacity,
    "after an operation with %zu bytes the capacity is %zu, in a block of %zu", n, a.buffer_capacity, A.size_of(a.buffer));
  CHECK(a.buffer_length == len, "after an operation with %zu bytes the length is %zu", n, a.buffer_length);
  if (len) {CHECK(a.buffer[n - 2] == 'x' && a.buffer[n - 1] == 0, "the end of the content is missing");}
  CHECK(rcutils_char_array_fini(&a) == RCUTILS_RET_OK && A.empty(), "memory is left");
}
void property_case()
{
  rc::clear_error();
  static unsigned n_vast; if (seldom(300, 30, n_vast)) {vast(); return;}
  rc::TrackAlloc A;
  rcutils_allocator_t al = A.get();
  rcutils_char_array_t a = rcutils_get_zero_initialized_char_array();
  std::string m; bool good = false; rcutils_ret_t r;
  size_t cap = draw_small(0, 64);
  if (chance(1, 200)) {cap = draw_edge(0, 140000);}
  bool own = chance(2, 3);
  std::string ext_init;
  // a caller's buffer, exactly as large as announced
  rc::Exact ext((ext_init = own ? std::string() : blob(cap)), false);
  if (own) {
    r = rcutils_char_array_init(&a, cap, &al);
    CHECK(r == RCUTILS_RET_OK, "init returned %s", rc::ret_name(r));
    CHECK(a.owns_buffer && a.buffer_length == 0 && a.buffer_capacity == cap, "init gave length %zu, capacity %zu", a.buffer_length, a.buffer_capacity);
    CHECK(cap ? a.buffer && a.buffer[0] == 0 : !a.buffer, "init(%zu) gave a wrong buffer", cap);
  } else {
    r = rcutils_char_array_init(&a, 0, &al);
    CHECK(r == RCUTILS_RET_OK && !A.n_calls, "init(0) returned %s", rc::ret_name(r));
    a.owns_buffer = false; a.buffer = cap ? ext.p : nullptr; a.buffer_capacity = cap;
    size_t len = cap ? draw(0, cap) : 0;
    a.buffer_length = len; m.assign(ext_init.data(), len);
    if (len && chance(1, 2)) {
      for (size_t i = 0; i < len; i++) {if (!m[i]) {m[i] = 'x'; ext.p[i] = 'x';}}
      m[len - 1] = 0; ext.p[len - 1] = 0;
    } else if (cap && !len) {ext.p[0] = 0;}
  }
  say("%s capacity %zu, length %zu", own ? "owned" : "unowned", cap, a.buffer_length);
  bool faults = chance(1, 4);
  bool any = false;   // contents are unspecified after a print that failed for lack of memory
  while (more(12)) {
    bool owned = a.owns_buffer; char * ob = a.buffer; size_t oc = a.buffer_capacity, ol = a.buffer_length;
    std::string before_cap = oc ? std::string(a.buffer, oc) : std::string();
    if (faults && chance(1, 3)) {A.arm(0, chance(1, 2));} else {A.disarm();}
    auto grow = [&](size_t need, const char * what) {   // shared expectations of everything that may need room
        if (A.n_failed) {
          CHECK(r == RCUTILS_RET_BAD_ALLOC, "%s with a failed allocation returned %s", what, rc::ret_name(r));
          if (ol) {good = true;}
          return false;
        }
        CHECK(r == RCUTILS_RET_OK, "%s returned %s", what, rc::ret_name(r));
        CHECK(a.buffer_capacity >= need, "%s: capacity %zu but %zu bytes are needed", what, a.buffer_capacity, need);
        if (need <= oc) {
          CHECK(a.buffer_capacity == oc && a.buffer == ob, "%s: room for %zu of %zu bytes, but the buffer was replaced", what, need, oc);
        } else {good = true;}
        return true;
      };
    bool is_str = m.empty() || (m.find('\0') == m.size() - 1);
    switch (weighted({3, 2, 4, 4, 4, 4, 4, 1, 1})) {
      case 0: {
          size_t n = chance(1, 2) ? draw_small(0, 300) : oc + draw_plain(0, 6); if (chance(1, 3) && n > 3) {n -= 3;}
          bool huge = chance(1, 40);
          if (!huge && chance(1, 150)) {n = draw_edge(0, 140000);}
          if (huge) {n = SIZE_MAX - draw_edge(0, SIZE_MAX >> 1);}
          r = rcutils_char_array_resize(&a, n);
          say("resize(%zu) -> %s", n, rc::ret_name(r));
          if (n == 0) {CHECK(r == RCUTILS_RET_INVALID_ARGUMENT, "resize(0) returned %s", rc::ret_name(r));} else if (n == oc) {
            CHECK(r == RCUTILS_RET_OK && a.buffer == ob, "resize to the current capacity returned %s", rc::ret_name(r));
          } else if (A.n_failed) {
            CHECK(r == RCUTILS_RET_BAD_ALLOC, "resize with a failed allocation returned %s", rc::ret_name(r));
            if (ol) {good = true;}
          } else {
            CHECK(r == RCUTILS_RET_OK, "resize returned %s", rc::ret_name(r));
            CHECK(a.buffer_capacity == n, "resize(%zu) gave capacity %zu", n, a.buffer_capacity);
            if (n < m.size()) {
              // the tail is cut; a caller's text additionally stays terminated
              m.resize(n); good = true;
              CHECK(a.buffer_length == n, "resize(%zu) of %zu bytes gave length %zu", n, ol, a.buffer_length);
              if (!owned) {CHECK(a.buffer[n - 1] == 0, "a text cut out of a caller's buffer has no end"); m[n - 1] = 0;}
            } else if (!owned && m.size() == n && n < oc && a.buffer[n - 1] == 0) {
              m[n - 1] = 0;
            }
            if (!owned) {good = true;}
          }
          break;
        }
      case 1: {
          size_t n = chance(1, 2) ? draw_small(0, 300) : oc + draw_plain(0, 4);
          if (chance(1, 150)) {n = draw_edge(0, 140000);}
          r = rcutils_char_array_expand_as_needed(&a, n);
          say("expand_as_needed(%zu) -> %s, capacity %zu", n, rc::ret_name(r), a.buffer_capacity);
          grow(n, "expand_as_needed");
          break;
        }
      case 2: {
          size_t n = chance(1, 2) ? draw_small(1, 300) : std::max<size_t>(1, oc + draw_plain(0, 4) - 2);
          if (n > 4000 && (n > 200000 || !chance(1, 4))) {n = 1;}
          if (chance(1, 150)) {n = draw_edge(1, 140000);}
          std::string v = blob(n); rc::Exact e(v, false);
          r = rcutils_char_array_memcpy(&a, e, n);
          say("memcpy(%s) -> %s", quote(v).c_str(), rc::ret_name(r));
          if (grow(n, "memcpy")) {m = v; any = false;}
          break;
        }
      case 3: {
          std::string v = str_of("xyz", 0, chance(1, 3) ? 300 : 20); if (chance(1, 3) && oc && oc < 3000) {v = std::string(oc - 1 + draw_plain(0, 2), 'q');}
          v = stretch(v, 150, 140000);
          rc::Exact e(v);
          r = rcutils_char_array_strcpy(&a, e);
          say("strcpy(%s) -> %s", quote(v).c_str(), rc::ret_name(r));
          if (grow(v.size() + 1, "strcpy")) {m = v + '\0'; any = false;}
          break;
        }
      case 4: case 5: {
          if (!is_str || any) {continue;}
          std::string v = chance(1, 3) ? cstr(100) : str_of("abc", 0, 12); size_t n;
          std::string cur = m.empty() ? m : m.substr(0, m.size() - 1);
          v = stretch(v, 150, 140000);
          if (chance(1, 4) && oc > cur.size() && oc < 3000) {v = std::string(oc - cur.size() - 1 + draw_plain(0, 2), 'w');}
          bool whole = chance(1, 2);
          if (whole) {
            rc::Exact e(v); n = v.size();
            r = rcutils_char_array_strcat(&a, e);
            say("strcat(%s) -> %s", quote(v).c_str(), rc::ret_name(r));
          } else {
            // n may be shorter than, equal to or longer than the source, which need not be terminated within n
            size_t lim = draw_small(0, v.size() + 3); if (chance(1, 12)) {lim = SIZE_MAX - draw_small(0, 3);}
            bool term = lim > v.size() || chance(1, 2);
            n = std::min(lim, v.size());
            rc::Exact e(term ? v : v.substr(0, n), term);
            r = rcutils_char_array_strncat(&a, e, lim);
            say("strncat(%s, %zu) -> %s", quote(v).c_str(), lim, rc::ret_name(r));
          }
          if (grow(cur.size() + n + 1, whole ? "strcat" : "strncat")) {m = cur + v.substr(0, n) + '\0';}
          break;
        }
      case 6: {
          std::string v = printable(chance(1, 3) ? 300 : 30), again, want; static char buf[300000]; int x = (int)draw_s(-1000, 1000);
          if (chance(1, 4) && oc && oc < 3000) {v = std::string(oc - 1 + draw_plain(0, 2), 'p');}
          v = stretch(v, 150, 140000);
          int k;
          switch (draw_plain(0, 4)) {
            case 4: {
                rc::GenFormat g(60, chance(1, 3) ? &v : nullptr); k = (int)g.want.size();
                if (g.want.size() >= sizeof buf) {continue;}
                memcpy(buf, g.want.data(), g.want.size()); rc::Exact e(g.f);
                r = print(&a, &again, e, RC_FMT_ARGS(g)); break;
              }
            case 0: k = snprintf(buf, sizeof buf, "%s", v.c_str()); r = print(&a, &again, "%s", v.c_str()); break;
            case 1: k = snprintf(buf, sizeof buf, "%d:%s:%*d", x, v.c_str(), 7, x); r = print(&a, &again, "%d:%s:%*d", x, v.c_str(), 7, x); break;
            case 2: k = snprintf(buf, sizeof buf, "%c%.3f", 'z', x / 3.0); r = print(&a, &again, "%c%.3f", 'z', x / 3.0); break;
            default: k = snprintf(buf, sizeof buf, "no arguments%%"); r = print(&a, &again, "no arguments%%"); break;
          }
          want.assign(buf, k);
          say("vsprintf(%s) -> %s", quote(want).c_str(), rc::ret_name(r));
          CHECK(again == want, "vsprintf consumed the caller's va_list");
          if (grow(want.size() + 1, "vsprintf")) {m = want + '\0'; any = false;} else {any = true;}
          break;
        }
      case 7: {
          std::string again;
          if (chance(1, 2)) {
            // printing breaks off, at times only once the buffer was enlarged
            std::string v = printable(chance(1, 3) ? 300 : 30); g_vs_hit = false; g_vs_at = (int)draw_plain(0, 1);
            r = print(&a, nullptr, "%s", v.c_str()); g_vs_at = -1;
            say("vsprintf(%s) with a failing printf%s -> %s", quote(v).c_str(), g_vs_hit ? "" : " not reached", rc::ret_name(r));
            if (!g_vs_hit) {
              if (grow(v.size() + 1, "vsprintf")) {m = v + '\0'; any = false;} else {any = true;}
              break;
            }
            CHECK(r == RCUTILS_RET_ERROR || (A.n_failed && r == RCUTILS_RET_BAD_ALLOC), "vsprintf with a failing printf returned %s", rc::ret_name(r));
            good = true;
            if (!a.buffer) {
              // the contents are given up with the array
              CHECK(a.buffer_capacity == 0 && a.buffer_length == 0, "a failed vsprintf leaves a capacity of %zu and a length of %zu without a buffer", a.buffer_capacity, a.buffer_length);
              A.disarm(); A.expect_empty("after vsprintf failed and gave its buffer up");
              nontrivial(); rc::clear_error(); return;
            }
            any = true;
            break;
          }
          r = print(&a, &again, "%lc", (wint_t)0x7fffffff);
          say("vsprintf(invalid wide character) -> %s", rc::ret_name(r));
          CHECK(r == RCUTILS_RET_ERROR, "a format that cannot be printed returned %s", rc::ret_name(r));
          any = true;
          break;
        }
      default: {
          switch (draw_plain(0, 3)) {
            case 0: r = rcutils_char_array_init(nullptr, 1, &al); break;
            case 1: r = rcutils_char_array_fini(nullptr); break;
            case 2: r = rcutils_char_array_resize(nullptr, 1); break;
            default: r = rcutils_char_array_expand_as_needed(nullptr, 1); break;
          }
          CHECK(r == RCUTILS_RET_ERROR || r == RCUTILS_RET_INVALID_ARGUMENT, "a null array returned %s", rc::ret_name(r));
          break;
        }
    }
    A.disarm(); rc::clear_error();
    // structure
    CHECK(a.buffer_length == m.size(), "length is %zu, expected %zu", a.buffer_length, m.size());
    CHECK(a.buffer_length <= a.buffer_capacity, "length %zu exceeds capacity %zu", a.buffer_length, a.buffer_capacity);
    if (r != RCUTILS_RET_OK) {
      CHECK(a.buffer == ob && a.buffer_capacity == oc && a.owns_buffer == owned, "a failed call replaced the buffer");
    }
    if (a.owns_buffer) {
      CHECK(a.buffer_capacity == 0 ? !a.buffer || A.owns(a.buffer) : A.owns(a.buffer) && A.size_of(a.buffer) >= a.buffer_capacity,
        "capacity %zu, but the buffer has %zd bytes", a.buffer_capacity, (ssize_t)A.size_of(a.buffer));
    } else {
      CHECK(!owned, "the array gave up ownership of its buffer");
      CHECK(a.buffer == ob && a.buffer_capacity == oc, "the caller's buffer was replaced without taking ownership");
    }
    if (!any && !m.empty()) {
      CHECK(!memcmp(a.buffer, m.data(), m.size()), "contents are %s, expected %s", quote(a.buffer, m.size()).c_str(), quote(m).c_str());
    }
    if (!owned && a.owns_buffer && oc) {
      // moving out of the caller's buffer leaves that one alone, except for what a print wrote before it had to grow
      if (before_cap != std::string(ob, oc)) {
        CHECK(any || !m.empty(), "the caller's buffer was modified");
      }
    }
  }
  bool wrapped = !a.owns_buffer; std::string keep = wrapped && a.buffer_capacity ? std::string(a.buffer, a.buffer_capacity) : std::string();
  r = rcutils_char_array_fini(&a);
  CHECK(r == RCUTILS_RET_OK, "fini returned %s", rc::ret_name(r));
  if (wrapped) {CHECK(!memcmp(ext.p, keep.data(), keep.size()), "fini modified the caller's buffer");} else {
    CHECK(!a.buffer && !a.buffer_length && !a.buffer_capacity, "fini left length %zu, capacity %zu", a.buffer_length, a.buffer_capacity);
  }
  A.expect_empty("after fini");
  if (good) {nontrivial();}
}
}  // namespace pbt
