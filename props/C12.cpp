#include "rc.h"
#include <cwchar>
#include "rcutils/snprintf.h"
#include "rcutils/testing/fault_injection.h"
#include "rcutils/format_string.h"
using namespace pbt;
namespace pbt
{
const char * const kPropertyId = "C12";
const char * const kRule =
  "a case is a generated format (text, %%, %d, %s, %c, %x, %lld, %.*s, %f) with matching arguments, a buffer size or length limit "
  "around the output length (0, 1, length-1..length+2, 2046..2050) and an allocation-failure plan, given to rcutils_snprintf "
  "and rcutils_format_string(_limit), compared with an independent renderer (conversions without floating point) or libc; "
  "non-trivial: the limit lies within 2 of the output length or below it";
const Budget kBudget = {2500000, 20000000, 400000};
void property_setup() {}

static std::string dec(long long v)
{
  bool neg = v < 0; unsigned long long u = neg ? 0ull - (unsigned long long)v : v; std::string o;
  do {o.insert(o.begin(), '0' + u % 10); u /= 10;} while (u);
  return neg ? "-" + o : o;
}
static int sn(char * b, size_t n, const char * f, ...)
{
  va_list ap; va_start(ap, f); int r = rcutils_vsnprintf(b, n, f, ap); va_end(ap); return r;
}
static void vast()
{
  size_t cap = ((size_t)1 << draw_plain(31, 33)) + draw_plain(0, 20);
  rc::Vast b(cap, 0x77, true); std::string s = cstr(60); label("gigabytes"); bool v = chance(1, 2);
  int r = v ? sn(b, cap, "<%s>", s.c_str()) : rcutils_snprintf(b, cap, "<%s>", s.c_str());
  say("%ssnprintf of %s into %zu -> %d", v ? "v" : "", quote(s).c_str(), cap, r);
  // POSIX lets a size beyond INT_MAX be refused
  if (r < 0) {CHECK(errno == EOVERFLOW || errno == EINVAL, "snprintf into %zu bytes gave %d", cap, r); return;}
  CHECK(r == (int)s.size() + 2 && memchr(b.p, 0, 4096) && "<" + s + ">" == b.p && b[s.size() + 3] == 0x77,
    "snprintf of %s into %zu bytes gave %d and %s", quote(s).c_str(), cap, r, quote(b.p, strnlen(b.p, 100)).c_str());
}
void property_case()
{
  rc::clear_error();
  static unsigned n_vast; if (seldom(2000, 30, n_vast)) {vast(); return;}
  rc::TrackAlloc A;
  rcutils_allocator_t al = A.get();
  std::string s = chance(1, 8) ? std::string(draw(1900, 2200), 'L') : stretch(cstr(60), 200, 140000);
  int i = (int)draw_s(INT_MIN, INT_MAX); long long l = draw_s(INT64_MIN, INT64_MAX); unsigned char c = (unsigned char)draw(1, 127);
  std::string pre = printable(12);
  for (auto & ch : pre) {if (ch == '%') {ch = '_';}}
  int prec = (int)draw_small(0, 20);
  std::string fmt, want; unsigned shape = (unsigned)draw_plain(0, 8);
  rc::GenFormat g(60, chance(1, 3) ? &s : nullptr);
  char hexb[32]; unsigned u = (unsigned)i; std::string hx;
  do {hx.insert(hx.begin(), "0123456789abcdef"[u & 15]); u >>= 4;} while (u);
  (void)hexb;
  switch (shape) {
    case 0: fmt = pre + "%s"; want = pre + s; break;
    case 1: fmt = pre + "%d|%s|%%"; want = pre + dec(i) + "|" + s + "|%"; break;
    case 2: fmt = "%c%x" + pre + "%lld"; want = std::string(1, c) + hx + pre + dec(l); break;
    case 3: fmt = "%.*s" + pre; want = s.substr(0, prec) + pre; break;
    case 4: fmt = pre; want = pre; break;
    case 5: fmt = "%s%s%s%d"; want = s + s + s + dec(i); break;
    case 6: case 7: fmt = g.f; want = g.want; break;
    default: fmt = "%.3f" + pre; {char b[512]; int k = snprintf(b, sizeof b, "%.3f", (double)i / 7); want = std::string(b, k) + pre;} break;
  }
#define CALL(f, ...) \
  (shape == 0 ? f(__VA_ARGS__, fmt.c_str(), s.c_str()) : shape == 1 ? f(__VA_ARGS__, fmt.c_str(), i, s.c_str()) : \
  shape == 2 ? f(__VA_ARGS__, fmt.c_str(), c, i, l) : shape == 3 ? f(__VA_ARGS__, fmt.c_str(), prec, s.c_str()) : \
  shape == 4 ? f(__VA_ARGS__, fmt.c_str(), 0) : shape == 5 ? f(__VA_ARGS__, fmt.c_str(), s.c_str(), s.c_str(), s.c_str(), i) : \
  shape == 6 || shape == 7 ? f(__VA_ARGS__, fmt.c_str(), RC_FMT_ARGS(g)) : \
  f(__VA_ARGS__, fmt.c_str(), (double)i / 7))
  auto size_near = [&]() -> size_t {
      switch (draw_plain(0, 4)) {
        case 0: return want.size() + draw_plain(0, 2);
        case 1: {size_t d = draw_small(0, 5); return want.size() >= d ? want.size() - d : 0;}
        case 2: return draw_small(0, 30);
        case 3: if (want.size() > 5000) {return draw_edge(0, want.size() * 2);} return 2046 + draw_plain(0, 4);
        default: return draw(0, 4096);
      }
    };
  // snprintf
  size_t n = size_near(); int r; bool v = chance(1, 2);
  if (n) {
    char * b = (char *)malloc(n); memset(b, 0x5a, n);
    r = v ? CALL(sn, b, n) : CALL(rcutils_snprintf, b, n);
    say("snprintf(size %zu, %s) -> %d, output of %zu: %s", n, quote(fmt).c_str(), r, want.size(), quote(want).c_str());
    CHECK(r == (int)want.size(), "snprintf returned %d, the output has %zu bytes", r, want.size());
    size_t k = std::min(n - 1, want.size());
    CHECK(b[k] == 0, "snprintf did not terminate its output at %zu", k);
    CHECK(!memcmp(b, want.data(), k), "snprintf wrote %s, expected %s", quote(b, k).c_str(), quote(want.substr(0, k)).c_str());
    for (size_t j = k + 1; j < n; j++) {CHECK(b[j] == 0x5a, "snprintf wrote behind its terminator");}
    free(b);
  } else {
    char b[1];
    r = CALL(rcutils_snprintf, b, (size_t)0);
    CHECK(r < 0, "snprintf to a buffer of no size returned %d", r);
  }
  r = v ? CALL(sn, (char *)nullptr, (size_t)0) : CALL(rcutils_snprintf, (char *)nullptr, (size_t)0);
  CHECK(r == (int)want.size(), "the needed size was reported as %d, expected %zu", r, want.size());
  if (chance(1, 20)) {
    char b[8];
    r = CALL(rcutils_snprintf, (char *)nullptr, n + 1);
    CHECK(r < 0, "snprintf to a null buffer returned %d", r);
    CHECK(rcutils_snprintf(b, sizeof b, nullptr) < 0 && rcutils_snprintf(nullptr, 0, nullptr) < 0, "a null format was accepted");
    CHECK(rcutils_snprintf(b, sizeof b, "%lc", (wint_t)0x7fffffff) < 0, "an unprintable format was accepted");
    CHECK(!rcutils_format_string(al, (const char *)nullptr, 0) && !rcutils_format_string_limit(al, 10, (const char *)nullptr), "a null format was accepted");
    CHECK(!rcutils_format_string_limit(al, 10, "%lc", (wint_t)0x7fffffff), "an unprintable format was accepted");
    A.expect_empty("after a refused format");
  }
  // format_string
  bool lim = chance(2, 3); size_t limit = lim ? size_near() : 2048;
  if (chance(1, 10)) {limit = lim ? (chance(1, 2) ? SIZE_MAX : (size_t)1 << draw_plain(16, 63)) - draw_small(0, 2) : limit;}
  bool armed = chance(1, 6); if (armed) {A.arm(0, false);}
  int64_t fault = chance(1, 10) ? (int64_t)draw_plain(0, 2) : -1;     // one of the prints inside fails
  rcutils_fault_injection_set_count(fault);
  char * p = lim ? CALL(rcutils_format_string_limit, al, limit) : CALL(rcutils_format_string, al);
  bool broken = fault >= 0 && rcutils_fault_injection_get_count() < 0; rcutils_fault_injection_set_count(-1);
  if (broken) {label("print failed inside format_string");}
  say("format_string(limit %zu) -> %s", limit, p ? quote(p, strlen(p)).c_str() : "NULL");
  CHECK(armed || !A.n_failed, "format_string asked for %zu bytes for an output of %zu", A.max_request, want.size());
  if (A.n_failed || limit == 0 || broken) {
    CHECK(!p, "a string was returned although %s", broken ? "printing failed" : limit ? "the allocation failed" : "the limit is 0");
  } else {
    CHECK(p, "format_string returned NULL");
    CHECK(A.owns(p) && A.live.size() == 1, "the result is not one block of the given allocator");
    std::string w = want.substr(0, limit - 1);
    CHECK(w == p, "format_string gave %s (%zu bytes), expected %s (%zu bytes)", quote(p, strlen(p)).c_str(), strlen(p), quote(w).c_str(), w.size());
    al.deallocate(p, al.state);
  }
  A.disarm();
  A.expect_empty("after format_string");
  rc::clear_error();
  if (n <= want.size() + 2 || limit <= want.size() + 2) {nontrivial();}
}
}  // namespace pbt
