#include "rc.h"
#include "rcutils/logging.h"
#include "rcutils/time.h"
#include "rcutils/types/char_array.h"
using namespace pbt;
namespace pbt
{
const char * const kPropertyId = "C16";
const char * const kRule =
  "a case is a console output format built from known tokens, broken or unknown tokens, escape sequences, stray braces and "
  "backslashes and text (up to 2500 bytes, empty, or not set), used to format several messages with and without location and "
  "name, optionally with a failing allocation, against an independent expansion of the format; non-trivial: at least two tokens "
  "together with an escape sequence or a brace that starts no token, or a truncated format";
const Budget kBudget = {150000, 2000000, 100000};
static rc::TrackAlloc * ta;
void property_setup() {rc::foreign_locale_ready(); ta = new rc::TrackAlloc;}

static const char * const kTokens[] = {"severity", "name", "message", "function_name", "file_name", "time", "date_time_with_ms", "time_as_nanoseconds", "line_number"};
struct Piece {int token; std::string text;};
static std::string decode(const std::string & s, unsigned & escapes)
{
  std::string o;
  for (size_t i = 0; i < s.size(); ) {
    if (s[i] != '\\') {o += s[i++]; continue;}
    if (s.compare(i, 4, "\\x1b") == 0) {o += '\x1b'; i += 4; escapes++; continue;}
    char c = i + 1 < s.size() ? s[i + 1] : 0;
    switch (c) {
      case 'a': o += '\a'; break; case 'b': o += '\b'; break; case 'n': o += '\n'; break; case 'r': o += '\r'; break; case 't': o += '\t'; break;
      default: o += '\\'; if (c) {o += c;}
    }
    escapes += strchr("abnrt", c) && c;
    i += 2;
  }
  return o;
}
static std::vector<Piece> parse(const std::string & s, unsigned & tokens, unsigned & stray)
{
  std::vector<Piece> v;
  for (size_t i = 0; i < s.size(); ) {
    if (s[i] == '{') {
      size_t e = s.find('}', i);
      if (e == std::string::npos) {v.push_back({-1, s.substr(i)}); stray++; break;}
      std::string t = s.substr(i + 1, e - i - 1); int k = -1;
      for (int j = 0; j < 9; j++) {if (t == kTokens[j]) {k = j;}}
      if (k < 0) {v.push_back({-1, "{"}); stray++; i++; continue;}
      v.push_back({k, ""}); tokens++; i = e + 1; continue;
    }
    size_t e = s.find('{', i); if (e == std::string::npos) {e = s.size();}
    v.push_back({-1, s.substr(i, e - i)}); i = e;
  }
  return v;
}
static std::string gen_format()
{
  std::string f;
  if (chance(1, 60)) {size_t n = draw_edge(1000, 1030); std::string u = chance(1, 2) ? "{" : "{}"; for (size_t i = 0; i < n; i++) {f += u;} return f;}
  size_t n = chance(1, 30) ? 200 + draw_plain(0, 200) : draw_small(0, 24);
  if (chance(1, 40)) {f = std::string(draw_edge(1990, 2060), 'y'); n = draw_small(0, 6);}
  for (size_t i = 0; i < n; i++) {
    switch (weighted({8, 3, 3, 2, 2, 1, 1})) {
      case 0: f += "{" + std::string(kTokens[draw_plain(0, 8)]) + "}"; break;
      case 1: f += "\\"; f += (char)(chance(3, 4) ? "abnrt"[draw_plain(0, 4)] : (char)draw(33, 126)); break;
      case 2: f += printable(6); break;
      case 3: f += str_of("{}\\n", 1, 4); break;
      case 4: f += chance(2, 3) ? "\\x1b" : std::string("\\x1b").substr(0, 1 + draw_plain(0, 2)); break;
      case 5: {std::string t = kTokens[draw_plain(0, 8)]; if (chance(1, 2)) {t += str_of("s _", 1, 1);} else {t.resize(draw_plain(0, t.size() - 1));} f += "{" + t + "}"; break;}
      default: f += cstr(6);
    }
  }
  return f;
}
void property_case()
{
  rc::ForeignLocale foreign(chance(1, 8));
  rc::clear_error();
  ta->closed = false; ta->disarm();
  bool unset = chance(1, 40); std::string f = unset ? "" : gen_format();
  if (f.size() > 2040) {for (size_t i = 2036; i < f.size() && i < 2060; i++) {if (f[i] == '\\') {f[i] = 'x';}}}
  if (unset) {unsetenv("RCUTILS_CONSOLE_OUTPUT_FORMAT");} else {setenv("RCUTILS_CONSOLE_OUTPUT_FORMAT", f.c_str(), 1);}
  say("format %s", unset ? "not set" : quote(f).c_str());
  std::string eff = f.empty() ? "[{severity}] [{time}] [{name}]: {message}" : f;
  bool trunc = eff.size() > 2047; if (trunc) {eff.resize(2047); label("format longer than 2047 bytes");}
  unsigned escapes = 0, tokens = 0, stray = 0;
  std::string dec = decode(eff, escapes);
  std::vector<Piece> pieces = parse(dec, tokens, stray);
  bool toomany = pieces.size() > 1024; if (toomany) {label("more than 1024 pieces");}
  rcutils_ret_t r = rcutils_logging_initialize_with_allocator(ta->get());
  CHECK(r == RCUTILS_RET_OK, "initialisation returned %s", rc::ret_name(r));
  rc::clear_error();
  if ((tokens >= 2 && (escapes || stray)) || trunc) {nontrivial();}
  static const char * const sevs[] = {"UNSET", "DEBUG", "INFO", "WARN", "ERROR", "FATAL"};
  rcutils_char_array_t out = rcutils_get_zero_initialized_char_array();
  rcutils_allocator_t al = ta->get();
  size_t msgs = 1 + draw_small(0, 3);
  for (size_t m = 0; m < msgs; m++) {
    int sv = (int)draw_plain(0, 5);
    bool noloc = chance(1, 4), noname = chance(1, 6);
    std::string name = chance(1, 3) ? cstr(40) : str_of("ab.", 0, 6), msg = chance(1, 4) ? cstr(1500) : printable(30), fn = printable(12), file = cstr(20);
    msg = stretch(msg, 300, 140000); name = stretch(name, 300, 70000); fn = stretch(fn, 500, 70000); file = stretch(file, 500, 70000);
    rc::Exact en(name), em(msg), ef(fn), el(file);
    rcutils_log_location_t loc = {ef, el, (size_t)(chance(1, 2) ? draw(0, 5000) : draw_edge(0, UINT64_MAX))};
    rcutils_time_point_value_t ts = (rcutils_time_point_value_t)(chance(1, 2) ? draw(0, 2000000000000000000ull) : draw_edge(0, INT64_MAX));
    std::string want;
    char buf[64];
    for (auto & p : pieces) {
      switch (p.token) {
        case -1: want += p.text; break;
        case 0: want += sevs[sv]; break;
        case 1: if (!noname) {want += name;} break;
        case 2: want += msg; break;
        case 3: if (!noloc) {want += fn;} break;
        case 4: if (!noloc) {want += file;} break;
        case 5: if (rcutils_time_point_value_as_seconds_string(&ts, buf, 32) == RCUTILS_RET_OK) {want += buf;} break;
        case 6: if (rcutils_time_point_value_as_date_string(&ts, buf, 32) == RCUTILS_RET_OK) {want += buf;} break;
        case 7: if (rcutils_time_point_value_as_nanoseconds_string(&ts, buf, 32) == RCUTILS_RET_OK) {want += buf;} break;
        case 8: if (!noloc) {want += std::to_string(loc.line_number).substr(0, 9);} break;
      }
    }
    r = rcutils_char_array_init(&out, chance(1, 3) ? draw_edge(0, 1100) : draw_small(0, 64), &al);
    CHECK(r == RCUTILS_RET_OK, "char_array_init returned %s", rc::ret_name(r));
    std::string pre;
    if (chance(1, 4)) {pre = printable(6); CHECK(rcutils_char_array_strcpy(&out, pre.c_str()) == RCUTILS_RET_OK, "strcpy failed");}
    say("message %zu: severity %s, name %s, message %s%s", m, sevs[sv], noname ? "NULL" : quote(name).c_str(), quote(msg).c_str(), noloc ? ", no location" : "");
    bool faulty = chance(1, 10);
    if (faulty) {ta->arm((int64_t)draw_small(0, 4), chance(1, 2));}
    r = rcutils_logging_format_message(noloc ? nullptr : &loc, sv * 10, noname ? nullptr : en.p, ts, em, &out);
    bool failed = ta->n_failed; ta->disarm();
    rc::clear_error();
    if (r != RCUTILS_RET_OK) {
      CHECK(failed, "format_message returned %s", rc::ret_name(r)); label("format ran out of memory");
    } else {
      CHECK(out.buffer_length == 0 || memchr(out.buffer, 0, out.buffer_length), "the formatted message is not terminated");
      std::string got = out.buffer_length ? out.buffer : "";
      want = pre + want;
      if (toomany) {CHECK(want.compare(0, got.size(), got) == 0, "the formatted message %s is no prefix of %s", quote(got).c_str(), quote(want).c_str());} else {
        size_t d = 0; while (d < got.size() && d < want.size() && got[d] == want[d]) {d++;}
        size_t from = d > 40 ? d - 40 : 0;
        CHECK(got == want, "the formatted message differs from byte %zu on: ...%s, expected ...%s", d,
          quote(got.substr(from, 120)).c_str(), quote(want.substr(from, 120)).c_str());
      }
    }
    CHECK(rcutils_char_array_fini(&out) == RCUTILS_RET_OK, "char_array_fini failed");
  }
  CHECK(rcutils_logging_shutdown() == RCUTILS_RET_OK, "shutdown failed");
  unsetenv("RCUTILS_CONSOLE_OUTPUT_FORMAT");
  ta->expect_empty("after shutdown");
  rc::clear_error();
}
}  // namespace pbt
