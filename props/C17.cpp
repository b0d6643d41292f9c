#include "rc.h"
#include <pty.h>
#include <stdio.h>
#include <termios.h>
#include "rcutils/logging.h"
#include "rcutils/time.h"
using namespace pbt;
namespace pbt
{
const char * const kPropertyId = "C17";
const char * const kRule =
  "a case initialises logging under generated RCUTILS_LOGGING_USE_STDOUT, RCUTILS_LOGGING_BUFFERED_STREAM, "
  "RCUTILS_COLORIZED_OUTPUT values and formats, valid or not, with stdout and stderr redirected to files or a terminal, and logs "
  "messages of 0..4000, at times up to 200000, bytes at known and unknown severities through the console handler, also with failing allocations, "
  "comparing the bytes that arrive on each stream and when; non-trivial: a coloured message, a message on stdout, or one over 1000 bytes";
const Budget kBudget = {280000, 4000000, 40000};
static rc::TrackAlloc * ta; static int mem[3], master = -1, slave = -1;
// Fresh stdout and stderr streams for every case: what setvbuf does to a stream in use is up to the C library.
static FILE * const real_out = stdout, * const real_err = stderr;
static void streams(int ttyfd)
{
  for (int k = 1; k <= 2; k++) {
    if (ftruncate(mem[k], 0)) {}
    lseek(mem[k], 0, SEEK_SET);
    FILE * f = fdopen(dup(k == ttyfd ? slave : mem[k]), "w");
    CHECK(f, "fdopen failed");
    if (k == 2) {setvbuf(f, nullptr, _IONBF, 0);}
    (k == 1 ? stdout : stderr) = f;
  }
}
static std::string contents(int k)
{
  off_t end = lseek(mem[k], 0, SEEK_END); std::string s((size_t)end, 0);
  if (end && pread(mem[k], &s[0], (size_t)end, 0) != end) {s.clear();}
  return s;
}
static std::pair<std::string, std::string> restore()
{
  fclose(stdout); fclose(stderr); stdout = real_out; stderr = real_err;
  return {contents(1), contents(2)};
}
void property_setup()
{
  ta = new rc::TrackAlloc;
  mem[1] = memfd_create("out", 0); mem[2] = memfd_create("err", 0);
  struct termios t; memset(&t, 0, sizeof t); cfmakeraw(&t);
  if (openpty(&master, &slave, nullptr, &t, nullptr) == 0) {fcntl(master, F_SETFL, O_NONBLOCK);} else {master = -1;}
}
static std::string tty_read()
{
  std::string s; char b[4096]; ssize_t n;
  while ((n = read(master, b, sizeof b)) > 0) {s.append(b, n);}
  return s;
}
static std::string env_value(const char * name, int & meaning)   // meaning: 0, 1, 2 (empty or not set), -1 (refused)
{
  switch (weighted({4, 4, 3, 3, 1})) {
    case 0: setenv(name, "0", 1); meaning = 0; return "0";
    case 1: setenv(name, "1", 1); meaning = 1; return "1";
    case 2: unsetenv(name); meaning = 2; return "(not set)";
    case 3: setenv(name, "", 1); meaning = 2; return "(empty)";
    default: {
        static const char * const bad[] = {"2", "00", "01", "10", " 1", "1 ", "true", "TRUE", "yes", "on", "-1", "0x1", "1\n", "11"};
        const char * v = bad[draw_plain(0, sizeof bad / sizeof *bad - 1)];
        setenv(name, v, 1); meaning = -1; return v;
      }
  }
}
static void direct(const rcutils_log_location_t * l, int sev, const char * name, rcutils_time_point_value_t ts, const char * fmt, ...)
{
  va_list a; va_start(a, fmt); rcutils_logging_console_output_handler(l, sev, name, ts, fmt, &a); va_end(a);
}
void property_case()
{
  rc::clear_error();
  ta->closed = false; ta->disarm();
  int use_stdout, buffered, color;
  unsetenv("RCUTILS_CONSOLE_STDOUT_LINE_BUFFERED");
  std::string a = env_value("RCUTILS_LOGGING_USE_STDOUT", use_stdout), b = env_value("RCUTILS_LOGGING_BUFFERED_STREAM", buffered),
    c = env_value("RCUTILS_COLORIZED_OUTPUT", color);
  int fmt = (int)draw_plain(0, 3);
  static const char * const fmts[] = {"{message}", "[{severity}] {name}: {message}", nullptr, "{message}|{function_name}:{line_number}"};
  if (fmts[fmt]) {setenv("RCUTILS_CONSOLE_OUTPUT_FORMAT", fmts[fmt], 1);} else {unsetenv("RCUTILS_CONSOLE_OUTPUT_FORMAT");}
  say("USE_STDOUT=%s BUFFERED_STREAM=%s COLORIZED_OUTPUT=%s format %s", a.c_str(), b.c_str(), c.c_str(), fmts[fmt] ? fmts[fmt] : "(not set)");
  bool tty = master >= 0 && chance(1, 4); int fd = use_stdout == 1 ? 1 : 2, other = 3 - fd;
  streams(tty ? fd : 0);
  rcutils_ret_t r = rcutils_logging_initialize_with_allocator(ta->get());
  bool refused = use_stdout < 0 || buffered < 0 || color < 0;
  if (refused) {
    restore(); label("refused environment");
    CHECK(r == RCUTILS_RET_INVALID_ARGUMENT, "initialisation under a refused environment returned %s", rc::ret_name(r));
    CHECK(rcutils_error_is_set(), "a refused environment sets no error");
    CHECK(!g_rcutils_logging_initialized, "logging counts as initialised after a refused environment");
  } else {
    if (r != RCUTILS_RET_OK) {restore(); fail("initialisation returned %s", rc::ret_name(r));}
    if (tty) {tty_read();}
    bool colored = color == 1 || (color == 2 && tty);
    size_t n = 1 + draw_small(0, 4);
    std::string err;
    std::string leftover;   // what earlier messages of this case put on the stream
    std::vector<std::string> all;
    if (!tty && buffered != 2 && chance(1, 3)) {   // "0" makes the stream unbuffered, "1" line buffered
      FILE * f = fd == 1 ? stdout : stderr;
      fputc('p', f);
      std::string now = contents(fd);
      if (now != (buffered ? "" : "p")) {err = "with RCUTILS_LOGGING_BUFFERED_STREAM=" + b + ", what is on the stream after one character is " + quote(now);}
      fputc('\n', f); leftover = contents(fd);
      if (err.empty() && leftover != "p\n") {err = "with RCUTILS_LOGGING_BUFFERED_STREAM=" + b + ", what is on the stream after a line is " + quote(leftover);}
      label("buffering of the stream");
    }
    for (size_t m = 0; m < n && err.empty(); m++) {
      bool odd = chance(1, 12);
      static const int bad[] = {0, 1, 5, 15, 51, 60, -10, 1000};
      int sev = odd ? bad[draw_plain(0, 7)] : 10 * (int)draw_plain(1, 5);
      std::string msg = chance(1, 4) ? std::string(draw_edge(900, tty ? 1200 : 4000), 'm') + printable(4) : chance(1, 8) ? cstr(200) : printable(40);
      std::string name = str_of("ab.", 0, 5);
      if (!tty) {msg = stretch(msg, 60, 200000); name = stretch(name, 300, 70000);}
      bool gen = chance(1, 4); rc::GenFormat g(80, chance(1, 2) ? &msg : nullptr);
      if (gen && !(tty && g.want.size() > 1200)) {msg = g.want;} else {gen = false;}
      rc::Exact exact_format(g.f);
      rcutils_log_location_t loc = {"func", "file", 42};
      rcutils_time_point_value_t ts = (rcutils_time_point_value_t)draw(0, 1999999999999999999ull);
      char sec[64]; CHECK(rcutils_time_point_value_as_seconds_string(&ts, sec, sizeof sec) == RCUTILS_RET_OK, "seconds string failed");
      static const char * const sevs[] = {"UNSET", "DEBUG", "INFO", "WARN", "ERROR", "FATAL"};
      std::string body;
      if (!odd) {
        std::string sn = sevs[sev / 10];
        body = fmt == 0 ? msg : fmt == 1 ? "[" + sn + "] " + name + ": " + msg : fmt == 2 ? "[" + sn + "] [" + sec + "] [" + name + "]: " + msg : msg + "|func:42";
        if (colored) {
          static const char * const col[] = {"", "\033[32m", "\033[0m", "\033[33m", "\033[31m", "\033[31m"};
          body = col[sev / 10] + body + "\033[0m";
        }
        body += "\n";
      }
      say("severity %d, message %s", sev, quote(msg).c_str());
      bool faulty = chance(1, 10);
      if (faulty) {ta->arm((int64_t)draw_small(0, 3), chance(1, 2));}
      const rcutils_log_location_t * where = chance(1, 2) || fmt == 3 ? &loc : nullptr;
      if (gen) {direct(where, sev, name.c_str(), ts, exact_format, RC_FMT_ARGS(g));} else {direct(where, sev, name.c_str(), ts, "%s", msg.c_str());}
      bool failed = ta->n_failed; ta->disarm();
      rc::clear_error();
      bool visible = buffered != 2 && !odd && !failed;
      std::string now;                       // what is on the descriptor before any flush
      if (tty) {
        if (!visible) {fflush(fd == 1 ? stdout : stderr);}
        now = tty_read();
      } else {
        if (!visible) {fflush(stdout); fflush(stderr);}
        std::string s = contents(fd);
        now = s.substr(std::min(s.size(), leftover.size())); leftover = s;
      }
      if (odd) {
        label("unknown severity");
        if (!msg.empty() && msg.size() > 20 && now.find(msg) != std::string::npos) {err = "a message of unknown severity was written";}
        if (fd == 1 && !now.empty()) {err = "a message of unknown severity wrote " + quote(now);}
      } else if (failed) {
        label("logging ran out of memory");
        if (fd == 1 && !now.empty() && now != body) {err = "out of memory, part of a message was written: " + quote(now);}
      } else {
        if (now != body) {err = "the message arrived on the stream as " + quote(now) + ", expected " + quote(body);}
        if (colored || fd == 1 || body.size() > 1000) {nontrivial();}
        label(colored ? "coloured" : "not coloured"); if (tty) {label("on a terminal");}
      }
      if (odd || failed) {all.push_back("?");}
    }
    auto oe = restore(); if (tty) {tty_read();}
    if (!err.empty()) {fail("%s", err.c_str());}
    std::string & o = other == 1 ? oe.first : oe.second;
    if (all.empty()) {CHECK(o.empty(), "the other stream got %s", quote(o).c_str());}
    if (chance(1, 20)) {
      CHECK(rcutils_logging_shutdown() == RCUTILS_RET_OK, "shutdown failed");
      streams(0);
      direct(nullptr, 20, "n", 1, "%s", "after the shutdown, a long enough message");
      oe = restore();
      CHECK(oe.first.empty() && oe.second.find("long enough message") == std::string::npos, "a message was written after the shutdown");
    }
  }
  CHECK(rcutils_logging_shutdown() == RCUTILS_RET_OK, "shutdown failed");
  ta->expect_empty("after shutdown");
  unsetenv("RCUTILS_LOGGING_USE_STDOUT"); unsetenv("RCUTILS_LOGGING_BUFFERED_STREAM"); unsetenv("RCUTILS_COLORIZED_OUTPUT"); unsetenv("RCUTILS_CONSOLE_OUTPUT_FORMAT");
  rc::clear_error();
}
}  // namespace pbt
