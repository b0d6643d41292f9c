#include "rc.h"
#include <cerrno>
#include <sys/wait.h>
#include "rcutils/process.h"
#include "rcutils/strerror.h"
using namespace pbt;
namespace pbt
{
const char * const kPropertyId = "C33";
const char * const kRule =
  "a case asks for the executable name under a generated invocation name (any bytes, slashes anywhere, empty, up to 5000 bytes) with "
  "allocation failures, or for the text of a generated errno value (known, unknown, negative) into a buffer of 1..80 bytes, or for "
  "the process id; non-trivial: an invocation name with a slash, or a truncated text";
const Budget kBudget = {1500000, 12000000, 100000};
void property_setup() {}
// a buffer of gigabytes: all of the text is there.  (A known number is copied with padding, so this takes an unknown one.)
static void vast()
{
  size_t cap = ((size_t)1 << draw_plain(31, 32)) + draw_plain(1, 20);
  rc::Vast b(cap, 0x77, true); int e = (int)draw_plain(5000, 100000); std::string want = strerror(e); label("gigabytes");
  say("errno %d into %zu", e, cap);
  errno = e; rcutils_strerror(b, cap);
  CHECK(memchr(b.p, 0, 4096) && want == b.p, "the text of errno %d into %zu bytes is %s", e, cap, quote(b.p, strnlen(b.p, 100)).c_str());
}
void property_case()
{
  rc::clear_error();
  static unsigned n_vast; if (seldom(2000, 30, n_vast)) {vast(); return;}
  if (chance(1, 2)) {
    std::string n;
    switch (weighted({4, 3, 1, 1, 1})) {
      case 0: n = str_of("/ab.", 0, 8); break;
      case 1: n = cstr(30); break;
      case 2: n = std::string(draw_plain(1, 4), '/'); break;
      case 3: n = ""; break;
      default: n = cstr(3) + "/" + std::string(draw_edge(0, 5000), 'p') + str_of("/a", 0, 2);
    }
    n = stretch(n, 500, 140000);
    char * old = program_invocation_name;
    std::string want; rc::TrackAlloc ta; char * got; bool failed;
    {
      rc::Exact en(n);
      program_invocation_name = en.p;
      int64_t at = chance(1, 3) ? (int64_t)draw_plain(0, 3) : -1;
      ta.arm(at, chance(1, 2));
      say("invocation name %s, failing allocation %" PRId64, quote(n).c_str(), at);
      got = rcutils_get_executable_name(ta.get());
      program_invocation_name = old;
      CHECK(n == en.p, "the invocation name has been changed to %s", quote(en.p, strlen(en.p)).c_str());
      failed = ta.n_failed != 0; ta.disarm();
    }
    // POSIX basename: no trailing slashes, then what follows the last one; "/" if there are only slashes
    std::string t = n; while (t.size() > 1 && t.back() == '/') {t.pop_back();}
    size_t k = t.rfind('/'); want = t == "/" || k == std::string::npos ? t : t.substr(k + 1);
    if (n.find('/') != std::string::npos) {nontrivial();}
    if (failed) {CHECK(!got, "a failed allocation gave an executable name");}
    else {
      CHECK(got, "no executable name");
      CHECK(want == got || (n.empty() && !strcmp(got, ".")) || (n.size() && n.back() == '/' && !*got), "the executable name of %s is %s, expected %s", quote(n).c_str(), quote(got, strlen(got)).c_str(), quote(want).c_str());
      CHECK(ta.owns(got), "the executable name is no block of the allocator");
      rcutils_allocator_t a = ta.get(); a.deallocate(got, a.state);
    }
    ta.expect_empty("after get_executable_name");
    if (chance(1, 20)) {
      rcutils_allocator_t z = rcutils_get_zero_initialized_allocator();
      CHECK(!rcutils_get_executable_name(z), "an invalid allocator gave a name");
    }
    rc::clear_error();
  } else {
    int e = chance(1, 2) ? (int)draw_plain(0, 140) : (int)(int32_t)draw_edge(0, UINT32_MAX);
    std::string text = strerror(e);
    size_t cap = chance(1, 2) ? 1 + size_edge(79) : std::max<size_t>(1, text.size() + draw_plain(0, 3) - 1);
    rc::Exact buf(std::string(cap, '\x77'), false);
    say("errno %d into %zu", e, cap);
    errno = e;
    rcutils_strerror(buf, cap);
    CHECK(memchr(buf.p, 0, cap), "the text of errno %d into %zu bytes is not terminated", e, cap);
    std::string want = text.substr(0, cap - 1);
    if (want != text) {nontrivial();}
    CHECK(want == buf.p, "the text of errno %d into %zu bytes is %s, expected %s", e, cap, quote(buf.p, strlen(buf.p)).c_str(), quote(want).c_str());
  }
  if (chance(1, 50)) {CHECK_EQ(rcutils_get_pid(), getpid(), "process id");}
  static unsigned forks;
  if (rarely(2000, 200, forks)) {            // a process made of this one is another one
    int before = rcutils_get_pid();
    say("process id in a child");
    pid_t p = fork();
    if (p == 0) {forked(); _exit(rcutils_get_pid() == getpid() ? 0 : 42);}
    CHECK(p > 0, "cannot fork");
    int st = 0; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
    CHECK(WIFEXITED(st) && WEXITSTATUS(st) == 0, "the process id in a child process is not its own (%s)", WIFEXITED(st) && WEXITSTATUS(st) == 42 ? "wrong" : "died");
    CHECK_EQ(rcutils_get_pid(), before, "process id after a fork"); label("forked");
  }
}
}  // namespace pbt
