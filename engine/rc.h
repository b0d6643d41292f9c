// Helpers shared by the rcutils properties: tracking/failing allocator, error-state reset, capture.
#ifndef RC_H_
#define RC_H_
#include "pbt.h"
#include <cstdlib>
#include <cstring>
#include <climits>
#include <cinttypes>
#include <string>
#include <vector>
#include <map>
#include <unordered_map>
#include <unistd.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include "rcutils/allocator.h"
#include "rcutils/error_handling.h"
#include "rcutils/types/rcutils_ret.h"

namespace rc
{
using pbt::draw; using pbt::fail; using pbt::say;

// True while code under test runs outside of any allocator callback.
extern thread_local bool g_in_lib;
extern thread_local unsigned g_foreign_mallocs;   // malloc calls made directly while g_in_lib

struct TrackAlloc
{
  static constexpr uint64_t MAGIC = 0x7261636b416c6c6full;
  uint64_t magic = MAGIC;
  std::unordered_map<void *, size_t> live;
  uint64_t n_calls = 0;        // allocation attempts (allocate + zero_allocate + reallocate)
  uint64_t n_ok = 0;
  uint64_t n_free = 0;
  int64_t fail_at = -1;        // index (from n_calls at arming time) that fails; -1: never
  bool fail_after = false;     // fail every call from fail_at on
  uint64_t armed_base = 0;
  uint64_t n_failed = 0;
  size_t limit = 4u << 20;     // larger requests fail like a real allocator would
  size_t max_request = 0;
  uint8_t fill = 0xA5;
  bool zero_null = false;      // size-zero requests give NULL (as some allocators do)
  bool closed = false;         // no call allowed any more

  rcutils_allocator_t get();
  void arm(int64_t at, bool after) {fail_at = at; fail_after = after; armed_base = n_calls; n_failed = 0;}
  void disarm() {fail_at = -1; n_failed = 0;}
  bool should_fail(size_t size);
  void expect_empty(const char * when)
  {
    if (!live.empty()) {
      size_t sz = live.begin()->second;
      size_t n = live.size();
      fail("leak: %zu allocation(s) still live %s (first of %zu bytes)", n, when, sz);
    }
  }
  bool owns(const void * p) const {return live.count((void *)p) != 0;}
  size_t size_of(const void * p) const {auto it = live.find((void *)p); return it == live.end() ? SIZE_MAX : it->second;}
  ~TrackAlloc();
};

inline void clear_error() {rcutils_reset_error();}
inline bool error_is_set() {return rcutils_error_is_set();}
const char * ret_name(int r);
inline int sign(int x) {return x < 0 ? -1 : x > 0 ? 1 : 0;}

// An exact-size heap copy, so that the sanitizer notices any access beyond the string/region.
struct Exact
{
  char * p; size_t n;
  explicit Exact(const std::string & s, bool nul = true)
  : n(s.size() + (nul ? 1 : 0))
  {
    p = (char *)malloc(n ? n : 1);
    memcpy(p, s.data(), s.size());
    if (nul) {p[s.size()] = 0;}
    if (!n) {free(p); p = (char *)malloc(0); if (!p) {p = (char *)malloc(1);}}
  }
  ~Exact() {free(p);}
  Exact(const Exact &) = delete;
  Exact & operator=(const Exact &) = delete;
  operator char *() const {return p;}
};

// n bytes of one value, n counted in gigabytes at will: the same few pages over and over.  With `own`, a page is copied
// when it is written to; without, all its appearances change.
struct Vast
{
  static constexpr size_t CHUNK = 16u << 20;
  char * p; size_t n, span;
  Vast(size_t n_, int fill, bool own);
  ~Vast();
  Vast(const Vast &) = delete;
  Vast & operator=(const Vast &) = delete;
  operator char *() const {return p;}
};
// An allocator whose large blocks are vast ones (with the pages in common: what is written to them is not kept).
struct VastAlloc
{
  std::unordered_map<void *, Vast *> large;
  std::unordered_map<void *, size_t> small;
  size_t last_request = 0;
  rcutils_allocator_t get();
  bool empty() const {return large.empty() && small.empty();}
  size_t size_of(const void * p) const;
};

// Redirects a file descriptor into a memfd; one per process and fd.
struct FdCapture
{
  int fd, mem, saved;
  explicit FdCapture(int fd_)
  : fd(fd_)
  {
    saved = dup(fd); mem = memfd_create("cap", 0);
  }
  void start();
  std::string stop();
};
int free_fd_count();

// A generated printf format for the arguments (int, const char *, double, long long), of which only a prefix may be used
// (or any, by position), with the text the C library makes of it. Pass RC_FMT_ARGS(g) behind g.f.c_str().
struct GenFormat
{
  std::string f, s, want; int i; double d; long long l;
  explicit GenFormat(size_t max_text = 40, const std::string * text = nullptr);
};
#define RC_FMT_ARGS(g) (g).i, (g).s.c_str(), (g).d, (g).l
// A locale in which letters, letter case and the decimal point differ from those of "C" (Turkish, 8-bit), compiled
// into scratch() by localedef at the first use of foreign_locale_ready(); false where it cannot be made.
bool foreign_locale_ready();
struct ForeignLocale            // in force for this thread while the object lives
{
  explicit ForeignLocale(bool on);
  ~ForeignLocale();
  bool on;
};

}  // namespace rc
#endif
