#include "pbt.h"
#include <algorithm>
#include <atomic>
#include <cerrno>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <set>
#include <unordered_set>
#include <dirent.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

extern "C" {
void __sanitizer_set_report_fd(void *);
void __sanitizer_set_death_callback(void (*)(void));
void __asan_set_error_report_callback(void (*)(const char *));
}

#ifdef PBT_TSAN
extern "C" void __asan_set_error_report_callback(void (*)(const char *)) {}
#endif

namespace pbt
{
namespace
{
constexpr uint32_t MAXV = 1u << 16;
constexpr int MAXW = 16;
constexpr int NLABEL = 160;
constexpr int NSAMPLE = 6;
constexpr uint32_t SAMPLEV = 4096;
constexpr uint64_t HCAP = 1u << 22;  // nontrivial case hashes remembered per worker

enum State : uint32_t {IDLE = 0, RUNNING, DONE, FAILED, SANITIZER, HANG, DEAD};

struct Label {char name[60]; uint64_t n;};
struct Slot
{
  std::atomic<uint64_t> idx;       // index of the current case
  std::atomic<uint32_t> state;
  std::atomic<uint32_t> finished;  // worker went through its whole budget
  uint32_t nvals;
  uint64_t vals[MAXV];
  char msg[16384];
  uint64_t evals, nontriv, discarded, corpus, edges, edges_total, nhash;
  Label labels[NLABEL];
  Label knowns[32];
  uint32_t nsamples;
  struct {uint32_t n; uint64_t v[SAMPLEV];} samples[NSAMPLE];
  uint32_t textlen;
  char text[65536];
};
Slot * slots;
uint64_t * hashes;  // MAXW * HCAP
Slot * S;           // mine
unsigned W;
int report_fd = -1;
std::string g_scratch;
std::string g_scratch_root;
std::set<std::string> g_known;

// ---- rng ----
struct Rng
{
  uint64_t s[2];
  void seed(uint64_t x)
  {
    for (int i = 0; i < 2; i++) {
      x += 0x9E3779B97F4A7C15ull; uint64_t z = x;
      z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
      s[i] = z ^ (z >> 31);
    }
  }
  uint64_t next()
  {
    uint64_t s1 = s[0]; const uint64_t s0 = s[1]; const uint64_t r = s0 + s1; s[0] = s0;
    s1 ^= s1 << 23; s[1] = s1 ^ s0 ^ (s1 >> 18) ^ (s0 >> 5); return r;
  }
  uint64_t below(uint64_t n) {return n ? next() % n : next();}
  bool p(unsigned a, unsigned b) {return below(b) < a;}
} R;

// ---- source ----
enum Mode {GEN, REPLAY, FUZZBYTES};
Mode mode = GEN;
std::vector<uint64_t> prefix;     // REPLAY, or GEN with a mutated prefix
size_t ppos = 0;
const uint8_t * fz = nullptr; size_t fzn = 0, fzp = 0;
bool g_verbose = false;
bool g_quick_death = false;   // shrinking: only whether it dies matters, not the report
bool case_nontrivial = false;
bool in_case = false;

// ---- dictionaries gathered from comparisons inside the code under test ----
uint64_t dict[256]; unsigned ndict = 0; bool dict_frozen = false;
std::unordered_set<uint64_t> dictset;
std::vector<std::string> sdict; bool in_hook = false;
void add_dict(uint64_t v)
{
  if (dict_frozen || v < 3 || !in_case || mode != GEN || in_hook) {return;}
  for (unsigned i = 0; i < ndict; i++) {if (dict[i] == v) {return;}}
  if (ndict < 256) {dict[ndict++] = v;}
}
// ---- coverage ----
struct Region {uint8_t * a; uint8_t * b;};
Region regions[128]; int nregions = 0;
std::vector<uint8_t> virgin;
std::vector<std::vector<uint64_t>> corpus;

uint8_t bucket(uint8_t c)
{
  if (c == 0) {return 0;}
  if (c == 1) {return 1;}
  if (c == 2) {return 2;}
  if (c == 3) {return 4;}
  if (c < 8) {return 8;}
  if (c < 16) {return 16;}
  if (c < 32) {return 32;}
  if (c < 128) {return 64;}
  return 128;
}
size_t ncounters()
{
  size_t n = 0;
  for (int i = 0; i < nregions; i++) {n += regions[i].b - regions[i].a;}
  return n;
}
bool scan_cov()  // true when something new was covered; clears the counters
{
  bool fresh = false; size_t base = 0;
  for (int r = 0; r < nregions; r++) {
    uint8_t * a = regions[r].a; size_t n = regions[r].b - a;
    size_t i = 0;
    for (; i + 8 <= n; i += 8) {
      uint64_t w; memcpy(&w, a + i, 8);
      if (!w) {continue;}
      for (size_t k = i; k < i + 8; k++) {
        uint8_t m = bucket(a[k]);
        if (m & ~virgin[base + k]) {
          if (!virgin[base + k]) {S->edges++;}
          virgin[base + k] |= m; fresh = true;
        }
      }
      memset(a + i, 0, 8);
    }
    for (; i < n; i++) {
      uint8_t m = bucket(a[i]);
      if (m & ~virgin[base + i]) {
        if (!virgin[base + i]) {S->edges++;}
        virgin[base + i] |= m; fresh = true;
      }
      a[i] = 0;
    }
    base += n;
  }
  return fresh;
}

uint64_t rec(uint64_t v)
{
  if (S->nvals < MAXV) {S->vals[S->nvals++] = v;}
  return v;
}
uint64_t clampv(uint64_t v, uint64_t lo, uint64_t hi)
{
  if (v >= lo && v <= hi) {return v;}
  uint64_t n = hi - lo + 1;
  return n ? lo + (v % n) : v;
}
// returns true when the value came from a replayed prefix / fuzz input
bool from_source(uint64_t lo, uint64_t hi, uint64_t * out)
{
  if (S->nvals >= MAXV) {*out = lo; return true;}
  if (ppos < prefix.size()) {*out = clampv(prefix[ppos++], lo, hi); return true;}
  if (mode == REPLAY) {*out = lo; return true;}
  if (mode == FUZZBYTES) {
    uint64_t range = hi - lo; int nb = 1;
    while (nb < 8 && (range >> (8 * nb))) {nb++;}
    uint64_t v = 0;
    for (int i = 0; i < nb; i++) {v = (v << 8) | (fzp < fzn ? fz[fzp++] : 0);}
    *out = range == UINT64_MAX ? v : lo + v % (range + 1);
    return true;
  }
  return false;
}
uint64_t gen_dict(uint64_t lo, uint64_t hi, bool * ok)
{
  *ok = false;
  if (!ndict) {return lo;}
  for (int t = 0; t < 6; t++) {
    uint64_t v = dict[R.below(ndict)];
    v += R.below(3) - 1;
    if (v >= lo && v <= hi) {*ok = true; return v;}
  }
  return lo;
}
uint64_t gen_pow(uint64_t lo, uint64_t hi)
{
  uint64_t range = hi - lo; int bits = 0;
  while (bits < 64 && (range >> bits)) {bits++;}
  uint64_t v = (1ull << R.below(bits ? bits : 1));
  v += R.below(3) - 1;
  return lo + std::min(v, range);
}
void child_init_reports(unsigned w);
}  // namespace

uint64_t mix(uint64_t a, uint64_t b)
{
  uint64_t z = a ^ (b + 0x9E3779B97F4A7C15ull + (a << 6) + (a >> 2));
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return z ^ (z >> 31);
}
uint64_t draw_plain(uint64_t lo, uint64_t hi)
{
  uint64_t v;
  if (!from_source(lo, hi, &v)) {v = hi - lo == UINT64_MAX ? R.next() : lo + R.below(hi - lo + 1);}
  return rec(v);
}
uint64_t draw(uint64_t lo, uint64_t hi)
{
  uint64_t v;
  if (!from_source(lo, hi, &v)) {
    uint64_t range = hi - lo; bool ok = false;
    if (range > 16) {
      unsigned k = R.below(16);
      if (k == 0) {v = gen_dict(lo, hi, &ok);} else if (k == 1) {v = gen_pow(lo, hi); ok = true;}
    }
    if (!ok) {v = range == UINT64_MAX ? R.next() : lo + R.below(range + 1);}
  }
  return rec(v);
}
uint64_t draw_small(uint64_t lo, uint64_t hi)
{
  uint64_t v;
  if (!from_source(lo, hi, &v)) {
    uint64_t range = hi - lo; bool ok = false; v = lo;
    unsigned k = R.below(32);
    if (k == 0) {v = gen_dict(lo, hi, &ok);} else if (k == 1) {v = gen_pow(lo, hi); ok = true;} else if
    (k == 2) {
      v = range == UINT64_MAX ? R.next() : lo + R.below(range + 1); ok = true;
    }
    if (!ok) {
      uint64_t x = R.below(4);
      while (x < range && R.p(3, 5)) {x += 1 + R.below(3);}
      v = lo + std::min(x, range);
    }
  }
  return rec(v);
}
uint64_t draw_edge(uint64_t lo, uint64_t hi)
{
  uint64_t v;
  if (!from_source(lo, hi, &v)) {
    uint64_t range = hi - lo; bool ok = false; v = lo;
    switch (R.below(8)) {
      case 0: v = gen_dict(lo, hi, &ok); break;
      case 1: case 2: v = gen_pow(lo, hi); ok = true; break;
      case 3: v = hi - std::min<uint64_t>(range, R.below(3)); ok = true; break;
      case 4: v = lo + std::min<uint64_t>(range, R.below(3)); ok = true; break;
      case 5: case 6: {
          int bits = 0;
          while (bits < 64 && (range >> bits)) {bits++;}
          unsigned nb = R.below(bits + 1);
          uint64_t x = nb >= 64 ? R.next() : (R.next() & ((1ull << nb) - 1));
          v = lo + std::min(x, range); ok = true; break;
        }
      default: break;
    }
    if (!ok) {v = range == UINT64_MAX ? R.next() : lo + R.below(range + 1);}
  }
  return rec(v);
}
uint64_t size_edge(uint64_t hi)
{
  uint64_t v;
  if (!from_source(0, hi, &v)) {
    bool ok = false; v = 0;
    unsigned k = R.below(20);
    if (k == 0) {v = gen_dict(0, hi, &ok);} else if (k < 3) {v = gen_pow(0, hi); ok = true;} else if
    (k == 3)
    {
      v = hi - std::min<uint64_t>(hi, R.below(3)); ok = true;
    } else if (k == 4) {v = R.below(hi + 1); ok = true;}
    if (!ok) {
      uint64_t x = R.below(4);
      while (x < hi && R.p(5, 7)) {x += 1 + R.below(3);}
      v = std::min(x, hi);
    }
  }
  return rec(v);
}
int64_t draw_s(int64_t lo, int64_t hi)
{
  // order: encoded so that 0 (or the bound nearest to 0) is the simplest value
  uint64_t range = (uint64_t)hi - (uint64_t)lo;
  if (lo <= 0 && hi >= 0) {
    uint64_t v = draw_edge(0, range);
    // zig-zag inside the bounds
    uint64_t neg = (uint64_t)0 - (uint64_t)lo, pos = (uint64_t)hi;
    uint64_t m = std::min(neg, pos);
    if (v <= m * 2 || m > UINT64_MAX / 2) {
      return (v & 1) ? (int64_t)(0 - (v / 2 + 1)) : (int64_t)(v / 2);
    }
    uint64_t rest = v - m * 2;
    return pos > neg ? (int64_t)(m + rest) : (int64_t)(0 - (m + rest));
  }
  return (int64_t)((uint64_t)lo + draw_edge(0, range));
}
bool chance(unsigned num, unsigned den)
{
  uint64_t v;
  if (!from_source(0, 1, &v)) {v = R.below(den) < num;}
  return rec(v) != 0;
}
bool rarely(unsigned den, unsigned max, unsigned & count)
{
  uint64_t v;
  if (!from_source(0, 1, &v)) {v = R.below(den) == 0;}
  if (v && mode == GEN && count++ >= max) {v = 0;}
  return rec(v) != 0;
}
bool seldom(unsigned den, unsigned max, unsigned & count)
{
  if (mode == FUZZBYTES || (mode == GEN && W)) {return rec(0) != 0;}
  return rarely(den, max, count);
}
bool more(unsigned avg)
{
  uint64_t v;
  if (!from_source(0, 1, &v)) {v = R.below(avg + 1) != 0;}
  return rec(v) != 0;
}
unsigned weighted(std::initializer_list<unsigned> w)
{
  unsigned sum = 0;
  for (unsigned x : w) {sum += x;}
  uint64_t v;
  if (!from_source(0, w.size() - 1, &v)) {
    uint64_t r = R.below(sum); v = 0;
    for (unsigned x : w) {
      if (r < x) {break;}
      r -= x; v++;
    }
  }
  return (unsigned)rec(v);
}
static bool forced_string(size_t minlen, size_t maxlen, const std::string * alpha, std::string * out)
{
  // GEN mode only: use a string met in a comparison inside the code under test
  if (mode != GEN || ppos < prefix.size() || sdict.empty() || !R.p(1, 24)) {return false;}
  const std::string & s = sdict[R.below(sdict.size())];
  if (s.size() < minlen || s.size() > maxlen) {return false;}
  for (unsigned char c : s) {
    if (c == 0) {return false;}
    if (alpha && alpha->find((char)c) == std::string::npos) {return false;}
  }
  *out = s;
  return true;
}
std::string str_of(const std::string & alphabet, size_t minlen, size_t maxlen)
{
  std::string s, f;
  if (forced_string(minlen, maxlen, &alphabet, &f)) {
    rec(f.size());
    for (char c : f) {rec(alphabet.find(c));}
    return f;
  }
  size_t n;
  if (minlen == maxlen) {n = minlen; rec(n); if (ppos < prefix.size()) {ppos++;}} else {
    n = minlen + 0; uint64_t v;
    if (!from_source(minlen, maxlen, &v)) {
      uint64_t hi = maxlen - minlen; bool ok = false; v = 0;
      unsigned k = R.below(24);
      if (k == 0) {v = gen_dict(minlen, maxlen, &ok) - minlen;} else if (k == 1) {
        v = gen_pow(0, hi); ok = true;
      } else if (k == 2) {v = R.below(hi + 1); ok = true;}
      if (!ok) {
        uint64_t x = R.below(4);
        while (x < hi && R.p(2, 3)) {x += 1 + R.below(2);}
        v = std::min(x, hi);
      }
      v += minlen;
    }
    n = rec(v);
  }
  s.reserve(n);
  for (size_t i = 0; i < n; i++) {s.push_back(alphabet[draw_plain(0, alphabet.size() - 1)]);}
  return s;
}
static std::string gen_chars(size_t n, unsigned lo, unsigned hi, unsigned style)
{
  std::string s; s.reserve(n);
  for (size_t i = 0; i < n; i++) {
    uint64_t v;
    if (!from_source(lo, hi, &v)) {
      switch (style) {
        case 0: v = 'a' + R.below(3); break;
        case 1: v = 32 + R.below(95); break;
        case 2: v = lo + R.below(hi - lo + 1); break;
        default: v = "/._-%{}\\:;,=+\"' \t\nA0z\x7f\x80\xff\x01"[R.below(26)]; v &= 255; break;
      }
      if (v < lo || v > hi) {v = lo + R.below(hi - lo + 1);}
    }
    s.push_back((char)rec(v));
  }
  return s;
}
std::string cstr(size_t maxlen)
{
  std::string f;
  if (forced_string(0, maxlen, nullptr, &f)) {
    rec(0); rec(f.size());
    for (char c : f) {rec((unsigned char)c);}
    return f;
  }
  unsigned style = (unsigned)draw_plain(0, 3);
  size_t n = size_edge(maxlen);
  return gen_chars(n, 1, 255, style);
}
std::string printable(size_t maxlen)
{
  size_t n = size_edge(maxlen);
  return gen_chars(n, 32, 126, 1);
}
std::string bytes(size_t minlen, size_t maxlen)
{
  unsigned style = (unsigned)draw_plain(0, 3);
  size_t n = minlen + size_edge(maxlen - minlen);
  return gen_chars(n, 0, 255, style == 1 ? 2 : style);
}

std::string stretch(std::string s, unsigned den, size_t hi)
{
  if (!chance(1, den) || s.size() + 1 >= hi) {return s;}
  size_t n = std::max<size_t>(draw_edge(0, hi), s.size() + 1); uint64_t salt = draw_plain(0, 255);
  s.reserve(n);
  while (s.size() < n) {s.push_back((char)('a' + mix(salt, s.size()) % 26));}
  label("very long string");
  return s;
}

std::string blob(size_t n)
{
  if (n <= 256) {return bytes(n, n);}
  uint64_t salt = draw_plain(0, 255); std::string s(n, 0);
  for (size_t i = 0; i < n; i++) {s[i] = (char)mix(salt, i);}
  return s;
}

// ---- reporting ----
static void set_msg(const char * m)
{
  size_t n = std::min(strlen(m), sizeof(S->msg) - 1);
  memcpy(S->msg, m, n); S->msg[n] = 0;
}
void fail(const char * fmt, ...)
{
  char buf[8192];
  va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
  set_msg(buf);
  S->state = FAILED;
#ifdef PBT_LIBFUZZER
  fprintf(stderr, "PBT-FAIL %s\n", buf);
  abort();
#endif
  _exit(77);
}
void say(const char * fmt, ...)
{
  if (!g_verbose) {return;}
  char buf[4096];
  va_list ap; va_start(ap, fmt); int n = vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
  if (n < 0) {return;}
  size_t k = std::min<size_t>(n, sizeof buf - 1);
  if (S->textlen + k + 2 < sizeof S->text) {
    memcpy(S->text + S->textlen, buf, k); S->textlen += k;
    S->text[S->textlen++] = '\n'; S->text[S->textlen] = 0;
  }
}
bool verbose() {return g_verbose;}
static void bump(Label * t, int n, const char * name)
{
  for (int i = 0; i < n; i++) {
    if (!t[i].name[0]) {strncpy(t[i].name, name, sizeof t[i].name - 1);}
    if (strncmp(t[i].name, name, sizeof t[i].name - 1) == 0) {t[i].n++; return;}
  }
}
void label(const char * name) {if (in_case) {bump(S->labels, NLABEL, name);}}
void nontrivial() {case_nontrivial = true;}
void discard() {S->discarded++;}
void known(const char * key) {bump(S->knowns, 32, key); say("  (listed finding %s)", key);}
bool is_known(const char * key) {return g_known.count(key) != 0;}
const std::string & scratch() {return g_scratch;}
unsigned worker_index() {return W;}
std::string quote(const void * p, size_t n)
{
  std::string o = "\""; const unsigned char * s = (const unsigned char *)p; char b[8];
  size_t i = 0;
  for (; i < n && o.size() < 600; i++) {
    if (s[i] == '"' || s[i] == '\\') {o += '\\'; o += (char)s[i];} else if (s[i] >= 32 && s[i] < 127) {
      o += (char)s[i];
    } else {snprintf(b, sizeof b, "\\x%02x", s[i]); o += b;}
  }
  o += '"';
  if (i < n) {snprintf(b, sizeof b, "..."); o += b; o += "(" + std::to_string(n) + " bytes)";}
  return o;
}
std::string hex(const void * p, size_t n)
{
  std::string o; char b[4]; const unsigned char * s = (const unsigned char *)p;
  for (size_t i = 0; i < n && i < 256; i++) {snprintf(b, sizeof b, "%02x", s[i]); o += b;}
  return o;
}

namespace
{
// ---- running ----
void death_cb() {if (S && S->state == RUNNING) {S->state = SANITIZER;}}
void asan_cb(const char * rep)
{
  if (S) {set_msg(rep); if (S->state == RUNNING) {S->state = SANITIZER;}}
}
uint64_t tick_idx = 0; unsigned tick_n = 0;
const unsigned HANG_CPU_S = 30;
__attribute__((no_sanitize("thread"))) void on_tick(int)      // runs in any thread, several at once
{
  uint64_t i = S->idx;
  if (i != tick_idx) {tick_idx = i; tick_n = 0; return;}
  if (S->state != RUNNING) {return;}
  if (++tick_n >= HANG_CPU_S) {
    set_msg("hang: the case did not terminate within 30 s of processor time");
    S->state = HANG; _exit(78);
  }
}
int report_fds[MAXW + 1];
void child_init_reports(unsigned w)
{
  report_fd = report_fds[w];
  int null = open("/dev/null", O_WRONLY);   // the library reports errors on stderr
  dup2(null, 1); dup2(null, 2); close(null);
  __sanitizer_set_report_fd((void *)(intptr_t)report_fd);
  __sanitizer_set_death_callback(death_cb);
  __asan_set_error_report_callback(asan_cb);
  struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = on_tick; sa.sa_flags = SA_RESTART;
  sigaction(SIGPROF, &sa, nullptr);
  struct itimerval it; it.it_interval.tv_sec = 1; it.it_interval.tv_usec = 0; it.it_value = it.it_interval;
  setitimer(ITIMER_PROF, &it, nullptr);
}
void run_one()
{
  S->nvals = 0; ppos = 0; case_nontrivial = false;
  S->state = RUNNING; in_case = true;
  property_case();
  in_case = false;
  S->state = DONE;
}
uint64_t hash_vals()
{
  uint64_t h = 0x1234567;
  for (uint32_t i = 0; i < S->nvals; i++) {h = mix(h, S->vals[i]);}
  return h;
}
void mutate(std::vector<uint64_t> & v)
{
  unsigned k = 1 + R.below(4);
  while (k--) {
    size_t n = v.size();
    if (!n) {return;}
    switch (R.below(10)) {
      case 0: v[R.below(n)] += 1; break;
      case 1: v[R.below(n)] -= 1; break;
      case 2: v[R.below(n)] = R.next() >> R.below(64); break;
      case 3: if (ndict) {v[R.below(n)] = dict[R.below(ndict)] + R.below(3) - 1;} break;
      case 4: v[R.below(n)] = R.below(6); break;
      case 5: {  // delete chunk
          size_t a = R.below(n), l = 1 + R.below(std::min<size_t>(n - a, 16));
          v.erase(v.begin() + a, v.begin() + a + l); break;
        }
      case 6: {  // duplicate chunk
          size_t a = R.below(n), l = 1 + R.below(std::min<size_t>(n - a, 16)), at = R.below(n + 1);
          std::vector<uint64_t> c(v.begin() + a, v.begin() + a + l);
          v.insert(v.begin() + at, c.begin(), c.end()); break;
        }
      case 7: v.resize(R.below(n) + 1); break;   // the rest is generated afresh
      case 8: {  // splice
          const auto & o = corpus[R.below(corpus.size())];
          if (o.empty()) {break;}
          size_t a = R.below(o.size()), at = R.below(n + 1);
          v.resize(at); v.insert(v.end(), o.begin() + a, o.end()); break;
        }
      default: {size_t a = R.below(n), b = R.below(n); std::swap(v[a], v[b]); break;}
    }
    if (v.size() > 20000) {v.resize(20000);}
  }
}
double now()
{
  struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9;
}
void worker(unsigned w, uint64_t seed, uint64_t ncases, uint64_t stop_after, double deadline)
{
  W = w; S = &slots[w];
  g_scratch = g_scratch_root + "/w" + std::to_string(w);
  mkdir(g_scratch.c_str(), 0755);
  child_init_reports(w);
  R.seed(mix(seed, 0xABCD00 + w));
  dictset.clear();
  virgin.assign(ncounters(), 0);
  S->edges_total = ncounters();
  mode = GEN;
  property_setup();
  uint64_t * H = hashes + (uint64_t)w * HCAP;
  for (uint64_t i = 0; i < ncases && i < stop_after; i++) {
    S->idx = i;
    prefix.clear();
    if (!corpus.empty() && R.p(1, 3)) {
      prefix = corpus[R.below(corpus.size())];
      mutate(prefix);
    }
    run_one();
    S->evals++;
    if (nregions && scan_cov()) {
      if (corpus.size() < 4000) {corpus.emplace_back(S->vals, S->vals + S->nvals);}
      S->corpus = corpus.size();
    }
    if (i == ncases / 4) {dict_frozen = true;}
    if (case_nontrivial) {
      S->nontriv++;
      if (S->nhash < HCAP) {H[S->nhash++] = hash_vals();}
      uint64_t q = S->nontriv;
      if (S->nsamples < NSAMPLE && S->nvals < SAMPLEV && S->nvals > 0 && (q == 1 || q == 7 || q == 50 || q == 311 || q == 2003 || q == 9001)) {
        auto & sm = S->samples[S->nsamples++];
        sm.n = S->nvals; memcpy(sm.v, S->vals, S->nvals * 8);
      }
    }
    if ((i & 63) == 0 && now() > deadline) {break;}
  }
  S->finished = 1;
}

int wait_child(pid_t p, Slot * s, double wall_limit)
{
  double t0 = now(); int st; uint64_t last = s->idx; double tl = t0;
  useconds_t nap = 50;
  for (;;) {
    pid_t r = waitpid(p, &st, WNOHANG);
    if (r == p) {return st;}
    double t = now();
    if (s->idx != last) {last = s->idx; tl = t;}
    if (t - tl > wall_limit) {
      snprintf(s->msg, sizeof s->msg, "hang: no progress for %.0f s", wall_limit);
      s->state = HANG; kill(p, SIGKILL); waitpid(p, &st, 0); return st;
    }
    usleep(nap); if (nap < 5000) {nap *= 2;}
  }
}
// runs one choice sequence in a fork; result in slots[MAXW]
State run_child(
  const std::vector<uint64_t> & v, bool verb, double wall = 150, const std::string * raw = nullptr, bool quick = false)
{
  Slot * s = &slots[MAXW];
  s->state = IDLE; s->msg[0] = 0; s->nvals = 0; s->textlen = 0; s->text[0] = 0; s->idx = 0;
  if (ftruncate(report_fds[MAXW], 0)) {}
  lseek(report_fds[MAXW], 0, SEEK_SET);
  pid_t p = fork();
  if (p == 0) {
    W = 90; S = s; g_verbose = verb; g_quick_death = quick;
    char d[64]; snprintf(d, sizeof d, "/r%d", (int)getpid());
    g_scratch = g_scratch_root + d; mkdir(g_scratch.c_str(), 0755);
    child_init_reports(MAXW);
    mode = REPLAY; prefix = v; R.seed(1);
    if (raw) {mode = FUZZBYTES; prefix.clear(); fz = (const uint8_t *)raw->data(); fzn = raw->size(); fzp = 0;}
    property_setup();
    run_one();
    _exit(0);
  }
  int st = wait_child(p, s, wall);
  uint32_t x = s->state;
  if (x == DONE && WIFEXITED(st) && WEXITSTATUS(st) == 0) {return DONE;}
  if (x == RUNNING || x == IDLE || x == DONE) {
    snprintf(s->msg, sizeof s->msg, "died: process ended inside the case (wait status 0x%x)", st);
    return DEAD;
  }
  return (State)x;
}
std::string report_text(unsigned w)
{
  std::string o; char b[4096]; ssize_t n; off_t off = 0;
  while ((n = pread(report_fds[w], b, sizeof b, off)) > 0 && o.size() < 12000) {o.append(b, n); off += n;}
  return o;
}
const char * kindname(State s)
{
  switch (s) {
    case FAILED: return "assertion";
    case SANITIZER: return "sanitizer";
    case HANG: return "hang";
    case DEAD: return "died";
    default: return "?";
  }
}
std::vector<uint64_t> shrink(std::vector<uint64_t> v, State kind, unsigned * execs)
{
  double t0 = now(); unsigned limit = kind == HANG ? 4 : 3000; double tmax = kind == HANG ? 150 : 20;
  *execs = 0;
  auto test = [&](const std::vector<uint64_t> & c) {
      if (*execs >= limit || now() - t0 > tmax) {return false;}
      ++*execs;
      return run_child(c, false, 150, nullptr, true) == kind;
    };
  // normalise: what was actually consumed
  {
    State s = run_child(v, false);
    if (s == kind) {
      std::vector<uint64_t> u(slots[MAXW].vals, slots[MAXW].vals + slots[MAXW].nvals);
      if (u.size() <= v.size()) {v = u;}
    }
  }
  bool progress = true;
  while (progress && *execs < limit && now() - t0 < tmax) {
    progress = false;
    for (size_t len = std::max<size_t>(1, v.size() / 2); len >= 1; len /= 2) {
      for (size_t a = 0; a + len <= v.size(); ) {
        std::vector<uint64_t> c(v.begin(), v.begin() + a);
        c.insert(c.end(), v.begin() + a + len, v.end());
        if (test(c)) {v = c; progress = true;} else {a += len;}
        if (*execs >= limit) {break;}
      }
      if (len == 1) {break;}
    }
    for (size_t i = 0; i < v.size() && *execs < limit; i++) {
      if (v[i] == 0) {continue;}
      auto c = v; c[i] = 0;
      if (test(c)) {v = c; progress = true; continue;}
      uint64_t lo = 0, hi = v[i];  // lo fails to reproduce, hi reproduces
      while (hi - lo > 1 && *execs < limit) {
        uint64_t m = lo + (hi - lo) / 2; c = v; c[i] = m;
        if (test(c)) {hi = m; progress = true; v = c;} else {lo = m;}
      }
      // a length: lower it and drop the values it governs
      for (size_t k = 1; k <= 4 && v[i] >= k; k++) {
        for (size_t j = i + 1; j + k <= v.size() && j < i + 40 && *execs < limit; j++) {
          c = v; c[i] -= k; c.erase(c.begin() + j, c.begin() + j + k);
          if (test(c)) {v = c; progress = true; break;}
        }
        if (i >= v.size()) {break;}
      }
    }
  }
  while (!v.empty() && v.back() == 0) {
    auto c = v; c.pop_back();
    ++*execs;
    if (run_child(c, false) == kind) {v = c;} else {break;}
  }
  return v;
}
void rmtree_at(int dfd, const char * name)
{
  int fd = openat(dfd, name, O_RDONLY | O_DIRECTORY | O_NOFOLLOW);
  if (fd >= 0) {
    DIR * d = fdopendir(fd);
    if (d) {
      fchmod(fd, 0700);
      while (struct dirent * e = readdir(d)) {
        if (!strcmp(e->d_name, ".") || !strcmp(e->d_name, "..")) {continue;}
        if (unlinkat(fd, e->d_name, 0) != 0) {rmtree_at(fd, e->d_name);}
      }
      closedir(d);
    }
  }
  unlinkat(dfd, name, AT_REMOVEDIR);
}
void cleanup_scratch()
{
  if (g_scratch_root.empty()) {return;}
  std::string base = g_scratch_root.substr(g_scratch_root.rfind('/') + 1);
  std::string dir = g_scratch_root.substr(0, g_scratch_root.rfind('/'));
  int d = open(dir.c_str(), O_RDONLY | O_DIRECTORY);
  if (d >= 0) {rmtree_at(d, base.c_str()); close(d);}
}
std::string jstr(const std::string & s)
{
  std::string o = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {o += '\\'; o += (char)c;} else if (c == '\n') {o += "\\n";} else if
    (c < 32 || c > 126) {char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b;} else {o += (char)c;}
  }
  return o + "\"";
}
bool read_case(const char * path, std::vector<uint64_t> * v)
{
  FILE * f = fopen(path, "r");
  if (!f) {return false;}
  char line[1 << 16]; bool ok = false; std::string all;
  while (fgets(line, sizeof line, f)) {
    all += line;
  }
  fclose(f);
  size_t p = 0;
  while (p < all.size()) {
    size_t e = all.find('\n', p);
    if (e == std::string::npos) {e = all.size();}
    std::string l = all.substr(p, e - p); p = e + 1;
    if (l.rfind("choices:", 0) == 0) {
      ok = true; const char * q = l.c_str() + 8; char * end;
      for (;;) {
        while (*q == ' ') {q++;}
        if (!*q) {break;}
        uint64_t x = strtoull(q, &end, 10);
        if (end == q) {break;}
        v->push_back(x); q = end;
      }
    }
  }
  return ok;
}
}  // namespace
bool engine_busy() {return in_hook;}
void forked() {if (report_fd >= 0) {__sanitizer_set_report_fd((void *)(intptr_t)report_fd);}}
}  // namespace pbt

using namespace pbt;  // NOLINT

extern "C" void __asan_on_error(void)
{
  if (g_quick_death && S) {S->state = SANITIZER; _exit(79);}
}

extern "C" {
#ifndef PBT_LIBFUZZER
void __sanitizer_cov_8bit_counters_init(uint8_t * a, uint8_t * b)
{
  if (a == b) {return;}
  for (int i = 0; i < nregions; i++) {if (regions[i].a == a) {return;}}
  if (nregions < 128) {regions[nregions].a = a; regions[nregions++].b = b;}
}
#endif
#if !defined(PBT_LIBFUZZER) && !defined(PBT_TSAN)
void __sanitizer_cov_trace_const_cmp1(uint8_t a, uint8_t) {add_dict(a);}
void __sanitizer_cov_trace_const_cmp2(uint16_t a, uint16_t) {add_dict(a);}
void __sanitizer_cov_trace_const_cmp4(uint32_t a, uint32_t) {add_dict(a);}
void __sanitizer_cov_trace_const_cmp8(uint64_t a, uint64_t) {add_dict(a);}
void __sanitizer_cov_trace_cmp1(uint8_t, uint8_t) {}
void __sanitizer_cov_trace_cmp2(uint16_t, uint16_t) {}
void __sanitizer_cov_trace_cmp4(uint32_t, uint32_t) {}
void __sanitizer_cov_trace_cmp8(uint64_t, uint64_t) {}
void __sanitizer_cov_trace_switch(uint64_t, uint64_t * c)
{
  for (uint64_t i = 0; i < c[0] && i < 64; i++) {add_dict(c[2 + i]);}
}
#endif
}

#ifdef PBT_LIBFUZZER
// One libFuzzer entry point: bytes are decoded into the same choice sequence.
static void fuzz_init()
{
  static bool done = false;
  if (done) {return;}
  done = true;
  slots = (Slot *)mmap(nullptr, sizeof(Slot), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  S = &slots[0];
  g_scratch = getenv("PBT_SCRATCH") ? getenv("PBT_SCRATCH") : "/tmp";
  if (const char * k = getenv("PBT_KNOWN")) {
    std::string s = k; size_t p = 0;
    while (p < s.size()) {size_t e = s.find(',', p); if (e == std::string::npos) {e = s.size();} g_known.insert(s.substr(p, e - p)); p = e + 1;}
  }
  mode = FUZZBYTES;
  property_setup();
}
extern "C" int LLVMFuzzerTestOneInput(const uint8_t * d, size_t n)
{
  fuzz_init();
  fz = d; fzn = n; fzp = 0; prefix.clear();
  run_one();
  return 0;
}
#else

int main(int argc, char ** argv)
{
  std::string tier = "quick", evidence, outdir = ".", replay_file; uint64_t seed = 1, cases = 0;
  unsigned nw = 8; double maxwall = 0; std::vector<std::string> regress; std::string level = "exploration";
  std::string extra; bool print = false, total_zero = false; std::vector<std::string> rawfiles;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i]; auto val = [&]() {return std::string(i + 1 < argc ? argv[++i] : "");};
    if (a == "--tier") {tier = val();} else if (a == "--seed") {seed = strtoull(val().c_str(), 0, 10);} else if
    (a == "--evidence") {evidence = val();} else if (a == "--out") {outdir = val();} else if
    (a == "--replay") {replay_file = val();} else if (a == "--cases") {cases = strtoull(val().c_str(), 0, 10);} else if
    (a == "--workers") {nw = atoi(val().c_str());} else if (a == "--max-wall") {maxwall = atof(val().c_str());} else if
    (a == "--regress") {regress.push_back(val());} else if (a == "--bytes") {rawfiles.push_back(val());} else if (a == "--known") {g_known.insert(val());} else if
    (a == "--level") {level = val();} else if (a == "--extra") {extra = val();} else if (a == "--print") {print = true;} else if (a == "--no-search") {total_zero = true;} else {
      fprintf(stderr, "unknown argument %s\n", a.c_str()); return 2;
    }
  }
  if (nw > MAXW) {nw = MAXW;}
  double t0 = now();
  size_t ssz = sizeof(Slot) * (MAXW + 1);
  slots = (Slot *)mmap(nullptr, ssz, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  hashes = (uint64_t *)mmap(nullptr, HCAP * 8 * MAXW, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  for (int i = 0; i <= MAXW; i++) {report_fds[i] = memfd_create("report", 0);}
  {
    char t[] = "/tmp/rcutils-verif-XXXXXX";
    if (!mkdtemp(t)) {perror("mkdtemp"); return 2;}
    g_scratch_root = t;
  }
  atexit(cleanup_scratch);
  fflush(stdout);

  if (!replay_file.empty()) {
    std::vector<uint64_t> v;
    if (!read_case(replay_file.c_str(), &v)) {fprintf(stderr, "cannot read %s\n", replay_file.c_str()); return 2;}
    State s = run_child(v, true);
    printf("%s\n", slots[MAXW].text);
    if (s == DONE) {printf("held\n"); for (auto & k : slots[MAXW].knowns) {if (k.n) {printf("HIT-KNOWN %s\n", k.name);}} return 0;}
    std::string rep = report_text(MAXW);
    printf("%s: %s\n%s\n", kindname(s), slots[MAXW].msg, rep.c_str());
    return 1;
  }

  std::vector<uint64_t> failing; State fkind = DONE; std::string fmsg; bool hist = false; unsigned hist_w = 0; uint64_t hist_i = 0;
  std::string from;
  // 1. saved inputs (regressions)
  unsigned nreg = 0;
  for (auto & r : regress) {
    std::vector<uint64_t> v;
    if (!read_case(r.c_str(), &v)) {continue;}
    nreg++;
    State s = run_child(v, false);
    if (s != DONE) {failing = v; fkind = s; fmsg = slots[MAXW].msg; from = "saved input " + r; break;}
  }
  for (auto & r : rawfiles) {  // inputs found by libFuzzer: decode into a choice sequence
    if (fkind != DONE) {break;}
    FILE * f = fopen(r.c_str(), "rb"); std::string data; char b[4096]; size_t n;
    if (!f) {continue;}
    while ((n = fread(b, 1, sizeof b, f)) > 0) {data.append(b, n);}
    fclose(f);
    nreg++;
    State s = run_child({}, false, 150, &data);
    std::vector<uint64_t> v(slots[MAXW].vals, slots[MAXW].vals + slots[MAXW].nvals);
    if (s != DONE) {failing = v; fkind = s; fmsg = slots[MAXW].msg; from = "libFuzzer input " + r;}
  }
  if (total_zero) {nw = 0;}
  uint64_t total = cases ? cases : (tier == "thorough" ? kBudget.thorough : kBudget.quick);
  if (maxwall <= 0) {maxwall = tier == "thorough" ? 3000 : 420;}
  double deadline = t0 + maxwall;
  uint64_t per = nw ? (total + nw - 1) / nw : 0;
  if (fkind == DONE) {
    std::vector<pid_t> pids(nw, 0);
    std::vector<uint64_t> lastidx(nw, 0); std::vector<double> lastt(nw, now());
    for (unsigned w = 0; w < nw; w++) {
      slots[w].state = IDLE;
      pid_t p = fork();
      if (p == 0) {worker(w, seed, per, UINT64_MAX, deadline); _exit(0);}
      pids[w] = p;
    }
    unsigned live = nw; int failed = -1;
    while (live) {
      int st; pid_t p = waitpid(-1, &st, WNOHANG);
      if (p > 0) {
        for (unsigned w = 0; w < nw; w++) {
          if (pids[w] != p) {continue;}
          pids[w] = 0; live--;
          uint32_t s = slots[w].state;
          if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0 && slots[w].finished)) {
            if (s != FAILED && s != SANITIZER && s != HANG) {
              slots[w].state = DEAD;
              snprintf(slots[w].msg, sizeof slots[w].msg, "died: process ended inside the case (wait status 0x%x)", st);
            }
            if (failed < 0) {
              failed = w;
              for (unsigned x = 0; x < nw; x++) {if (pids[x]) {kill(pids[x], SIGKILL);}}
            }
          }
        }
        continue;
      }
      double t = now();
      for (unsigned w = 0; w < nw; w++) {
        if (!pids[w]) {continue;}
        uint64_t i = slots[w].idx;
        if (i != lastidx[w]) {lastidx[w] = i; lastt[w] = t;} else if (t - lastt[w] > 150) {
          snprintf(slots[w].msg, sizeof slots[w].msg, "hang: no progress for 150 s");
          slots[w].state = HANG; kill(pids[w], SIGKILL);
        }
      }
      usleep(2000);
    }
    if (failed >= 0) {
      failing.assign(slots[failed].vals, slots[failed].vals + slots[failed].nvals);
      fkind = (State)(uint32_t)slots[failed].state; fmsg = slots[failed].msg;
      from = "worker " + std::to_string(failed) + " case " + std::to_string((uint64_t)slots[failed].idx);
      hist_w = failed; hist_i = slots[failed].idx;
      if (fkind == SANITIZER) {fmsg += report_text(failed);}
    }
  }
  // 2. failure handling
  int rc = 0; std::string replay_path; unsigned sx = 0; std::string trace;
  if (fkind != DONE) {
    unsigned rep = 0; State k = DONE;
    for (int i = 0; i < 3; i++) {State s = run_child(failing, false); if (s != DONE) {rep++; k = s;} if (fkind == HANG && rep) {break;}}
    if (rep == 0) {
      // not a function of this case alone: try the history of the worker that met it
      std::string m; unsigned hr = 0;
      if (from.rfind("worker", 0) == 0) {
        for (int i = 0; i < 3; i++) {
          memset(&slots[hist_w], 0, sizeof(Slot));
          pid_t p = fork();
          if (p == 0) {worker(hist_w, seed, per, hist_i + 1, now() + 600); _exit(0);}
          wait_child(p, &slots[hist_w], 150);
          uint32_t s = slots[hist_w].state;
          if (s != DONE && !slots[hist_w].finished) {hr++;}
        }
      }
      if (hr == 3) {hist = true; rc = 1;} else {
        // nondeterministic (threads): keep trying the single case
        for (int i = 0; i < 200 && rep < 3; i++) {State s = run_child(failing, false); if (s != DONE) {rep++; k = s;}}
        if (rep + hr >= 1) {rc = 1; if (!rep) {hist = true;}} else {
          rc = 2;
        }
      }
    } else {rc = 1;}
    if (rc == 2) {
      printf("NOTE: %s met a failure once (%s: %s) that no replay reproduces; treated as inconclusive\n",
        from.c_str(), kindname(fkind), fmsg.c_str());
      rc = 0;
    } else {
      if (!hist && rep >= 1) {
        if (k != DONE) {fkind = k;}
        if (rep >= 3 || fkind == HANG) {failing = shrink(failing, fkind, &sx);}
        unsigned ok = 0;
        for (int i = 0; i < 3; i++) {
          State s = run_child(failing, true);
          if (s != DONE) {ok++; fmsg = slots[MAXW].msg; trace = slots[MAXW].text; if (s == SANITIZER) {fmsg = report_text(MAXW);}}
          if (fkind == HANG) {break;}
        }
        (void)ok;
      }
      uint64_t h = 7;
      for (uint64_t x : failing) {h = mix(h, x);}
      char nm[64]; snprintf(nm, sizeof nm, "%s-%012llx.case", kPropertyId, (unsigned long long)(h & 0xffffffffffffull));
      replay_path = outdir + "/" + nm;
      FILE * f = fopen(replay_path.c_str(), "w");
      if (f) {
        fprintf(f, "property: %s\nfound-by: %s, tier %s, seed %llu\nkind: %s\nshrink-executions: %u\n",
          kPropertyId, from.c_str(), tier.c_str(), (unsigned long long)seed, kindname(fkind), sx);
        if (hist) {
          fprintf(f, "history: needs the process history; rerun with --seed %llu --workers %u (worker %u, case %llu)\n",
            (unsigned long long)seed, nw, hist_w, (unsigned long long)hist_i);
        }
        fprintf(f, "choices:");
        for (uint64_t x : failing) {fprintf(f, " %llu", (unsigned long long)x);}
        fprintf(f, "\nmessage:\n%s\ntrace:\n%s\n", fmsg.c_str(), trace.c_str());
        fclose(f);
      }
      std::string first = fmsg.substr(0, 1500);
      printf("%s\n%s\n", trace.substr(0, 6000).c_str(), first.c_str());
      printf("VIOLATION property=%s replay=%s\n", kPropertyId, replay_path.c_str());
    }
  }
  // 3. evidence
  uint64_t ev = nreg, nt = 0, disc = 0, edges = 0, et = 0, corp = 0; std::map<std::string, uint64_t> labs, kn; bool capped = false;
  std::vector<uint64_t> all; bool allfin = true;
  for (unsigned w = 0; w < nw; w++) {
    Slot & s = slots[w];
    ev += s.evals; nt += s.nontriv; disc += s.discarded; edges = std::max(edges, s.edges); et = s.edges_total; corp += s.corpus;
    if (s.evals < per) {allfin = false;}
    for (auto & l : s.labels) {if (l.name[0]) {labs[l.name] += l.n;}}
    for (auto & l : s.knowns) {if (l.name[0]) {kn[l.name] += l.n;}}
    if (s.nhash >= HCAP) {capped = true;}
    all.insert(all.end(), hashes + (uint64_t)w * HCAP, hashes + (uint64_t)w * HCAP + s.nhash);
  }
  std::sort(all.begin(), all.end());
  uint64_t distinct = std::unique(all.begin(), all.end()) - all.begin();
  std::vector<std::string> samples;
  if (rc == 0) {
    std::vector<std::vector<uint64_t>> sv;
    for (unsigned k = 0; k < NSAMPLE; k++) {
      if (!nw) {break;}
      unsigned w = k % nw;
      if (k < slots[w].nsamples) {auto & m = slots[w].samples[k]; sv.emplace_back(m.v, m.v + m.n);}
    }
    for (auto & v : sv) {
      run_child(v, true);
      samples.push_back(std::string(slots[MAXW].text).substr(0, 1800));
    }
  } else if (!trace.empty()) {samples.push_back(trace.substr(0, 4000));}
  double wall = now() - t0;
  if (!evidence.empty()) {
    FILE * f = fopen(evidence.c_str(), "w");
    if (!f) {perror("evidence"); return 2;}
    fprintf(f, "{\"property\": %s, \"tier\": %s, \"seed\": %llu, \"level\": %s,\n \"coverage\": {\n", jstr(kPropertyId).c_str(), jstr(tier).c_str(), (unsigned long long)seed, jstr(level).c_str());
    fprintf(f, "  \"evaluations\": %llu, \"distinct_nontrivial\": %llu, \"nontrivial\": %llu, \"discarded\": %llu,\n", (unsigned long long)ev, (unsigned long long)distinct, (unsigned long long)nt, (unsigned long long)disc);
    fprintf(f, "  \"rule\": %s,\n", jstr(kRule).c_str());
    fprintf(f, "  \"distinct_is_lower_bound\": %s, \"whole_budget_run\": %s, \"saved_inputs_replayed\": %u,\n", capped ? "true" : "false", allfin ? "true" : "false", nreg);
    fprintf(f, "  \"code_edges_covered\": %llu, \"code_edges_total\": %llu, \"coverage_corpus\": %llu,\n", (unsigned long long)edges, (unsigned long long)et, (unsigned long long)corp);
    fprintf(f, "  \"classes\": {");
    bool first = true;
    for (auto & l : labs) {fprintf(f, "%s%s: %llu", first ? "" : ", ", jstr(l.first).c_str(), (unsigned long long)l.second); first = false;}
    fprintf(f, "},\n  \"known_finding_hits\": {"); first = true;
    for (auto & l : kn) {fprintf(f, "%s%s: %llu", first ? "" : ", ", jstr(l.first).c_str(), (unsigned long long)l.second); first = false;}
    fprintf(f, "},\n  \"samples\": ["); first = true;
    for (auto & s : samples) {fprintf(f, "%s%s", first ? "" : ",\n    ", jstr(s).c_str()); first = false;}
    if (samples.empty()) {fprintf(f, "%s", jstr("(none recorded)").c_str());}
    fprintf(f, "]\n },\n%s \"violations\": %d, \"wall_s\": %.2f}\n", extra.empty() ? "" : (" " + extra + ",\n").c_str(), rc, wall);
    fclose(f);
  }
  printf("%s: %s, %llu cases (%llu non-trivial, %llu distinct), %llu/%llu edges, %.1f s%s\n", kPropertyId, rc ? "VIOLATED" : "held",
    (unsigned long long)ev, (unsigned long long)nt, (unsigned long long)distinct, (unsigned long long)edges, (unsigned long long)et, wall, allfin ? "" : " (budget not exhausted)");
  if (print) {
    for (auto & l : labs) {printf("  %-40s %llu\n", l.first.c_str(), (unsigned long long)l.second);}
    for (auto & s : samples) {printf("---- sample\n%s", s.c_str());}
  }
  return rc;
}
#endif
#if !defined(PBT_LIBFUZZER) && !defined(PBT_TSAN)
static void add_sdict(const char * s, size_t max)
{
  if (!in_case || dict_frozen || mode != GEN || in_hook || sdict.size() >= 96) {return;}
  size_t n = strnlen(s, std::min<size_t>(max, 40));
  if (n == 0 || n >= 40) {return;}
  in_hook = true;
  std::string t(s, n); bool have = false;
  for (auto & x : sdict) {if (x == t) {have = true;}}
  if (!have) {sdict.push_back(t);}
  in_hook = false;
}
extern "C" {
// Only operands in read-only data of this program are constants of the code under test; heap and
// stack operands are things the generator made itself.
extern const char __executable_start; extern const char edata; extern const char __etext;
static bool is_const(const char * s) {return s >= &__executable_start && s < &edata;}
void __sanitizer_weak_hook_strcmp(void *, const char * a, const char * b, int) {if (is_const(a)) {add_sdict(a, 64);} if (is_const(b)) {add_sdict(b, 64);}}
void __sanitizer_weak_hook_strncmp(void *, const char * a, const char * b, size_t n, int) {if (is_const(a)) {add_sdict(a, n);} if (is_const(b)) {add_sdict(b, n);}}
void __sanitizer_weak_hook_strcasecmp(void *, const char * a, const char * b, int) {if (is_const(a)) {add_sdict(a, 64);} if (is_const(b)) {add_sdict(b, 64);}}
void __sanitizer_weak_hook_strncasecmp(void *, const char * a, const char * b, size_t n, int) {if (is_const(a)) {add_sdict(a, n);} if (is_const(b)) {add_sdict(b, n);}}
void __sanitizer_weak_hook_strstr(void *, const char *, const char * b, char *) {if (is_const(b)) {add_sdict(b, 64);}}
}
#endif
