#include "rc.h"
#include <locale.h>
#include <cstdio>
#include <sanitizer/asan_interface.h>
#ifdef PBT_TSAN
#undef __asan_poison_memory_region
#define __asan_poison_memory_region(p, n) ((void)(p))
#endif
extern "C" int __sanitizer_install_malloc_and_free_hooks(
  void (*)(const volatile void *, size_t), void (*)(const volatile void *));
namespace rc
{
thread_local bool g_in_lib = false;
thread_local unsigned g_foreign_mallocs = 0;

namespace
{
struct Out {bool s; Out() {s = g_in_lib; g_in_lib = false;} ~Out() {g_in_lib = s;}};
TrackAlloc * self(void * state, const char * what)
{
  TrackAlloc * t = (TrackAlloc *)state;
  if (!t || t->magic != TrackAlloc::MAGIC) {
    fail("allocator: %s called with a state pointer that is not the allocator's state", what);
  }
  if (t->closed) {fail("allocator: %s called although no allocator call is allowed here", what);}
  return t;
}
// a non-null block of no usable bytes: any access is reported
void * malloc0()
{
  void * p = malloc(1);
  __asan_poison_memory_region(p, 1);
  return p;
}
void * a_alloc(size_t size, void * state)
{
  Out o; TrackAlloc * t = self(state, "allocate");
  if (t->should_fail(size)) {return nullptr;}
  if (!size && t->zero_null) {return nullptr;}
  void * p = size ? malloc(size) : malloc0();
  memset(p, t->fill, size);
  t->live[p] = size; t->n_ok++;
  return p;
}
void a_free(void * p, void * state)
{
  Out o; TrackAlloc * t = self(state, "deallocate");
  if (!p) {return;}
  auto it = t->live.find(p);
  if (it == t->live.end()) {
    fail("allocator: deallocate of a pointer this allocator did not hand out (or freed before)");
  }
  memset(p, 0xDD, it->second);
  t->live.erase(it); t->n_free++;
  free(p);
}
void * a_calloc(size_t n, size_t s, void * state)
{
  Out o; TrackAlloc * t = self(state, "zero_allocate");
  size_t total;
  if (__builtin_mul_overflow(n, s, &total)) {total = SIZE_MAX;}
  if (t->should_fail(total)) {return nullptr;}
  if (!total && t->zero_null) {return nullptr;}
  void * p = total ? calloc(1, total) : malloc0();
  t->live[p] = total; t->n_ok++;
  return p;
}
void * a_realloc(void * old, size_t size, void * state)
{
  Out o; TrackAlloc * t = self(state, "reallocate");
  std::unordered_map<void *, size_t>::iterator it;
  if (old) {
    it = t->live.find(old);
    if (it == t->live.end()) {
      fail("allocator: reallocate of a pointer this allocator did not hand out (or freed before)");
    }
  }
  if (t->should_fail(size)) {return nullptr;}
  if (!size && t->zero_null) {
    if (old) {memset(old, 0xDD, it->second); t->live.erase(it); t->n_free++; free(old);}
    return nullptr;
  }
  void * p = size ? malloc(size) : malloc0();   // always moves
  memset(p, t->fill, size);
  if (old) {
    size_t os = it->second;
    memcpy(p, old, os < size ? os : size);
    memset(old, 0xDD, os);
    t->live.erase(it);
    free(old);
  }
  t->live[p] = size; t->n_ok++;
  return p;
}
}  // namespace

Vast::Vast(size_t n_, int fill, bool own)
: n(n_)
{
  span = (n + CHUNK - 1) / CHUNK * CHUNK;
  if (!span) {span = CHUNK;}
  int fd = memfd_create("vast", 0);
  if (fd < 0 || ftruncate(fd, CHUNK)) {fail("cannot make a memory file");}
  void * one = mmap(nullptr, CHUNK, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
  if (one == MAP_FAILED) {fail("cannot map a memory file");}
  memset(one, fill, CHUNK); munmap(one, CHUNK);
  p = (char *)mmap(nullptr, span, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (p == (char *)MAP_FAILED) {fail("cannot reserve %zu bytes of address space", span);}
  for (size_t o = 0; o < span; o += CHUNK) {
    if (mmap(p + o, CHUNK, PROT_READ | PROT_WRITE, MAP_FIXED | (own ? MAP_PRIVATE : MAP_SHARED), fd, 0) == MAP_FAILED) {
      fail("cannot map a memory file");
    }
  }
  close(fd);
}
Vast::~Vast() {munmap(p, span);}
static void * va_allocate(size_t n, void * s)
{
  VastAlloc * a = (VastAlloc *)s; a->last_request = n;
  if (n > (64u << 20)) {Vast * v = new Vast(n, 0x5a, false); a->large[v->p] = v; return v->p;}
  void * p = malloc(n ? n : 1); a->small[p] = n; return p;
}
static void va_deallocate(void * p, void * s)
{
  VastAlloc * a = (VastAlloc *)s;
  if (!p) {return;}
  auto i = a->large.find(p);
  if (i != a->large.end()) {delete i->second; a->large.erase(i); return;}
  if (!a->small.erase(p)) {fail("a pointer was given to an allocator it is not from");}
  free(p);
}
static void * va_reallocate(void * p, size_t n, void * s)
{
  VastAlloc * a = (VastAlloc *)s;
  void * q = va_allocate(n, s); size_t had = p ? a->size_of(p) : 0;
  memcpy(q, p ? p : q, std::min(std::min(had, n), (size_t)Vast::CHUNK));
  va_deallocate(p, s);
  return q;
}
static void * va_zero_allocate(size_t n, size_t each, void * s)
{
  void * p = va_allocate(n * each, s);
  memset(p, 0, std::min(n * each, (size_t)Vast::CHUNK));
  return p;
}
rcutils_allocator_t VastAlloc::get()
{
  rcutils_allocator_t a = rcutils_get_zero_initialized_allocator();
  a.allocate = va_allocate; a.deallocate = va_deallocate; a.reallocate = va_reallocate; a.zero_allocate = va_zero_allocate; a.state = this;
  return a;
}
size_t VastAlloc::size_of(const void * p) const
{
  auto i = large.find((void *)p); if (i != large.end()) {return i->second->n;}
  auto j = small.find((void *)p); return j == small.end() ? SIZE_MAX : j->second;
}
bool TrackAlloc::should_fail(size_t size)
{
  uint64_t k = n_calls++ - armed_base;
  if (size > max_request) {max_request = size;}
  if (size > limit) {n_failed++; return true;}
  if (!size) {return false;}   // a failed empty request cannot be told from a satisfied one
  if (fail_at >= 0 && (k == (uint64_t)fail_at || (fail_after && k > (uint64_t)fail_at))) {
    n_failed++; return true;
  }
  return false;
}
rcutils_allocator_t TrackAlloc::get()
{
  rcutils_allocator_t a;
  a.allocate = a_alloc; a.deallocate = a_free; a.reallocate = a_realloc; a.zero_allocate = a_calloc;
  a.state = this;
  return a;
}
TrackAlloc::~TrackAlloc()
{
  for (auto & p : live) {free(p.first);}
  magic = 0;
}
const char * ret_name(int r)
{
  switch (r) {
    case RCUTILS_RET_OK: return "OK";
    case RCUTILS_RET_WARN: return "WARN";
    case RCUTILS_RET_ERROR: return "ERROR";
    case RCUTILS_RET_BAD_ALLOC: return "BAD_ALLOC";
    case RCUTILS_RET_INVALID_ARGUMENT: return "INVALID_ARGUMENT";
    case RCUTILS_RET_NOT_ENOUGH_SPACE: return "NOT_ENOUGH_SPACE";
    case RCUTILS_RET_NOT_INITIALIZED: return "NOT_INITIALIZED";
    case RCUTILS_RET_NOT_FOUND: return "NOT_FOUND";
    case RCUTILS_RET_STRING_MAP_ALREADY_INIT: return "STRING_MAP_ALREADY_INIT";
    case RCUTILS_RET_STRING_MAP_INVALID: return "STRING_MAP_INVALID";
    case RCUTILS_RET_STRING_KEY_NOT_FOUND: return "STRING_KEY_NOT_FOUND";
    case RCUTILS_RET_LOGGING_SEVERITY_MAP_INVALID: return "LOGGING_SEVERITY_MAP_INVALID";
    case RCUTILS_RET_LOGGING_SEVERITY_STRING_INVALID: return "LOGGING_SEVERITY_STRING_INVALID";
    case RCUTILS_RET_HASH_MAP_NO_MORE_ENTRIES: return "HASH_MAP_NO_MORE_ENTRIES";
    default: return "?";
  }
}
void FdCapture::start()
{
  fflush(stdout); fflush(stderr);
  if (ftruncate(mem, 0)) {}
  lseek(mem, 0, SEEK_SET);
  dup2(mem, fd);
}
std::string FdCapture::stop()
{
  fflush(stdout); fflush(stderr);
  dup2(saved, fd);
  std::string o; char b[8192]; ssize_t n; off_t off = 0;
  while ((n = pread(mem, b, sizeof b, off)) > 0) {o.append(b, n); off += n;}
  return o;
}

GenFormat::GenFormat(size_t max_text, const std::string * text)
{
  using namespace pbt;
  i = (int)draw_s(INT_MIN, INT_MAX); l = draw_s(INT64_MIN, INT64_MAX);
  d = (double)draw_s(-1000000000, 1000000000) / 1024.0;
  s = text ? *text : chance(1, 3) ? cstr(max_text) : printable(max_text);
  auto literal = [&]() {
      std::string t = chance(1, 12) ? cstr(300) : chance(1, 2) ? printable(12) : std::string();
      for (char c : t) {f += c; if (c == '%') {f += '%';} }
      if (chance(1, 10)) {f += "%%";}
    };
  bool positional = chance(1, 5);
  size_t n = positional ? draw_small(1, 5) : draw_small(0, 4);
  literal();
  for (size_t k = 0; k < n; k++) {
    size_t a = positional ? (size_t)draw_plain(0, 3) : k;
    if (text && n == 1) {a = 1; positional = true;}
    f += '%';
    if (positional) {f += std::to_string(a + 1) + "$";}
    if (chance(1, 4)) {f += "-0+ "[draw_plain(0, 3)];}
    if (chance(1, 4)) {f += std::to_string(1 + draw_small(0, chance(1, 40) ? 3000 : 30));}
    if (chance(1, 4)) {f += "." + std::to_string(draw_small(0, 30));}
    switch (a) {
      case 0: f += "dixXuo"[draw_plain(0, 5)]; break;
      case 1: f += 's'; break;
      case 2: f += "fegE"[draw_plain(0, 3)]; break;
      default: f += "ll"; f += "dixu"[draw_plain(0, 3)]; break;
    }
    literal();
  }
  if (positional) {          // every argument up to the last one used must be mentioned
    f += "%1$d%2$.1s%3$.1f%4$lld"; literal();
  }
  std::string buf(256, 0);
  for (;;) {
    int k = snprintf(&buf[0], buf.size(), f.c_str(), i, s.c_str(), d, l);
    if (k < 0) {f = "%d"; continue;}
    if ((size_t)k < buf.size()) {want.assign(buf, 0, (size_t)k); break;}
    buf.resize((size_t)k + 1);
  }
}
static locale_t g_foreign = (locale_t)0;
bool foreign_locale_ready()
{
  static int state = -1;
  if (state < 0) {
    std::string d = pbt::scratch() + "/locale", name = "tr_TR.ISO-8859-9";
    mkdir(d.c_str(), 0700);
    std::string cmd = "localedef -i tr_TR -f ISO-8859-9 '" + d + "/" + name + "' >/dev/null 2>&1";
    int r = system(cmd.c_str()); (void)r;
    const char * old = getenv("LOCPATH"); std::string keep = old ? old : "";
    setenv("LOCPATH", d.c_str(), 1);
    g_foreign = newlocale(LC_ALL_MASK, name.c_str(), (locale_t)0);
    if (old) {setenv("LOCPATH", keep.c_str(), 1);} else {unsetenv("LOCPATH");}
    state = g_foreign != (locale_t)0;
  }
  return state == 1;
}
ForeignLocale::ForeignLocale(bool want)
: on(want && foreign_locale_ready())
{
  uselocale(on ? g_foreign : LC_GLOBAL_LOCALE);
  if (on) {pbt::label("under a Turkish 8-bit locale");}
}
ForeignLocale::~ForeignLocale() {if (on) {uselocale(LC_GLOBAL_LOCALE);}}

}  // namespace rc
