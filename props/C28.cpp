// BUILD wrap: dlclose
#include "fs.h"
#include <dlfcn.h>
#include "rcutils/shared_library.h"
using namespace pbt;
namespace pbt
{
const char * const kPropertyId = "C28";
const char * const kRule =
  "a case is a generated history of load, unload, symbol and state calls on four library handles over copies of two small shared "
  "libraries under generated file names (also relative, missing, no library, already loaded, failing allocations, left-over loader "
  "errors), against a model of which file every handle stands for and which symbols it has, and platform names into buffers around "
  "the needed size; non-trivial: one file loaded through two handles at once, or a load that fails";
const Budget kBudget = {60000, 800000, 15000};
static int home = -1;
static std::string image[2];
static std::string slurp(const std::string & p)
{
  std::string o; char b[65536]; int f = open(p.c_str(), O_RDONLY); ssize_t n;
  CHECK(f >= 0, "cannot read %s", p.c_str());
  while ((n = read(f, b, sizeof b)) > 0) {o.append(b, (size_t)n);}
  close(f); return o;
}
static const size_t kLong[] = {63, 64, 255, 256, 1000, 4096};
void property_setup()
{
  home = open(".", O_RDONLY | O_DIRECTORY);
  for (int i = 0; i < 2; i++) {
    std::string c = scratch() + "/l.c", so = scratch() + "/l.so";
    FILE * f = fopen(c.c_str(), "w");
    fprintf(f, "int common(void) {return %d;} int only%d(void) {return %d;} int data_symbol = %d; static int hidden_one; int * use(void) {return &hidden_one;}\n"
      "__asm__(\".globl zero_symbol\\n.set zero_symbol, 0\\n\");\n", 10 + i, i, 20 + i, 30 + i);
    for (size_t n : kLong) {fprintf(f, "int %s(void) {return %d;}\n", std::string(n, 'L').c_str(), (int)n + i);}
    fclose(f);
    if (system(("clang -shared -fPIC -nostdlib -O1 -o '" + so + "' '" + c + "'").c_str())) {fprintf(stderr, "cannot build a shared library\n"); _exit(2);}
    image[i] = slurp(so);
    unlink(c.c_str()); unlink(so.c_str());
  }
}
struct H {rcutils_shared_library_t lib; bool loaded = false; std::string path; int kind = 0; rc::TrackAlloc * ta = nullptr; void * ptr = nullptr;};
// the loader gives the library back but says it could not
static bool fail_dlclose;
extern "C" int __real_dlclose(void *);
extern "C" int __wrap_dlclose(void * h)
{
  int r = __real_dlclose(h);
  if (fail_dlclose) {dlsym(RTLD_DEFAULT, "a message for dlerror"); return 1;}
  return r;
}
static void name_case()
{
  std::string n; 
  switch (weighted({4, 2, 1})) {case 0: n = str_of("ab%sd.", 0, 8); break; case 1: n = cstr(30); break; default: n = std::string(draw_edge(0, 3000), 'n');}
  n = stretch(n, 300, 140000);
  bool debug = chance(1, 2);
  std::string want = "lib" + n + (debug ? "d" : "") + ".so";
  size_t cap = chance(1, 4) ? draw_edge(0, 4000 + n.size()) : want.size() + draw_plain(0, 4) - 2;
  rc::Exact en(n), buf(std::string(cap, '\x44'), false);
  say("platform name of %s%s into %zu", quote(n).c_str(), debug ? " (debug)" : "", cap);
  rcutils_ret_t r = rcutils_get_platform_library_name(en, buf, (unsigned)cap, debug);
  if (cap > want.size()) {
    CHECK_EQ(r, RCUTILS_RET_OK, "platform name");
    CHECK(want == buf.p, "platform name is %s, expected %s", quote(buf.p, strnlen(buf.p, cap)).c_str(), quote(want).c_str());
  } else {
    CHECK(r == RCUTILS_RET_ERROR && rc::error_is_set(), "a platform name of %zu bytes into %zu gave %s", want.size(), cap, rc::ret_name(r));
    rc::clear_error(); label("name does not fit");
  }
  CHECK_EQ(rcutils_get_platform_library_name(nullptr, buf, (unsigned)cap, debug), RCUTILS_RET_INVALID_ARGUMENT, "platform name of NULL"); rc::clear_error();
  CHECK_EQ(rcutils_get_platform_library_name(en, nullptr, 100, debug), RCUTILS_RET_INVALID_ARGUMENT, "platform name into NULL"); rc::clear_error();
}
void property_case()
{
  rc::clear_error();
  if (chance(1, 4)) {name_case(); return;}
  int d = fs::fresh("lib"); std::string base = scratch() + "/lib";
  CHECK(fchdir(d) == 0, "fchdir failed");
  std::vector<std::pair<std::string, int>> files;      // name, kind (0/1 library, 2 no library)
  size_t nf = draw_plain(1, 3);
  for (size_t i = 0; i < nf; i++) {
    std::string n = fs::name_gen(chance(1, 20)); for (auto & c : n) {if (c == '$' || (unsigned char)c < 32) {c = '_';}}
    n += std::to_string(i);
    int k = (int)weighted({4, 4, 1});
    int f = openat(d, n.c_str(), O_CREAT | O_EXCL | O_RDWR, 0755);
    CHECK(f >= 0, "cannot create a file");
    const std::string & b = k == 2 ? std::string("no library") : image[k];
    CHECK(write(f, b.data(), b.size()) == (ssize_t)b.size(), "cannot write a file"); close(f);
    files.push_back({n, k});
  }
  rc::TrackAlloc tas[2];
  H h[4];
  for (auto & x : h) {x.lib = rcutils_get_zero_initialized_shared_library(); CHECK(!x.lib.lib_pointer && !x.lib.library_path, "not zero-initialized");}
  auto users = [&](const std::string & file) {int n = 0; for (auto & x : h) {if (x.loaded && x.path.substr(x.path.rfind('/') + 1) == file) {n++;}} return n;};
  auto mapped = [&](const std::string & file) {
      void * p = dlopen((base + "/" + file).c_str(), RTLD_NOLOAD | RTLD_LAZY);
      if (p) {dlclose(p);} else {dlerror();}
      return p != nullptr;
    };
  static const std::vector<std::string> syms{"common", "only0", "only1", "data_symbol", "zero_symbol", "hidden_one", "nothing", "", "common ", "use",
    "printf", "rcutils_has_symbol", "dlopen"};   // only other libraries have these
  while (more(10)) {
    H & x = h[draw_plain(0, 3)];
    if (chance(1, 10)) {dlsym(RTLD_DEFAULT, "no such symbol anywhere"); label("left-over loader error");}
    switch (weighted({6, 3, 6, 1, 1})) {
      case 0: {
          auto & f = pick(files); bool missing = chance(1, 8);
          std::string p = (chance(1, 3) ? "./" : base + "/") + (missing ? "missing" : f.first);
          rc::TrackAlloc & ta = tas[draw_plain(0, 1)];
          rc::Exact ep(p);
          rcutils_shared_library_t before = x.lib;
          if (chance(1, 12)) {
            bool nl = chance(1, 2), inv = !nl && chance(1, 2);
            rcutils_allocator_t a = ta.get(); if (inv) {a.allocate = nullptr;}
            rcutils_ret_t r = nl ? rcutils_load_shared_library(nullptr, ep, a) : rcutils_load_shared_library(&x.lib, inv ? (char *)ep : nullptr, a);
            CHECK(r == RCUTILS_RET_INVALID_ARGUMENT, "an invalid load gave %s", rc::ret_name(r));
            CHECK(!memcmp(&before, &x.lib, sizeof before), "a refused load changed the handle");
            rc::clear_error();
            break;
          }
          if (chance(1, 6)) {ta.arm((int64_t)draw_plain(0, 1), false);}
          rcutils_ret_t r = rcutils_load_shared_library(&x.lib, ep, ta.get());
          bool failed = ta.n_failed != 0; ta.disarm();
          int want = x.loaded ? RCUTILS_RET_INVALID_ARGUMENT : missing || f.second == 2 ? RCUTILS_RET_ERROR : failed ? RCUTILS_RET_BAD_ALLOC : RCUTILS_RET_OK;
          say("load %s into %d: %s", quote(p).c_str(), (int)(&x - h), rc::ret_name(r));
          CHECK(r == want, "loading %s gave %s, expected %s", quote(p).c_str(), rc::ret_name(r), rc::ret_name(want));
          CHECK(rc::error_is_set() == (r != RCUTILS_RET_OK), "loading gave %s with%s an error message", rc::ret_name(r), rc::error_is_set() ? "" : "out");
          rc::clear_error();
          if (r == RCUTILS_RET_OK) {
            for (auto & y : h) {   // the loader keeps the name under which it came in
              if (y.loaded && y.path.substr(y.path.rfind('/') + 1) == f.first) {p = y.path;}
            }
            x.loaded = true; x.path = p; x.kind = f.second; x.ta = &ta; x.ptr = x.lib.lib_pointer;
            CHECK(x.lib.lib_pointer && x.lib.library_path && p == x.lib.library_path, "the path of a loaded library is %s, expected %s", x.lib.library_path, quote(p).c_str());
            CHECK(ta.owns(x.lib.library_path), "the library path is no block of the allocator");
            if (users(f.first) > 1) {nontrivial();}
          } else {
            nontrivial();
            if (x.loaded) {CHECK(!memcmp(&before, &x.lib, sizeof before), "a refused load changed the handle");}
            else {CHECK(!x.lib.lib_pointer && !x.lib.library_path, "a failed load left a library in the handle");}
            if (!missing && f.second != 2 && !x.loaded) {CHECK(mapped(f.first) == (users(f.first) > 0), "after a failed load the library is %smapped", mapped(f.first) ? "" : "un");}
          }
          break;
        }
      case 1: {
          fail_dlclose = x.loaded && chance(1, 8); bool failing = fail_dlclose;
          rcutils_ret_t r = rcutils_unload_shared_library(&x.lib);
          fail_dlclose = false;
          say("unload %d%s: %s", (int)(&x - h), failing ? " with a failing loader" : "", rc::ret_name(r));
          CHECK_EQ(r, failing ? RCUTILS_RET_ERROR : x.loaded ? RCUTILS_RET_OK : RCUTILS_RET_INVALID_ARGUMENT, "unload");
          CHECK(rc::error_is_set() == (failing || !x.loaded), "wrong error message state after unload");
          if (failing) {label("the loader fails to unload");}
          rc::clear_error();
          if (x.loaded) {
            x.loaded = false;
            CHECK(!x.lib.lib_pointer && !x.lib.library_path, "an unloaded handle still holds something");
            std::string file = x.path.substr(x.path.rfind('/') + 1);
            CHECK(mapped(file) == (users(file) > 0), "%d handles stand for the library, but it is %smapped", users(file), mapped(file) ? "" : "un");
          }
          break;
        }
      case 2: {
          std::string s = pick(syms); size_t ln = 0;
          if (chance(1, 10)) {       // names as long as C++ makes them, or nearly such a name
            s = std::string(kLong[draw_plain(0, 5)], 'L'); ln = s.size();
            if (chance(1, 3)) {s[draw_plain(0, ln - 1)] = 'l'; ln = 0;} else if (chance(1, 3)) {s += chance(1, 2) ? "M" : "\xc3\xa9"; ln = 0;}
          } else {s = stretch(s, 400, 20000);}
          rc::Exact es(s);
          bool has = x.loaded && (s == "common" || s == (x.kind ? "only1" : "only0") || s == "data_symbol" || s == "use" || ln);
          say("symbol %s of %d", quote(s).c_str(), (int)(&x - h));
          if (chance(1, 2)) {
            CHECK(rcutils_has_symbol(&x.lib, es) == has, "has_symbol(%s) is %d, expected %d", quote(s).c_str(), !has, has);
            CHECK(!rc::error_is_set(), "has_symbol set an error message");
            CHECK(!rcutils_has_symbol(&x.lib, nullptr) && !rcutils_has_symbol(nullptr, es), "NULL has a symbol");
          } else {
            void * p = rcutils_get_symbol(&x.lib, es);
            CHECK((p != nullptr) == has, "get_symbol(%s) gave %p, expected %s", quote(s).c_str(), p, has ? "a symbol" : "NULL");
            CHECK(rc::error_is_set() == !has, "wrong error message state after get_symbol");
            rc::clear_error();
            if (has && ln) {CHECK_EQ(((int (*)())p)(), (int)ln + x.kind, "the function found");}
            if (has && s == "common") {CHECK_EQ(((int (*)())p)(), 10 + x.kind, "the function found");}
            if (has && s.substr(0, 4) == "only") {CHECK_EQ(((int (*)())p)(), 20 + x.kind, "the function found");}
            if (has && s == "data_symbol") {CHECK_EQ(*(int *)p, 30 + x.kind, "the data found");}
            if (chance(1, 6)) {
              CHECK(!rcutils_get_symbol(&x.lib, nullptr) && rc::error_is_set(), "symbol NULL is found"); rc::clear_error();
              CHECK(!rcutils_get_symbol(nullptr, es) && rc::error_is_set(), "a symbol of NULL is found"); rc::clear_error();
            }
          }
          break;
        }
      case 3: CHECK(rcutils_is_shared_library_loaded(&x.lib) == x.loaded, "is_shared_library_loaded is %d", !x.loaded); break;
      default: CHECK_EQ(rcutils_unload_shared_library(nullptr), RCUTILS_RET_INVALID_ARGUMENT, "unload of NULL"); rc::clear_error();
    }
    for (auto & y : h) {CHECK(!y.loaded || (y.lib.lib_pointer == y.ptr && y.path == y.lib.library_path), "a handle has changed");}
  }
  for (auto & x : h) {if (x.loaded) {CHECK_EQ(rcutils_unload_shared_library(&x.lib), RCUTILS_RET_OK, "unload");}}
  for (auto & f : files) {if (f.second != 2) {CHECK(!mapped(f.first), "%s is still mapped after all handles are unloaded", quote(f.first).c_str());}}
  for (auto & t : tas) {t.expect_empty("after all handles are unloaded");}
  int e = fchdir(home); (void)e;
  fs::empty_dir(dup(d)); close(d);
}
}  // namespace pbt
