// A script of calls over one object of every kind and every allocating function, executed against a given
// allocator and plain models; shared by C25 (every allocation point fails once) and C26 (discipline).
#ifndef MODS_H_
#define MODS_H_
#include "rc.h"
#include "rcutils/filesystem.h"
#include "rcutils/format_string.h"
#include "rcutils/logging.h"
#include "rcutils/process.h"
#include "rcutils/repl_str.h"
#include "rcutils/shared_library.h"
#include "rcutils/split.h"
#include "rcutils/strdup.h"
#include "rcutils/types.h"
namespace mods
{
using namespace pbt;
enum Op {AL, HM, SM, SA, CA, UA, LG, SPLIT, SPLITL, REPL, FMT, DUP, NDUP, JOIN, NATIVE, HOME_, EXE, SIZE, ITER, LIB, NOPS};
inline const char * opname(int o)
{
  static const char * const n[] = {"array_list", "hash_map", "string_map", "string_array", "char_array", "uint8_array", "logging", "split",
    "split_last", "repl_str", "format_string", "strdup", "strndup", "join_path", "to_native_path", "expand_user", "get_executable_name",
    "directory size", "dir_iter", "load_shared_library"};
  return n[o];
}
struct Step {int op, sub; std::string k, v; size_t n;};
inline Step step_gen(bool heavy)
{
  Step s;
  s.op = chance(2, 3) ? (int)draw_plain(AL, LG) : (int)draw_plain(SPLIT, heavy ? LIB : EXE);
  if (s.op >= SIZE && !chance(1, 4)) {s.op = (int)draw_plain(AL, LG);}
  s.sub = (int)draw_plain(0, 11);
  s.k = chance(1, 3) ? cstr(12) : str_of("ab./", 0, 4); s.v = chance(1, 3) ? cstr(40) : str_of("ab/~", 0, 8); s.n = draw_small(0, 40);
  return s;
}
inline bool g_foreign_ok;     // some call of this kind may use malloc by itself (libc, the loader)
struct Lib {Lib() {rc::g_in_lib = true;} ~Lib() {rc::g_in_lib = false;}};
#define IN_LIB(expr) ([&] {::mods::Lib in_lib_; return expr;} ())
struct World
{
  rc::TrackAlloc * ta; rcutils_allocator_t a;
  rcutils_array_list_t al = rcutils_get_zero_initialized_array_list(); bool al_i = false; std::vector<int> alm;
  rcutils_hash_map_t hm = rcutils_get_zero_initialized_hash_map(); bool hm_i = false; std::map<std::string, int> hmm; std::map<std::string, char *> keys;
  rcutils_string_map_t sm[2] = {rcutils_get_zero_initialized_string_map(), rcutils_get_zero_initialized_string_map()}; bool sm_i[2] = {}; std::map<std::string, std::string> smm[2];
  rcutils_string_array_t sa = rcutils_get_zero_initialized_string_array(); bool sa_i = false; std::vector<std::string> sam;
  rcutils_char_array_t ca = rcutils_get_zero_initialized_char_array(); bool ca_i = false, ca_any = false; std::string cam;
  rcutils_uint8_array_t ua = rcutils_get_zero_initialized_uint8_array(); bool ua_i = false; std::string uam; size_t uac = 0;
  bool lg_i = false; std::map<std::string, int> lgm; bool logging;
  std::string dir;
  World(rc::TrackAlloc & t, bool lg, const std::string & d) : ta(&t), a(t.get()), logging(lg), dir(d) {}
  ~World() {for (auto & k : keys) {free(k.second);}}
  char * hkey(const std::string & s) {auto it = keys.find(s); if (it == keys.end()) {it = keys.emplace(s, strdup(s.c_str())).first;} return it->second;}

  enum Outcome {OTHER, SUCCESS, FAILURE, SILENT_FAILURE};     // of the last call, for C37: what it may do to the error state
  Outcome outcome = OTHER; const char * outcome_of = "";

  // judges a status; true if the call took effect
  bool did(int r, const char * what)
  {
    outcome = ta->n_failed ? r == RCUTILS_RET_OK ? OTHER : FAILURE : SUCCESS; outcome_of = what;
    if (ta->n_failed) {
      CHECK(r == RCUTILS_RET_BAD_ALLOC || r == RCUTILS_RET_ERROR, "%s with a failed allocation gave %s", what, rc::ret_name(r));
      return false;
    }
    CHECK(r == RCUTILS_RET_OK, "%s gave %s", what, rc::ret_name(r));
    return true;
  }
  void str(char * p, const std::string & want, const char * what, bool silent = false)
  {
    outcome = !ta->n_failed ? SUCCESS : silent ? SILENT_FAILURE : OTHER; outcome_of = what;
    if (ta->n_failed) {CHECK(!p, "%s gave a string although an allocation failed", what); return;}
    CHECK(p, "%s gave NULL", what);
    CHECK(want == p, "%s gave %s, expected %s", what, quote(p, strlen(p)).c_str(), quote(want).c_str());
    CHECK(ta->owns(p), "the result of %s is no block of the allocator", what);
    a.deallocate(p, a.state);
  }
  // a call that must succeed
  void well(int r, const char * what) {CHECK(r == RCUTILS_RET_OK, "%s gave %s", what, rc::ret_name(r)); outcome = ta->n_failed ? OTHER : SUCCESS; outcome_of = what;}
  void exec(const Step & s)
  {
    g_foreign_ok = false; outcome = OTHER; outcome_of = "";
    rc::Exact k(s.k), v(s.v);
    switch (s.op) {
      case AL: {
          if (!al_i) {if (did(IN_LIB(rcutils_array_list_init(&al, 1 + s.n % 4, sizeof(int), &a)), "array_list_init")) {al_i = true; alm.clear();} return;}
          int x = (int)s.n;
          if (s.sub == 0) {IN_LIB(rcutils_array_list_fini(&al)); al_i = false; return;}
          if (s.sub == 1 && !alm.empty()) {well(IN_LIB(rcutils_array_list_remove(&al, s.n % alm.size())), "remove"); alm.erase(alm.begin() + (long)(s.n % alm.size())); return;}
          if (did(IN_LIB(rcutils_array_list_add(&al, &x)), "array_list_add")) {alm.push_back(x);}
          return;
        }
      case HM: {
          if (!hm_i) {if (did(IN_LIB(rcutils_hash_map_init(&hm, 1 + s.n % 4, sizeof(char *), sizeof(int), rcutils_hash_map_string_hash_func, rcutils_hash_map_string_cmp_func, &a)), "hash_map_init")) {hm_i = true; hmm.clear();} return;}
          char * p = hkey(s.k); int x = (int)s.n;
          if (s.sub == 0) {well(IN_LIB(rcutils_hash_map_fini(&hm)), "hash_map_fini"); hm_i = false; return;}
          if (s.sub <= 2) {well(IN_LIB(rcutils_hash_map_unset(&hm, &p)), "hash_map_unset"); hmm.erase(s.k); return;}
          rcutils_ret_t r = IN_LIB(rcutils_hash_map_set(&hm, &p, &x));
          // a map that cannot grow may still have room
          if ((ta->n_failed && r == RCUTILS_RET_OK) || did(r, "hash_map_set")) {hmm[s.k] = x;}
          return;
        }
      case SM: {
          int i = (int)(s.n & 1);
          if (!sm_i[i]) {if (did(IN_LIB(rcutils_string_map_init(&sm[i], s.n % 3, a)), "string_map_init")) {sm_i[i] = true; smm[i].clear();} return;}
          switch (s.sub) {
            case 0: well(IN_LIB(rcutils_string_map_fini(&sm[i])), "string_map_fini"); sm_i[i] = false; return;
            case 1: did(IN_LIB(rcutils_string_map_reserve(&sm[i], s.n)), "string_map_reserve"); return;
            case 2: well(IN_LIB(rcutils_string_map_clear(&sm[i])), "string_map_clear"); smm[i].clear(); return;
            case 3: CHECK_EQ(IN_LIB(rcutils_string_map_unset(&sm[i], k)), smm[i].count(s.k) ? RCUTILS_RET_OK : RCUTILS_RET_STRING_KEY_NOT_FOUND, "string_map_unset"); smm[i].erase(s.k); return;
            case 4: case 5:
              if (!sm_i[1 - i]) {return;}
              if (did(IN_LIB(rcutils_string_map_copy(&sm[1 - i], &sm[i])), "string_map_copy")) {for (auto & e : smm[1 - i]) {smm[i][e.first] = e.second;}}
              else {
                for (auto & e : smm[1 - i]) {   // a part of the pairs may have arrived, each whole
                  const char * g = rcutils_string_map_get(&sm[i], e.first.c_str());
                  if (g && e.second == g) {smm[i][e.first] = e.second;}
                }
              }
              return;
            default: if (did(IN_LIB(rcutils_string_map_set(&sm[i], k, v)), "string_map_set")) {smm[i][s.k] = s.v;}
          }
          return;
        }
      case SA: {
          if (!sa_i) {if (did(IN_LIB(rcutils_string_array_init(&sa, s.n % 6, &a)), "string_array_init")) {sa_i = true; sam.assign(s.n % 6, "");} return;}
          if (s.sub == 0) {well(IN_LIB(rcutils_string_array_fini(&sa)), "string_array_fini"); sa_i = false; return;}
          if (s.sub < 5) {
            size_t n = s.n % 12, old = sam.size();
            rcutils_ret_t r = IN_LIB(rcutils_string_array_resize(&sa, n));
            if (n == 0 && ta->n_failed && r == RCUTILS_RET_OK) {sam.clear(); return;}
            if (did(r, "string_array_resize")) {sam.resize(n, ""); for (size_t i = old; i < n; i++) {CHECK(!sa.data[i], "a new entry is not empty");}}
            return;
          }
          if (sam.empty()) {return;}
          size_t i = s.n % sam.size(); char * p = IN_LIB(rcutils_strdup(v, a));
          CHECK((p == nullptr) == (ta->n_failed != 0), "strdup gave %p", (void *)p);
          if (p) {if (sa.data[i]) {a.deallocate(sa.data[i], a.state);} sa.data[i] = p; sam[i] = s.v;}
          return;
        }
      case CA: {
          if (!ca_i) {if (did(IN_LIB(rcutils_char_array_init(&ca, s.n % 5, &a)), "char_array_init")) {ca_i = true; cam.clear(); ca_any = false;} return;}
          switch (s.sub) {
            case 0: well(IN_LIB(rcutils_char_array_fini(&ca)), "char_array_fini"); ca_i = false; return;
            case 1: case 2: {
                size_t n = ca.buffer_length + 1 + s.n;
                did(IN_LIB(rcutils_char_array_resize(&ca, n)), "char_array_resize"); return;
              }
            case 3: did(IN_LIB(rcutils_char_array_expand_as_needed(&ca, s.n * 3)), "char_array_expand_as_needed"); return;
            case 4: if (did(IN_LIB(rcutils_char_array_memcpy(&ca, v, s.v.size() + 1)), "char_array_memcpy")) {cam = s.v; ca_any = false;} return;
            case 5: case 6: if (ca_any) {return;} if (did(IN_LIB(rcutils_char_array_strcat(&ca, v)), "char_array_strcat")) {cam += s.v;} return;
            case 7: case 8: g_foreign_ok = true; if (did(print(s), "char_array_vsprintf")) {cam = s.k + "," + std::to_string(s.n); ca_any = false;} else {ca_any = true;} return;
            default: if (did(IN_LIB(rcutils_char_array_strcpy(&ca, v)), "char_array_strcpy")) {cam = s.v; ca_any = false;}
          }
          return;
        }
      case UA: {
          if (!ua_i) {if (did(IN_LIB(rcutils_uint8_array_init(&ua, s.n % 9, &a)), "uint8_array_init")) {ua_i = true; uam.clear(); uac = s.n % 9;} return;}
          if (s.sub == 0) {well(IN_LIB(rcutils_uint8_array_fini(&ua)), "uint8_array_fini"); ua_i = false; return;}
          if (s.sub < 7) {
            size_t n = s.n + 1;
            if (did(IN_LIB(rcutils_uint8_array_resize(&ua, n)), "uint8_array_resize")) {uac = n; if (uam.size() > n) {uam.resize(n);}}
            else if (!ua.buffer_capacity) {uac = 0; uam.clear();}      // may give up its contents
            return;
          }
          uam = s.v.substr(0, uac); if (!uam.empty()) {memcpy(ua.buffer, uam.data(), uam.size());} ua.buffer_length = uam.size();
          return;
        }
      case LG: {
          if (!logging) {return;}
          if (!lg_i) {
            g_foreign_ok = true;                             // stdio sets up its buffers
            if (did(IN_LIB(rcutils_logging_initialize_with_allocator(a)), "logging initialization")) {lg_i = true; lgm.clear();}
            CHECK(lg_i == g_rcutils_logging_initialized, "logging is%s initialized", lg_i ? " not" : "");
            return;
          }
          if (s.sub == 0) {well(IN_LIB(rcutils_logging_shutdown()), "logging shutdown"); lg_i = false; return;}
          std::string n = "n" + s.k; static const int sev[] = {10, 20, 30, 40, 50, 0};
          int l = sev[s.n % 6];
          if (s.sub < 8) {rcutils_ret_t r = IN_LIB(rcutils_logging_set_logger_level(n.c_str(), l)); if ((ta->n_failed && r == RCUTILS_RET_OK) || did(r, "set_logger_level")) {lgm[n] = l;}}
          else {                                             // a query may only fail to remember what it found
            int g = IN_LIB(rcutils_logging_get_logger_level(n.c_str()));
            int want = lgm.count(n) ? lgm[n] : 0;
            CHECK(g == want || (ta->n_failed && g == -1), "the level of %s is %d, expected %d", quote(n).c_str(), g, want);
          }
          return;
        }
      case SPLIT: {
          rcutils_string_array_t o = rcutils_get_zero_initialized_string_array();
          std::vector<std::string> want; std::string cur;
          for (char c : s.v + "/") {if (c == '/') {if (!cur.empty()) {want.push_back(cur);} cur.clear();} else {cur += c;}}
          rcutils_ret_t r = IN_LIB(rcutils_split(v, '/', a, &o));
          if (did(r, "split")) {
            if (s.v.find("//") == std::string::npos) {
              CHECK_EQ(o.size, want.size(), "tokens of split");
              for (size_t i = 0; i < want.size(); i++) {CHECK(want[i] == o.data[i], "token %zu of split", i);}
            }
            CHECK_EQ(rcutils_string_array_fini(&o), RCUTILS_RET_OK, "string_array_fini");
          }
          return;
        }
      case SPLITL: {
          rcutils_string_array_t o = rcutils_get_zero_initialized_string_array();
          if (did(IN_LIB(rcutils_split_last(v, '/', a, &o)), "split_last")) {CHECK_EQ(rcutils_string_array_fini(&o), RCUTILS_RET_OK, "string_array_fini");}
          return;
        }
      case REPL: {
          std::string want; for (size_t i = 0; i < s.v.size(); i++) {if (s.v[i] == 'a') {want += s.k;} else {want += s.v[i];}}
          str(IN_LIB(rcutils_repl_str(v, "a", k, &a)), want, "repl_str"); return;
        }
      case FMT: g_foreign_ok = true; str(IN_LIB(rcutils_format_string(a, "%s=%s", (char *)k, (char *)v)), s.k + "=" + s.v, "format_string", true); return;
      case DUP: str(IN_LIB(rcutils_strdup(v, a)), s.v, "strdup", true); return;
      case NDUP: {size_t n = std::min(s.n, s.v.size()); str(IN_LIB(rcutils_strndup(v, n, a)), s.v.substr(0, n), "strndup", true); return;}
      case JOIN: g_foreign_ok = true; str(IN_LIB(rcutils_join_path(k, v, a)), s.k + "/" + s.v, "join_path"); return;
      case NATIVE: str(IN_LIB(rcutils_to_native_path(v, a)), s.v, "to_native_path"); return;
      case HOME_: g_foreign_ok = true; str(IN_LIB(rcutils_expand_user(v, a)), s.v[0] == '~' ? "/nonexistent-home" + s.v.substr(1) : s.v, "expand_user"); return;
      case EXE: {
          char * p = IN_LIB(rcutils_get_executable_name(a)); std::string n = program_invocation_name;
          str(p, n.substr(n.rfind('/') + 1), "get_executable_name"); return;
        }
      case SIZE: {
          g_foreign_ok = true; uint64_t size = 9;
          if (did(rcutils_calculate_directory_size_with_recursion(dir.c_str(), 0, &size, a), "directory size")) {CHECK_EQ(size, 300, "directory size");}
          return;
        }
      case ITER: {
          g_foreign_ok = true; rcutils_dir_iter_t * it = rcutils_dir_iter_start(dir.c_str(), a);
          CHECK((it == nullptr) == (ta->n_failed != 0), "dir_iter_start gave %p", (void *)it);
          rcutils_dir_iter_end(it); return;
        }
      default: {
          g_foreign_ok = true; rcutils_shared_library_t l = rcutils_get_zero_initialized_shared_library();
          if (did(rcutils_load_shared_library(&l, "libm.so.6", a), "load_shared_library")) {CHECK_EQ(rcutils_unload_shared_library(&l), RCUTILS_RET_OK, "unload_shared_library");}
        }
    }
  }
  rcutils_ret_t print(const Step & s) {return vprint("%s,%zu", s.k.c_str(), s.n);}
  rcutils_ret_t vprint(const char * f, ...) {va_list l; va_start(l, f); rcutils_ret_t r = IN_LIB(rcutils_char_array_vsprintf(&ca, f, l)); va_end(l); return r;}
  // every object still is what its model says; nothing here allocates from the allocator, except a logger's level
  void check()
  {
    size_t n = 0; int x;
    if (al_i) {
      CHECK(rcutils_array_list_get_size(&al, &n) == RCUTILS_RET_OK && n == alm.size(), "array_list: %zu elements, expected %zu", n, alm.size());
      for (size_t i = 0; i < alm.size(); i++) {CHECK(rcutils_array_list_get(&al, i, &x) == RCUTILS_RET_OK && x == alm[i], "array_list: element %zu is wrong", i);}
    }
    if (hm_i) {
      CHECK(rcutils_hash_map_get_size(&hm, &n) == RCUTILS_RET_OK && n == hmm.size(), "hash_map: %zu keys, expected %zu", n, hmm.size());
      for (auto & e : hmm) {char * p = hkey(e.first); CHECK(rcutils_hash_map_get(&hm, &p, &x) == RCUTILS_RET_OK && x == e.second, "hash_map: key %s is wrong", quote(e.first).c_str());}
    }
    for (int i = 0; i < 2; i++) {
      if (!sm_i[i]) {continue;}
      CHECK(rcutils_string_map_get_size(&sm[i], &n) == RCUTILS_RET_OK && n == smm[i].size(), "string_map: %zu keys, expected %zu", n, smm[i].size());
      for (auto & e : smm[i]) {const char * g = rcutils_string_map_get(&sm[i], e.first.c_str()); CHECK(g && e.second == g, "string_map: key %s is wrong", quote(e.first).c_str());}
    }
    if (sa_i) {
      CHECK(sa.size == sam.size(), "string_array: %zu entries, expected %zu", sa.size, sam.size());
      for (size_t i = 0; i < sam.size(); i++) {CHECK(sa.data[i] ? sam[i] == sa.data[i] : sam[i].empty(), "string_array: entry %zu is wrong", i);}
    }
    if (ca_i) {
      CHECK(ca.buffer_length <= ca.buffer_capacity, "char_array: %zu bytes in %zu", ca.buffer_length, ca.buffer_capacity);
      CHECK(!ca.buffer_capacity || (ta->owns(ca.buffer) && ta->size_of(ca.buffer) >= ca.buffer_capacity), "char_array: the buffer is not its own");
      if (!ca_any) {
        size_t want = cam.empty() && !ca.buffer_length ? 0 : cam.size() + 1;
        CHECK(ca.buffer_length == want && (!want || !memcmp(ca.buffer, cam.c_str(), want)), "char_array: %s, expected %s", quote(ca.buffer, ca.buffer_length).c_str(), quote(cam).c_str());
      }
    }
    if (ua_i) {
      CHECK(ua.buffer_length == uam.size() && ua.buffer_capacity >= uam.size() && (uam.empty() || !memcmp(ua.buffer, uam.data(), uam.size())), "uint8_array: %zu of %zu bytes, expected %zu", ua.buffer_length, ua.buffer_capacity, uam.size());
    }
    if (logging && lg_i) {
      uint64_t at = ta->n_calls; (void)at;
      for (auto & e : lgm) {x = rcutils_logging_get_logger_level(e.first.c_str()); CHECK(x == e.second || (ta->n_failed && x == -1), "the level of %s is %d, expected %d", quote(e.first).c_str(), x, e.second);}
    }
  }
  void finish()
  {
    if (al_i) {CHECK_EQ(rcutils_array_list_fini(&al), RCUTILS_RET_OK, "array_list_fini");}
    if (hm_i) {CHECK_EQ(rcutils_hash_map_fini(&hm), RCUTILS_RET_OK, "hash_map_fini");}
    for (auto & m : sm) {CHECK_EQ(rcutils_string_map_fini(&m), RCUTILS_RET_OK, "string_map_fini");}
    if (sa_i) {CHECK_EQ(rcutils_string_array_fini(&sa), RCUTILS_RET_OK, "string_array_fini");}
    if (ca_i) {CHECK_EQ(rcutils_char_array_fini(&ca), RCUTILS_RET_OK, "char_array_fini");}
    if (ua_i) {CHECK_EQ(rcutils_uint8_array_fini(&ua), RCUTILS_RET_OK, "uint8_array_fini");}
    if (logging) {CHECK_EQ(rcutils_logging_shutdown(), RCUTILS_RET_OK, "logging shutdown");}
  }
};
inline std::string make_dir()      // a small fixed tree of 300 bytes
{
  std::string d = scratch() + "/dir";
  mkdir(d.c_str(), 0755); mkdir((d + "/s").c_str(), 0755);
  for (const char * n : {"/a", "/b", "/s/c"}) {int f = open((d + n).c_str(), O_CREAT | O_RDWR, 0644); if (ftruncate(f, 100)) {} close(f);}
  return d;
}
}  // namespace mods
#endif
