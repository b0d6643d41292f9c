#include "rc.h"
#include "fs.h"
#include <functional>
#include <set>
#include "rcutils/types.h"
#include "rcutils/env.h"
#include "rcutils/filesystem.h"
#include "rcutils/find.h"
#include "rcutils/format_string.h"
#include "rcutils/logging.h"
#include "rcutils/process.h"
#include "rcutils/qsort.h"
#include "rcutils/repl_str.h"
#include "rcutils/shared_library.h"
#include "rcutils/snprintf.h"
#include "rcutils/split.h"
#include "rcutils/strcasecmp.h"
#include "rcutils/strdup.h"
#include "rcutils/time.h"
using namespace pbt;
namespace pbt
{
const char * const kPropertyId = "C32";
const char * const kRule =
  "a case builds one valid object of every container with generated content and makes 1 to 8 generated calls in each of which exactly "
  "one argument is missing, zero-initialized, out of range or an allocator lacking generated functions (some 130 such positions over "
  "all modules), with the other arguments valid and generated; status, error message, allocator use and the content of all objects "
  "are checked after each call; non-trivial: at least three refused calls at different positions";
const Budget kBudget = {300000, 4000000, 100000};
void property_setup() {}

static rc::TrackAlloc * A;
static const rcutils_ret_t INV = RCUTILS_RET_INVALID_ARGUMENT, NOI = RCUTILS_RET_NOT_INITIALIZED, SMI = RCUTILS_RET_STRING_MAP_INVALID, ERR = RCUTILS_RET_ERROR;
static int cmp_int(const void * a, const void * b) {return *(const int *)a - *(const int *)b;}
static rcutils_ret_t vpr(rcutils_char_array_t * a, const char * f, ...) {va_list ap; va_start(ap, f); rcutils_ret_t r = rcutils_char_array_vsprintf(a, f, ap); va_end(ap); return r;}
static int vsn(char * b, size_t n, const char * f, ...) {va_list ap; va_start(ap, f); int r = rcutils_vsnprintf(b, n, f, ap); va_end(ap); return r;}

struct Objects
{
  rcutils_allocator_t al; rcutils_array_list_t list, zl; rcutils_hash_map_t map, zm; rcutils_string_map_t smap, zs;
  rcutils_string_array_t sa, za; rcutils_char_array_t ca; rcutils_uint8_array_t ua, zu; rcutils_shared_library_t lib;
  std::vector<int> l; std::map<int, int> m; std::map<std::string, std::string> s; std::vector<std::string> a; std::string c, u;
  size_t cap, mcap, scap;
  void build()
  {
    al = A->get();
    list = zl = rcutils_get_zero_initialized_array_list(); map = zm = rcutils_get_zero_initialized_hash_map();
    smap = zs = rcutils_get_zero_initialized_string_map(); sa = za = rcutils_get_zero_initialized_string_array();
    ca = rcutils_get_zero_initialized_char_array(); ua = zu = rcutils_get_zero_initialized_uint8_array(); lib = rcutils_get_zero_initialized_shared_library();
    size_t n = draw_small(0, 4); rcutils_ret_t r = 0;
    r |= rcutils_array_list_init(&list, 1 + draw_small(0, 4), sizeof(int), &al);
    for (size_t i = 0; i < n; i++) {int v = (int)draw_small(0, 9); l.push_back(v); r |= rcutils_array_list_add(&list, &v);}
    r |= rcutils_hash_map_init(&map, 1 + draw_small(0, 4), sizeof(int), sizeof(int), hash, cmp_int, &al);
    for (size_t i = 0; i < n; i++) {int k = (int)draw_small(0, 9), v = (int)i; m[k] = v; r |= rcutils_hash_map_set(&map, &k, &v);}
    r |= rcutils_string_map_init(&smap, draw_small(0, 4), al);
    for (size_t i = 0; i < n; i++) {std::string k = str_of("ab", 0, 2), v = str_of("xy", 0, 3); s[k] = v; r |= rcutils_string_map_set(&smap, k.c_str(), v.c_str());}
    r |= rcutils_string_array_init(&sa, n, &al);
    for (size_t i = 0; i < n; i++) {a.push_back(str_of("pq", 0, 3)); sa.data[i] = rcutils_strdup(a[i].c_str(), al);}
    r |= rcutils_char_array_init(&ca, 1 + draw_small(0, 9), &al); c = str_of("kl", 0, 12); r |= rcutils_char_array_strcpy(&ca, c.c_str());
    r |= rcutils_uint8_array_init(&ua, n, &al); u = str_of("uv", n, n); if (n) {memcpy(ua.buffer, u.data(), n);} ua.buffer_length = n;
    CHECK(r == RCUTILS_RET_OK, "building the objects failed");
    cap = ca.buffer_capacity; rcutils_hash_map_get_capacity(&map, &mcap); rcutils_string_map_get_capacity(&smap, &scap);
  }
  static size_t hash(const void * k) {return (size_t)*(const int *)k & 3;}
  void verify(const char * after)
  {
    size_t n = 77; int v = 0;
    CHECK(rcutils_array_list_get_size(&list, &n) == 0 && n == l.size(), "array list size %zu after %s", n, after);
    for (size_t i = 0; i < l.size(); i++) {CHECK(rcutils_array_list_get(&list, i, &v) == 0 && v == l[i], "array list changed by %s", after);}
    CHECK(rcutils_hash_map_get_size(&map, &n) == 0 && n == m.size(), "hash map size %zu after %s", n, after);
    CHECK(rcutils_hash_map_get_capacity(&map, &n) == 0 && n == mcap, "hash map capacity %zu after %s", n, after);
    for (auto & e : m) {CHECK(rcutils_hash_map_get(&map, &e.first, &v) == 0 && v == e.second, "hash map changed by %s", after);}
    CHECK(rcutils_string_map_get_size(&smap, &n) == 0 && n == s.size(), "string map size %zu after %s", n, after);
    CHECK(rcutils_string_map_get_capacity(&smap, &n) == 0 && n == scap, "string map capacity %zu after %s", n, after);
    for (auto & e : s) {const char * g = rcutils_string_map_get(&smap, e.first.c_str()); CHECK(g && e.second == g, "string map changed by %s", after);}
    CHECK(sa.size == a.size(), "string array size %zu after %s", sa.size, after);
    for (size_t i = 0; i < a.size(); i++) {CHECK(sa.data[i] && a[i] == sa.data[i], "string array changed by %s", after);}
    CHECK(ca.buffer_capacity == cap && ca.buffer_length == c.size() + 1 && c == ca.buffer, "char array changed by %s", after);
    CHECK(ua.buffer_length == u.size() && ua.buffer_capacity == u.size() && std::string((char *)ua.buffer, ua.buffer_length) == u, "byte array changed by %s", after);
    CHECK(!zl.impl && !zm.impl && !zs.impl && !za.data && !za.size && !zu.buffer && !zu.buffer_capacity && !lib.lib_pointer && !lib.library_path,
      "a zero-initialized object changed by %s", after);
  }
  void destroy()
  {
    rcutils_ret_t r = 0;
    r |= rcutils_array_list_fini(&list); r |= rcutils_hash_map_fini(&map); r |= rcutils_string_map_fini(&smap);
    r |= rcutils_string_array_fini(&sa); r |= rcutils_char_array_fini(&ca); r |= rcutils_uint8_array_fini(&ua);
    CHECK(r == RCUTILS_RET_OK, "finalizing the objects failed");
  }
};

struct Pos {const char * name; std::function<void()> run;};
static const char * g_name; static bool g_msg;
static void want(rcutils_ret_t got, std::initializer_list<rcutils_ret_t> ok, bool msg = true)
{
  bool hit = false; for (auto k : ok) {hit |= got == k;}
  std::string all; for (auto k : ok) {all += std::string(all.empty() ? "" : " or ") + rc::ret_name(k);}
  say("%s -> %s", g_name, rc::ret_name(got));
  CHECK(hit, "%s gave %s, expected %s", g_name, rc::ret_name(got), all.c_str());
  g_msg = msg;
}
static void is(bool good, bool msg = false) {say("%s", g_name); CHECK(good, "%s was not refused as documented", g_name); g_msg = msg;}

void property_case()
{
  rc::clear_error();
  rc::TrackAlloc TA; A = &TA;
  Objects o; o.build();
  rcutils_allocator_t bad = o.al; unsigned lack = 0;
  auto new_bad = [&] {
      lack = (unsigned)draw_plain(1, 15); bad = o.al;
      if (lack & 1) {bad.allocate = nullptr;} if (lack & 2) {bad.deallocate = nullptr;}
      if (lack & 4) {bad.reallocate = nullptr;} if (lack & 8) {bad.zero_allocate = nullptr;}
    };
  int iv = 5, ov = 1234; size_t zv = 4321; char buf[64]; rcutils_time_point_value_t tp = 5; bool ovw = false;
  int key = 0; std::string text; rcutils_array_list_t nl; rcutils_hash_map_t nm; rcutils_string_map_t ns; rcutils_char_array_t nc; rcutils_uint8_array_t nu;
  rcutils_string_array_t na; const char * ev; int res; uint64_t sz;
  rcutils_char_array_t cbad; rcutils_uint8_array_t ubad; rcutils_string_array_t sbad; rcutils_dir_iter_t it; rcutils_shared_library_t lbad;
#define P(text, ...) Pos{text, [&] {__VA_ARGS__;}}
  static thread_local std::vector<Pos> tab;
  tab = {
    // array list
    P("array_list_init(NULL, ..)", want(rcutils_array_list_init(nullptr, 1 + draw_small(0, 9), 4, &o.al), {INV})),
    P("array_list_init(capacity 0)", want(rcutils_array_list_init(&nl, 0, 1 + draw_small(0, 9), &o.al), {INV}); is(!nl.impl, true)),
    P("array_list_init(element size 0)", want(rcutils_array_list_init(&nl, 1 + draw_small(0, 9), 0, &o.al), {INV}); is(!nl.impl, true)),
    P("array_list_init(allocator NULL)", want(rcutils_array_list_init(&nl, 2, 4, nullptr), {INV}); is(!nl.impl, true)),
    P("array_list_init(allocator incomplete)", want(rcutils_array_list_init(&nl, 2, 4, &bad), {INV}); is(!nl.impl, true)),
    P("array_list_init(initialized list)", want(rcutils_array_list_init(&o.list, 1 + draw_small(0, 9), sizeof(int), &o.al), {INV})),
    P("array_list_fini(NULL)", want(rcutils_array_list_fini(nullptr), {INV})),
    P("array_list_fini(uninitialized)", want(rcutils_array_list_fini(&o.zl), {NOI})),
    P("array_list_add(NULL, ..)", want(rcutils_array_list_add(nullptr, &iv), {INV})),
    P("array_list_add(uninitialized, ..)", want(rcutils_array_list_add(&o.zl, &iv), {NOI})),
    P("array_list_add(.., NULL)", want(rcutils_array_list_add(&o.list, nullptr), {INV})),
    P("array_list_set(NULL, ..)", want(rcutils_array_list_set(nullptr, 0, &iv), {INV})),
    P("array_list_set(uninitialized, ..)", want(rcutils_array_list_set(&o.zl, 0, &iv), {NOI})),
    P("array_list_set(.., NULL)", want(rcutils_array_list_set(&o.list, 0, nullptr), {INV})),
    P("array_list_set(index outside)", want(rcutils_array_list_set(&o.list, o.l.size() + draw_edge(0, SIZE_MAX / 2), &iv), {INV})),
    P("array_list_remove(NULL, ..)", want(rcutils_array_list_remove(nullptr, 0), {INV})),
    P("array_list_remove(uninitialized, ..)", want(rcutils_array_list_remove(&o.zl, 0), {NOI})),
    P("array_list_remove(index outside)", want(rcutils_array_list_remove(&o.list, o.l.size() + draw_edge(0, SIZE_MAX / 2)), {INV})),
    P("array_list_get(NULL, ..)", want(rcutils_array_list_get(nullptr, 0, &ov), {INV})),
    P("array_list_get(uninitialized, ..)", want(rcutils_array_list_get(&o.zl, 0, &ov), {NOI})),
    P("array_list_get(.., NULL)", want(rcutils_array_list_get(&o.list, 0, nullptr), {INV})),
    P("array_list_get(index outside)", want(rcutils_array_list_get(&o.list, o.l.size() + draw_edge(0, SIZE_MAX / 2), &ov), {INV})),
    P("array_list_get_size(NULL, ..)", want(rcutils_array_list_get_size(nullptr, &zv), {INV})),
    P("array_list_get_size(uninitialized, ..)", want(rcutils_array_list_get_size(&o.zl, &zv), {NOI})),
    P("array_list_get_size(.., NULL)", want(rcutils_array_list_get_size(&o.list, nullptr), {INV})),
    // hash map
    P("hash_map_init(NULL, ..)", want(rcutils_hash_map_init(nullptr, 2, 4, 4, o.hash, cmp_int, &o.al), {INV})),
    P("hash_map_init(capacity 0)", want(rcutils_hash_map_init(&nm, 0, 4, 4, o.hash, cmp_int, &o.al), {INV}); is(!nm.impl, true)),
    P("hash_map_init(key size 0)", want(rcutils_hash_map_init(&nm, 2, 0, 4, o.hash, cmp_int, &o.al), {INV}); is(!nm.impl, true)),
    P("hash_map_init(data size 0)", want(rcutils_hash_map_init(&nm, 2, 4, 0, o.hash, cmp_int, &o.al), {INV}); is(!nm.impl, true)),
    P("hash_map_init(no hash function)", want(rcutils_hash_map_init(&nm, 2, 4, 4, nullptr, cmp_int, &o.al), {INV}); is(!nm.impl, true)),
    P("hash_map_init(no comparison)", want(rcutils_hash_map_init(&nm, 2, 4, 4, o.hash, nullptr, &o.al), {INV}); is(!nm.impl, true)),
    P("hash_map_init(allocator NULL)", want(rcutils_hash_map_init(&nm, 2, 4, 4, o.hash, cmp_int, nullptr), {INV}); is(!nm.impl, true)),
    P("hash_map_init(allocator incomplete)", want(rcutils_hash_map_init(&nm, 2, 4, 4, o.hash, cmp_int, &bad), {INV}); is(!nm.impl, true)),
    P("hash_map_init(initialized map)", rcutils_ret_t r = rcutils_hash_map_init(&o.map, 2, 4, 4, o.hash, cmp_int, &o.al); is(r != RCUTILS_RET_OK, true)),
    P("hash_map_fini(NULL)", want(rcutils_hash_map_fini(nullptr), {INV})),
    P("hash_map_fini(uninitialized)", want(rcutils_hash_map_fini(&o.zm), {NOI})),
    P("hash_map_get_capacity(NULL, ..)", want(rcutils_hash_map_get_capacity(nullptr, &zv), {INV})),
    P("hash_map_get_capacity(uninitialized, ..)", want(rcutils_hash_map_get_capacity(&o.zm, &zv), {NOI})),
    P("hash_map_get_capacity(.., NULL)", want(rcutils_hash_map_get_capacity(&o.map, nullptr), {INV})),
    P("hash_map_get_size(NULL, ..)", want(rcutils_hash_map_get_size(nullptr, &zv), {INV})),
    P("hash_map_get_size(uninitialized, ..)", want(rcutils_hash_map_get_size(&o.zm, &zv), {NOI})),
    P("hash_map_get_size(.., NULL)", want(rcutils_hash_map_get_size(&o.map, nullptr), {INV})),
    P("hash_map_set(NULL, ..)", want(rcutils_hash_map_set(nullptr, &key, &iv), {INV})),
    P("hash_map_set(uninitialized, ..)", want(rcutils_hash_map_set(&o.zm, &key, &iv), {NOI})),
    P("hash_map_set(.., key NULL)", want(rcutils_hash_map_set(&o.map, nullptr, &iv), {INV})),
    P("hash_map_set(.., value NULL)", want(rcutils_hash_map_set(&o.map, &key, nullptr), {INV})),
    P("hash_map_unset(NULL, ..)", want(rcutils_hash_map_unset(nullptr, &key), {INV})),
    P("hash_map_unset(uninitialized, ..)", want(rcutils_hash_map_unset(&o.zm, &key), {NOI})),
    P("hash_map_unset(.., NULL)", want(rcutils_hash_map_unset(&o.map, nullptr), {INV})),
    P("hash_map_key_exists(NULL, ..)", is(!rcutils_hash_map_key_exists(nullptr, &key))),
    P("hash_map_key_exists(uninitialized, ..)", is(!rcutils_hash_map_key_exists(&o.zm, &key))),
    P("hash_map_key_exists(.., NULL)", is(!rcutils_hash_map_key_exists(&o.map, nullptr))),
    P("hash_map_get(NULL, ..)", want(rcutils_hash_map_get(nullptr, &key, &ov), {INV})),
    P("hash_map_get(uninitialized, ..)", want(rcutils_hash_map_get(&o.zm, &key, &ov), {NOI})),
    P("hash_map_get(.., key NULL)", want(rcutils_hash_map_get(&o.map, nullptr, &ov), {INV})),
    P("hash_map_get(.., data NULL)", want(rcutils_hash_map_get(&o.map, &key, nullptr), {INV})),
    P("hash_map_get_next_key_and_data(NULL, ..)", want(rcutils_hash_map_get_next_key_and_data(nullptr, nullptr, &ov, &ov), {INV})),
    P("hash_map_get_next_key_and_data(uninitialized, ..)", want(rcutils_hash_map_get_next_key_and_data(&o.zm, nullptr, &ov, &ov), {NOI})),
    P("hash_map_get_next_key_and_data(.., key NULL, ..)", want(rcutils_hash_map_get_next_key_and_data(&o.map, nullptr, nullptr, &ov), {INV})),
    P("hash_map_get_next_key_and_data(.., data NULL)", want(rcutils_hash_map_get_next_key_and_data(&o.map, nullptr, &ov, nullptr), {INV})),
    // string map
    P("string_map_init(NULL, ..)", want(rcutils_string_map_init(nullptr, draw_small(0, 9), o.al), {INV})),
    P("string_map_init(allocator incomplete)", want(rcutils_string_map_init(&ns, draw_small(0, 9), bad), {INV}); is(!ns.impl, true)),
    P("string_map_init(initialized map)", want(rcutils_string_map_init(&o.smap, draw_small(0, 9), o.al), {RCUTILS_RET_STRING_MAP_ALREADY_INIT})),
    P("string_map_fini(NULL)", want(rcutils_string_map_fini(nullptr), {INV})),
    P("string_map_get_capacity(NULL, ..)", want(rcutils_string_map_get_capacity(nullptr, &zv), {INV})),
    P("string_map_get_capacity(uninitialized, ..)", want(rcutils_string_map_get_capacity(&o.zs, &zv), {SMI})),
    P("string_map_get_capacity(.., NULL)", want(rcutils_string_map_get_capacity(&o.smap, nullptr), {INV})),
    P("string_map_get_size(NULL, ..)", want(rcutils_string_map_get_size(nullptr, &zv), {INV})),
    P("string_map_get_size(uninitialized, ..)", want(rcutils_string_map_get_size(&o.zs, &zv), {SMI})),
    P("string_map_get_size(.., NULL)", want(rcutils_string_map_get_size(&o.smap, nullptr), {INV})),
    P("string_map_reserve(NULL, ..)", want(rcutils_string_map_reserve(nullptr, draw_small(0, 9)), {INV})),
    P("string_map_reserve(uninitialized, ..)", want(rcutils_string_map_reserve(&o.zs, draw_small(0, 9)), {SMI})),
    P("string_map_reserve(.., too much)", want(rcutils_string_map_reserve(&o.smap, SIZE_MAX / 16 + 1 + draw_edge(0, SIZE_MAX / 2)), {RCUTILS_RET_BAD_ALLOC})),
    P("string_map_clear(NULL)", want(rcutils_string_map_clear(nullptr), {INV})),
    P("string_map_clear(uninitialized)", want(rcutils_string_map_clear(&o.zs), {SMI})),
    P("string_map_set(NULL, ..)", want(rcutils_string_map_set(nullptr, "a", "b"), {INV})),
    P("string_map_set(uninitialized, ..)", want(rcutils_string_map_set(&o.zs, "a", "b"), {SMI})),
    P("string_map_set(.., key NULL)", want(rcutils_string_map_set(&o.smap, nullptr, "b"), {INV})),
    P("string_map_set(.., value NULL)", want(rcutils_string_map_set(&o.smap, text.c_str(), nullptr), {INV})),
    P("string_map_set_no_resize(NULL, ..)", want(rcutils_string_map_set_no_resize(nullptr, "a", "b"), {INV})),
    P("string_map_set_no_resize(uninitialized, ..)", want(rcutils_string_map_set_no_resize(&o.zs, "a", "b"), {SMI})),
    P("string_map_set_no_resize(.., key NULL)", want(rcutils_string_map_set_no_resize(&o.smap, nullptr, "b"), {INV})),
    P("string_map_set_no_resize(.., value NULL)", want(rcutils_string_map_set_no_resize(&o.smap, text.c_str(), nullptr), {INV})),
    P("string_map_unset(NULL, ..)", want(rcutils_string_map_unset(nullptr, "a"), {INV})),
    P("string_map_unset(uninitialized, ..)", want(rcutils_string_map_unset(&o.zs, "a"), {SMI})),
    P("string_map_unset(.., NULL)", want(rcutils_string_map_unset(&o.smap, nullptr), {INV})),
    P("string_map_unset(.., missing key)", want(rcutils_string_map_unset(&o.smap, "zz"), {RCUTILS_RET_STRING_KEY_NOT_FOUND})),
    P("string_map_key_exists(NULL, ..)", is(!rcutils_string_map_key_exists(nullptr, text.c_str()))),
    P("string_map_key_exists(uninitialized, ..)", is(!rcutils_string_map_key_exists(&o.zs, text.c_str()))),
    P("string_map_key_exists(.., NULL)", is(!rcutils_string_map_key_exists(&o.smap, nullptr))),
    P("string_map_key_existsn(NULL, ..)", is(!rcutils_string_map_key_existsn(nullptr, "a", draw_small(0, 1)))),
    P("string_map_key_existsn(uninitialized, ..)", is(!rcutils_string_map_key_existsn(&o.zs, "a", draw_small(0, 1)))),
    P("string_map_key_existsn(.., NULL, ..)", is(!rcutils_string_map_key_existsn(&o.smap, nullptr, draw_small(0, 9)))),
    P("string_map_get(NULL, ..)", is(!rcutils_string_map_get(nullptr, text.c_str()))),
    P("string_map_get(uninitialized, ..)", is(!rcutils_string_map_get(&o.zs, text.c_str()))),
    P("string_map_get(.., NULL)", is(!rcutils_string_map_get(&o.smap, nullptr))),
    P("string_map_getn(NULL, ..)", is(!rcutils_string_map_getn(nullptr, "a", draw_small(0, 1)))),
    P("string_map_getn(uninitialized, ..)", is(!rcutils_string_map_getn(&o.zs, "a", draw_small(0, 1)))),
    P("string_map_getn(.., NULL, ..)", is(!rcutils_string_map_getn(&o.smap, nullptr, draw_small(0, 9)))),
    P("string_map_get_next_key(NULL, ..)", is(!rcutils_string_map_get_next_key(nullptr, nullptr))),
    P("string_map_get_next_key(uninitialized, ..)", is(!rcutils_string_map_get_next_key(&o.zs, nullptr))),
    P("string_map_copy(NULL, ..)", want(rcutils_string_map_copy(nullptr, &o.smap), {INV})),
    P("string_map_copy(.., NULL)", want(rcutils_string_map_copy(&o.smap, nullptr), {INV})),
    P("string_map_copy(uninitialized, ..)", want(rcutils_string_map_copy(&o.zs, &o.smap), {SMI})),
    P("string_map_copy(.., uninitialized)", want(rcutils_string_map_copy(&o.smap, &o.zs), {SMI})),
    // string array
    P("string_array_init(NULL, ..)", want(rcutils_string_array_init(nullptr, draw_small(0, 9), &o.al), {INV})),
    P("string_array_init(allocator NULL)", want(rcutils_string_array_init(&na, draw_small(0, 9), nullptr), {INV}); is(!na.data, true)),
    P("string_array_fini(NULL)", want(rcutils_string_array_fini(nullptr), {INV})),
    P("string_array_fini(allocator incomplete)", if (o.sa.data) {want(rcutils_string_array_fini(&sbad), {INV});} else {g_msg = false;}),
    P("string_array_resize(NULL, ..)", want(rcutils_string_array_resize(nullptr, draw_small(0, 9)), {INV})),
    P("string_array_resize(allocator incomplete)", want(rcutils_string_array_resize(&sbad, o.sa.size + 1 + draw_small(0, 5)), {INV})),
    P("string_array_resize(.., too much)", want(rcutils_string_array_resize(&o.sa, SIZE_MAX / 8 + 1 + draw_edge(0, SIZE_MAX / 2)), {RCUTILS_RET_BAD_ALLOC})),
    P("string_array_cmp(NULL, ..)", want(rcutils_string_array_cmp(nullptr, &o.sa, &res), {INV})),
    P("string_array_cmp(.., NULL, ..)", want(rcutils_string_array_cmp(&o.sa, nullptr, &res), {INV})),
    P("string_array_cmp(.., NULL)", want(rcutils_string_array_cmp(&o.sa, &o.sa, nullptr), {INV})),
    // char array
    P("char_array_init(NULL, ..)", want(rcutils_char_array_init(nullptr, draw_small(0, 9), &o.al), {INV, ERR})),
    P("char_array_init(allocator NULL)", want(rcutils_char_array_init(&nc, draw_small(0, 9), nullptr), {INV, ERR}); is(!nc.buffer, true)),
    P("char_array_init(allocator incomplete)", want(rcutils_char_array_init(&nc, draw_small(0, 9), &bad), {INV, ERR}); is(!nc.buffer, true)),
    P("char_array_fini(NULL)", want(rcutils_char_array_fini(nullptr), {INV, ERR})),
    P("char_array_fini(allocator incomplete)", want(rcutils_char_array_fini(&cbad), {INV, ERR})),
    P("char_array_resize(NULL, ..)", want(rcutils_char_array_resize(nullptr, 1 + draw_small(0, 9)), {INV, ERR})),
    P("char_array_resize(.., 0)", want(rcutils_char_array_resize(&o.ca, 0), {INV, ERR})),
    P("char_array_resize(allocator incomplete)", want(rcutils_char_array_resize(&cbad, o.cap + 1 + draw_small(0, 9)), {INV, ERR})),
    P("char_array_expand_as_needed(NULL, ..)", want(rcutils_char_array_expand_as_needed(nullptr, draw_small(0, 9)), {INV, ERR})),
    P("char_array_expand_as_needed(allocator incomplete)", want(rcutils_char_array_expand_as_needed(&cbad, o.cap + 1 + draw_small(0, 9)), {INV, ERR})),
    P("char_array_strcat(allocator incomplete)", want(rcutils_char_array_strcat(&cbad, std::string(o.cap, 'x').c_str()), {INV, ERR})),
    P("char_array_memcpy(allocator incomplete)", want(rcutils_char_array_memcpy(&cbad, std::string(o.cap + 1, 'x').c_str(), o.cap + 1), {INV, ERR})),
    P("char_array_vsprintf(allocator incomplete)", want(vpr(&cbad, "%s", std::string(o.cap, 'x').c_str()), {INV, ERR}); o.ca.buffer[o.c.size() < o.cap ? o.c.size() : 0] = o.c.size() < o.cap ? 0 : o.ca.buffer[0]; strcpy(o.ca.buffer, o.c.c_str())),
    // byte array
    P("uint8_array_init(NULL, ..)", want(rcutils_uint8_array_init(nullptr, draw_small(0, 9), &o.al), {INV})),
    P("uint8_array_init(allocator NULL)", want(rcutils_uint8_array_init(&nu, draw_small(0, 9), nullptr), {INV}); is(!nu.buffer, true)),
    P("uint8_array_init(allocator incomplete)", want(rcutils_uint8_array_init(&nu, draw_small(0, 9), &bad), {INV}); is(!nu.buffer, true)),
    P("uint8_array_fini(NULL)", want(rcutils_uint8_array_fini(nullptr), {INV})),
    P("uint8_array_fini(allocator incomplete)", want(rcutils_uint8_array_fini(&ubad), {INV})),
    P("uint8_array_fini(uninitialized)", want(rcutils_uint8_array_fini(&o.zu), {INV})),
    P("uint8_array_resize(NULL, ..)", want(rcutils_uint8_array_resize(nullptr, 1 + draw_small(0, 9)), {INV})),
    P("uint8_array_resize(.., 0)", want(rcutils_uint8_array_resize(&o.ua, 0), {INV})),
    P("uint8_array_resize(uninitialized, ..)", want(rcutils_uint8_array_resize(&o.zu, 1 + draw_small(0, 9)), {INV})),
    P("uint8_array_resize(allocator incomplete)", want(rcutils_uint8_array_resize(&ubad, o.ua.buffer_capacity + 1 + draw_small(0, 9)), {INV})),
    // environment, file system, strings, time
    P("set_env(NULL, ..)", is(!rcutils_set_env(nullptr, "x"), true)),
    P("set_env_overwrite(NULL, ..)", is(!rcutils_set_env_overwrite(nullptr, "x", ovw), true)),
    P("get_env(NULL, ..)", is(rcutils_get_env(nullptr, &ev) != nullptr)),
    P("get_env(.., NULL)", is(rcutils_get_env("HOME", nullptr) != nullptr)),
    P("get_cwd(NULL, ..)", is(!rcutils_get_cwd(nullptr, draw_small(0, 9)))),
    P("get_cwd(.., 0)", is(!rcutils_get_cwd(buf, 0))),
    P("join_path(NULL, ..)", is(!rcutils_join_path(nullptr, text.c_str(), o.al))),
    P("join_path(.., NULL, ..)", is(!rcutils_join_path(text.c_str(), nullptr, o.al))),
    P("join_path(allocator incomplete)", is(!rcutils_join_path(text.c_str(), "y", bad), true)),
    P("to_native_path(NULL, ..)", is(!rcutils_to_native_path(nullptr, o.al))),
    P("to_native_path(allocator incomplete)", is(!rcutils_to_native_path(text.c_str(), bad), true)),
    P("expand_user(NULL, ..)", is(!rcutils_expand_user(nullptr, o.al))),
    P("expand_user(allocator incomplete)", is(!rcutils_expand_user((ovw ? "~/" + text : text).c_str(), bad), true)),
    P("mkdir(NULL)", is(!rcutils_mkdir(nullptr))),
    P("mkdir(\"\")", is(!rcutils_mkdir(""))),
    P("calculate_directory_size(NULL, ..)", want(rcutils_calculate_directory_size(nullptr, &sz, o.al), {INV}, false)),
    P("calculate_directory_size(.., NULL, ..)", want(rcutils_calculate_directory_size("/dev/shm", nullptr, o.al), {INV}, false)),
    P("calculate_directory_size(.., allocator incomplete)", want(rcutils_calculate_directory_size(".", &sz, bad), {INV})),
    P("calculate_directory_size(no directory)", want(rcutils_calculate_directory_size("/dev/null", &sz, o.al), {ERR}, false)),
    P("calculate_directory_size_with_recursion(NULL, ..)", want(rcutils_calculate_directory_size_with_recursion(nullptr, draw_small(0, 3), &sz, o.al), {INV}, false)),
    P("calculate_directory_size_with_recursion(.., NULL, ..)", want(rcutils_calculate_directory_size_with_recursion(".", draw_small(0, 3), nullptr, o.al), {INV}, false)),
    P("calculate_directory_size_with_recursion(.., allocator incomplete)", want(rcutils_calculate_directory_size_with_recursion(".", draw_small(0, 3), &sz, bad), {INV})),
    P("dir_iter_start(NULL, ..)", is(!rcutils_dir_iter_start(nullptr, o.al), true)),
    P("dir_iter_start(.., allocator incomplete)", is(!rcutils_dir_iter_start(".", bad), true)),
    P("dir_iter_start(no directory)", is(!rcutils_dir_iter_start("/dev/null", o.al), true)),
    P("dir_iter_next(NULL)", is(!rcutils_dir_iter_next(nullptr), true)),
    P("dir_iter_next(no state)", is(!rcutils_dir_iter_next(&it), true)),
    P("dir_iter_end(NULL)", rcutils_dir_iter_end(nullptr); is(true)),
    P("find(NULL, ..)", is(rcutils_find(nullptr, 'a') == SIZE_MAX)),
    P("findn(NULL, ..)", is(rcutils_findn(nullptr, 'a', draw_small(0, 9)) == SIZE_MAX)),
    P("find_last(NULL, ..)", is(rcutils_find_last(nullptr, 'a') == SIZE_MAX)),
    P("find_lastn(NULL, ..)", is(rcutils_find_lastn(nullptr, 'a', draw_small(0, 9)) == SIZE_MAX)),
    P("format_string_limit(.., NULL)", is(!rcutils_format_string_limit(o.al, draw_small(0, 99), nullptr))),
    P("format_string_limit(allocator incomplete)", is(!rcutils_format_string_limit(bad, 1 + draw_small(0, 99), "%s", text.c_str()), true)),
    P("repl_str(allocator NULL)", is(!rcutils_repl_str("aba", "a", "c", nullptr), true)),
    P("repl_str(allocator incomplete)", is(!rcutils_repl_str("aba", "a", "c", &bad), true)),
    P("strdup(NULL, ..)", is(!rcutils_strdup(nullptr, o.al))),
    P("strdup(.., allocator incomplete)", is(!rcutils_strdup(text.c_str(), bad), true)),
    P("strndup(NULL, ..)", is(!rcutils_strndup(nullptr, draw_small(0, 9), o.al))),
    P("strndup(.., allocator incomplete)", is(!rcutils_strndup(text.c_str(), draw_small(0, 9), bad), true)),
    P("strcasecmp(NULL, ..)", is(rcutils_strcasecmp(nullptr, "a", &res) == -1)),
    P("strcasecmp(.., NULL, ..)", is(rcutils_strcasecmp("a", nullptr, &res) == -1)),
    P("strcasecmp(.., NULL)", is(rcutils_strcasecmp("a", "A", nullptr) == -1)),
    P("strncasecmp(NULL, ..)", is(rcutils_strncasecmp(nullptr, "a", draw_small(0, 3), &res) == -1)),
    P("strncasecmp(.., NULL, ..)", is(rcutils_strncasecmp("a", nullptr, draw_small(0, 3), &res) == -1)),
    P("strncasecmp(.., NULL)", is(rcutils_strncasecmp("a", "A", draw_small(0, 3), nullptr) == -1)),
    P("snprintf(.., format NULL)", is(rcutils_snprintf(buf, draw_small(0, 60), nullptr) < 0)),
    P("snprintf(NULL, n, ..)", is(rcutils_snprintf(nullptr, 1 + draw_small(0, 60), "abc") < 0)),
    P("snprintf(buffer, 0, ..)", is(rcutils_snprintf(buf, 0, "abc") < 0)),
    P("vsnprintf(.., format NULL)", is(vsn(buf, draw_small(0, 60), nullptr) < 0)),
    P("vsnprintf(NULL, n, ..)", is(vsn(nullptr, 1 + draw_small(0, 60), "abc") < 0)),
    P("split(.., NULL)", want(rcutils_split(text.c_str(), 'a', o.al, nullptr), {INV})),
    P("qsort(.., no comparison)", want(rcutils_qsort(&iv, draw_small(0, 1), sizeof iv, nullptr), {INV})),
    P("qsort(NULL, several, ..)", want(rcutils_qsort(nullptr, 2 + draw_small(0, 5), sizeof iv, cmp_int), {INV})),
    P("system_time_now(NULL)", want(rcutils_system_time_now(nullptr), {INV})),
    P("steady_time_now(NULL)", want(rcutils_steady_time_now(nullptr), {INV})),
    P("time_point_value_as_nanoseconds_string(NULL, ..)", want(rcutils_time_point_value_as_nanoseconds_string(nullptr, buf, draw_small(0, 60)), {INV})),
    P("time_point_value_as_nanoseconds_string(.., NULL, ..)", want(rcutils_time_point_value_as_nanoseconds_string(&tp, nullptr, draw_small(0, 60)), {INV})),
    P("time_point_value_as_seconds_string(NULL, ..)", want(rcutils_time_point_value_as_seconds_string(nullptr, buf, draw_small(0, 60)), {INV})),
    P("time_point_value_as_seconds_string(.., NULL, ..)", want(rcutils_time_point_value_as_seconds_string(&tp, nullptr, draw_small(0, 60)), {INV})),
    P("time_point_value_as_date_string(NULL, ..)", want(rcutils_time_point_value_as_date_string(nullptr, buf, draw_small(0, 60)), {INV})),
    P("time_point_value_as_date_string(.., NULL, ..)", want(rcutils_time_point_value_as_date_string(&tp, nullptr, draw_small(0, 60)), {INV})),
    P("get_executable_name(allocator incomplete)", is(!rcutils_get_executable_name(bad), true)),
    // shared libraries
    P("load_shared_library(NULL, ..)", want(rcutils_load_shared_library(nullptr, "libc.so.6", o.al), {INV})),
    P("load_shared_library(.., NULL, ..)", want(rcutils_load_shared_library(&o.lib, nullptr, o.al), {INV})),
    P("load_shared_library(.., allocator incomplete)", want(rcutils_load_shared_library(&o.lib, "libc.so.6", bad), {INV})),
    P("get_symbol(NULL, ..)", is(!rcutils_get_symbol(nullptr, "malloc"), true)),
    P("get_symbol(not loaded, ..)", is(!rcutils_get_symbol(&o.lib, "malloc"), true)),
    P("has_symbol(NULL, ..)", is(!rcutils_has_symbol(nullptr, "malloc"))),
    P("has_symbol(not loaded, ..)", is(!rcutils_has_symbol(&o.lib, "malloc"))),
    P("unload_shared_library(NULL)", want(rcutils_unload_shared_library(nullptr), {INV})),
    P("unload_shared_library(not loaded)", want(rcutils_unload_shared_library(&o.lib), {INV})),
    P("is_shared_library_loaded(not loaded)", is(!rcutils_is_shared_library_loaded(&o.lib))),
    P("get_platform_library_name(NULL, ..)", want(rcutils_get_platform_library_name(nullptr, buf, draw_small(0, 60), ovw), {INV})),
    P("get_platform_library_name(.., NULL, ..)", want(rcutils_get_platform_library_name("x", nullptr, draw_small(0, 60), ovw), {INV})),
    // allocator, logging, error state
    P("allocator_is_valid(incomplete)", is(!rcutils_allocator_is_valid(&bad))),
    P("allocator_is_valid(NULL)", is(!rcutils_allocator_is_valid(nullptr))),
    P("reallocf(.., allocator incomplete)", is(!rcutils_reallocf(o.ca.buffer, 1 + draw_small(0, 99), &bad))),
    P("reallocf(.., allocator NULL)", is(!rcutils_reallocf(o.ca.buffer, 1 + draw_small(0, 99), nullptr))),
    P("logging_severity_level_from_string(NULL, ..)", want(rcutils_logging_severity_level_from_string(nullptr, o.al, &res), {INV})),
    P("logging_severity_level_from_string(.., allocator incomplete, ..)", want(rcutils_logging_severity_level_from_string("INFO", bad, &res), {INV})),
    P("logging_severity_level_from_string(.., NULL)", want(rcutils_logging_severity_level_from_string("INFO", o.al, nullptr), {INV})),
    P("logging_initialize_with_allocator(incomplete)", rcutils_logging_shutdown(); want(rcutils_logging_initialize_with_allocator(bad), {INV}); is(!g_rcutils_logging_initialized, true)),
    P("logging_set_logger_level(NULL, ..)", rcutils_logging_shutdown(); bool ini = rcutils_logging_initialize_with_allocator(o.al) == 0; rcutils_ret_t r = rcutils_logging_set_logger_level(nullptr, RCUTILS_LOG_SEVERITY_INFO);
      bool msg = rc::error_is_set(); is(ini, true); want(r, {INV}); CHECK(msg, "no error message"); rcutils_logging_shutdown()),
    P("logging_set_logger_level(.., no such level)", rcutils_logging_shutdown(); bool ini = rcutils_logging_initialize_with_allocator(o.al) == 0;
      static const int no[] = {51, 52, 60, 100, -1, -10, 1, 5, 9, 11, 49, INT_MAX, INT_MIN}; rcutils_ret_t r = rcutils_logging_set_logger_level("x", no[draw_plain(0, sizeof no / sizeof *no - 1)]);
      bool msg = rc::error_is_set(); is(ini, true); want(r, {INV}); CHECK(msg, "no error message"); CHECK(rcutils_logging_get_logger_level("x") == 0, "a refused level was set"); rcutils_logging_shutdown()),
    P("logging_get_logger_level(NULL)", rcutils_logging_shutdown(); bool ini = rcutils_logging_initialize_with_allocator(o.al) == 0; int a = rcutils_logging_get_logger_level(nullptr), b = rcutils_logging_get_logger_leveln(nullptr, draw_small(0, 9)),
      c = rcutils_logging_get_logger_effective_level(nullptr); is(ini && a == -1 && b == -1 && c == -1); rcutils_logging_shutdown()),
  };
#undef P
  std::set<size_t> used;
  size_t n = draw_plain(1, 8);
  for (size_t i = 0; i < n; i++) {
    size_t at = draw_plain(0, tab.size() - 1);
    new_bad();
    key = (int)draw_small(0, 9); text = str_of("ab/~", 0, 4); ovw = chance(1, 2);
    nl = rcutils_get_zero_initialized_array_list(); nm = rcutils_get_zero_initialized_hash_map(); ns = rcutils_get_zero_initialized_string_map();
    nc = rcutils_get_zero_initialized_char_array(); nu = rcutils_get_zero_initialized_uint8_array(); na = rcutils_get_zero_initialized_string_array();
    cbad = o.ca; cbad.allocator = bad; ubad = o.ua; ubad.allocator = bad; sbad = o.sa; sbad.allocator = bad;
    it.entry_name = "x"; it.state = nullptr; it.allocator = o.al;
    ov = 1234; zv = 4321; res = 777; sz = 99; ev = "?"; memset(buf, '#', sizeof buf);
    bool before = chance(1, 4);
    rc::clear_error();
    if (before) {RCUTILS_SET_ERROR_MSG("an earlier error");}
    uint64_t c0 = TA.n_calls, f0 = TA.n_free;
    g_name = tab[at].name; g_msg = false;
    bool logging = strstr(g_name, "logging_set") || strstr(g_name, "logging_get");
    tab[at].run();
    CHECK(logging || strstr(g_name, "no directory") || (TA.n_calls == c0 && TA.n_free == f0), "%s used the allocator", g_name);
    // Not every refusal of an allocator leaves a message.
    bool quiet = (strstr(g_name, "allocator") || strstr(g_name, "array_fini(unin") || strstr(g_name, "uint8_array_resize(unin")) &&
      !strstr(g_name, "string_map") && !strstr(g_name, "string_array") && !strstr(g_name, "char_array") && !strstr(g_name, "dir_iter") &&
      !strstr(g_name, "executable") && !strstr(g_name, "severity") && !strstr(g_name, "logging");
    if (g_msg && !logging && !quiet) {
      CHECK(rc::error_is_set() && !(before && !strcmp(rcutils_get_error_state()->message, "an earlier error")), "%s set no error message", g_name);
    }
    CHECK(ov == 1234 && zv == 4321, "%s wrote a result", g_name);
    CHECK(res == 777, "%s wrote a result", g_name);
    for (char k : buf) {CHECK(k == '#', "%s wrote to the buffer", g_name);}
    rc::clear_error();
    o.verify(g_name);
    used.insert(at);
  }
  if (used.size() >= 3) {nontrivial();}
  rcutils_logging_shutdown();
  o.destroy();
  TA.expect_empty("after the case");
  A = nullptr;
}
}
