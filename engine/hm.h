// hash_map against std::map; shared by C02 (lookups, sizes, capacity, failures) and C03 (iteration).
#ifndef HM_H_
#define HM_H_
#include "rc.h"
#include <cctype>
#include "rcutils/types/hash_map.h"
#include "rcutils/logging.h"
namespace hm
{
using namespace pbt;
inline size_t g_ks = 4;
inline int g_hash = 0;
inline int g_fold = 0;      // 0: memcmp keys; 1: keys equal when equal ignoring bit 0x20 of each byte
inline unsigned g_hash_calls = 0;

inline std::string canon(const void * p)
{
  std::string s((const char *)p, g_ks);
  if (g_fold) {for (auto & c : s) {c &= ~0x20;}}
  return s;
}
inline size_t hasher(const void * p)
{
  g_hash_calls++;
  std::string s = canon(p);
  uint64_t h = 14695981039346656037ull;
  for (unsigned char c : s) {h = (h ^ c) * 1099511628211ull;}
  switch (g_hash) {
    case 0: return (size_t)h;
    case 1: return 0;                                  // everything collides
    case 2: return (size_t)(h & 1) * SIZE_MAX;         // two hashes, 0 and all-ones
    case 3: return (size_t)h << 40;                    // equal low bits, different hashes
    case 4: return (size_t)(unsigned char)s[0];        // small
    case 5: return (size_t)h & 7;                      // eight buckets, shared hashes
    default: return (size_t)(unsigned char)s[0] | 0x8000000000000000ull;
  }
}
inline int cmp(const void * a, const void * b) {return canon(a).compare(canon(b));}

struct Val {std::string key, val;};

struct Map
{
  rcutils_hash_map_t h;
  bool strings = false;
  size_t ks = 4, ds = 4, cap0 = 1, lastcap = 0;
  int hash = 0, fold = 0;
  std::map<std::string, Val> m;           // canonical key -> stored
  std::vector<std::string> pool;          // candidate keys (raw bytes / string contents)
  std::vector<std::vector<char *>> ptrs;  // strings: several pointers per pool entry
  std::string canon_of(size_t i) const {return strings ? pool[i] : canon(pool[i].data());}
  // the bytes passed as key for pool entry i
  std::string raw(size_t i, unsigned variant) const
  {
    if (!strings) {
      std::string s = pool[i];
      if (fold && variant) {for (auto & c : s) {c ^= 0x20;}}
      return s;
    }
    char * p = ptrs[i][variant % ptrs[i].size()];
    return std::string((const char *)&p, sizeof p);
  }
  std::string canon_raw(const void * p) const
  {
    if (!strings) {return canon(p);}
    char * q; memcpy(&q, p, sizeof q); return std::string(q);
  }
  void use() const {g_ks = ks; g_hash = hash; g_fold = fold;}
  ~Map() {for (auto & v : ptrs) {for (char * p : v) {free(p);}}}
};

inline void make(Map & M)
{
  M.strings = chance(1, 4);
  size_t npool = 1 + draw_small(0, 60);
  if (chance(1, 6)) {npool += 100;}
  bool many = chance(1, 700);
  if (many) {npool += draw_edge(200, 3000); label("thousands of keys");}
  M.hash = (int)weighted({6, 2, 2, 2, 2, 2, 2});
  if (many && M.hash) {npool = std::min<size_t>(npool, 600);}     // walks and look-ups are linear in the keys of one bucket
  M.fold = M.strings ? 0 : chance(1, 5);
  M.ds = 1 + draw_small(0, 63);
  if (!many && chance(1, 250)) {M.ds = draw_edge(1, 70000); label("large values");}
  if (M.strings) {
    M.ks = sizeof(char *);
    // at times all keys start with the same text; "ab" and "bA" have the same hash, and so have texts made of them
    std::string stem; if (chance(1, 5)) {size_t n = draw_edge(0, 300); uint64_t salt = draw_plain(0, 255); for (size_t b = 0; b < n; b++) {stem.push_back((char)('a' + mix(salt, b) % 26));}}
    bool twins = chance(1, 4);
    for (size_t i = 0; i < npool; i++) {
      std::string s = twins && !many && chance(3, 4) ? std::string() : many ? "key" + std::to_string(i) : chance(1, 2) ? str_of("ab", 0, 6) : cstr(12);
      if (twins && !many && s.empty()) {
        size_t n = 1 + draw_small(0, 5);
        for (size_t b = 0; b < n; b++) {s += chance(1, 2) ? "ab" : "bA";}
        label("text keys with equal hashes");
      }
      if (chance(1, 2) && stem.size()) {s = chance(1, 3) ? s + stem + s : stem + s;}
      if (!many) {s = stretch(s, 500, 70000);}
      M.pool.push_back(s);
      std::vector<char *> v;
      for (int k = 0; k < 2; k++) {v.push_back(strdup(s.c_str()));}
      M.ptrs.push_back(v);
    }
  } else {
    M.ks = 1 + draw_small(0, 31);
    if (!many && chance(1, 250)) {M.ks = draw_edge(1, 5000); npool = std::min<size_t>(npool, 40); label("large keys");}
    if (many) {M.ks = std::max<size_t>(M.ks, 4);}
    for (size_t i = 0; i < npool; i++) {
      std::string s = many ? std::to_string(10000 + i) : M.ks > 300 ? blob(M.ks) : chance(1, 2) ? bytes(M.ks, M.ks) : std::string(M.ks - 1, 'k') + (char)i;
      s.resize(M.ks);
      if (many) {s[M.ks - 1] = (char)i; s[M.ks - 2] = (char)(i >> 8);}
      M.pool.push_back(s);
    }
  }
  M.h = rcutils_get_zero_initialized_hash_map();
  M.use();
}
inline size_t req_capacity()
{
  switch (weighted({6, 3, 1})) {
    case 0: return 1 + draw_small(0, 9);
    case 1: return 1 + draw_edge(0, 300);
    default: return 1 + draw_edge(0, chance(1, 1000) ? 300000 : 5000);
  }
}
// more entries than a 16-bit index could tell apart
struct Big
{
  rcutils_hash_map_t h = rcutils_get_zero_initialized_hash_map();
  uint32_t n, mul; std::vector<uint32_t> val;   // value of key i, 0: absent
  static size_t hash(const void * k) {uint32_t x; memcpy(&x, k, 4); return (size_t)x * 0x9E3779B97F4A7C15ull >> 13;}
  static size_t same(const void * k) {uint32_t x; memcpy(&x, k, 4); return x;}
  static int cmp(const void * a, const void * b) {return memcmp(a, b, 4);}
  uint32_t key(uint32_t i) const {return i * mul;}
  void set(uint32_t i, uint32_t v)
  {
    uint32_t k = key(i); rcutils_ret_t r = rcutils_hash_map_set(&h, &k, &v);
    CHECK(r == RCUTILS_RET_OK, "set number %u in a large map returned %s", i, rc::ret_name(r));
    val[i] = v;
  }
  void unset(uint32_t i)
  {
    uint32_t k = key(i); rcutils_ret_t r = rcutils_hash_map_unset(&h, &k);
    CHECK(r == RCUTILS_RET_OK || !val[i], "unset of key %u in a large map returned %s", i, rc::ret_name(r));
    rc::clear_error(); val[i] = 0;
  }
  Big(rcutils_allocator_t * al, uint32_t entries)
  : n(entries), mul(chance(1, 3) ? 1 : 2654435761u), val(n, 0)
  {
    bool spread = chance(1, 2); uint64_t salt = draw_plain(0, 255);
    rcutils_ret_t r = rcutils_hash_map_init(&h, 1 + draw_edge(0, 100000), 4, 4, spread ? hash : same, cmp, al);
    CHECK(r == RCUTILS_RET_OK, "init returned %s", rc::ret_name(r));
    say("a map of %u keys, times %u, hash %d", n, mul, spread);
    for (uint32_t i = 0; i < n; i++) {set(i, (uint32_t)mix(salt, i) | 1);}
    for (uint32_t i = 0; i < n; i++) {if (mix(salt + 1, i) % 3 == 0) {unset(i);} else if (mix(salt + 2, i) % 5 == 0) {set(i, i | 1);}}
    label("a map with tens of thousands of keys");
  }
  void verify() const
  {
    size_t have = 0, sz = 0, cap = 0;
    for (uint32_t i = 0; i < n; i++) {
      uint32_t k = key(i), v = 0; have += val[i] != 0;
      rcutils_ret_t r = rcutils_hash_map_get(&h, &k, &v);
      CHECK(val[i] ? r == RCUTILS_RET_OK && v == val[i] : r == RCUTILS_RET_NOT_FOUND, "get of key %u in a large map returned %s, %u, expected %u", i, rc::ret_name(r), v, val[i]);
      CHECK(rcutils_hash_map_key_exists(&h, &k) == (val[i] != 0), "key_exists of key %u in a large map", i);
    }
    rc::clear_error();
    CHECK(rcutils_hash_map_get_size(&h, &sz) == RCUTILS_RET_OK && sz == have, "a large map has size %zu, expected %zu", sz, have);
    CHECK(rcutils_hash_map_get_capacity(&h, &cap) == RCUTILS_RET_OK && cap >= have, "a large map of %zu keys has capacity %zu", have, cap);
  }
  void walk() const
  {
    std::map<uint32_t, uint32_t> index; std::vector<char> seen(n, 0); uint32_t k = 0, v = 0; size_t steps = 0, have = 0; rcutils_ret_t r;
    for (uint32_t i = 0; i < n; i++) {index[key(i)] = i; have += val[i] != 0;}
    while ((r = rcutils_hash_map_get_next_key_and_data(&h, steps ? &k : nullptr, &k, &v)) == RCUTILS_RET_OK) {
      auto it = index.find(k);
      CHECK(it != index.end() && val[it->second], "walking a large map gave %u, which is not a key", k);
      CHECK(!seen[it->second]++, "walking a large map gave key %u twice", k);
      CHECK(v == val[it->second], "walking a large map gave %u for key %u, expected %u", v, k, val[it->second]);
      steps++;
    }
    CHECK(r == RCUTILS_RET_HASH_MAP_NO_MORE_ENTRIES, "the end of walking a large map returned %s", rc::ret_name(r));
    CHECK(steps == have, "walking a large map gave %zu of %zu entries", steps, have);
    rc::clear_error();
  }
  void fini() {rcutils_ret_t r = rcutils_hash_map_fini(&h); CHECK(r == RCUTILS_RET_OK, "fini of a large map returned %s", rc::ret_name(r));}
};
inline size_t round_up(size_t v) {size_t p = 1; while (p < v) {p <<= 1;} return p;}
inline std::string gen_val(const Map & M) {return blob(M.ds);}

inline rcutils_ret_t do_init(Map & M, const rcutils_allocator_t * al, size_t cap)
{
  if (M.strings) {
    return rcutils_hash_map_init(&M.h, cap, M.ks, M.ds, rcutils_hash_map_string_hash_func,
             rcutils_hash_map_string_cmp_func, al);
  }
  return rcutils_hash_map_init(&M.h, cap, M.ks, M.ds, hasher, cmp, al);
}
inline void check_size(const Map & M, const char * when)
{
  size_t sz = 987;
  rcutils_ret_t r = rcutils_hash_map_get_size(&M.h, &sz);
  CHECK(r == RCUTILS_RET_OK && sz == M.m.size(), "%s: get_size gave %s, %zu; the map holds %zu keys", when,
    rc::ret_name(r), sz, M.m.size());
}
inline void check_lookup(const Map & M, size_t i, unsigned variant, const char * when)
{
  rc::Exact k(M.raw(i, variant), false), d(std::string(M.ds, '\x71'), false);
  auto it = M.m.find(M.canon_of(i));
  bool ex = rcutils_hash_map_key_exists(&M.h, k.p);
  CHECK(ex == (it != M.m.end()), "%s: key_exists(%s) = %d, expected %d", when, quote(M.pool[i]).c_str(), ex, it != M.m.end());
  rcutils_ret_t r = rcutils_hash_map_get(&M.h, k.p, d.p);
  if (it != M.m.end()) {
    CHECK(r == RCUTILS_RET_OK, "%s: get(%s) returned %s for a present key", when, quote(M.pool[i]).c_str(), rc::ret_name(r));
    CHECK(!memcmp(d.p, it->second.val.data(), M.ds), "%s: get(%s) gave %s, expected %s", when, quote(M.pool[i]).c_str(),
      hex(d.p, M.ds).c_str(), hex(it->second.val.data(), M.ds).c_str());
  } else {
    CHECK(r == RCUTILS_RET_NOT_FOUND, "%s: get(%s) returned %s for an absent key", when, quote(M.pool[i]).c_str(), rc::ret_name(r));
    for (size_t b = 0; b < M.ds; b++) {CHECK(d.p[b] == 0x71, "%s: get of an absent key wrote its output", when);}
  }
}
inline void check_capacity(Map & M, bool may_lag, const char * when)
{
  size_t c = 0;
  rcutils_ret_t r = rcutils_hash_map_get_capacity(&M.h, &c);
  CHECK(r == RCUTILS_RET_OK, "%s: get_capacity returned %s", when, rc::ret_name(r));
  CHECK(c && !(c & (c - 1)), "%s: capacity %zu is not a power of two", when, c);
  CHECK(c >= M.cap0, "%s: capacity %zu is below the requested %zu", when, c, M.cap0);
  CHECK(c >= M.lastcap, "%s: capacity went down from %zu to %zu", when, M.lastcap, c);
  if (!may_lag) {CHECK(c >= M.m.size(), "%s: %zu keys in a map of capacity %zu", when, M.m.size(), c);}
  M.lastcap = c;
}
inline void quiet(const rcutils_log_location_t *, int, const char *, rcutils_time_point_value_t, const char *, va_list *) {}
inline void setup()
{
  if (rcutils_logging_initialize() != RCUTILS_RET_OK) {rcutils_reset_error();}
  rcutils_logging_set_output_handler(quiet);
}
}  // namespace hm
#endif
