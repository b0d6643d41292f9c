#include "rc.h"
#include "rcutils/types/string_map.h"
#include "wildcmp.h"
// BUILD wrap: strcmp strncmp
extern "C" {
WILD2(strcmp)
WILD3(strncmp)
}
using namespace pbt;
namespace pbt
{
const char * const kPropertyId = "C04";
const char * const kRule =
  "a case is a generated history of set/set_no_resize/unset/reserve/clear/copy/get/getn/existsn/next_key calls over two "
  "string maps (keys that are prefixes of each other, empty keys and values, non-terminated length-delimited keys, values "
  "taken from the map itself, optional allocation failures), compared with std::map after every call; non-trivial: at "
  "least 3 keys held at once and a removal followed by a further set or reserve, a copy of a non-empty map, or an "
  "injected failure";
const Budget kBudget = {90000, 2500000, 300000};
void property_setup() {}

struct M
{
  rcutils_string_map_t h;
  bool init = false;
  size_t cap = 0;
  std::map<std::string, std::string> m;
  std::map<std::string, std::pair<const char *, std::string>> held;   // value pointers promised to stay valid
};

static void check_map(M & x, int k, const char * when, bool full)
{
  size_t n = 99, c = 99;
  rcutils_ret_t r = rcutils_string_map_get_size(&x.h, &n);
  CHECK(r == RCUTILS_RET_OK && n == x.m.size(), "%s: map %d get_size: %s, %zu; expected %zu", when, k, rc::ret_name(r), n, x.m.size());
  r = rcutils_string_map_get_capacity(&x.h, &c);
  CHECK(r == RCUTILS_RET_OK && c == x.cap, "%s: map %d get_capacity: %s, %zu; expected %zu", when, k, rc::ret_name(r), c, x.cap);
  for (auto & e : x.held) {
    CHECK(!strcmp(e.second.first, e.second.second.c_str()), "%s: map %d: the value handed out for %s changed without an update",
      when, k, quote(e.first).c_str());
  }
  if (!full) {return;}
  std::map<std::string, int> seen; size_t steps = 0;
  const char * key = rcutils_string_map_get_next_key(&x.h, nullptr);
  while (key) {
    CHECK(++steps <= x.m.size(), "%s: map %d: iteration gives more keys than the map holds", when, k);
    auto it = x.m.find(key);
    CHECK(it != x.m.end(), "%s: map %d: iteration gives unknown key %s", when, k, quote(std::string(key)).c_str());
    CHECK(!seen[key]++, "%s: map %d: iteration gives key %s twice", when, k, quote(std::string(key)).c_str());
    const char * v = rcutils_string_map_get(&x.h, key);
    CHECK(v && it->second == v, "%s: map %d: get(%s) = %s, expected %s", when, k, quote(std::string(key)).c_str(),
      v ? quote(std::string(v)).c_str() : "NULL", quote(it->second).c_str());
    key = rcutils_string_map_get_next_key(&x.h, key);
  }
  CHECK(steps == x.m.size(), "%s: map %d: iteration gives %zu of %zu keys", when, k, steps, x.m.size());
}
static std::string gen_key(const std::vector<std::string> & pool)
{
  return pick(pool);
}

// the key may be given as the pointer under which the map itself keeps it, as it is while iterating
static const char * own_key(M & m, const std::string & key, const rc::Exact & ek)
{
  if (!m.m.count(key) || !chance(1, 6)) {return ek.p;}
  const char * p = nullptr;
  while ((p = rcutils_string_map_get_next_key(&m.h, p))) {
    if (key == p) {label("a key the map handed out"); return p;}
  }
  CHECK(false, "iteration does not show the present key %s", quote(key).c_str());
  return ek.p;
}
// a key given with a length beyond 32 bits is none of the short ones it starts with
static void vast()
{
  rc::TrackAlloc A; rcutils_allocator_t al = A.get(); label("gigabytes");
  rcutils_string_map_t m = rcutils_get_zero_initialized_string_map();
  CHECK(rcutils_string_map_init(&m, draw_plain(0, 3), al) == RCUTILS_RET_OK, "init failed");
  size_t n = ((size_t)1 << draw_plain(31, 33)) + draw_plain(0, 20);
  for (size_t i = 0; i < 21; i++) {CHECK(rcutils_string_map_set(&m, std::string(i, 'k').c_str(), "v") == RCUTILS_RET_OK, "set failed");}
  rc::Vast v(n, 'k', true);
  say("a key of %zu bytes", n);
  CHECK(!rcutils_string_map_getn(&m, v, n) && !rcutils_string_map_key_existsn(&m, v, n), "a key of %zu bytes is found among ones of up to 20", n);
  CHECK(rcutils_string_map_fini(&m) == RCUTILS_RET_OK, "fini failed");
}
void property_case()
{
  rc::clear_error();
  static unsigned n_vast; if (seldom(300, 20, n_vast)) {vast(); return;}
  rc::TrackAlloc A;
  rcutils_allocator_t al = A.get();
  std::vector<std::string> pool;
  size_t np = 2 + draw_small(0, 30);
  std::string stem = str_of("key", 0, 5);
  if (chance(1, 10)) {
    size_t n = draw_edge(1, 700); uint64_t salt = draw_plain(0, 255);
    for (size_t b = 0; b < n; b++) {stem.push_back((char)('a' + mix(salt, b) % 26));}
    label("keys with a long common start");
  }
  for (size_t i = 0; i < np; i++) {
    switch (weighted({4, 3, 2, 1, 2})) {
      case 0: pool.push_back(stem + str_of("ab", 0, 3)); break;
      case 1: pool.push_back(str_of("ab", 0, 4)); break;
      case 2: pool.push_back(cstr(20)); break;
      case 3: pool.push_back(""); break;
      default: pool.push_back(pool.empty() ? stem : pool.back() + (char)('a' + i % 26)); break;
    }
  }
  for (auto & s : pool) {s = stretch(s, 1500, 140000);}
  M x[2];
  for (auto & m : x) {m.h = rcutils_get_zero_initialized_string_map();}
  bool faults = chance(1, 4);
  bool removed = false, rem_then = false, copied = false, inj = false; size_t most = 0;
  unsigned avg = chance(1, 8) ? 150 : 30;
  while (more(avg)) {
    int k = (int)chance(1, 3);
    M & m = x[k];
    size_t n;
    if (!m.init) {
      if (chance(1, 5)) {
        rc::Exact key(gen_key(pool));
        rcutils_ret_t r = RCUTILS_RET_STRING_MAP_INVALID;
        const void * p = nullptr; bool b = false;
        switch (draw_plain(0, 10)) {
          case 0: r = rcutils_string_map_set(&m.h, key, key); break;
          case 1: r = rcutils_string_map_set_no_resize(&m.h, key, key); break;
          case 2: r = rcutils_string_map_unset(&m.h, key); break;
          case 3: r = rcutils_string_map_reserve(&m.h, 3); break;
          case 4: r = rcutils_string_map_clear(&m.h); break;
          case 5: r = rcutils_string_map_get_size(&m.h, &n); break;
          case 6: r = rcutils_string_map_get_capacity(&m.h, &n); break;
          case 7: p = rcutils_string_map_get(&m.h, key); break;
          case 8: p = rcutils_string_map_get_next_key(&m.h, nullptr); break;
          case 9: b = rcutils_string_map_key_exists(&m.h, key); break;
          default: if (x[1 - k].init) {r = chance(1, 2) ? rcutils_string_map_copy(&m.h, &x[1 - k].h) : rcutils_string_map_copy(&x[1 - k].h, &m.h);} break;
        }
        CHECK(r == RCUTILS_RET_STRING_MAP_INVALID && !p && !b, "an uninitialised map was not refused: %s", rc::ret_name(r));
        rc::clear_error();
        continue;
      }
      size_t cap = draw_small(0, 40);
      if (faults && chance(1, 4)) {A.arm(draw_small(0, 1), chance(1, 3));}
      rcutils_ret_t r = rcutils_string_map_init(&m.h, cap, al);
      say("init(map %d, %zu) -> %s", k, cap, rc::ret_name(r));
      if (A.n_failed) {
        CHECK(r == RCUTILS_RET_BAD_ALLOC && !m.h.impl, "init with a failed allocation returned %s", rc::ret_name(r));
        inj = true;
      } else {
        CHECK(r == RCUTILS_RET_OK, "init returned %s", rc::ret_name(r));
        m.init = true; m.cap = cap; m.m.clear(); m.held.clear();
        check_map(m, k, "after init", true);
      }
      A.disarm(); rc::clear_error();
      continue;
    }
    static unsigned n_many; if (rarely(6000, 30, n_many)) {   // many keys at once
      size_t more_keys = draw_edge(1, 400);
      say("set %zu keys of map %d", more_keys, k);
      for (size_t i = 0; i < more_keys; i++) {
        std::string key = "k" + std::to_string(i), v = std::to_string(i * 7);
        rc::Exact ek(key), ev(v);
        rcutils_ret_t r = rcutils_string_map_set(&m.h, ek, ev);
        CHECK(r == RCUTILS_RET_OK, "set returned %s", rc::ret_name(r));
        m.m[key] = v; m.held.erase(key);
      }
      CHECK(rcutils_string_map_get_capacity(&m.h, &m.cap) == RCUTILS_RET_OK && m.cap >= m.m.size(), "%zu keys with capacity %zu", m.m.size(), m.cap);
      check_map(m, k, "after many sets", true);
      label("hundreds of keys");
      continue;
    }
    std::string key = gen_key(pool);
    bool present = m.m.count(key);
    if (faults && chance(1, 3)) {A.arm(draw_small(0, 3), chance(1, 3));}
    rcutils_ret_t r; uint64_t calls0 = A.n_calls;
    switch (weighted({10, 4, 5, 3, 1, 2, 3, 4, 1, 1})) {
      case 0: case 1: {
          bool nr = false; (void)nr;
          bool noresize = chance(1, 3);
          rc::Exact ek(key);
          const char * kp = own_key(m, key, ek);
          std::string val; const char * vp = nullptr;
          // the value may be one that the map itself handed out
          if (chance(1, 8) && !m.m.empty()) {
            auto it = m.m.begin(); std::advance(it, draw_plain(0, m.m.size() - 1));
            val = it->second; vp = rcutils_string_map_get(&m.h, it->first.c_str());
            CHECK(vp, "get of a present key gave NULL");
          } else {
            val = stretch(chance(1, 2) ? cstr(16) : str_of("v", 0, 3), 400, 140000);
          }
          rc::Exact ev(val);
          if (!vp) {vp = ev;}
          bool fullmap = m.m.size() == m.cap;
          r = noresize ? rcutils_string_map_set_no_resize(&m.h, kp, vp) : rcutils_string_map_set(&m.h, kp, vp);
          say("%s(map %d, %s%s, %s) -> %s", noresize ? "set_no_resize" : "set", k, kp != ek.p ? "own " : "", quote(key).c_str(), quote(val).c_str(), rc::ret_name(r));
          if (noresize && fullmap && !present) {
            CHECK(r == RCUTILS_RET_NOT_ENOUGH_SPACE, "set_no_resize of a new key in a full map returned %s", rc::ret_name(r));
          } else if (A.n_failed) {
            CHECK(r == RCUTILS_RET_BAD_ALLOC, "set with a failed allocation returned %s", rc::ret_name(r));
            inj = true;
          } else {
            CHECK(r == RCUTILS_RET_OK, "set returned %s", rc::ret_name(r));
          }
          size_t c = 0;
          CHECK(rcutils_string_map_get_capacity(&m.h, &c) == RCUTILS_RET_OK, "get_capacity failed");
          if (r == RCUTILS_RET_OK) {
            m.m[key] = val; m.held.erase(key);
            if (removed) {rem_then = true;}
          }
          if (!noresize && fullmap && !present) {CHECK(c >= m.cap, "set reduced the capacity"); m.cap = c;}   // may have grown
          CHECK(c >= m.m.size(), "%zu keys with capacity %zu", m.m.size(), c);
          break;
        }
      case 2: {
          rc::Exact ek(key);
          const char * kp = own_key(m, key, ek);
          r = rcutils_string_map_unset(&m.h, kp);
          say("unset(map %d, %s%s) -> %s", k, kp != ek.p ? "own " : "", quote(key).c_str(), rc::ret_name(r));
          CHECK(r == (present ? RCUTILS_RET_OK : RCUTILS_RET_STRING_KEY_NOT_FOUND), "unset of a%s key returned %s",
            present ? " present" : "n absent", rc::ret_name(r));
          m.m.erase(key); m.held.erase(key);
          if (present) {removed = true;}
          CHECK(A.n_calls == calls0, "unset allocated");
          break;
        }
      case 3: {
          size_t want = draw_small(0, 60);
          static unsigned n_res; bool many = rarely(400, 60, n_res), huge = !many && chance(1, 20);
          if (many) {want = draw_edge(0, 3000);}
          if (huge) {want = SIZE_MAX / 16 + draw_edge(0, SIZE_MAX - SIZE_MAX / 16);}
          r = rcutils_string_map_reserve(&m.h, want);
          say("reserve(map %d, %zu) -> %s", k, want, rc::ret_name(r));
          if (huge || A.n_failed) {
            CHECK(r == RCUTILS_RET_BAD_ALLOC, "reserve(%zu) returned %s", want, rc::ret_name(r));
            inj = inj || A.n_failed;
          } else {
            CHECK(r == RCUTILS_RET_OK, "reserve returned %s", rc::ret_name(r));
            m.cap = want > m.m.size() ? want : m.m.size();
            if (removed) {rem_then = true;}
          }
          break;
        }
      case 4: {
          if (!chance(1, 3)) {A.disarm(); continue;}
          r = rcutils_string_map_clear(&m.h);
          say("clear(map %d) -> %s", k, rc::ret_name(r));
          CHECK(r == RCUTILS_RET_OK, "clear returned %s", rc::ret_name(r));
          m.m.clear(); m.held.clear();
          break;
        }
      case 5: {
          M & o = x[1 - k];
          if (!o.init) {A.disarm(); continue;}
          bool self = chance(1, 10);
          M & d = self ? m : o;
          r = rcutils_string_map_copy(&m.h, &d.h);
          say("copy(map %d -> map %d) -> %s", k, self ? k : 1 - k, rc::ret_name(r));
          size_t c = 0;
          CHECK(rcutils_string_map_get_capacity(&d.h, &c) == RCUTILS_RET_OK, "get_capacity failed");
          CHECK(c >= d.cap, "copy reduced the capacity");
          d.cap = c;
          if (A.n_failed) {
            CHECK(r == RCUTILS_RET_BAD_ALLOC, "copy with a failed allocation returned %s", rc::ret_name(r));
            inj = true;
            for (auto & e : m.m) {   // a prefix of the pairs may have arrived
              const char * v = rcutils_string_map_get(&d.h, e.first.c_str());
              auto it = d.m.find(e.first);
              if (v && e.second == v) {d.m[e.first] = v; d.held.erase(e.first);} else {
                CHECK(it == d.m.end() ? !v : v && it->second == v, "after a failed copy, key %s has neither its old nor its new state",
                  quote(e.first).c_str());
              }
            }
          } else {
            CHECK(r == RCUTILS_RET_OK, "copy returned %s", rc::ret_name(r));
            for (auto & e : m.m) {d.m[e.first] = e.second; d.held.erase(e.first);}
            if (m.m.size() >= 3) {copied = true;}
          }
          A.disarm(); rc::clear_error();
          check_map(d, self ? k : 1 - k, "after copy", true);
          break;
        }
      case 6: {
          A.disarm();
          rc::Exact ek(key);
          const char * v = rcutils_string_map_get(&m.h, ek);
          bool ex = rcutils_string_map_key_exists(&m.h, ek);
          CHECK(ex == present, "key_exists(%s) = %d", quote(key).c_str(), ex);
          CHECK(present ? v && m.m[key] == v : !v, "get(%s) = %s", quote(key).c_str(), v ? quote(std::string(v)).c_str() : "NULL");
          if (v) {m.held[key] = {v, m.m[key]};}
          // a copy of a key is not an iteration position
          CHECK(!rcutils_string_map_get_next_key(&m.h, ek), "get_next_key accepted a copy of a key");
          break;
        }
      case 7: {
          A.disarm();
          // length-delimited lookup: only key[0..len) may matter, and nothing behind it may be read
          std::string whole = chance(1, 2) ? key : key + cstr(6);
          size_t len = draw_small(0, whole.size());
          std::string sub = whole.substr(0, len);
          if (chance(1, 3)) {sub = key; len = key.size();}
          bool term = chance(1, 2);
          rc::Exact e(term ? std::string(whole) : sub, term);
          if (term && whole.substr(0, len) != sub) {continue;}
          const char * v = rcutils_string_map_getn(&m.h, e, len);
          bool ex = rcutils_string_map_key_existsn(&m.h, e, len);
          auto it = m.m.find(sub);
          say("getn(map %d, %s, %zu) -> %s", k, quote(e.p, e.n).c_str(), len, v ? quote(std::string(v)).c_str() : "NULL");
          CHECK(ex == (it != m.m.end()), "key_existsn(%s, %zu) = %d, expected %d", quote(e.p, e.n).c_str(), len, ex, it != m.m.end());
          CHECK(it != m.m.end() ? v && it->second == v : !v, "getn(%s, %zu) = %s", quote(e.p, e.n).c_str(), len,
            v ? quote(std::string(v)).c_str() : "NULL");
          break;
        }
      case 8: {
          A.disarm();
          rc::Exact ek(key);
          const void * p = nullptr; bool b = false; size_t nn;
          r = RCUTILS_RET_INVALID_ARGUMENT;
          switch (draw_plain(0, 14)) {
            case 0: r = rcutils_string_map_set(&m.h, nullptr, ek); break;
            case 1: r = rcutils_string_map_set(&m.h, ek, nullptr); break;
            case 2: r = rcutils_string_map_set_no_resize(&m.h, ek, nullptr); break;
            case 3: r = rcutils_string_map_unset(&m.h, nullptr); break;
            case 4: r = rcutils_string_map_get_size(&m.h, nullptr); break;
            case 5: r = rcutils_string_map_get_capacity(&m.h, nullptr); break;
            case 6: r = rcutils_string_map_set(nullptr, ek, ek); break;
            case 7: r = rcutils_string_map_reserve(nullptr, 1); break;
            case 8: p = rcutils_string_map_get(&m.h, nullptr); break;
            case 9: p = rcutils_string_map_getn(&m.h, nullptr, 2); break;
            case 10: b = rcutils_string_map_key_exists(&m.h, nullptr) || rcutils_string_map_key_exists(nullptr, ek); break;
            case 11: r = rcutils_string_map_copy(&m.h, nullptr); break;
            case 12: r = rcutils_string_map_fini(nullptr); break;
            case 13: r = rcutils_string_map_get_size(nullptr, &nn); break;
            default:
              r = rcutils_string_map_init(&m.h, 3, al);
              CHECK(r == RCUTILS_RET_STRING_MAP_ALREADY_INIT, "init of an initialised map returned %s", rc::ret_name(r));
              r = RCUTILS_RET_INVALID_ARGUMENT;
              break;
          }
          CHECK(r == RCUTILS_RET_INVALID_ARGUMENT && !p && !b, "an invalid argument gave %s", rc::ret_name(r));
          break;
        }
      default:
        if (!chance(1, 5)) {A.disarm(); continue;}
        r = rcutils_string_map_fini(&m.h);
        say("fini(map %d) -> %s", k, rc::ret_name(r));
        CHECK(r == RCUTILS_RET_OK && !m.h.impl, "fini returned %s", rc::ret_name(r));
        m.init = false; m.m.clear(); m.held.clear();
        r = rcutils_string_map_fini(&m.h);
        CHECK(r == RCUTILS_RET_OK, "fini of a zero-initialised map returned %s", rc::ret_name(r));
        break;
    }
    A.disarm(); rc::clear_error();
    if (m.init) {check_map(m, k, "after the call", true); if (m.m.size() > most) {most = m.m.size();}}
    if (x[1 - k].init) {check_map(x[1 - k], 1 - k, "after a call on the other map", false);}
  }
  A.disarm();
  for (int k = 0; k < 2; k++) {
    if (!x[k].init) {continue;}
    check_map(x[k], k, "at the end", true);
    rcutils_ret_t r = rcutils_string_map_fini(&x[k].h);
    CHECK(r == RCUTILS_RET_OK, "fini returned %s", rc::ret_name(r));
  }
  A.expect_empty("after both maps were finalised");
  if (rem_then) {label("removal-then-more");}
  if (copied) {label("copied");}
  if (inj) {label("alloc-failure");}
  if (most >= 3 && (rem_then || copied || inj)) {nontrivial();}
}
}  // namespace pbt
