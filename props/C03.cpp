#include "hm.h"
#include <algorithm>
#include "wildcmp.h"
// BUILD wrap: strcmp
extern "C" {
WILD2(strcmp)
}
using namespace pbt;
using namespace hm;
namespace pbt
{
const char * const kPropertyId = "C03";
const char * const kRule =
  "a case builds a hash map by a generated history of sets and unsets (as in C02) and iterates it completely at several "
  "points, with separate or aliased key buffers, and from arbitrary present/absent keys; every walk is compared with "
  "the key set of a model map; non-trivial: some complete walk visited at least 3 entries after a removal or a growth";
const Budget kBudget = {50000, 2000000, 300000};
void property_setup() {hm::setup();}

// a second map, walked step by step along with the first
struct Twin
{
  rcutils_hash_map_t h = rcutils_get_zero_initialized_hash_map(); uint32_t n = 0, at = 0; std::vector<char> seen; bool on = false, fresh = true;
  static size_t hash(const void * k) {return *(const uint32_t *)k * 2654435761u;}
  static int cmp(const void * a, const void * b) {return memcmp(a, b, 4);}
  void make(rcutils_allocator_t * al, uint32_t entries)
  {
    on = true; n = entries;
    rcutils_ret_t r = rcutils_hash_map_init(&h, 1 + n / 4, 4, 4, hash, cmp, al);
    CHECK(r == RCUTILS_RET_OK, "init of the second map returned %s", rc::ret_name(r));
    for (uint32_t i = 0; i < n; i++) {uint32_t v = ~i; r = rcutils_hash_map_set(&h, &i, &v); CHECK(r == RCUTILS_RET_OK, "set in the second map returned %s", rc::ret_name(r));}
  }
  void step()
  {
    if (!on) {return;}
    if (fresh) {seen.assign(n, 0);}
    uint32_t k = at, v = 0;
    rcutils_ret_t r = rcutils_hash_map_get_next_key_and_data(&h, fresh ? nullptr : &at, &k, &v);
    if (r == RCUTILS_RET_HASH_MAP_NO_MORE_ENTRIES) {
      for (uint32_t i = 0; i < n; i++) {CHECK(seen[i], "walking the second map along did not give its key %u", i);}
      fresh = true; return;
    }
    CHECK(r == RCUTILS_RET_OK, "a step in the second map returned %s", rc::ret_name(r));
    CHECK(k < n && !seen[k] && v == ~k, "walking the second map along gave %u, %u", k, v);
    seen[k] = 1; at = k; fresh = false;
  }
};
static Twin * twin;

// gives the keys in the order they came; stops after limit of them
static std::vector<std::string> walk(const Map & M, const rcutils_hash_map_t * h, bool alias, const std::string * from, size_t limit = SIZE_MAX)
{
  std::vector<std::string> order;
  std::map<std::string, int> seen;
  rc::Exact prev(std::string(M.ks, 'p'), false), key(std::string(M.ks, 'q'), false), data(std::string(M.ds, 'd'), false);
  const void * pk = nullptr;
  if (from) {memcpy(prev.p, from->data(), M.ks); pk = prev.p;}
  size_t steps = 0;
  for (;;) {
    if (alias && pk) {memcpy(key.p, pk, M.ks); pk = key.p;}
    rcutils_ret_t r = rcutils_hash_map_get_next_key_and_data(h, pk, key.p, data.p);
    if (twin) {twin->step();}
    if (r == RCUTILS_RET_HASH_MAP_NO_MORE_ENTRIES) {break;}
    CHECK(r == RCUTILS_RET_OK, "iteration step %zu returned %s", steps, rc::ret_name(r));
    CHECK(++steps <= M.m.size(), "the iteration gave more than the %zu entries of the map", M.m.size());
    std::string c = M.canon_raw(key.p);
    auto it = M.m.find(c);
    CHECK(it != M.m.end(), "the iteration gave %s, which is not a key of the map", quote(c).c_str());
    CHECK(!seen[c]++, "the iteration gave key %s twice", quote(c).c_str());
    CHECK(!memcmp(data.p, it->second.val.data(), M.ds), "the iteration gave the wrong value for key %s", quote(c).c_str());
    order.push_back(c);
    memcpy(prev.p, key.p, M.ks); pk = prev.p;
    if (steps >= limit) {return order;}
  }
  if (!from) {CHECK(steps == M.m.size(), "the iteration gave %zu of the %zu entries", steps, M.m.size());}
  return order;
}
// what follows key from in a walk
static std::vector<std::string> after(const std::vector<std::string> & o, const std::string & from)
{
  auto i = std::find(o.begin(), o.end(), from);
  CHECK(i != o.end(), "a walk did not give the key %s", quote(from).c_str());
  return std::vector<std::string>(i + 1, o.end());
}

void property_case()
{
  rc::clear_error();
  rc::TrackAlloc A;
  A.limit = 96u << 20;
  rcutils_allocator_t al = A.get();
  static unsigned n_big; if (rarely(1500, 3, n_big)) {
    Big b(&al, (uint32_t)draw_plain(20000, 140000));
    b.walk();
    b.fini(); A.expect_empty("after a large map was finalised");
    nontrivial(); return;
  }
  Map M; make(M);
  M.cap0 = req_capacity();
  rcutils_ret_t r = do_init(M, &al, M.cap0);
  CHECK(r == RCUTILS_RET_OK, "init returned %s", rc::ret_name(r));
  bool rem = false, grew = false, good = false;
  Twin T; rc::TrackAlloc B; rcutils_allocator_t bl = B.get(); twin = nullptr;
  if (chance(1, 6)) {T.make(&bl, (uint32_t)draw_small(0, 40)); twin = &T; say("walks go along with one of a map of %u keys", T.n); label("two walks at once");}
  std::string held;
  unsigned walks = 1 + (unsigned)draw_small(0, 4);
  for (unsigned w = 0; w < walks; w++) {
    unsigned avg = chance(1, 6) ? 120 : 15;
    if (M.pool.size() > 300) {
      size_t upto = draw_plain(0, M.pool.size() - 1); uint64_t salt = draw_plain(0, 255);
      say("set the first %zu keys", upto);
      for (size_t j = 0; j < upto; j++) {
        rc::Exact kj(M.raw(j, 0), false);
        std::string v(M.ds, 0); for (size_t b = 0; b < M.ds; b++) {v[b] = (char)mix(salt + j, b);}
        rc::Exact e(v, false);
        r = rcutils_hash_map_set(&M.h, kj.p, e.p);
        CHECK(r == RCUTILS_RET_OK, "set returned %s", rc::ret_name(r));
        M.m[M.canon_of(j)] = {M.raw(j, 0), v};
      }
    }
    while (more(avg)) {
      size_t i = draw_plain(0, M.pool.size() - 1); unsigned var = (unsigned)draw_plain(0, 1);
      rc::Exact k(M.raw(i, var), false);
      std::string ck = M.canon_of(i);
      if (chance(3, 10)) {
        r = rcutils_hash_map_unset(&M.h, k.p);
        say("unset(%s) -> %s", quote(M.pool[i]).c_str(), rc::ret_name(r));
        rem |= M.m.erase(ck) != 0;
      } else {
        std::string v = gen_val(M); rc::Exact e(v, false);
        if (chance(1, 12)) {A.arm(draw_small(0, 8), chance(1, 3));}
        r = rcutils_hash_map_set(&M.h, k.p, e.p);
        say("set(%s, %s) -> %s", quote(M.pool[i]).c_str(), hex(v.data(), v.size()).c_str(), rc::ret_name(r));
        if (r == RCUTILS_RET_OK) {M.m[ck] = {M.raw(i, var), v};} else {CHECK(A.n_failed, "set returned %s", rc::ret_name(r));}
        A.disarm();
      }
      rc::clear_error();
    }
    size_t c = 0; rcutils_hash_map_get_capacity(&M.h, &c);
    if (c > round_up(M.cap0)) {grew = true;}
    uint64_t calls0 = A.n_calls;
    say("walk over %zu entries", M.m.size());
    bool alias = chance(1, 2);
    // a walk that was under way when the map changed may be taken up again
    std::vector<std::string> rest; bool resumed = false;
    if (!held.empty() && M.m.count(M.canon_raw(held.data()))) {rest = walk(M, &M.h, alias, &held); resumed = true;}
    std::vector<std::string> order = walk(M, &M.h, alias, nullptr);
    if (resumed) {
      CHECK(rest == after(order, M.canon_raw(held.data())), "continuing a walk from %s after a change did not give what follows it", quote(held).c_str());
      label("a walk taken up after a change");
    }
    if (M.m.size() >= 3 && (rem || grew)) {good = true;}
    // start at an arbitrary key
    for (int t = 0; t < 3; t++) {
      size_t i = draw_plain(0, M.pool.size() - 1);
      std::string k = M.raw(i, (unsigned)draw_plain(0, 1));
      if (M.m.count(M.canon_of(i))) {
        CHECK(walk(M, &M.h, chance(1, 2), &k) == after(order, M.canon_of(i)), "continuing from %s did not give what follows it in the whole walk", quote(k).c_str());
      } else {
        rc::Exact p(k, false), o(std::string(M.ks, 'x'), false), d(std::string(M.ds, 'y'), false);
        r = rcutils_hash_map_get_next_key_and_data(&M.h, p.p, o.p, d.p);
        CHECK(r == RCUTILS_RET_NOT_FOUND, "iteration from an absent key returned %s", rc::ret_name(r));
      }
    }
    held.clear();
    if (!order.empty() && chance(1, 2)) {
      std::vector<std::string> part = walk(M, &M.h, chance(1, 2), nullptr, draw_plain(1, order.size()));
      held = M.m[part.back()].key;
    }
    CHECK(A.n_calls == calls0, "iterating allocated memory");
    rc::clear_error();
  }
  twin = nullptr;
  if (T.on) {r = rcutils_hash_map_fini(&T.h); CHECK(r == RCUTILS_RET_OK, "fini of the second map returned %s", rc::ret_name(r));}
  r = rcutils_hash_map_fini(&M.h);
  CHECK(r == RCUTILS_RET_OK, "fini returned %s", rc::ret_name(r));
  if (grew) {label("grew");}
  if (rem) {label("removed");}
  if (good) {nontrivial();}
}
}  // namespace pbt
