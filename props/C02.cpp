#include "hm.h"
#include "wildcmp.h"
// BUILD wrap: strcmp
extern "C" {
WILD2(strcmp)
}
using namespace pbt;
using namespace hm;
namespace pbt
{
const char * const kPropertyId = "C02";
const char * const kRule =
  "a case is a generated history of set/overwrite/unset/get/key_exists/fini/re-init calls over up to two hash maps (key "
  "size mostly 1..32, at times up to 5000, or string keys, value size mostly 1..64, at times up to 70000, at times thousands of keys, well-behaved and degenerate hash functions, optional equivalence "
  "key comparison, optional injected allocation failures) compared with std::map after every call; non-trivial: at "
  "least 3 distinct keys stored and an overwrite, a removal of a present key, a growth or an injected failure";
const Budget kBudget = {70000, 2500000, 300000};
void property_setup() {hm::setup();}

void property_case()
{
  rc::clear_error();
  rc::TrackAlloc A;
  A.limit = 96u << 20;
  rcutils_allocator_t al = A.get();
  static unsigned n_big; if (rarely(1500, 3, n_big)) {
    Big b(&al, (uint32_t)draw_plain(20000, 140000));
    b.verify();
    b.fini(); A.expect_empty("after a large map was finalised");
    nontrivial(); return;
  }
  int nm = 1 + chance(1, 4);
  std::vector<Map> ms(nm);
  std::vector<char> init(nm, 0), lag(nm, 0);
  for (auto & m : ms) {make(m);}
  bool faults = chance(1, 4);
  bool over = false, rem = false, grew = false, inj = false; size_t most = 0;
  unsigned avg = chance(1, 8) ? 200 : 30;
  while (more(avg)) {
    int x = (int)draw_plain(0, nm - 1);
    Map & M = ms[x]; M.use();
    if (!init[x]) {
      if (chance(1, 5)) {
        char b[512] = {0}; size_t n; rcutils_ret_t r;
        switch (draw_plain(0, 6)) {
          case 0: r = rcutils_hash_map_set(&M.h, b, b); break;
          case 1: r = rcutils_hash_map_unset(&M.h, b); break;
          case 2: r = rcutils_hash_map_get(&M.h, b, b + 256); break;
          case 3: r = rcutils_hash_map_get_size(&M.h, &n); break;
          case 4: r = rcutils_hash_map_get_capacity(&M.h, &n); break;
          case 5: r = rcutils_hash_map_fini(&M.h); break;
          default: r = rcutils_hash_map_key_exists(&M.h, b) ? RCUTILS_RET_OK : RCUTILS_RET_NOT_INITIALIZED;
        }
        CHECK(r == RCUTILS_RET_NOT_INITIALIZED, "operation on an uninitialised map returned %s", rc::ret_name(r));
        rc::clear_error();
        continue;
      }
      size_t cap = req_capacity();
      bool huge = chance(1, 25);
      if (huge) {cap = chance(1, 2) ? ((size_t)1 << draw_plain(30, 62)) + draw_small(0, 40) : (SIZE_MAX >> draw_plain(0, 20)) - draw_small(0, 40);}
      if (faults && chance(1, 4)) {A.arm(draw_small(0, 2), chance(1, 3));}
      rcutils_ret_t r = do_init(M, &al, cap);
      say("init(map %d, cap %zu, key %zu, data %zu, hash %d fold %d strings %d) -> %s", x, cap, M.ks, M.ds, M.hash, M.fold, M.strings, rc::ret_name(r));
      if (A.n_failed || huge) {
        CHECK(r == RCUTILS_RET_BAD_ALLOC, "init with a failed allocation returned %s", rc::ret_name(r));
        CHECK(!M.h.impl, "failed init left the map initialised");
      } else {
        CHECK(r == RCUTILS_RET_OK, "init returned %s", rc::ret_name(r));
        init[x] = 1; lag[x] = 0; M.cap0 = cap; M.lastcap = 0; M.m.clear();
        check_capacity(M, false, "after init");
        CHECK(M.lastcap == round_up(cap), "capacity after init(%zu) is %zu", cap, M.lastcap);
        check_size(M, "after init");
      }
      A.disarm(); rc::clear_error();
      continue;
    }
    size_t i = draw_plain(0, M.pool.size() - 1);
    unsigned var = (unsigned)draw_plain(0, 1);
    rc::Exact k(M.raw(i, var), false);
    std::string ck = M.canon_of(i);
    bool present = M.m.count(ck);
    if (chance(1, M.pool.size() > 300 ? 20 : 500)) {   // many keys at once
      size_t upto = draw_plain(0, M.pool.size() - 1), grow0 = M.lastcap;
      say("set or unset the first %zu keys of map %d", upto, x);
      bool del = chance(1, 3); uint64_t salt = draw_plain(0, 255);
      for (size_t j = 0; j < upto; j++) {
        rc::Exact kj(M.raw(j, var), false); std::string cj = M.canon_of(j);
        if (del && mix(salt, j) % 8) {
          rcutils_ret_t r = rcutils_hash_map_unset(&M.h, kj.p);
          CHECK(r == RCUTILS_RET_OK || !M.m.count(cj), "unset of a present key returned %s", rc::ret_name(r));
          M.m.erase(cj); rc::clear_error();
        } else if (!del) {
          std::string v(M.ds, 0); for (size_t b = 0; b < M.ds; b++) {v[b] = (char)mix(salt + j, b);}
          rc::Exact e(v, false);
          rcutils_ret_t r = rcutils_hash_map_set(&M.h, kj.p, e.p);
          CHECK(r == RCUTILS_RET_OK, "set returned %s", rc::ret_name(r));
          M.m[cj] = {M.raw(j, var), v};
        }
      }
      check_capacity(M, lag[x] || del, "after many sets");
      if (M.lastcap >= M.m.size()) {lag[x] = 0;}
      if (grow0 && M.lastcap > grow0) {grew = true;}
      check_size(M, "after many sets");
      for (size_t j = 0; j < M.pool.size(); j++) {check_lookup(M, j, 0, "after many sets");}
      continue;
    }
    if (faults && chance(1, 4)) {A.arm(draw_small(0, 8), chance(1, 3));}
    uint64_t calls0 = A.n_calls; size_t cap_before = M.lastcap;
    switch (weighted({10, 4, 4, 1, 1})) {
      case 0: {
          std::string v = gen_val(M); rc::Exact e(v, false);
          rcutils_ret_t r = rcutils_hash_map_set(&M.h, k.p, e.p);
          say("set(map %d, %s, %s) -> %s", x, quote(M.pool[i]).c_str(), hex(v.data(), v.size()).c_str(), rc::ret_name(r));
          if (r == RCUTILS_RET_OK) {
            M.m[ck] = {M.raw(i, var), v};
            if (present) {over = true;}
            if (A.n_failed) {lag[x] = 1; inj = true;}
          } else {
            CHECK(r == RCUTILS_RET_BAD_ALLOC && A.n_failed, "set returned %s", rc::ret_name(r));
            CHECK(!present, "overwriting a present key failed with %s", rc::ret_name(r));
            inj = true;
          }
          A.disarm(); rc::clear_error();
          check_capacity(M, lag[x], "after set");
          if (M.lastcap >= M.m.size()) {lag[x] = 0;}
          if (cap_before && M.lastcap > cap_before) {grew = true;}
          break;
        }
      case 1: {
          rcutils_ret_t r = rcutils_hash_map_unset(&M.h, k.p);
          say("unset(map %d, %s) -> %s", x, quote(M.pool[i]).c_str(), rc::ret_name(r));
          if (present) {
            CHECK(r == RCUTILS_RET_OK, "unset of a present key returned %s", rc::ret_name(r));
            M.m.erase(ck); rem = true;
          } else {
            CHECK(r == RCUTILS_RET_OK || r == RCUTILS_RET_STRING_KEY_NOT_FOUND, "unset of an absent key returned %s", rc::ret_name(r));
          }
          CHECK(A.n_calls == calls0, "unset allocated memory");
          A.disarm(); rc::clear_error();
          check_capacity(M, true, "after unset");
          CHECK(M.lastcap == cap_before, "unset changed the capacity from %zu to %zu", cap_before, M.lastcap);
          break;
        }
      case 2:
        check_lookup(M, i, var, "lookup");
        CHECK(A.n_calls == calls0, "a lookup allocated memory");
        break;
      case 3: {
          char b[512] = {0}; size_t n; rcutils_ret_t r; bool e = false;
          switch (draw_plain(0, 10)) {
            case 10:
              r = do_init(M, &al, 4);
              CHECK(r == RCUTILS_RET_STRING_MAP_ALREADY_INIT, "init of an initialised map returned %s", rc::ret_name(r));
              r = RCUTILS_RET_INVALID_ARGUMENT;
              break;
            case 0: r = rcutils_hash_map_set(&M.h, nullptr, b); break;
            case 1: r = rcutils_hash_map_set(&M.h, k.p, nullptr); break;
            case 2: r = rcutils_hash_map_unset(&M.h, nullptr); break;
            case 3: r = rcutils_hash_map_get(&M.h, nullptr, b); break;
            case 4: r = rcutils_hash_map_get(&M.h, k.p, nullptr); break;
            case 5: r = rcutils_hash_map_get_size(&M.h, nullptr); break;
            case 6: r = rcutils_hash_map_get_capacity(&M.h, nullptr); break;
            case 7: r = rcutils_hash_map_set(nullptr, k.p, b); break;
            case 8: r = rcutils_hash_map_get_size(nullptr, &n); break;
            default: e = rcutils_hash_map_key_exists(&M.h, nullptr) || rcutils_hash_map_key_exists(nullptr, k.p);
              r = RCUTILS_RET_INVALID_ARGUMENT; break;
          }
          CHECK(r == RCUTILS_RET_INVALID_ARGUMENT && !e, "a null argument gave %s, %d", rc::ret_name(r), e);
          rc::clear_error();
          break;
        }
      default:
        if (chance(1, 4)) {
          rcutils_ret_t r = rcutils_hash_map_fini(&M.h);
          say("fini(map %d) -> %s", x, rc::ret_name(r));
          CHECK(r == RCUTILS_RET_OK && !M.h.impl, "fini returned %s", rc::ret_name(r));
          init[x] = 0; M.m.clear();
        }
        break;
    }
    A.disarm();
    if (init[x]) {
      check_size(M, "after the call");
      check_lookup(M, i, var ^ 1, "after the call");
      check_lookup(M, draw_plain(0, M.pool.size() - 1), 0, "after the call");
      if (M.m.size() > most) {most = M.m.size();}
    }
  }
  A.disarm();
  for (int x = 0; x < nm; x++) {
    Map & M = ms[x]; M.use();
    if (!init[x]) {continue;}
    check_size(M, "at the end");
    for (size_t i = 0; i < M.pool.size(); i++) {check_lookup(M, i, 0, "at the end");}
    rcutils_ret_t r = rcutils_hash_map_fini(&M.h);
    CHECK(r == RCUTILS_RET_OK, "fini returned %s", rc::ret_name(r));
  }
  A.expect_empty("after all maps were finalised");
  if (over) {label("overwrite");}
  if (rem) {label("removed");}
  if (grew) {label("grew");}
  if (inj) {label("alloc-failure");}
  if (most >= 3 && (over || rem || grew || inj)) {nontrivial();}
}
}  // namespace pbt
