// array_list against a vector-of-elements model, several lists sharing an allocator.
#include "rc.h"
#include "rcutils/types/array_list.h"
using namespace pbt;
namespace pbt
{
const char * const kPropertyId = "C01";
const char * const kRule =
  "a case is a generated history of init/add/set/remove/get/get_size/fini calls over up to three array lists "
  "(element size mostly 1..200, at times up to 70000, capacity mostly 1..70, at times up to 70000, at times thousands of elements, allocator optionally failing at a chosen call) compared with a vector model "
  "after every call, including capacities no allocator can give; non-trivial: at least 4 successful adds and, on one list, a growth past the initial capacity "
  "or a removal that shifts elements or an injected allocation failure";
const Budget kBudget = {250000, 6000000, 400000};
void property_setup() {}

struct L
{
  rcutils_array_list_t h;
  bool init = false;
  size_t ds = 1, cap0 = 0, peak = 0;
  std::vector<std::string> m;
};

static void compare(L & l, int k, const char * when)
{
  size_t sz = 12345;
  rcutils_ret_t r = rcutils_array_list_get_size(&l.h, &sz);
  CHECK(r == RCUTILS_RET_OK, "%s: get_size(list %d) returned %s", when, k, rc::ret_name(r));
  CHECK(sz == l.m.size(), "%s: list %d has size %zu, expected %zu", when, k, sz, l.m.size());
  rc::Exact out(std::string(l.ds, '\x5c'), false);
  for (size_t i = 0; i < sz; i++) {
    memset(out.p, 0x5c, l.ds);
    r = rcutils_array_list_get(&l.h, i, out.p);
    CHECK(r == RCUTILS_RET_OK, "%s: get(list %d, %zu) returned %s", when, k, i, rc::ret_name(r));
    CHECK(!memcmp(out.p, l.m[i].data(), l.ds), "%s: list %d element %zu is %s, expected %s", when, k, i,
      hex(out.p, l.ds).c_str(), hex(l.m[i].data(), l.ds).c_str());
  }
}

// elements so large that a few of them are more than 32 bits can count; all of them are the same
static void vast()
{
  size_t ds = ((size_t)1 << 30) + draw_plain(0, 3) - 1, cap = draw_plain(1, 3), n = draw_plain(5, 6), size;
  rc::VastAlloc A; rcutils_allocator_t al = A.get(); rcutils_array_list_t l = rcutils_get_zero_initialized_array_list();
  rc::Vast e(ds, 'x', false); rcutils_ret_t r; label("gigabytes");
  CHECK(rcutils_array_list_init(&l, cap, ds, &al) == RCUTILS_RET_OK, "init failed");
  for (size_t i = 0; i < n; i++) {r = rcutils_array_list_add(&l, e); CHECK(r == RCUTILS_RET_OK, "add returned %s", rc::ret_name(r));}
  say("%zu elements of %zu bytes in a list of capacity %zu", n, ds, cap);
  CHECK(rcutils_array_list_get_size(&l, &size) == RCUTILS_RET_OK && size == n, "the size is %zu, expected %zu", size, n);
  size_t most = 0; for (auto & b : A.large) {most = std::max(most, b.second->n);}
  CHECK(most / ds >= n, "%zu elements of %zu bytes are in a block of %zu", n, ds, most);
  r = rcutils_array_list_remove(&l, draw_plain(0, n - 1)); CHECK(r == RCUTILS_RET_OK, "remove returned %s", rc::ret_name(r));
  rc::Vast g(ds, 'y', true);
  r = rcutils_array_list_get(&l, n - 2, g); CHECK(r == RCUTILS_RET_OK && g[0] == 'x' && g[ds - 1] == 'x', "get returned %s", rc::ret_name(r));
  CHECK(rcutils_array_list_get(&l, n - 1, g) != RCUTILS_RET_OK, "an element that was removed is there"); rc::clear_error();
  CHECK(rcutils_array_list_fini(&l) == RCUTILS_RET_OK && A.empty(), "memory is left");
}
void property_case()
{
  rc::clear_error();
  static unsigned n_vast; if (seldom(400, 2, n_vast)) {vast(); nontrivial(); return;}
  rc::TrackAlloc A;
  A.limit = 96u << 20;
  rcutils_allocator_t al = A.get();
  static unsigned n_big; if (rarely(5000, 4, n_big)) {
    // more elements than a 16-bit index could tell apart
    rcutils_array_list_t b = rcutils_get_zero_initialized_array_list(); rcutils_ret_t r;
    size_t n = draw_plain(30000, 150000), ds = draw_plain(1, 9), cap = 1 + draw_edge(0, 70000); uint64_t salt = draw_plain(0, 255);
    std::string m;
    r = rcutils_array_list_init(&b, cap, ds, &al);
    CHECK(r == RCUTILS_RET_OK, "init returned %s", rc::ret_name(r));
    say("%zu elements of %zu bytes in a list of capacity %zu", n, ds, cap);
    for (size_t i = 0; i < n; i++) {
      char e[16]; for (size_t j = 0; j < ds; j++) {e[j] = (char)mix(salt + i, j);}
      r = rcutils_array_list_add(&b, e); CHECK(r == RCUTILS_RET_OK, "add number %zu returned %s", i, rc::ret_name(r));
      m.append(e, ds);
    }
    for (size_t ops = draw_plain(1, 12); ops; ops--) {
      size_t i = chance(1, 2) ? draw_edge(0, n - 1) : draw_plain(0, n - 1);
      if (chance(2, 3)) {
        r = rcutils_array_list_remove(&b, i); say("remove(%zu) -> %s", i, rc::ret_name(r));
        m.erase(i * ds, ds); n--;
      } else {
        std::string v = blob(ds); rc::Exact e(v, false);
        r = rcutils_array_list_set(&b, i, e.p); say("set(%zu) -> %s", i, rc::ret_name(r));
        m.replace(i * ds, ds, v);
      }
      CHECK(r == RCUTILS_RET_OK, "a call with an index of %zu returned %s", i, rc::ret_name(r));
    }
    size_t sz = 0; CHECK(rcutils_array_list_get_size(&b, &sz) == RCUTILS_RET_OK && sz == n, "a large list has size %zu, expected %zu", sz, n);
    for (size_t i = 0; i < n; i++) {
      char e[16]; r = rcutils_array_list_get(&b, i, e); CHECK(r == RCUTILS_RET_OK, "get(%zu) returned %s", i, rc::ret_name(r));
      CHECK(!memcmp(e, &m[i * ds], ds), "element %zu of a large list is %s, expected %s", i, hex(e, ds).c_str(), hex(&m[i * ds], ds).c_str());
    }
    r = rcutils_array_list_fini(&b); CHECK(r == RCUTILS_RET_OK, "fini returned %s", rc::ret_name(r));
    A.expect_empty("after a large list was finalised");
        label("a list with tens of thousands of elements"); nontrivial(); return;
  }
  int nl = 1 + (int)draw_small(0, 2);
  std::vector<L> ls(nl);
  for (auto & l : ls) {l.h = rcutils_get_zero_initialized_array_list();}
  bool shift = false, grew = false, inj = false; unsigned adds = 0;
  bool faults = chance(1, 4);
  unsigned avg = chance(1, 10) ? 150 : 25;
  while (more(avg)) {
    int k = (int)draw_plain(0, nl - 1);
    L & l = ls[k];
    if (faults && chance(1, 4)) {A.arm((int64_t)draw_small(0, 1), chance(1, 3));} else {A.disarm();}
    uint64_t calls0 = A.n_calls;
    rcutils_ret_t r;
    if (!l.init) {
      // every operation on an uninitialised list is refused
      if (chance(1, 4)) {
        char b[256] = {0}; size_t s = 77;
        switch (draw_plain(0, 5)) {
          case 0: r = rcutils_array_list_add(&l.h, b); break;
          case 1: r = rcutils_array_list_set(&l.h, 0, b); break;
          case 2: r = rcutils_array_list_get(&l.h, 0, b); break;
          case 3: r = rcutils_array_list_remove(&l.h, 0); break;
          case 4: r = rcutils_array_list_get_size(&l.h, &s); CHECK(s == 77, "get_size on an uninitialised list wrote its output"); break;
          default: r = rcutils_array_list_fini(&l.h); break;
        }
        say("op on uninitialised list %d -> %s", k, rc::ret_name(r));
        CHECK(r == RCUTILS_RET_NOT_INITIALIZED, "operation on an uninitialised list returned %s", rc::ret_name(r));
        CHECK(A.n_calls == calls0, "operation on an uninitialised list allocated");
        rc::clear_error();
        continue;
      }
      size_t cap = draw_small(0, 70), ds = draw_small(0, 200);
      if (chance(1, 60)) {ds = draw_edge(0, 70000); label("large elements");}
      if (chance(1, 60)) {cap = std::min<size_t>(draw_edge(0, 70000), (1u << 24) / std::max<size_t>(ds, 1)); label("large capacity");}
      bool huge = chance(1, 25);
      if (huge) {   // more than any allocator gives; the product may wrap around
        if (chance(1, 2)) {cap = (SIZE_MAX >> draw_plain(0, 12)) - draw_small(0, 40);} else {ds = (SIZE_MAX >> draw_plain(0, 12)) - draw_small(0, 40);}
        if (chance(1, 3)) {cap = (size_t)1 << (63 - draw_plain(0, 12)); ds = (size_t)1 << draw_plain(0, 14);}
        if (cap < 1) {cap = 1;}
        if (ds < 1) {ds = 1;}
      }
      r = rcutils_array_list_init(&l.h, cap, ds, &al);
      say("init(list %d, cap %zu, elem %zu) -> %s", k, cap, ds, rc::ret_name(r));
      if (cap < 1 || ds < 1) {
        CHECK(r == RCUTILS_RET_INVALID_ARGUMENT, "init with capacity %zu, element size %zu returned %s", cap, ds, rc::ret_name(r));
      } else if (A.n_failed || huge) {
        CHECK(r == RCUTILS_RET_BAD_ALLOC, "init with a failed allocation returned %s", rc::ret_name(r));
        inj = true;
      } else {
        CHECK(r == RCUTILS_RET_OK, "init returned %s", rc::ret_name(r));
        l.init = true; l.ds = ds; l.cap0 = cap; l.peak = cap; l.m.clear();
      }
      if (!l.init) {CHECK(l.h.impl == nullptr, "failed init left the list initialised");}
      rc::clear_error();
      continue;
    }
    size_t n = l.m.size();
    auto idx = [&]() -> size_t {
        switch (weighted({12, 3, 2, 1})) {
          case 0: return n ? draw(0, n - 1) : 0;
          case 1: return n + draw_small(0, 4);
          case 2: return n ? n - 1 : 0;
          default: return (size_t)(0 - draw_edge(1, UINT64_MAX >> 1));
        }
      };
    if (chance(1, 400)) {   // many elements at once
      A.disarm();
      size_t more_elems = std::min<size_t>(draw_edge(1, 3000), (1u << 20) / l.ds);
      uint64_t salt = draw_plain(0, 255);
      say("add %zu elements to list %d", more_elems, k);
      for (size_t i = 0; i < more_elems && l.m.size() < 4000; i++) {
        std::string v(l.ds, 0); for (size_t j = 0; j < l.ds; j++) {v[j] = (char)mix(salt + i, j);}
        rc::Exact e(v, false);
        r = rcutils_array_list_add(&l.h, e.p);
        CHECK(r == RCUTILS_RET_OK, "add number %zu returned %s", i, rc::ret_name(r));
        l.m.push_back(v);
        if (l.m.size() > l.peak) {l.peak = l.m.size(); grew = true;}
      }
      label("many elements at once");
      compare(l, k, "after many adds");
      continue;
    }
    switch (weighted({10, 4, 5, 4, 1, 1, 1})) {
      case 0: {
          std::string v = blob(l.ds);
          rc::Exact e(v, false);
          bool mustfit = n < l.peak;
          r = rcutils_array_list_add(&l.h, e.p);
          say("add(list %d, %s) -> %s", k, hex(v.data(), v.size()).c_str(), rc::ret_name(r));
          if (A.n_failed) {
            CHECK(r == RCUTILS_RET_BAD_ALLOC, "add with a failed allocation returned %s", rc::ret_name(r));
            inj = true;
          } else {
            CHECK(r == RCUTILS_RET_OK, "add returned %s", rc::ret_name(r));
            l.m.push_back(v); adds++;
            if (n + 1 > l.peak) {l.peak = n + 1; grew = true;}
          }
          if (mustfit) {CHECK(A.n_calls == calls0, "add within the list's capacity allocated (size %zu, capacity at least %zu)", n, l.peak);}
          break;
        }
      case 1: {
          size_t i = idx(); std::string v = blob(l.ds); rc::Exact e(v, false);
          r = rcutils_array_list_set(&l.h, i, e.p);
          say("set(list %d, %zu, %s) -> %s", k, i, hex(v.data(), v.size()).c_str(), rc::ret_name(r));
          if (i < n) {CHECK(r == RCUTILS_RET_OK, "set(%zu) with size %zu returned %s", i, n, rc::ret_name(r)); l.m[i] = v;} else {
            CHECK(r == RCUTILS_RET_INVALID_ARGUMENT, "set(%zu) with size %zu returned %s", i, n, rc::ret_name(r));
          }
          CHECK(A.n_calls == calls0, "set allocated");
          break;
        }
      case 2: {
          size_t i = idx();
          r = rcutils_array_list_remove(&l.h, i);
          say("remove(list %d, %zu) -> %s", k, i, rc::ret_name(r));
          if (i < n) {
            CHECK(r == RCUTILS_RET_OK, "remove(%zu) with size %zu returned %s", i, n, rc::ret_name(r));
            l.m.erase(l.m.begin() + i);
            if (i + 1 < n) {shift = true;}
          } else {
            CHECK(r == RCUTILS_RET_INVALID_ARGUMENT, "remove(%zu) with size %zu returned %s", i, n, rc::ret_name(r));
          }
          CHECK(A.n_calls == calls0, "remove allocated");
          break;
        }
      case 3: {
          size_t i = idx(); rc::Exact out(std::string(l.ds, '\x77'), false);
          r = rcutils_array_list_get(&l.h, i, out.p);
          say("get(list %d, %zu) -> %s", k, i, rc::ret_name(r));
          if (i < n) {
            CHECK(r == RCUTILS_RET_OK, "get(%zu) with size %zu returned %s", i, n, rc::ret_name(r));
            CHECK(!memcmp(out.p, l.m[i].data(), l.ds), "get(%zu) gave the wrong element", i);
          } else {
            CHECK(r == RCUTILS_RET_INVALID_ARGUMENT, "get(%zu) with size %zu returned %s", i, n, rc::ret_name(r));
            for (size_t b = 0; b < l.ds; b++) {CHECK(out.p[b] == 0x77, "a refused get wrote its output");}
          }
          CHECK(A.n_calls == calls0, "get allocated");
          break;
        }
      case 4: {  // null arguments
          size_t s = 0; char b[256] = {0};
          switch (draw_plain(0, 8)) {
            case 0: r = rcutils_array_list_add(&l.h, nullptr); break;
            case 1: r = rcutils_array_list_set(&l.h, 0, nullptr); break;
            case 2: r = rcutils_array_list_get(&l.h, 0, nullptr); break;
            case 3: r = rcutils_array_list_get_size(&l.h, nullptr); break;
            case 4: r = rcutils_array_list_add(nullptr, b); break;
            case 5: r = rcutils_array_list_set(nullptr, 0, b); break;
            case 6: r = rcutils_array_list_remove(nullptr, 0); break;
            case 7: r = rcutils_array_list_get_size(nullptr, &s); break;
            default: r = rcutils_array_list_fini(nullptr); break;
          }
          CHECK(r == RCUTILS_RET_INVALID_ARGUMENT, "null argument: returned %s", rc::ret_name(r));
          break;
        }
      case 5: {  // re-init is refused and changes nothing
          r = rcutils_array_list_init(&l.h, 1 + draw_small(0, 9), 1 + draw_small(0, 9), &al);
          say("re-init(list %d) -> %s", k, rc::ret_name(r));
          CHECK(r == RCUTILS_RET_INVALID_ARGUMENT, "init of an initialised list returned %s", rc::ret_name(r));
          CHECK(A.n_calls == calls0, "refused init allocated");
          break;
        }
      default: {
          if (!chance(1, 3)) {continue;}
          r = rcutils_array_list_fini(&l.h);
          say("fini(list %d) -> %s", k, rc::ret_name(r));
          CHECK(r == RCUTILS_RET_OK, "fini returned %s", rc::ret_name(r));
          CHECK(l.h.impl == nullptr, "fini left the list initialised");
          l.init = false; l.m.clear();
          break;
        }
    }
    if (r != RCUTILS_RET_OK) {rc::clear_error();}
    A.disarm();
    for (int j = 0; j < nl; j++) {
      if (ls[j].init && (j == k || ls[j].m.size() < 12)) {compare(ls[j], j, "after the call");}
    }
  }
  A.disarm();
  for (int j = 0; j < nl; j++) {
    if (ls[j].init) {
      compare(ls[j], j, "at the end");
      rcutils_ret_t r = rcutils_array_list_fini(&ls[j].h);
      CHECK(r == RCUTILS_RET_OK, "final fini returned %s", rc::ret_name(r));
    }
  }
  A.expect_empty("after all lists were finalised");
  if (grew) {label("grew");}
  if (shift) {label("shifted");}
  if (inj) {label("alloc-failure");}
  if (adds >= 4 && (grew || shift || inj)) {nontrivial();}
}
}  // namespace pbt
