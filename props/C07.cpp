#include "rc.h"
#include "rcutils/types/uint8_array.h"
using namespace pbt;
namespace pbt
{
const char * const kPropertyId = "C07";
const char * const kRule =
  "a case is a generated history of init/fill/resize/fini calls on two byte arrays (capacities 0..400 and huge, any bytes, "
  "lengths up to the capacity, optional allocation failures), compared with a byte-vector model after every call; "
  "non-trivial: a resize that truncated or grew an array holding bytes, or one that failed while it held bytes";
const Budget kBudget = {2500000, 20000000, 400000};
void property_setup() {}

struct M {rcutils_uint8_array_t a; bool init = false; std::string b; size_t cap = 0;};

// more bytes than 31 or 32 bits can count; what is written to the array is not kept, so only its sizes can be seen
static void vast()
{
  size_t n = ((size_t)1 << draw_plain(31, 32)) + draw_plain(1, 5000), start = draw_plain(1, 40), big = ((size_t)1 << 33) + draw_plain(0, 9);
  rc::VastAlloc A; rcutils_allocator_t al = A.get(); rcutils_uint8_array_t a = rcutils_get_zero_initialized_uint8_array(); rcutils_ret_t r;
  bool straight = chance(1, 2); label("gigabytes");
  CHECK(rcutils_uint8_array_init(&a, straight ? big : start, &al) == RCUTILS_RET_OK, "init failed");
  CHECK(a.buffer_capacity == (straight ? big : start) && A.size_of(a.buffer) >= a.buffer_capacity, "init gave a capacity of %zu in a block of %zu", a.buffer_capacity, A.size_of(a.buffer));
  size_t len = straight ? n + draw_plain(0, 3) - 1 : 0; a.buffer_length = len;
  r = rcutils_uint8_array_resize(&a, n);
  say("resize of %zu with %zu bytes to %zu -> %s", straight ? big : start, len, n, rc::ret_name(r));
  CHECK(r == RCUTILS_RET_OK, "resize to %zu returned %s", n, rc::ret_name(r));
  CHECK(a.buffer_capacity == n && A.size_of(a.buffer) != SIZE_MAX && A.size_of(a.buffer) >= n, "resize to %zu gave a capacity of %zu in a block of %zu", n, a.buffer_capacity, A.size_of(a.buffer));
  CHECK(a.buffer_length == std::min(len, n), "resize to %zu of %zu bytes left %zu", n, len, a.buffer_length);
  CHECK(rcutils_uint8_array_fini(&a) == RCUTILS_RET_OK && A.empty(), "memory is left");
}
void property_case()
{
  rc::clear_error();
  static unsigned n_vast; if (seldom(2000, 30, n_vast)) {vast(); return;}
  rc::TrackAlloc A;
  rcutils_allocator_t al = A.get();
  M x[2]; bool good = false; rcutils_ret_t r;
  bool faults = chance(1, 3);
  while (more(15)) {
    int k = (int)draw_plain(0, 1); M & m = x[k];
    if (faults && chance(1, 3)) {A.arm(0, chance(1, 2));} else {A.disarm();}
    if (!m.init) {
      size_t cap = draw_small(0, 200); bool huge = chance(1, 40);
      if (!huge && chance(1, 100)) {cap = draw_edge(0, 140000);}
      if (huge) {cap = SIZE_MAX - draw_edge(0, SIZE_MAX >> 1);}
      m.a = rcutils_get_zero_initialized_uint8_array();
      CHECK(!m.a.buffer && !m.a.buffer_length && !m.a.buffer_capacity, "the zero-initialised array is not empty");
      uint64_t c0 = A.n_calls;
      r = rcutils_uint8_array_init(&m.a, cap, &al);
      say("init(%d, %zu) -> %s", k, cap, rc::ret_name(r));
      if (A.n_failed) {
        CHECK(r == RCUTILS_RET_BAD_ALLOC, "init with a failed allocation returned %s", rc::ret_name(r));
        CHECK(!m.a.buffer_length && !m.a.buffer_capacity, "failed init left length %zu, capacity %zu", m.a.buffer_length, m.a.buffer_capacity);
      } else {
        CHECK(r == RCUTILS_RET_OK, "init returned %s", rc::ret_name(r));
        CHECK(m.a.buffer_length == 0 && m.a.buffer_capacity == cap, "init(%zu) gave length %zu, capacity %zu", cap, m.a.buffer_length, m.a.buffer_capacity);
        CHECK(cap ? A.size_of(m.a.buffer) >= cap && A.owns(m.a.buffer) : !m.a.buffer && A.n_calls == c0, "init(%zu) gave a wrong buffer", cap);
        m.init = true; m.b.clear(); m.cap = cap;
      }
    } else {
      switch (weighted({6, 8, 1, 1})) {
        case 0: {
            A.disarm();
            std::string v = m.cap > 300 ? blob(m.cap - draw_small(0, 3)) : bytes(0, m.cap);
            if (!v.empty()) {memcpy(m.a.buffer, v.data(), v.size());}
            m.a.buffer_length = v.size(); m.b = v;
            say("fill(%d, %zu bytes)", k, v.size());
            break;
          }
        case 1: {
            size_t n = chance(1, 2) ? draw_small(0, 400) : m.b.size() + draw_plain(0, 4); if (chance(1, 2) && n > 2) {n -= 2;}
            bool huge = chance(1, 30);
            if (!huge && chance(1, 100)) {n = draw_edge(0, 140000);}
            if (huge) {n = SIZE_MAX - draw_edge(0, SIZE_MAX >> 1);}
            r = rcutils_uint8_array_resize(&m.a, n);
            say("resize(%d, %zu) from %zu -> %s", k, n, m.cap, rc::ret_name(r));
            if (n == 0) {
              CHECK(r == RCUTILS_RET_INVALID_ARGUMENT, "resize(0) returned %s", rc::ret_name(r));
            } else if (n == m.cap) {
              CHECK(r == RCUTILS_RET_OK, "resize to the current capacity returned %s", rc::ret_name(r));
            } else if (A.n_failed) {
              CHECK(r == RCUTILS_RET_BAD_ALLOC, "resize with a failed allocation returned %s", rc::ret_name(r));
              if (!m.b.empty()) {good = true;}
              // either nothing changed or the array is empty; never a dangling or too small buffer
              if (!m.a.buffer) {
                m.b.clear(); m.cap = 0;
              }
            } else {
              CHECK(r == RCUTILS_RET_OK, "resize returned %s", rc::ret_name(r));
              if (!m.b.empty()) {good = true;}
              m.cap = n; if (n < m.b.size()) {m.b.resize(n);}
            }
            break;
          }
        case 2: {
            A.disarm();
            switch (draw_plain(0, 4)) {
              case 0: r = rcutils_uint8_array_init(nullptr, 3, &al); break;
              case 1: {rcutils_uint8_array_t t = rcutils_get_zero_initialized_uint8_array(); r = rcutils_uint8_array_init(&t, 3, nullptr); break;}
              case 2: r = rcutils_uint8_array_fini(nullptr); break;
              case 3: {rcutils_uint8_array_t t = rcutils_get_zero_initialized_uint8_array(); r = rcutils_uint8_array_resize(&t, 3); break;}
              default: r = rcutils_uint8_array_resize(nullptr, 3); break;
            }
            CHECK(r == RCUTILS_RET_INVALID_ARGUMENT, "an invalid argument gave %s", rc::ret_name(r));
            break;
          }
        default: {
            A.disarm();
            r = rcutils_uint8_array_fini(&m.a);
            say("fini(%d) -> %s", k, rc::ret_name(r));
            CHECK(r == RCUTILS_RET_OK, "fini returned %s", rc::ret_name(r));
            CHECK(!m.a.buffer && !m.a.buffer_length && !m.a.buffer_capacity, "fini left something behind");
            if (chance(1, 2)) {r = rcutils_uint8_array_fini(&m.a); CHECK(r == RCUTILS_RET_OK, "second fini returned %s", rc::ret_name(r));}
            m.init = false; m.b.clear(); m.cap = 0;
            break;
          }
      }
    }
    A.disarm(); rc::clear_error();
    size_t owned = 0;
    for (int j = 0; j < 2; j++) {
      M & y = x[j];
      if (!y.init) {continue;}
      CHECK(y.a.buffer_length == y.b.size(), "array %d: length %zu, expected %zu", j, y.a.buffer_length, y.b.size());
      CHECK(y.a.buffer_capacity == y.cap, "array %d: capacity %zu, expected %zu", j, y.a.buffer_capacity, y.cap);
      if (y.a.buffer) {
        CHECK(A.owns(y.a.buffer) && A.size_of(y.a.buffer) >= y.cap, "array %d: capacity %zu, but the buffer has %zd bytes", j, y.cap, (ssize_t)A.size_of(y.a.buffer));
        owned++;
        CHECK(!memcmp(y.a.buffer, y.b.data(), y.b.size()), "array %d: contents are %s, expected %s", j,
          hex(y.a.buffer, y.b.size()).c_str(), hex(y.b.data(), y.b.size()).c_str());
      } else {CHECK(y.cap == 0, "array %d: capacity %zu without a buffer", j, y.cap);}
    }
    CHECK(A.live.size() == owned, "%zu blocks are allocated but the arrays own %zu", A.live.size(), owned);
  }
  A.disarm();
  for (auto & m : x) {
    if (m.init) {r = rcutils_uint8_array_fini(&m.a); CHECK(r == RCUTILS_RET_OK, "fini returned %s", rc::ret_name(r));}
  }
  A.expect_empty("after fini");
  if (good) {nontrivial();}
}
}  // namespace pbt
