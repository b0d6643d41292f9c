#include "mods.h"
#include <sanitizer/asan_interface.h>
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void *, size_t), void (*)(const volatile void *));
using namespace pbt;
namespace pbt
{
const char * const kPropertyId = "C26";
const char * const kRule =
  "a case runs a generated script of calls over two independent sets of all containers, logging and all allocating functions, each "
  "set with its own allocator and state, and checks that every call uses only its own allocator, no other heap, and gives back all; "
  "or asks about the validity of allocators with generated missing functions, uses the default allocator and rcutils_reallocf; "
  "non-trivial: at least 8 calls on both sets, or a reallocf that fails";
const Budget kBudget = {150000, 2000000, 40000};
static std::string dir;
static uint64_t g_news;
static void on_new(const volatile void *, size_t) {if (rc::g_in_lib && !engine_busy()) {g_news++;}}
static const volatile void * g_freed;
static void on_free(const volatile void * p) {g_freed = p;}
void property_setup() {setenv("HOME", "/nonexistent-home", 1); dir = mods::make_dir(); __sanitizer_install_malloc_and_free_hooks(on_new, on_free);}
static unsigned g_hits;
static void * h_a(size_t, void *) {g_hits++; return nullptr;}
static void h_d(void *, void *) {g_hits++;}
static void * h_r(void *, size_t, void *) {g_hits++; return nullptr;}
static void * h_z(size_t, size_t, void *) {g_hits++; return nullptr;}
static void single()
{
  unsigned miss = (unsigned)draw_plain(0, 15);
  rcutils_allocator_t a = {miss & 1 ? nullptr : h_a, miss & 2 ? nullptr : h_d, miss & 4 ? nullptr : h_r, miss & 8 ? nullptr : h_z, chance(1, 2) ? (void *)&a : nullptr};
  say("allocator with missing functions %x", miss);
  g_hits = 0;
  CHECK(rcutils_allocator_is_valid(&a) == (miss == 0), "an allocator with missing functions %x is %svalid", miss, miss ? "" : "in");
  CHECK(!rcutils_allocator_is_valid(nullptr), "NULL is a valid allocator");
  rcutils_allocator_t zero = rcutils_get_zero_initialized_allocator(), def = rcutils_get_default_allocator();
  CHECK(!rcutils_allocator_is_valid(&zero) && !zero.state && !zero.allocate && !zero.deallocate && !zero.reallocate && !zero.zero_allocate, "the zero-initialized allocator is not all zero");
  CHECK(rcutils_allocator_is_valid(&def), "the default allocator is invalid");
  if (miss) {
    char c; CHECK(!rcutils_reallocf(&c, 10, &a) && !rcutils_reallocf(&c, 10, nullptr), "reallocf with an invalid allocator gave memory");
    CHECK(!g_hits, "reallocf called an invalid allocator");
  }
  rc::TrackAlloc ta; rcutils_allocator_t t = ta.get();
  size_t n = draw_small(0, 3000), m = draw_small(1, 3000);
  if (chance(1, 60)) {n = draw_edge(0, 3u << 20); m = draw_edge(1, 3u << 20);}
  char * p = chance(1, 6) ? nullptr : (char *)t.allocate(n, t.state);
  if (!p) {n = 0;}
  for (size_t i = 0; i < n; i++) {p[i] = (char)mix(i, n);}
  bool fail_ = chance(1, 3); if (fail_) {ta.arm(0, false); nontrivial();}
  char * q = (char *)rcutils_reallocf(p, m, &t);
  ta.disarm();
  say("reallocf from %zu to %zu%s", n, m, fail_ ? ", failing" : "");
  CHECK((q == nullptr) == fail_, "reallocf gave %p", (void *)q);
  if (q) {
    CHECK(ta.owns(q) && ta.size_of(q) == m, "reallocf gave %zu bytes for %zu", ta.size_of(q), m);
    for (size_t i = 0; i < std::min(n, m); i++) {CHECK(q[i] == (char)mix(i, n), "reallocf lost byte %zu", i);}
    t.deallocate(q, t.state);
  }
  ta.expect_empty("after reallocf");
  p = (char *)def.allocate(n + 1, def.state); CHECK(p, "default allocate"); memset(p, 5, n + 1);
  p = (char *)def.reallocate(p, m + 1, def.state); CHECK(p, "default reallocate");
  for (size_t i = 0; i < std::min(n, m) + 1; i++) {CHECK(p[i] == 5, "default reallocate lost byte %zu", i);}
  memset(p, 6, m + 1); g_freed = nullptr; def.deallocate(p, def.state); CHECK(g_freed == p, "default deallocate does not give the memory back");
  def.deallocate(nullptr, def.state);
  p = (char *)def.zero_allocate(n + 1, 1 + m % 7, def.state); CHECK(p, "default zero_allocate");
  for (size_t i = 0; i < (n + 1) * (1 + m % 7); i++) {CHECK(!p[i], "default zero_allocate gave a byte that is not zero");}
  p = (char *)rcutils_reallocf(p, m, &def); CHECK(p, "reallocf of the default allocator"); def.deallocate(p, def.state);
  if (chance(1, 8)) {
    size_t a2 = 1ull << draw_plain(33, 62), b2 = 1ull << draw_plain(31, 62);
    CHECK(!def.zero_allocate(a2, b2, def.state), "zero_allocate of %zu x %zu bytes succeeds", a2, b2);
  }
}
static void pair_()
{
  rc::TrackAlloc ta[2];
  int lg = (int)draw_plain(0, 2);
  CHECK_EQ(rcutils_logging_shutdown(), RCUTILS_RET_OK, "logging shutdown");
  mods::World w0(ta[0], lg == 0, dir), w1(ta[1], lg == 1, dir);
  mods::World * w[2] = {&w0, &w1}; size_t calls[2] = {};
  bool heavy = chance(1, 6);
  if (lg == 2) {
    // hash maps log; with logging and the logger's level set up, that needs no memory any more
    CHECK_EQ(rcutils_logging_initialize(), RCUTILS_RET_OK, "logging initialization");
    rc::TrackAlloc t; mods::World x(t, false, dir);
    for (size_t i = 0; i < 12; i++) {x.exec({mods::HM, 5, std::to_string(i), "", i});}
    x.exec({mods::HM, 1, "1", "", 0}); x.finish();
  }
  if (lg < 2) {w[lg]->exec({mods::LG, 1, "", "", 0});}          // before a hash map does so with the default allocator
  while (more(30)) {
    int i = (int)draw_plain(0, 1);
    mods::Step s = mods::step_gen(heavy);
    if (s.op == mods::LG && s.sub == 0) {s.sub = 8;}
    say("set %d: %s %d k=%s v=%s n=%zu", i, mods::opname(s.op), s.sub, quote(s.k).c_str(), quote(s.v).c_str(), s.n);
    bool logs = lg < 2 && s.op == mods::HM;                  // logging set up implicitly, or with the other allocator
    ta[1 - i].closed = !logs; g_news = 0;
    w[i]->exec(s); calls[i]++;
    CHECK(!g_news || logs || mods::g_foreign_ok || rc::error_is_set(), "%s took memory from elsewhere than the given allocator", mods::opname(s.op));
    w[i]->check();
    ta[1 - i].closed = false;
    rc::clear_error();
  }
  if (calls[0] >= 8 && calls[1] >= 8) {nontrivial();}
  w[0]->finish(); w[1]->finish();
  for (auto & t : ta) {t.expect_empty("after everything is finalized");}
}
void property_case()
{
  rc::clear_error();
  if (chance(1, 3)) {single();} else {pair_();}
}
}  // namespace pbt
