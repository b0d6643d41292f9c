// BUILD sanitize: thread
#include "rc.h"
#include <thread>
#include <atomic>
#include <algorithm>
using namespace pbt;
#define CELL(prefix) \
  void * prefix ## cell_new(void); uint64_t prefix ## cell_load(void *, int, int); void prefix ## cell_store(void *, int, uint64_t); \
  uint64_t prefix ## cell_exchange(void *, int, int, uint64_t); uint64_t prefix ## cell_add(void *, int, int, uint64_t); \
  bool prefix ## cell_cas(void *, int, int, uint64_t *, uint64_t); uint64_t prefix ## cell_other(void *, int, int, uint64_t); \
  bool prefix ## cell_flag(int);
extern "C" {
CELL() CELL(gnu_) CELL(c11_)
void order_reset(void);
void order_run(int, int, uint64_t, uint64_t *);
}
// the compiler's own header, and the bundled one in its two forms
static int impl;
#define AS(name, ...) (impl == 0 ? name(__VA_ARGS__) : impl == 1 ? gnu_ ## name(__VA_ARGS__) : c11_ ## name(__VA_ARGS__))
#define cell_new() AS(cell_new)
#define cell_load(...) AS(cell_load, __VA_ARGS__)
#define cell_store(...) AS(cell_store, __VA_ARGS__)
#define cell_exchange(...) AS(cell_exchange, __VA_ARGS__)
#define cell_add(...) AS(cell_add, __VA_ARGS__)
#define cell_cas(...) AS(cell_cas, __VA_ARGS__)
#define cell_other(...) AS(cell_other, __VA_ARGS__)
#define cell_flag(...) AS(cell_flag, __VA_ARGS__)
namespace pbt
{
const char * const kPropertyId = "C34";
const char * const kRule =
  "a case is a generated history of load/store/exchange/fetch_add/compare_exchange on atomic bool, int64, uint64, uintptr and int "
  "objects through the macros and the named helpers, with the compiler's header or the bundled one, compared with plain variables; or two to four threads released together which "
  "add, compare-exchange, exchange tokens, take turns through an exchanged flag, pass plain messages to each other through any "
  "two operations, or store and then look at the other's object, with the sums, the returned values, the mutual exclusion, the "
  "messages and the order checked, under the thread sanitizer; non-trivial: threads, or a compare-exchange that fails";
const Budget kBudget = {200000, 2500000, 40000};
void property_setup() {}
static uint64_t norm(int kind, uint64_t v) {return kind == 0 ? v != 0 : kind == 4 ? (uint64_t)(int64_t)(int32_t)v : v;}
static void sequential()
{
  void * c = cell_new();
  uint64_t m[5] = {}; bool flag = false;
  cell_flag(0);
  while (more(15)) {
    int k = (int)draw_plain(0, 4), f = (int)draw_plain(0, 1);
    uint64_t v = norm(k, chance(1, 3) ? draw_plain(0, 2) : draw_edge(0, UINT64_MAX));
    say("object %d value %" PRIu64, k, v);
    switch (draw_plain(0, 5)) {
      case 0: cell_store(c, k, v); m[k] = v; break;
      case 1: {uint64_t o = cell_exchange(c, k, f, v); CHECK(o == m[k], "exchange on object %d gave %" PRIu64 ", expected %" PRIu64, k, o, m[k]); m[k] = v; break;}
      case 2: {
          if (k == 0) {break;}
          uint64_t o = cell_add(c, k, f, v);
          CHECK(o == m[k], "fetch_add on object %d gave %" PRIu64 ", expected %" PRIu64, k, o, m[k]); m[k] = norm(k, m[k] + v); break;
        }
      case 3: {
          if (k == 0) {break;}
          int op = (int)draw_plain(0, 3); uint64_t o = cell_other(c, k, op, v);
          static const char * const names[] = {"fetch_sub", "fetch_and", "fetch_or", "fetch_xor"};
          CHECK(o == m[k], "%s on object %d gave %" PRIu64 ", expected %" PRIu64, names[op], k, o, m[k]);
          m[k] = norm(k, op == 0 ? m[k] - v : op == 1 ? (m[k] & v) : op == 2 ? (m[k] | v) : m[k] ^ v); break;
        }
      case 4: {
          bool set = chance(1, 2), was = cell_flag(set);
          if (set) {CHECK(was == flag, "setting the flag gave %d, expected %d", was, flag);}
          flag = set; break;
        }
      default: {
          uint64_t e = norm(k, chance(1, 2) ? m[k] : chance(1, 2) ? m[k] ^ (1ull << draw_plain(0, 63)) : draw_edge(0, UINT64_MAX)), was = e;
          bool ok = cell_cas(c, k, f, &e, v);
          CHECK(ok == (was == m[k]), "compare_exchange on object %d with %" PRIu64 " where %" PRIu64 " is gave %d", k, was, m[k], ok);
          CHECK(e == m[k], "compare_exchange left %" PRIu64 " as the expected value, expected %" PRIu64, e, m[k]);
          if (ok) {m[k] = v;} else {nontrivial();}
        }
    }
    for (int i = 0; i < 5; i++) {for (int g = 0; g < 2; g++) {uint64_t o = cell_load(c, i, g); CHECK(o == m[i], "object %d is %" PRIu64 ", expected %" PRIu64, i, o, m[i]);}}
  }
  free(c);
}
static void parallel()
{
  nontrivial();
  size_t T = draw_plain(2, 4), N = draw_plain(50, 1500);
  int k = (int)draw_plain(0, 4), f = (int)draw_plain(0, 1), what = (int)draw_plain(0, 3);
  if (k == 0) {what = 3;} else if (what == 3) {k = 0;}
  void * c = cell_new();
  std::vector<std::vector<uint64_t>> out(T);
  std::atomic<size_t> ready{0}; volatile uint64_t shared = 0;
  std::vector<std::thread> th;
  static const char * const names[] = {"add", "compare-exchange", "exchange tokens", "take turns"};
  say("%zu threads %s %zu times on object %d", T, names[what], N, k);
  label(names[what]);
  for (size_t t = 0; t < T; t++) {
    out[t].reserve(N);
    th.emplace_back([&, t] {
        ready++; while (ready < T) {}
        for (size_t i = 0; i < N; i++) {
          switch (what) {
            case 0: out[t].push_back(cell_add(c, k, f, 1)); break;
            case 1: {uint64_t e = cell_load(c, k, f); while (!cell_cas(c, k, f, &e, e + 1)) {} out[t].push_back(e); break;}
            case 2: out[t].push_back(cell_exchange(c, k, f, 1 + t * N + i)); break;
            default: while (cell_exchange(c, 0, f, 1)) {std::this_thread::yield();} shared = shared + 1; cell_store(c, 0, 0);
          }
        }
      });
  }
  for (auto & t : th) {t.join();}
  uint64_t final_ = cell_load(c, k, f);
  if (what == 3) {CHECK(shared == T * N && !final_, "%zu of %zu turns under the flag survived", (size_t)shared, T * N);}
  else {
    std::vector<uint64_t> all; for (auto & o : out) {all.insert(all.end(), o.begin(), o.end());}
    if (what == 2) {all.push_back(final_);} else {CHECK(final_ == T * N, "%zu increments left %" PRIu64, T * N, final_);}
    std::sort(all.begin(), all.end());
    for (size_t i = 0; i < all.size(); i++) {CHECK(all[i] == i, "the returned values are not each value once: place %zu holds %" PRIu64, i, all[i]);}
  }
  free(c);
}
// Plain values published by one operation and taken by another: the sanitizer reports an operation that orders nothing.
static void messages()
{
  nontrivial();
  int k = (int)draw_plain(1, 4), f = (int)draw_plain(0, 1), put = (int)draw_plain(0, 3), take = (int)draw_plain(0, 3);
  size_t n = draw_plain(1, 40), len = draw_plain(1, 8);
  static const char * const puts[] = {"store", "exchange", "add", "compare-exchange"}, * const takes[] = {"load", "exchange", "add 0", "compare-exchange"};
  say("%zu messages of %zu words by %s, taken by %s, object %d form %d", n, len, puts[put], takes[take], k, f);
  label("messages");
  void * c = cell_new(), * back = cell_new();
  std::vector<uint64_t> m(len); std::string bad;
  std::thread t([&] {
      for (size_t i = 1; i <= n; i++) {
        for (;;) {
          uint64_t e = i;
          switch (take) {
            case 0: e = cell_load(c, k, f); break;
            // an exchange must not hide a message that comes in between: 0 is put there only where 0 was
            case 1: e = cell_exchange(c, k, f, 0); break;
            case 2: e = cell_add(c, k, f, 0); break;
            default: if (!cell_cas(c, k, f, &e, 0)) {e = 0;}
          }
          if (e == i) {break;}
          std::this_thread::yield();
        }
        for (size_t j = 0; j < len; j++) {if (m[j] != i * 100 + j) {bad = "message " + std::to_string(i) + " has the word " + std::to_string(m[j]) + " at " + std::to_string(j);}}
        cell_store(back, k, i);
      }
    });
  for (size_t i = 1; i <= n; i++) {
    for (size_t j = 0; j < len; j++) {m[j] = i * 100 + j;}
    uint64_t e;
    switch (put) {
      case 0: cell_store(c, k, i); break;
      case 1: cell_exchange(c, k, f, i); break;
      case 2: e = cell_load(c, k, f); cell_add(c, k, f, i - e); break;      // nobody else changes it before the message is there
      default: e = cell_load(c, k, f); while (!cell_cas(c, k, f, &e, i)) {}
    }
    while (cell_load(back, k, f) != i) {std::this_thread::yield();}
  }
  t.join();
  free(c); free(back);
  CHECK(bad.empty(), "%s", bad.c_str());
}
static void order()
{
  nontrivial(); label("order");
  int how[2] = {(int)draw_plain(0, 2), (int)draw_plain(0, 2)};
  if (chance(1, 2)) {how[0] = how[1] = 0;}
  size_t n = draw_plain(100, 20000);
  say("%zu rounds of store and look, %d and %d", n, how[0], how[1]);
  std::vector<uint64_t> seen[2]; seen[0].resize(n); seen[1].resize(n);
  order_reset();
  std::thread t([&] {order_run(1, how[1], n, seen[1].data());});
  order_run(0, how[0], n, seen[0].data());
  t.join();
  for (size_t i = 0; i < n; i++) {
    CHECK(seen[0][i] > i || seen[1][i] > i, "in round %zu each thread stored and then saw neither's store: %" PRIu64 " and %" PRIu64, i, seen[0][i], seen[1][i]);
  }
}
void property_case()
{
  static const char * const impls[] = {"the compiler's header", "the bundled header for gcc", "the bundled header for clang"};
  impl = (int)weighted({4, 1, 1}); say("with %s", impls[impl]);
  if (!chance(1, 60)) {sequential(); return;}
  switch (draw_plain(0, 2)) {
    case 0: messages(); break;
    case 1: order(); break;
    default: parallel();
  }
}
}  // namespace pbt
