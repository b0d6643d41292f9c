// Two rounds of threads that store to one object and then load another: if all operations are in one order, one of the
// two sees the store of the other. Runs without instrumentation, whose calls would order the operations themselves.
#include <stdbool.h>
#include <stdint.h>
#include "rcutils/stdatomic_helper.h"
#if defined(__clang__)
#define PLAIN __attribute__((noinline, disable_sanitizer_instrumentation))
#else
#define PLAIN __attribute__((noinline))
#endif
// all on cache lines of their own
struct order {
  _Alignas(128) atomic_uint_least64_t x;
  _Alignas(128) atomic_uint_least64_t y;
  _Alignas(128) atomic_uint_least64_t round[2];
};
static struct order o;
void order_reset(void) {atomic_store(&o.x, 0); atomic_store(&o.y, 0); atomic_store(&o.round[0], 0); atomic_store(&o.round[1], 0);}
// stores i + 1 into the own object in round i and gives in seen[i] what the other one held; how: 0 store, 1 exchange, 2 fetch_add
PLAIN void order_run(int me, int how, uint64_t n, uint64_t * seen)
{
  atomic_uint_least64_t * mine = me ? &o.y : &o.x, * other = me ? &o.x : &o.y;
  for (uint64_t i = 0; i < n; i++) {
    uint64_t v = 0, w = 0;
    // wait for the other one to come to this round (its number is announced with the compiler's own operations)
    __atomic_store_n((uint64_t *)&o.round[me], i + 1, __ATOMIC_RELEASE);
    for (uint64_t k = 0; __atomic_load_n((uint64_t *)&o.round[!me], __ATOMIC_ACQUIRE) < i + 1 && k < 3000; k++) {}
    switch (how) {
      case 0: rcutils_atomic_store(mine, i + 1); break;
      case 1: rcutils_atomic_exchange(mine, w, i + 1); break;
      default: rcutils_atomic_fetch_add(mine, w, 1); break;
    }
    rcutils_atomic_load(other, v);
    seen[i] = v; (void)w;
  }
}
