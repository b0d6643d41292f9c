// The helpers are C only; this gives the C++ harness access to every one of them.
#include <stdbool.h>
#include <stdint.h>
#include <stdlib.h>
#include "rcutils/stdatomic_helper.h"
struct cell {atomic_bool b; atomic_int_least64_t i; atomic_uint_least64_t u; atomic_uintptr_t p; atomic_int n;};
void * cell_new(void) {return calloc(1, sizeof(struct cell));}
static struct cell * C(void * c) {return (struct cell *)c;}
// kind 0 bool, 1 int64, 2 uint64, 3 uintptr, 4 int; form 0 the generic macro, 1 the named function if there is one
uint64_t cell_load(void * c, int kind, int form)
{
  switch (kind) {
    case 0: {bool o = false; if (form) {return rcutils_atomic_load_bool(&C(c)->b);} rcutils_atomic_load(&C(c)->b, o); return o;}
    case 1: {int64_t o = 0; if (form) {return (uint64_t)rcutils_atomic_load_int64_t(&C(c)->i);} rcutils_atomic_load(&C(c)->i, o); return (uint64_t)o;}
    case 2: {uint64_t o = 0; if (form) {return rcutils_atomic_load_uint64_t(&C(c)->u);} rcutils_atomic_load(&C(c)->u, o); return o;}
    case 3: {uintptr_t o = 0; if (form) {return rcutils_atomic_load_uintptr_t(&C(c)->p);} rcutils_atomic_load(&C(c)->p, o); return o;}
    default: {int o = 0; rcutils_atomic_load(&C(c)->n, o); return (uint64_t)o;}
  }
}
void cell_store(void * c, int kind, uint64_t v)
{
  switch (kind) {
    case 0: rcutils_atomic_store(&C(c)->b, (bool)v); break;
    case 1: rcutils_atomic_store(&C(c)->i, (int64_t)v); break;
    case 2: rcutils_atomic_store(&C(c)->u, v); break;
    case 3: rcutils_atomic_store(&C(c)->p, (uintptr_t)v); break;
    default: rcutils_atomic_store(&C(c)->n, (int)v);
  }
}
uint64_t cell_exchange(void * c, int kind, int form, uint64_t v)
{
  switch (kind) {
    case 0: {bool o; if (form) {return rcutils_atomic_exchange_bool(&C(c)->b, (bool)v);} rcutils_atomic_exchange(&C(c)->b, o, (bool)v); return o;}
    case 1: {int64_t o; if (form) {return (uint64_t)rcutils_atomic_exchange_int64_t(&C(c)->i, (int64_t)v);} rcutils_atomic_exchange(&C(c)->i, o, (int64_t)v); return (uint64_t)o;}
    case 2: {uint64_t o; if (form) {return rcutils_atomic_exchange_uint64_t(&C(c)->u, v);} rcutils_atomic_exchange(&C(c)->u, o, v); return o;}
    case 3: {uintptr_t o; if (form) {return rcutils_atomic_exchange_uintptr_t(&C(c)->p, (uintptr_t)v);} rcutils_atomic_exchange(&C(c)->p, o, (uintptr_t)v); return o;}
    default: {int o; rcutils_atomic_exchange(&C(c)->n, o, (int)v); return (uint64_t)o;}
  }
}
uint64_t cell_add(void * c, int kind, int form, uint64_t v)      // not for bool
{
  switch (kind) {
    case 1: {int64_t o; rcutils_atomic_fetch_add(&C(c)->i, o, (int64_t)v); return (uint64_t)o;}
    case 2: {uint64_t o; if (form) {return rcutils_atomic_fetch_add_uint64_t(&C(c)->u, v);} rcutils_atomic_fetch_add(&C(c)->u, o, v); return o;}
    case 3: {uintptr_t o; rcutils_atomic_fetch_add(&C(c)->p, o, (uintptr_t)v); return o;}
    default: {int o; rcutils_atomic_fetch_add(&C(c)->n, o, (int)v); return (uint64_t)o;}
  }
}
bool cell_cas(void * c, int kind, int form, uint64_t * expected, uint64_t v)
{
  bool ok;
  switch (kind) {
    case 0: {bool e = (bool)*expected; rcutils_atomic_compare_exchange_strong(&C(c)->b, ok, &e, (bool)v); *expected = e; return ok;}
    case 1: {int_least64_t e = (int64_t)*expected; rcutils_atomic_compare_exchange_strong(&C(c)->i, ok, &e, (int64_t)v); *expected = (uint64_t)e; return ok;}
    case 2: {
        if (form) {return rcutils_atomic_compare_exchange_strong_uint_least64_t(&C(c)->u, expected, v);}
        rcutils_atomic_compare_exchange_strong(&C(c)->u, ok, expected, v); return ok;
      }
    case 3: {uintptr_t e = (uintptr_t)*expected; rcutils_atomic_compare_exchange_strong(&C(c)->p, ok, &e, (uintptr_t)v); *expected = e; return ok;}
    default: {int e = (int)*expected; rcutils_atomic_compare_exchange_strong(&C(c)->n, ok, &e, (int)v); *expected = (uint64_t)e; return ok;}
  }
}
// the operations that only the atomics header offers: 0 sub, 1 and, 2 or, 3 xor
uint64_t cell_other(void * c, int kind, int op, uint64_t v)      // not for bool
{
#define OTHER(x, T) do { \
    switch (op) { \
      case 0: return (uint64_t)atomic_fetch_sub(&C(c)->x, (T)v); \
      case 1: return (uint64_t)atomic_fetch_and(&C(c)->x, (T)v); \
      case 2: return (uint64_t)atomic_fetch_or(&C(c)->x, (T)v); \
      default: return (uint64_t)atomic_fetch_xor(&C(c)->x, (T)v); \
    } \
} while (0)
  switch (kind) {
    case 1: OTHER(i, int64_t);
    case 2: OTHER(u, uint64_t);
    case 3: OTHER(p, uintptr_t);
    default: OTHER(n, int);
  }
}
// 0 reads nothing and clears; 1 sets and gives what was there
static atomic_flag flag = ATOMIC_FLAG_INIT;
bool cell_flag(int set)
{
  if (set) {return atomic_flag_test_and_set(&flag);}
  atomic_flag_clear(&flag);
  return false;
}
