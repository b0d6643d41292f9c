// The same operations through the header that is bundled for compilers without a <stdatomic.h>, in the form for clang
#include <stdbool.h>
#include <stdint.h>
#include <stdlib.h>
#include <stddef.h>
#undef __has_feature
#define __has_feature(x) 0
#define __CLANG_ATOMICS
#define cell_new c11_cell_new
#define cell_load c11_cell_load
#define cell_store c11_cell_store
#define cell_exchange c11_cell_exchange
#define cell_add c11_cell_add
#define cell_cas c11_cell_cas
#define cell_other c11_cell_other
#define cell_flag c11_cell_flag
#include "rcutils/stdatomic_helper/gcc/stdatomic.h"
#include "C34_atomics.c"
