// The same operations through the header that is bundled for compilers without a <stdatomic.h>, in the form for gcc,
#include <stdbool.h>
#include <stdint.h>
#include <stdlib.h>
#include <stddef.h>
#undef __has_feature
#define __has_feature(x) 0
#define __GNUC_ATOMICS
#define cell_new gnu_cell_new
#define cell_load gnu_cell_load
#define cell_store gnu_cell_store
#define cell_exchange gnu_cell_exchange
#define cell_add gnu_cell_add
#define cell_cas gnu_cell_cas
#define cell_other gnu_cell_other
#define cell_flag gnu_cell_flag
#include "rcutils/stdatomic_helper/gcc/stdatomic.h"
#include "C34_atomics.c"
