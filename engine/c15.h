#ifndef C15_H_
#define C15_H_
#include "rcutils/time.h"
#include "rcutils/types/rcutils_ret.h"
#ifdef __cplusplus
extern "C" {
#endif
struct c15_site {void (* run)(void); const char * func; const char * file; int line; int kind; int severity; long long duration_ms;};
struct c15_table {const struct c15_site * sites; unsigned n; int min_severity;};
extern bool c15_take; extern int c15_else, c15_num; extern const char * c15_name;
const char * c15_arg(void); bool c15_expr(void); bool c15_filter(void);
rcutils_ret_t c15_clock(rcutils_time_point_value_t * t);
void c15c_get(struct c15_table *); void c15cpp_get(struct c15_table *); void c15info_get(struct c15_table *);
void c15warn_get(struct c15_table *); void c15error_get(struct c15_table *); void c15fatal_get(struct c15_table *); void c15none_get(struct c15_table *);
#ifdef __cplusplus
}
#endif
#endif
