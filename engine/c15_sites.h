// Call sites of every logging macro; included by the C15_*.c/.cpp files with SITES_NAME (and
// perhaps RCUTILS_LOG_MIN_SEVERITY) defined.  The static state of the macros goes into named sections so
// that the harness can reset it before each case.
#include <stdbool.h>
#include <stddef.h>
#include "c15.h"
#pragma clang section bss="c15bss" data="c15data"
#include "rcutils/logging_macros.h"

#define CAT_(a, b) a ## b
#define CAT(a, b) CAT_(a, b)
#define STR_(a) #a
#define STR(a) STR_(a)
#define FN(sev, kind) CAT(CAT(CAT(SITES_NAME, _), sev), CAT(_, kind))
#define MSG "%s-%d%%", c15_arg(), c15_num
// the macro is used as the only statement of an if with an else branch
#define SITE(sev, kind, ...) \
  static void FN(sev, kind)(void) { \
    if (c15_take) \
      __VA_ARGS__; \
    else \
      c15_else++; \
  } \
  static const int CAT(FN(sev, kind), _line) = __LINE__;
#define SITES(sev, D) \
  SITE(sev, 0, RCUTILS_LOG_ ## sev(MSG)) \
  SITE(sev, 1, RCUTILS_LOG_ ## sev ## _NAMED(c15_name, MSG)) \
  SITE(sev, 2, RCUTILS_LOG_ ## sev ## _ONCE(MSG)) \
  SITE(sev, 3, RCUTILS_LOG_ ## sev ## _ONCE_NAMED(c15_name, MSG)) \
  SITE(sev, 4, RCUTILS_LOG_ ## sev ## _EXPRESSION(c15_expr(), MSG)) \
  SITE(sev, 5, RCUTILS_LOG_ ## sev ## _EXPRESSION_NAMED(c15_expr(), c15_name, MSG)) \
  SITE(sev, 6, RCUTILS_LOG_ ## sev ## _FUNCTION(&c15_filter, MSG)) \
  SITE(sev, 7, RCUTILS_LOG_ ## sev ## _FUNCTION_NAMED(&c15_filter, c15_name, MSG)) \
  SITE(sev, 8, RCUTILS_LOG_ ## sev ## _SKIPFIRST(MSG)) \
  SITE(sev, 9, RCUTILS_LOG_ ## sev ## _SKIPFIRST_NAMED(c15_name, MSG)) \
  SITE(sev, 10, RCUTILS_LOG_ ## sev ## _THROTTLE(c15_clock, D, MSG)) \
  SITE(sev, 11, RCUTILS_LOG_ ## sev ## _THROTTLE_NAMED(c15_clock, D, c15_name, MSG)) \
  SITE(sev, 12, RCUTILS_LOG_ ## sev ## _SKIPFIRST_THROTTLE(c15_clock, D, MSG)) \
  SITE(sev, 13, RCUTILS_LOG_ ## sev ## _SKIPFIRST_THROTTLE_NAMED(c15_clock, D, c15_name, MSG))
SITES(DEBUG, 1)
SITES(INFO, 7)
SITES(WARN, 100)
#line 70001
SITES(ERROR, 0)
#line 1234567
SITES(FATAL, 3000000)
#pragma clang section bss="" data=""
#define ENTRY(sev, k, n, d) {FN(sev, k), STR(FN(sev, k)), __FILE__, CAT(FN(sev, k), _line), k, n, d}
#define ENTRIES(sev, n, d) \
  ENTRY(sev, 0, n, d), ENTRY(sev, 1, n, d), ENTRY(sev, 2, n, d), ENTRY(sev, 3, n, d), ENTRY(sev, 4, n, d), \
  ENTRY(sev, 5, n, d), ENTRY(sev, 6, n, d), ENTRY(sev, 7, n, d), ENTRY(sev, 8, n, d), ENTRY(sev, 9, n, d), \
  ENTRY(sev, 10, n, d), ENTRY(sev, 11, n, d), ENTRY(sev, 12, n, d), ENTRY(sev, 13, n, d)
#ifdef __cplusplus
extern "C"
#endif
void CAT(SITES_NAME, _get)(struct c15_table * t)
{
  static const struct c15_site sites[] = {
    ENTRIES(DEBUG, 10, 1), ENTRIES(INFO, 20, 7), ENTRIES(WARN, 30, 100), ENTRIES(ERROR, 40, 0), ENTRIES(FATAL, 50, 3000000)};
  t->sites = sites;
  t->n = sizeof sites / sizeof *sites;
  t->min_severity = 10 * (RCUTILS_LOG_MIN_SEVERITY + 1);
}
