#include "mods.h"
#include "rcutils/cmdline_parser.h"
#include "rcutils/env.h"
#include "rcutils/find.h"
#include "rcutils/qsort.h"
#include "rcutils/sha256.h"
#include "rcutils/snprintf.h"
#include "rcutils/strcasecmp.h"
#include "rcutils/strerror.h"
#include "rcutils/time.h"
using namespace pbt;
namespace pbt
{
const char * const kPropertyId = "C37";
const char * const kRule =
  "a case is a generated script of calls over one object of every container, logging and all allocating functions, mixed with "
  "lookups, string, time, file, environment and formatting functions; before each call the error state is empty or holds an earlier "
  "error, and some calls run with a failing allocation; after each call the error state is compared with what the outcome permits; "
  "non-trivial: at least one call failed and one succeeded over an earlier error";
const Budget kBudget = {400000, 5000000, 150000};
static std::string dir; static rc::FdCapture * cap;
static void quiet(const rcutils_log_location_t *, int, const char *, rcutils_time_point_value_t, const char *, va_list *) {}
void property_setup() {setenv("HOME", "/nonexistent-home", 1); dir = mods::make_dir(); cap = new rc::FdCapture(2);}
static bool before; static unsigned long at;
static void preset()
{
  rc::clear_error(); before = chance(1, 2);
  if (before) {at = (unsigned long)draw_plain(1, 99999); rcutils_set_error_state("an earlier error", "some_file.c", at);}
}
static bool kept()
{
  if (!before) {return !rcutils_error_is_set();}
  const rcutils_error_state_t * e = rcutils_get_error_state();
  return rcutils_error_is_set() && e && !strcmp(e->message, "an earlier error") && !strcmp(e->file, "some_file.c") && e->line_number == at;
}
static std::string now() {return rcutils_error_is_set() ? quote(rcutils_get_error_string().str, strlen(rcutils_get_error_string().str)) : std::string("none");}
static void untouched(const char * what) {CHECK(kept(), "%s changed the error state: %s before, %s after", what, before ? "an earlier error" : "none", now().c_str());}
static int cmp(const void * a, const void * b) {return *(const unsigned char *)a - *(const unsigned char *)b;}
#define CALLS(what) name = what
static void other(mods::World & w)      // calls which succeed, or are documented to set no error
{
  const char * name = "";
  std::string t = chance(1, 3) ? cstr(12) : str_of("ab./", 0, 4); rc::Exact k(t); char buf[64]; int v; uint64_t u;
  rcutils_allocator_t & a = w.a;
  switch (draw_plain(0, 22)) {
    case 0: {CALLS("hash_map_key_exists"); const char * p = k; rcutils_hash_map_t z = rcutils_get_zero_initialized_hash_map(); if (w.hm_i) {(void)rcutils_hash_map_key_exists(&w.hm, &p); (void)rcutils_hash_map_key_exists(&w.hm, nullptr);} (void)rcutils_hash_map_key_exists(&z, &p); (void)rcutils_hash_map_key_exists(nullptr, &p); break;}
    case 1: {CALLS("string_map_key_exists"); rcutils_string_map_t z = rcutils_get_zero_initialized_string_map(); if (w.sm_i[0]) {(void)rcutils_string_map_key_exists(&w.sm[0], k); (void)rcutils_string_map_key_existsn(&w.sm[0], k, t.size()); (void)rcutils_string_map_key_exists(&w.sm[0], nullptr);} (void)rcutils_string_map_key_exists(&z, k); (void)rcutils_string_map_key_exists(nullptr, k); break;}
    case 2: {CALLS("string_map_get"); rcutils_string_map_t z = rcutils_get_zero_initialized_string_map(); if (w.sm_i[0]) {(void)rcutils_string_map_get(&w.sm[0], k); (void)rcutils_string_map_getn(&w.sm[0], k, t.size()); (void)rcutils_string_map_get(&w.sm[0], nullptr);} (void)rcutils_string_map_get(&z, k); (void)rcutils_string_map_get(nullptr, k); break;}
    case 3: {CALLS("string_map_get_next_key"); if (w.sm_i[1]) {const char * p = nullptr; while ((p = rcutils_string_map_get_next_key(&w.sm[1], p))) {}} break;}
    case 4: {CALLS("iterating a hash_map"); if (w.hm_i) {char * p, * q; rcutils_ret_t r = rcutils_hash_map_get_next_key_and_data(&w.hm, nullptr, &p, &v); while (r == RCUTILS_RET_OK) {q = p; r = rcutils_hash_map_get_next_key_and_data(&w.hm, &q, &p, &v);} CHECK_EQ(r, RCUTILS_RET_HASH_MAP_NO_MORE_ENTRIES, "the end of the iteration");} break;}
    case 5: CALLS("strdup of NULL"); CHECK(!rcutils_strdup(nullptr, a) && !rcutils_strndup(nullptr, 3, a), "a copy of NULL"); break;
    case 6: {CALLS("find"); (void)rcutils_find(k, '.'); (void)rcutils_find_last(k, '/'); (void)rcutils_findn(k, 'a', t.size()); (void)rcutils_find_lastn(k, 'b', t.size()); break;}
    case 7: CALLS("strcasecmp"); CHECK(!rcutils_strcasecmp(k, "a", &v) && !rcutils_strncasecmp(k, "a", 1, &v), "strcasecmp failed"); break;
    case 8: {CALLS("get_env"); const char * g; const char * r = rcutils_get_env("RCUTILS_C37_X", &g); CHECK(!r, "get_env gave %s", r); break;}
    case 9: CALLS("set_env"); CHECK(rcutils_set_env("RCUTILS_C37_X", chance(1, 3) ? nullptr : k.p) && rcutils_set_env_overwrite("RCUTILS_C37_Y", "y", false), "set_env failed"); break;
    case 10: {CALLS("clocks"); rcutils_time_point_value_t n; CHECK(rcutils_system_time_now(&n) == RCUTILS_RET_OK && rcutils_steady_time_now(&n) == RCUTILS_RET_OK, "a clock failed"); break;}
    case 11: {CALLS("time strings"); rcutils_time_point_value_t n = (int64_t)draw(0, UINT64_MAX); size_t z = draw_plain(0, sizeof buf); CHECK(rcutils_time_point_value_as_nanoseconds_string(&n, buf, z) == RCUTILS_RET_OK && rcutils_time_point_value_as_seconds_string(&n, buf, z) == RCUTILS_RET_OK && (!z || rcutils_time_point_value_as_date_string(&n, buf, z) == RCUTILS_RET_OK), "a time string failed"); break;}
    case 12: CALLS("file queries"); CHECK(rcutils_exists(dir.c_str()) && rcutils_is_directory(dir.c_str()) && !rcutils_is_file(dir.c_str()) && rcutils_is_file((dir + "/a").c_str()) && rcutils_is_readable(dir.c_str()) && rcutils_is_readable_and_writable(dir.c_str()) && rcutils_is_writable(dir.c_str()) && rcutils_get_file_size((dir + "/a").c_str()) == 100, "a file query failed"); break;
    case 13: CALLS("mkdir, get_cwd"); {char big[4096]; CHECK(rcutils_mkdir(dir.c_str()) && rcutils_get_cwd(big, sizeof big), "mkdir or get_cwd failed");} break;
    case 14: {CALLS("sha256"); rcutils_sha256_ctx_t c; uint8_t o[32]; rcutils_sha256_init(&c); rcutils_sha256_update(&c, (const uint8_t *)k.p, t.size()); rcutils_sha256_final(&c, o); break;}
    case 15: CALLS("snprintf"); CHECK_EQ((size_t)rcutils_snprintf(buf, draw_plain(1, 9), "%s", k.p), t.size(), "snprintf"); break;
    case 16: CALLS("strerror"); errno = (int)draw_plain(0, 140); rcutils_strerror(buf, sizeof buf); break;
    case 17: {CALLS("qsort"); std::string q = t; CHECK(rcutils_qsort(&q[0], q.size(), 1, cmp) == RCUTILS_RET_OK, "qsort failed"); break;}
    case 18: {CALLS("cli options"); char * argv[] = {(char *)"x", k.p}; (void)rcutils_cli_option_exist(argv, argv + 2, "-o"); (void)rcutils_cli_get_option(argv, argv + 2, "-o"); break;}
    case 19: {
        CALLS("logger levels"); if (!w.lg_i) {return;}
        rcutils_logging_set_default_logger_level(20); (void)rcutils_logging_get_default_logger_level();
        CHECK(rcutils_logging_get_logger_effective_level(k) >= 0, "effective level"); (void)rcutils_logging_logger_is_enabled_for(k, 30); (void)rcutils_logging_get_output_handler();
        break;
      }
    case 20: {
        CALLS("a log call"); if (!w.lg_i) {return;}
        auto h = rcutils_logging_get_output_handler(); bool con = chance(1, 2);
        if (!con) {rcutils_logging_set_output_handler(quiet);} else {cap->start();}
        rcutils_log_location_t l = {"f", "file", 3}; rcutils_log(chance(1, 4) ? nullptr : &l, 50, k, "%s", k.p);
        if (con) {cap->stop();} else {rcutils_logging_set_output_handler(h);}
        break;
      }
    case 21: {CALLS("parsing a severity"); CHECK(rcutils_logging_severity_level_from_string("Warn", a, &v) == RCUTILS_RET_OK && v == 30, "severity"); break;}
    default: {
        CALLS("format_message"); if (!w.lg_i) {return;}
        rcutils_char_array_t o = rcutils_get_zero_initialized_char_array(); CHECK_EQ(rcutils_char_array_init(&o, draw_plain(0, 9), &a), RCUTILS_RET_OK, "char_array_init");
        CHECK_EQ(rcutils_logging_format_message(nullptr, 30, k, 7, k, &o), RCUTILS_RET_OK, "format_message"); CHECK_EQ(rcutils_char_array_fini(&o), RCUTILS_RET_OK, "fini");
      }
  }
  (void)u; say("%s (%s)", name, before ? "over an earlier error" : "no error set");
  untouched(name);
}
void property_case()
{
  rc::clear_error();
  rc::TrackAlloc ta; bool heavy = chance(1, 4), f = false, s = false;
  CHECK_EQ(rcutils_logging_shutdown(), RCUTILS_RET_OK, "logging shutdown");
  mods::World w(ta, true, dir);
  while (more(24)) {
    preset();
    if (chance(1, 3)) {other(w); continue;}
    mods::Step st = mods::step_gen(heavy);
    if (chance(1, 4)) {ta.arm((int64_t)draw_small(0, 3), chance(1, 2));}
    w.exec(st);
    say("%s (%s)%s", w.outcome_of, before ? "over an earlier error" : "no error set", ta.n_failed ? " out of memory" : "");
    std::string what = w.outcome_of;
    switch (w.outcome) {
      case mods::World::SUCCESS:
        // a string map that has to grow drops what was set before
        if (before && (what == "string_map_set" || what == "string_map_copy") && !rcutils_error_is_set()) {break;}
        untouched((what + ", which succeeded,").c_str()); s |= before; label(before ? "success over an earlier error" : "success"); break;
      case mods::World::SILENT_FAILURE: untouched((what + ", documented to set no error,").c_str()); label("silent failure"); break;
      case mods::World::FAILURE:
        if (what == "directory size") {break;}              // reports on standard error
        label("failure"); f = true;
        CHECK(rcutils_error_is_set(), "%s failed and set no error", what.c_str());
        CHECK(!before || !kept(), "%s failed and left the earlier error", what.c_str());
        CHECK(rcutils_get_error_state()->message[0] && rcutils_get_error_state()->file[0] && rcutils_get_error_state()->line_number, "%s set an error without message, file or line", what.c_str());
        break;
      default: break;
    }
    ta.disarm();
    preset(); w.check(); untouched("looking at the objects");
  }
  preset();
  w.finish(); untouched("finalizing everything");
  rc::clear_error();
  ta.expect_empty("after everything is finalized");
  if (f && s) {nontrivial();}
}
}  // namespace pbt
