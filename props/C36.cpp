// BUILD sanitize: thread
#include "rc.h"
#include <algorithm>
#include <atomic>
#include <csignal>
#include <thread>
#include <sys/wait.h>
#include <errno.h>
#include "rcutils/cmdline_parser.h"
#include "rcutils/env.h"
#include "rcutils/filesystem.h"
#include "rcutils/find.h"
#include "rcutils/format_string.h"
#include "rcutils/logging.h"
#include "rcutils/process.h"
#include "rcutils/qsort.h"
#include "rcutils/repl_str.h"
#include "rcutils/sha256.h"
#include "rcutils/shared_library.h"
#include "rcutils/snprintf.h"
#include "rcutils/split.h"
#include "rcutils/strcasecmp.h"
#include "rcutils/strdup.h"
#include "rcutils/strerror.h"
#include "rcutils/testing/fault_injection.h"
#include "rcutils/time.h"
#include "rcutils/types.h"
using namespace pbt;
namespace pbt
{
const char * const kPropertyId = "C36";
const char * const kRule =
  "a case is two to four generated programs (calls of the library on objects, strings, files and time points of the program's own, on "
  "a directory tree and an environment that nobody changes, and on loggers), run in a fresh process in as many threads at once "
  "and then each alone; every program must give the same results both times, every log message must arrive once, whole and in "
  "the order of its thread, and the thread sanitizer must not find a data race; non-trivial: two of the programs contain the "
  "same kind of call";
const Budget kBudget = {6000, 60000, 0};

enum Kind
{
  LIST, HASH, SMAP, SARRAY, CARRAY, BARRAY, SPLIT, REPL, FIND, DUP, CASECMP, FORMAT, ERROR_, TIMESTR, NOW, SHA, QUERY, DIRSIZE,
  DIRITER, PATHS, MKDIR, ENV, CLI, STRERR, PROCESS, LOG, LOGFORMAT, SEVERITY, LIBRARY, SORT, ALLOC, NKIND
};
static const char * const kinds[] = {
  "array list", "hash map", "string map", "string array", "char array", "byte array", "split", "replace", "find", "duplicate",
  "compare caseless", "format", "error state", "time as text", "clock", "sha256", "path query", "directory size", "directory entries",
  "join and expand paths", "create a directory", "environment", "command line", "error text", "process", "log", "format a message", "severity name",
  "shared library", "sort", "allocate"};
struct Op {int kind; std::string s, t; uint64_t n; int64_t v; unsigned times;};
typedef std::vector<Op> Prog;
static std::string tree;      // a directory that nobody changes during a case
static thread_local std::vector<std::string> * arrived;

void property_setup()
{
  tree = scratch() + "/tree";
  mkdir(tree.c_str(), 0775);
  for (int i = 0; i < 4; i++) {
    std::string d = tree + "/d" + std::to_string(i); mkdir(d.c_str(), 0775);
    for (int j = 0; j <= i; j++) {
      int fd = open((d + "/f" + std::to_string(j)).c_str(), O_CREAT | O_WRONLY, 0644);
      std::string x(100 * i + 10 * j, 'x'); if (write(fd, x.data(), x.size()) < 0) {}
      close(fd);
    }
  }
}

static void handler(const rcutils_log_location_t *, int severity, const char * name, rcutils_time_point_value_t, const char * format, va_list * args)
{
  char b[2000]; vsnprintf(b, sizeof b, format, *args);
  if (arrived) {arrived->push_back(std::to_string(severity) + " " + name + " " + b);}
}

static void add(std::string & o, const char * f, ...) __attribute__((format(printf, 2, 3)));
static void add(std::string & o, const char * f, ...)
{
  char b[8192]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap);
  o += b; o += '\n';
}
static size_t hash_int(const void * k) {return *(const int *)k & 3;}
static int cmp_int(const void * a, const void * b) {int x = *(const int *)a, y = *(const int *)b; return x < y ? -1 : x > y;}
static int cmp_chr(const void * a, const void * b) {return (int)*(const unsigned char *)a - (int)*(const unsigned char *)b;}

static int print(rcutils_char_array_t * a, const char * f, ...)
{
  va_list ap; va_start(ap, f); int r = rcutils_char_array_vsprintf(a, f, ap); va_end(ap); return r;
}

// Runs one operation on objects of its own; everything it can observe goes into `o`.
static void run_op(const Op & op, unsigned me, std::string & o)
{
  rcutils_allocator_t al = rcutils_get_default_allocator();
  const std::string & s = op.s, & t = op.t;
  switch (op.kind) {
    case LIST: {
        rcutils_array_list_t l = rcutils_get_zero_initialized_array_list(); int x; size_t n = 0;
        add(o, "%d", rcutils_array_list_init(&l, 1 + op.n % 4, sizeof(int), &al));
        for (int i = 0; i < (int)(op.n % 20); i++) {x = (int)op.v + i; add(o, "%d", rcutils_array_list_add(&l, &x));}
        add(o, "%d", rcutils_array_list_remove(&l, op.n % 7)); rcutils_reset_error();
        (void)!rcutils_array_list_get_size(&l, &n);
        for (size_t i = 0; i <= n; i++) {x = -1; int r = rcutils_array_list_get(&l, i, &x); add(o, "%d %d", r, x);}
        x = 77; add(o, "%d", rcutils_array_list_set(&l, op.n % 9, &x)); x = -1; add(o, "%d %d", rcutils_array_list_get(&l, op.n % 9, &x), x);
        rcutils_reset_error();
        add(o, "%d", rcutils_array_list_fini(&l)); break;
      }
    case HASH: {
        rcutils_hash_map_t m = rcutils_get_zero_initialized_hash_map(); int k, v, pk; bool strings = op.n & 1;
        add(o, "%d", rcutils_hash_map_init(&m, 1 + op.n % 5, strings ? sizeof(char *) : sizeof(int), sizeof(int),
          strings ? rcutils_hash_map_string_hash_func : hash_int, strings ? rcutils_hash_map_string_cmp_func : cmp_int, &al));
        if (strings) {
          std::vector<std::string> keys; for (size_t i = 0; i <= s.size(); i++) {keys.push_back(s.substr(i));}
          for (auto & x : keys) {const char * p = x.c_str(); v = (int)x.size(); add(o, "%d", rcutils_hash_map_set(&m, &p, &v));}
          for (auto & x : keys) {const char * p = x.c_str(); v = -1; int r = rcutils_hash_map_get(&m, &p, &v); add(o, "%d %d", r, v);}
        } else {
          for (int i = 0; i < (int)(op.n % 17); i++) {k = (int)op.v + i * i; v = i; add(o, "%d", rcutils_hash_map_set(&m, &k, &v));}
          k = (int)op.v + 4; add(o, "%d", rcutils_hash_map_unset(&m, &k));
          int r = rcutils_hash_map_get_next_key_and_data(&m, nullptr, &k, &v), guard = 0; std::vector<std::pair<int, int>> all;
          while (!r && guard++ < 100) {all.push_back({k, v}); pk = k; r = rcutils_hash_map_get_next_key_and_data(&m, &pk, &k, &v);}
          std::sort(all.begin(), all.end()); add(o, "end %d", r);
          for (auto & e : all) {add(o, "%d=%d", e.first, e.second);}
        }
        size_t n = 0, c = 0; int g1 = rcutils_hash_map_get_size(&m, &n), g2 = rcutils_hash_map_get_capacity(&m, &c);
        add(o, "%d %zu %d %zu", g1, n, g2, c);
        if (!strings) {k = (int)op.v + 9; add(o, "%d", rcutils_hash_map_key_exists(&m, &k));}
        rcutils_reset_error();
        add(o, "%d", rcutils_hash_map_fini(&m)); break;
      }
    case SMAP: {
        rcutils_string_map_t m = rcutils_get_zero_initialized_string_map();
        add(o, "%d", rcutils_string_map_init(&m, op.n % 4, al));
        for (size_t i = 0; i < s.size(); i++) {
          std::string k = s.substr(i, 2);
          add(o, "%d", rcutils_string_map_set(&m, k.c_str(), t.c_str()));
        }
        if (s.size()) {add(o, "%d", rcutils_string_map_unset(&m, s.substr(0, 2).c_str()));}
        for (size_t i = 0; i < s.size(); i++) {const char * r = rcutils_string_map_get(&m, s.substr(i, 2).c_str()); add(o, "%s", r ? r : "none");}
        std::vector<std::string> all; size_t n = 0, c = 0;
        const char * key = rcutils_string_map_get_next_key(&m, nullptr); int guard = 0;
        while (key && guard++ < 5000) {all.push_back(key); key = rcutils_string_map_get_next_key(&m, key);}
        std::sort(all.begin(), all.end()); for (auto & k : all) {add(o, "%s", k.c_str());}
        add(o, "%d", rcutils_string_map_reserve(&m, op.n % 30));
        rcutils_string_map_t m2 = rcutils_get_zero_initialized_string_map();
        add(o, "%d", rcutils_string_map_init(&m2, 1, al)); add(o, "%d", rcutils_string_map_copy(&m, &m2));
        for (size_t i = 0; i < s.size(); i++) {const char * r = rcutils_string_map_getn(&m2, s.c_str() + i, 2); add(o, "%s %d", r ? r : "none", rcutils_string_map_key_existsn(&m, s.c_str() + i, 1));}
        int r0 = rcutils_string_map_get_size(&m, &n); r0 |= rcutils_string_map_get_capacity(&m, &c); add(o, "%d %zu %d", r0, n, c >= n);
        add(o, "%d", rcutils_string_map_set_no_resize(&m2, t.c_str(), s.c_str()));
        add(o, "%d", rcutils_string_map_clear(&m)); rcutils_reset_error();
        add(o, "%d", rcutils_string_map_fini(&m2));
        add(o, "%d", rcutils_string_map_fini(&m)); break;
      }
    case SARRAY: {
        rcutils_string_array_t a = rcutils_get_zero_initialized_string_array(); int res = 0;
        add(o, "%d", rcutils_string_array_init(&a, s.size(), &al));
        for (size_t i = 0; i < a.size; i++) {a.data[i] = rcutils_strdup(s.substr(i).c_str(), al);}
        add(o, "%d", rcutils_string_array_resize(&a, op.n % 20)); 
        if (a.size) {add(o, "%d", rcutils_string_array_sort(&a));}
        for (size_t i = 0; i < a.size; i++) {add(o, "%s", a.data[i] ? a.data[i] : "none");}
        int r = rcutils_string_array_cmp(&a, &a, &res); add(o, "%d %d", r, res); rcutils_reset_error();
        add(o, "%d", rcutils_string_array_fini(&a)); break;
      }
    case CARRAY: {
        rcutils_char_array_t a = rcutils_get_zero_initialized_char_array();
        add(o, "%d", rcutils_char_array_init(&a, op.n % 40, &al));
        add(o, "%d", rcutils_char_array_strcpy(&a, s.c_str())); add(o, "%s", a.buffer);
        add(o, "%d", rcutils_char_array_strcat(&a, t.c_str())); add(o, "%s", a.buffer);
        add(o, "%d", rcutils_char_array_strncat(&a, s.c_str(), op.n % 5)); add(o, "%s", a.buffer);
        add(o, "%d", rcutils_char_array_resize(&a, a.buffer_length + op.n % 9));
        add(o, "%s %zu", a.buffer, a.buffer_length);
        add(o, "%d", print(&a, "%s/%d/%s", t.c_str(), (int)op.v, s.c_str())); add(o, "%s", a.buffer);
        add(o, "%d", rcutils_char_array_memcpy(&a, s.c_str(), s.size() + 1)); add(o, "%s", a.buffer);
        add(o, "%d", rcutils_char_array_expand_as_needed(&a, op.n));
        add(o, "%d", rcutils_char_array_fini(&a)); break;
      }
    case BARRAY: {
        rcutils_uint8_array_t a = rcutils_get_zero_initialized_uint8_array();
        add(o, "%d", rcutils_uint8_array_init(&a, s.size() + 1, &al));
        memcpy(a.buffer, s.data(), s.size()); a.buffer_length = s.size();
        add(o, "%d", rcutils_uint8_array_resize(&a, 1 + op.n % 50));
        add(o, "%zu %s", a.buffer_length, hex(a.buffer, a.buffer_length).c_str());
        add(o, "%d", rcutils_uint8_array_fini(&a)); break;
      }
    case SPLIT: {
        for (int last = 0; last < 2; last++) {
          rcutils_string_array_t a = rcutils_get_zero_initialized_string_array();
          add(o, "%d", last ? rcutils_split_last(s.c_str(), 'a', al, &a) : rcutils_split(s.c_str(), 'a', al, &a));
          for (size_t i = 0; i < a.size; i++) {add(o, "[%s]", a.data[i]);}
          add(o, "%d", rcutils_string_array_fini(&a));
        }
        break;
      }
    case REPL: {char * r = rcutils_repl_str(s.c_str(), "a", t.c_str(), &al); add(o, "%s", r ? r : "none"); free(r); break;}
    case FIND: add(o, "%zu %zu %zu %zu", rcutils_find(s.c_str(), 'a'), rcutils_find_last(s.c_str(), 'a'),
        rcutils_findn(s.c_str(), 'b', s.size() / 2), rcutils_find_lastn(s.c_str(), 'b', s.size() / 2)); break;
    case DUP: {
        char * r = rcutils_strdup(s.c_str(), al); add(o, "%s", r); free(r);
        r = rcutils_strndup(s.c_str(), op.n % 9, al); add(o, "%s", r); free(r); break;
      }
    case CASECMP: {
        int v = 0, w = 0; rcutils_strcasecmp(s.c_str(), t.c_str(), &v); rcutils_strncasecmp(s.c_str(), t.c_str(), op.n % 5, &w);
        add(o, "%d %d", rc::sign(v), rc::sign(w)); break;
      }
    case FORMAT: {
        char * r = rcutils_format_string(al, "%s|%d|%s", s.c_str(), (int)op.v, t.c_str()); add(o, "%s", r ? r : "none"); free(r);
        r = rcutils_format_string_limit(al, 1 + op.n % 30, "%s %" PRId64, s.c_str(), op.v); add(o, "%s", r ? r : "none"); free(r);
        char b[40]; int n = rcutils_snprintf(b, 1 + op.n % 40, "%s %d", t.c_str(), (int)op.v); add(o, "%d %s", n, b); break;
      }
    case ERROR_: {
        rcutils_set_error_state(s.c_str(), t.c_str(), op.n); add(o, "%d %s", rcutils_error_is_set(), rcutils_get_error_string().str);
        const rcutils_error_state_t * e = rcutils_get_error_state();
        if (e) {add(o, "%s %s %zu", e->message, e->file, (size_t)e->line_number);}
        // (a longer text is cut and so loses the line end that keeps it apart from the messages)
        RCUTILS_SAFE_FWRITE_TO_STDERR_WITH_FORMAT_STRING("%s\n", s.substr(0, 300).c_str());
        rcutils_reset_error(); add(o, "%d %s", rcutils_error_is_set(), rcutils_get_error_string().str); break;
      }
    case TIMESTR: {
        rcutils_time_point_value_t v = op.v; char b[64];
        add(o, "%d", rcutils_time_point_value_as_date_string(&v, b, sizeof b)); add(o, "%s", b);
        add(o, "%d", rcutils_time_point_value_as_seconds_string(&v, b, sizeof b)); add(o, "%s", b);
        add(o, "%d", rcutils_time_point_value_as_nanoseconds_string(&v, b, sizeof b)); add(o, "%s", b); break;
      }
    case NOW: {
        rcutils_time_point_value_t a = 0, b = 0, c = 0;
        int r = rcutils_steady_time_now(&a); r |= rcutils_steady_time_now(&b); r |= rcutils_system_time_now(&c);
        add(o, "%d %d %d", r, a <= b, c > 0); break;
      }
    case SHA: {
        rcutils_sha256_ctx_t c; uint8_t h[32]; rcutils_sha256_init(&c);
        rcutils_sha256_update(&c, (const uint8_t *)s.data(), s.size());
        for (unsigned i = 0; i < op.n % 70; i++) {rcutils_sha256_update(&c, (const uint8_t *)t.data(), t.size());}
        rcutils_sha256_final(&c, h); add(o, "%s", hex(h, 32).c_str()); break;
      }
    case QUERY: {
        std::string p = tree + "/d" + std::to_string(op.n % 5) + (op.n & 8 ? "/f" + std::to_string(op.n % 3) : "");
        add(o, "%d %d %d %d %d %d %zu", rcutils_exists(p.c_str()), rcutils_is_directory(p.c_str()), rcutils_is_file(p.c_str()), rcutils_is_readable(p.c_str()),
          rcutils_is_writable(p.c_str()), rcutils_is_readable_and_writable(p.c_str()), rcutils_get_file_size(p.c_str()));
        char b[600]; bool ok = rcutils_get_cwd(b, sizeof b); add(o, "%d %s", ok, ok ? b : ""); break;
      }
    case DIRSIZE: {
        uint64_t n = 0; int r = rcutils_calculate_directory_size_with_recursion(tree.c_str(), op.n % 3, &n, al);
        add(o, "%d %zu", r, (size_t)n);
        r = rcutils_calculate_directory_size((tree + "/d" + std::to_string(op.n % 4)).c_str(), &n, al); add(o, "%d %zu", r, (size_t)n); break;
      }
    case DIRITER: {
        rcutils_dir_iter_t * it = rcutils_dir_iter_start((tree + "/d" + std::to_string(op.n % 4)).c_str(), al);
        std::vector<std::string> all;
        if (it) {do {all.push_back(it->entry_name ? it->entry_name : "");} while (rcutils_dir_iter_next(it)); rcutils_dir_iter_end(it);}
        std::sort(all.begin(), all.end()); for (auto & x : all) {add(o, "%s", x.c_str());}
        break;
      }
    case PATHS: {
        char * r = rcutils_join_path(s.c_str(), t.c_str(), al); add(o, "%s", r ? r : "none"); free(r);
        r = rcutils_expand_user(("~/" + s).c_str(), al); add(o, "%s", r ? r : "none"); free(r);
        r = rcutils_to_native_path(("/" + s + "/" + t).c_str(), al); add(o, "%s", r ? r : "none"); free(r); break;
      }
    case MKDIR: {
        std::string p = scratch() + "/own" + std::to_string(me) + "_" + std::to_string(op.n % 9);
        add(o, "%d", rcutils_mkdir(p.c_str())); add(o, "%d %d", rcutils_is_directory(p.c_str()), rcutils_mkdir(p.c_str())); rmdir(p.c_str()); break;
      }
    case ENV: {
        const char * v = "none"; const char * r = rcutils_get_env(op.n & 1 ? "PBT_SOME_VARIABLE" : "PBT_NO_SUCH_VARIABLE", &v);
        add(o, "%s %s", r ? r : "ok", v); r = rcutils_get_home_dir(); add(o, "%s", r ? r : "none"); break;
      }
    case CLI: {
        const char * av[] = {"prog", s.c_str(), "--x", t.c_str()};
        char ** b = (char **)av; char * r = rcutils_cli_get_option(b, b + 4, op.n & 1 ? "--x" : s.c_str());
        add(o, "%d %s", rcutils_cli_option_exist(b, b + 4, t.c_str()), r ? r : "none"); break;
      }
    case STRERR: {char b[100]; errno = (int)(op.n % 140); rcutils_strerror(b, 5 + op.n % 90); add(o, "%s", b); break;}
    case PROCESS: {char * r = rcutils_get_executable_name(al); add(o, "%s %d", r ? r : "none", rcutils_get_pid() > 0); free(r); break;}
    case LOG: {
        static const int sev[] = {10, 20, 30, 40, 50};
        static const char * const names[] = {"a", "a.b", "a.b.c", "q", "", "a.x", "quiet.x"};
        rcutils_log_location_t loc = {"fn", "file", 7};
        std::string name = names[op.n % 7];
        rcutils_log(&loc, sev[op.n / 7 % 5], op.n % 11 ? name.c_str() : nullptr, "<%u> %s %s", me, s.c_str(), t.c_str());
        break;
      }
    case LOGFORMAT: {
        rcutils_char_array_t a = rcutils_get_zero_initialized_char_array();
        int r = rcutils_char_array_init(&a, op.n % 60, &al);
        rcutils_log_location_t loc = {t.c_str(), "the file", op.n};
        r |= rcutils_logging_format_message(&loc, 10 * (1 + (int)(op.n % 5)), s.c_str(), op.v, t.c_str(), &a); add(o, "%d %s", r, a.buffer);
        add(o, "%d", rcutils_char_array_fini(&a));
        add(o, "%d %d %d", rcutils_logging_get_logger_level("a.b"), rcutils_logging_get_logger_effective_level("a.b.c"), rcutils_logging_get_default_logger_level());
        add(o, "%d %d", rcutils_logging_logger_is_enabled_for("quiet.x", 10 * (1 + (int)(op.n % 5))), rcutils_logging_get_logger_leveln("quiet.x", 5));
        break;
      }
    case SEVERITY: {
        static const char * const n[] = {"DEBUG", "info", "Warn", "ERROR", "fatal", "unset", "none"};
        int v = -1; int r = rcutils_logging_severity_level_from_string(n[op.n % 7], al, &v); add(o, "%d %d", r, v); rcutils_reset_error(); break;
      }
    case LIBRARY: {
        rcutils_shared_library_t l = rcutils_get_zero_initialized_shared_library();
        int r = rcutils_load_shared_library(&l, op.n & 1 ? "libm.so.6" : "libno_such_library.so", al);
        add(o, "%d", r);
        if (!r) {add(o, "%d %d %d", rcutils_has_symbol(&l, "cos"), rcutils_has_symbol(&l, "no_such"), rcutils_get_symbol(&l, "sin") != nullptr); rcutils_reset_error(); add(o, "%d", rcutils_unload_shared_library(&l));}
        else {add(o, "%d", rcutils_error_is_set()); rcutils_reset_error();}
        char b[100]; r = rcutils_get_platform_library_name(s.c_str(), b, sizeof b, op.n & 2); add(o, "%d %s", r, r ? "" : b); rcutils_reset_error(); break;
      }
    case SORT: {std::string x = s + t; add(o, "%d", rcutils_qsort(&x[0], x.size(), 1, cmp_chr)); add(o, "%s", x.c_str()); break;}
    default: {
        void * p = al.allocate(op.n % 99 + 1, al.state); memset(p, 1, op.n % 99 + 1);
        p = rcutils_reallocf(p, op.n % 999 + 1, &al); al.deallocate(p, al.state);
        p = al.zero_allocate(3, 5, al.state); add(o, "%d %d", ((char *)p)[14], rcutils_allocator_is_valid(&al)); al.deallocate(p, al.state);
        add(o, "%d", rcutils_fault_injection_is_test_complete()); break;
      }
  }
}

static std::string run_prog(const Prog & p, unsigned me, std::vector<std::string> & log)
{
  std::string o; arrived = &log;
  for (auto & op : p) {for (unsigned i = 0; i < op.times; i++) {run_op(op, me, o);}}
  arrived = nullptr;
  return o;
}

// the programs at once and then alone, in a process of its own whose first use of the library this is
static void child(const std::vector<Prog> & ps, bool console)
{
  size_t T = ps.size();
  setenv("HOME", "/home/of/nobody", 1); setenv("PBT_SOME_VARIABLE", "its value", 1);
  setenv("RCUTILS_CONSOLE_OUTPUT_FORMAT", console ? "{severity} {name}|{message}|{function_name}{line_number}{file_name}" :
    "{severity}\\t{name}|{message}|{function_name}{line_number} {time} {date_time_with_ms} {time_as_nanoseconds} {file_name} {unknown", 1);
  setenv("RCUTILS_COLORIZED_OUTPUT", "0", 1);
  // initialization of logging is documented as not thread-safe, and hash maps, among others, log
  CHECK(rcutils_logging_initialize() == RCUTILS_RET_OK, "the initialization of logging failed");
  (void)!rcutils_logging_set_logger_level("a.b", RCUTILS_LOG_SEVERITY_DEBUG);
  (void)!rcutils_logging_set_logger_level("quiet", RCUTILS_LOG_SEVERITY_ERROR);
  if (!console) {rcutils_logging_set_output_handler(handler);}
  rc::FdCapture cap(2);
  std::vector<std::string> out[2]; std::vector<std::vector<std::string>> log[2]; std::string text[2];
  for (int alone = 0; alone < 2; alone++) {
    out[alone].resize(T); log[alone].resize(T);
    std::atomic<size_t> ready{0}; std::vector<std::thread> th;
    if (console) {cap.start();}
    for (size_t i = 0; i < T; i++) {
      th.emplace_back([&, i] {
          if (!alone) {ready++; while (ready < T) {}}
          out[alone][i] = run_prog(ps[i], (unsigned)i, log[alone][i]);
        });
      if (alone) {th.back().join();}
    }
    if (!alone) {for (auto & t : th) {t.join();}}
    if (console) {text[alone] = cap.stop();}
  }
  for (size_t i = 0; i < T; i++) {
    if (out[0][i] != out[1][i]) {
      size_t k = 0; while (k < out[0][i].size() && k < out[1][i].size() && out[0][i][k] == out[1][i][k]) {k++;}
      k = k > 30 ? k - 30 : 0;
      fail("thread %zu got other results than when it runs alone: ...%s instead of ...%s", i, quote(out[0][i].substr(k, 120)).c_str(), quote(out[1][i].substr(k, 120)).c_str());
    }
    if (log[0][i] != log[1][i]) {fail("thread %zu logged %zu messages, %zu when it runs alone, or others", i, log[0][i].size(), log[1][i].size());}
  }
  if (console) {
    // the lines that are messages, in the order of each thread
    for (size_t i = 0; i < T; i++) {
      std::string mark = "|<" + std::to_string(i) + "> ", mine[2];
      for (int alone = 0; alone < 2; alone++) {
        size_t b = 0;
        while (b < text[alone].size()) {
          size_t e = text[alone].find('\n', b); if (e == std::string::npos) {e = text[alone].size();}
          std::string line = text[alone].substr(b, e - b); b = e + 1;
          size_t at = line.find(mark), from = 0;
          if (at == std::string::npos) {continue;}
          for (const char * w : {"DEBUG ", "INFO ", "WARN ", "ERROR ", "FATAL "}) {      // what another call left before it without a line end is not its own
            size_t k = line.rfind(w, at); if (k != std::string::npos) {from = std::max(from, k);}
          }
          mine[alone] += line.substr(from) + "\n";
        }
      }
      CHECK(mine[0] == mine[1], "the messages of thread %zu on the console are %s, alone they are %s", i, quote(mine[0]).c_str(), quote(mine[1]).c_str());
    }
  }
  (void)!rcutils_logging_shutdown();
}

void property_case()
{
  size_t T = draw_plain(2, 4); bool console = chance(1, 3);
  std::vector<Prog> ps(T);
  int focus = chance(1, 2) ? (int)draw_plain(0, NKIND - 1) : -1;
  for (size_t i = 0; i < T; i++) {
    if (i && chance(1, 6)) {ps[i] = ps[draw_plain(0, i - 1)]; continue;}
    size_t n = draw_plain(1, 8);
    while (n--) {
      Op o; o.kind = focus >= 0 && chance(1, 2) ? focus : console && chance(1, 4) ? (int)LOG : (int)draw_plain(0, NKIND - 1);
      o.s = chance(1, 30) ? str_of("ab", 300, 1500) : str_of("abcxyz", 0, 20); o.t = str_of("aAbB_", 0, 6); o.n = draw_plain(0, 2000);
      o.v = chance(1, 2) ? draw_s(0, 2000000000000000000ll) : draw_s(INT64_MIN, INT64_MAX);
      o.times = (unsigned)draw_small(1, 12);
      if (o.kind == PROCESS || o.kind == LIBRARY) {o.times = 1 + o.times / 4;}
      ps[i].push_back(o);
    }
  }
  bool seen[NKIND] = {}, both = false;
  for (size_t i = 0; i < T; i++) {
    bool here[NKIND] = {};
    for (auto & o : ps[i]) {
      if (!here[o.kind] && seen[o.kind]) {both = true; label(kinds[o.kind]);}
      here[o.kind] = true;
      say("thread %zu: %s(%s, %s, %" PRIu64 ", %" PRId64 ") %u times", i, kinds[o.kind], quote(o.s).c_str(), quote(o.t).c_str(), o.n, o.v, o.times);
    }
    for (int k = 0; k < NKIND; k++) {seen[k] = seen[k] || here[k];}
  }
  pid_t p = fork();
  if (p == 0) {forked(); alarm(120); child(ps, console); _exit(0);}
  int st = 0; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0) {if (both) {nontrivial();} return;}
  if (WIFSIGNALED(st)) {fail("the process running the threads died of signal %d%s", WTERMSIG(st), WTERMSIG(st) == SIGALRM ? " (after 120 s)" : "");}
  _exit(WEXITSTATUS(st));     // the failure was already reported
}
}  // namespace pbt
