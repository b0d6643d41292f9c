// BUILD sanitize: thread
#include "rc.h"
#include <atomic>
#include <pthread.h>
#include <semaphore.h>
#include <unordered_set>
#include "rcutils/types/array_list.h"
#include "rcutils/types/string_map.h"
using namespace pbt;
namespace pbt
{
const char * const kPropertyId = "C35";
const char * const kRule =
  "a case is a generated schedule of set/get/is_set/reset/failing-library-call operations over four threads (two long-lived, two "
  "started and ended inside the history), where the harness hands a baton to one thread at a time in the generated order, "
  "followed in some cases by a phase in which all threads run their generated operations at once; every thread has its own model "
  "of its error state; non-trivial: a thread read its state after another thread changed its own in between";
const Budget kBudget = {26000, 350000, 0};

struct Op {int kind; std::string m, f; uint64_t line;};
struct T
{
  pthread_t th; sem_t go, done; bool up = false; bool quit = false;
  std::vector<Op> ops; std::string bad;
  bool is_set = false, inited = false; std::string msg, file; uint64_t line = 0;
};
static T t[4];

static void run_op(T & x, const Op & o)
{
  char buf[4096];
  switch (o.kind) {
    case 0: rcutils_set_error_state(o.m.c_str(), o.f.c_str(), o.line); x.is_set = x.inited = true; x.msg = o.m; x.file = o.f; x.line = o.line; break;
    case 1: rcutils_reset_error(); x.is_set = false; break;
    case 2: case 3: {
        rcutils_error_string_t s = rcutils_get_error_string();
        std::string want = x.is_set ? x.msg + ", at " + x.file + ":" + std::to_string(x.line) : std::string("error not set");
        if (rcutils_error_is_set() != x.is_set) {x.bad = x.is_set ? "its error vanished" : "an error appeared that it never set";}
        if (want != s.str) {snprintf(buf, sizeof buf, "its error string is %s, expected %s", quote(s.str, strnlen(s.str, 1000)).c_str(), quote(want).c_str()); x.bad = buf;}
        const rcutils_error_state_t * st = rcutils_get_error_state();
        if (x.is_set && (!st || x.msg != st->message || x.file != st->file || x.line != st->line_number)) {x.bad = "its error state is not the one it set";}
        break;
      }
    case 5: {
        // initialising the storage changes nothing, and needs a valid allocator as long as no error was set or storage initialised
        rcutils_allocator_t a = o.line ? rcutils_get_default_allocator() : rcutils_get_zero_initialized_allocator();
        rcutils_ret_t r = rcutils_initialize_error_handling_thread_local_storage(a), want = x.inited || o.line ? RCUTILS_RET_OK : RCUTILS_RET_INVALID_ARGUMENT;
        if (r != want) {snprintf(buf, sizeof buf, "initialising the storage with %s allocator %s returned %s", o.line ? "a valid" : "an invalid", x.inited ? "again" : "first", rc::ret_name(r)); x.bad = buf;}
        if (r == RCUTILS_RET_OK) {x.inited = true;}
        if (rcutils_error_is_set() != x.is_set) {x.bad = x.is_set ? "initialising the storage dropped its error" : "initialising the storage set an error";}
        break;
      }
    default: {
        // a library call that fails sets the error of this thread only
        rcutils_reset_error();
        rcutils_array_list_t l = rcutils_get_zero_initialized_array_list(); size_t n = 0;
        rcutils_ret_t r = rcutils_array_list_get_size(&l, &n);
        if (r == RCUTILS_RET_OK || !rcutils_error_is_set()) {x.bad = "a failing call set no error"; break;}
        rcutils_error_string_t s = rcutils_get_error_string(); x.is_set = x.inited = true;
        const rcutils_error_state_t * st = rcutils_get_error_state();
        if (!st) {x.bad = "a failing call left no error state"; break;}
        x.msg = st->message; x.file = st->file; x.line = st->line_number;
        if (x.msg + ", at " + x.file + ":" + std::to_string(x.line) != s.str) {x.bad = "error string and state disagree";}
        break;
      }
  }
}
static void * body(void * p)
{
  T & x = *(T *)p;
  x.is_set = false;
  for (;;) {
    sem_wait(&x.go);
    if (x.quit) {sem_post(&x.done); return nullptr;}
    for (auto & o : x.ops) {run_op(x, o); if (!x.bad.empty()) {break;}}
    sem_post(&x.done);
  }
}
static void start(T & x)
{
  x.quit = false; x.bad.clear(); x.inited = false;
  if (pthread_create(&x.th, nullptr, body, &x) != 0) {fail("cannot start a thread");}
  x.up = true;
}
static void stop(T & x) {x.quit = true; sem_post(&x.go); sem_wait(&x.done); pthread_join(x.th, nullptr); x.up = false;}
void property_setup()
{
  for (auto & x : t) {sem_init(&x.go, 0, 0); sem_init(&x.done, 0, 0);}
  start(t[0]); start(t[1]);
}
static Op gen(int id)
{
  Op o; o.kind = (int)weighted({4, 1, 2, 2, 1, 1});
  if (o.kind == 5) {o.line = draw_plain(0, 1);}
  if (o.kind == 4) {o.kind = 6;}
  if (o.kind == 0) {
    o.m = str_of("xyz", 0, 12) + char('A' + id); o.f = str_of("pq", 0, 4) + char('A' + id); o.line = draw_edge(0, UINT64_MAX);
    if (chance(1, 10)) {o.m += std::string(draw(0, 700), 'k');}
  }
  return o;
}
static const char * kn[] = {"set", "reset", "get", "get", "", "initialize storage", "failing call"};
static void verify_bad(int i) {CHECK(t[i].bad.empty(), "thread %d: %s", i, t[i].bad.c_str());}

void property_case()
{
  bool good = false; int last_change = -1; bool touched[4] = {false, false, false, false};
  // known start: every long-lived thread resets its own state
  for (int i = 0; i < 2; i++) {
    t[i].ops = {Op{2, "", "", 0}, Op{1, "", "", 0}, Op{2, "", "", 0}};
    sem_post(&t[i].go); sem_wait(&t[i].done); verify_bad(i);
  }
  while (more(30)) {
    int i = (int)draw_plain(0, 3); T & x = t[i];
    if (i >= 2 && !x.up) {
      start(x); touched[i] = false;
      say("thread %d starts", i);
      // a new thread has no error, whatever the others did
      x.ops = {Op{2, "", "", 0}};
      sem_post(&x.go); sem_wait(&x.done); verify_bad(i);
      continue;
    }
    if (i >= 2 && chance(1, 8)) {say("thread %d ends", i); stop(x); continue;}
    Op o = gen(i);
    say("thread %d: %s %s", i, kn[o.kind], o.kind == 0 ? quote(o.m).c_str() : "");
    x.ops = {o};
    sem_post(&x.go); sem_wait(&x.done); verify_bad(i);
    if (o.kind == 2 || o.kind == 3) {if (touched[i] && last_change >= 0 && last_change != i) {good = true;}} else {last_change = i; touched[i] = true;}
  }
  if (chance(1, 3)) {
    say("all threads at once");
    for (int i = 0; i < 4; i++) {
      if (!t[i].up) {continue;}
      t[i].ops.clear();
      unsigned n = (unsigned)draw_small(2, 40);
      for (unsigned k = 0; k < n; k++) {t[i].ops.push_back(gen(i));}
    }
    for (auto & x : t) {if (x.up) {sem_post(&x.go);}}
    for (auto & x : t) {if (x.up) {sem_wait(&x.done);}}
    for (int i = 0; i < 4; i++) {if (t[i].up) {verify_bad(i);}}
  }
  for (int i = 2; i < 4; i++) {if (t[i].up) {stop(t[i]);}}
  if (good) {nontrivial();}
}
}  // namespace pbt
