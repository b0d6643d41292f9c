// Minimal property-based-testing engine used by every check in /verif.
//
// A property is a function property_case() that draws every decision it makes through
// pbt::draw() and friends.  One run of it is therefore a function of a finite sequence of
// integers (the "choice sequence"), which the driver generates (seeded random, biased to
// boundaries and to constants met in comparisons), mutates under coverage feedback, shrinks on
// failure and stores as the replay file.
#ifndef PBT_H_
#define PBT_H_
#include <stddef.h>
#include <stdint.h>
#include <stdarg.h>
#include <string>
#include <vector>
#include <initializer_list>

namespace pbt
{
// ---- to be provided by each property -------------------------------------------------
extern const char * const kPropertyId;
extern const char * const kRule;      // how cases are made, and what makes one non-trivial
void property_case();                 // one generated case; must reset all global state itself
void property_setup();                // once per worker process (may be empty)
struct Budget { uint64_t quick; uint64_t thorough; uint64_t fuzz_runs; };
extern const Budget kBudget;          // total number of cases over all workers

// ---- choices -------------------------------------------------------------------------
uint64_t draw(uint64_t lo, uint64_t hi);          // uniform (with some bias to dictionary/boundaries)
uint64_t draw_plain(uint64_t lo, uint64_t hi);    // uniform, no bias at all (for op selectors)
uint64_t draw_small(uint64_t lo, uint64_t hi);    // strongly skewed towards lo, but reaching hi
uint64_t draw_edge(uint64_t lo, uint64_t hi);     // skewed to powers of two +-1, ends, dictionary
int64_t draw_s(int64_t lo, int64_t hi);           // signed
bool chance(unsigned num, unsigned den);          // true with probability num/den; shrinks to false
// chance(1, den), but true at most max times per searching process (for expensive cases)
bool rarely(unsigned den, unsigned max, unsigned & count);
// the same, for what takes seconds: in the first worker only, and not in coverage-guided runs
bool seldom(unsigned den, unsigned max, unsigned & count);
unsigned weighted(std::initializer_list<unsigned> weights);
template<class T> const T & pick(const std::vector<T> & v) {return v[draw_plain(0, v.size() - 1)];}
std::string str_of(const std::string & alphabet, size_t minlen, size_t maxlen);  // NUL free
std::string cstr(size_t maxlen);                  // mixed alphabet, NUL free, bytes 1..255 possible
std::string bytes(size_t minlen, size_t maxlen);  // any bytes
std::string printable(size_t maxlen);             // printable ASCII
// with probability 1/den: s prolonged by position-dependent letters to a length up to hi, mostly
// around a power of two or a constant met in a comparison
std::string blob(size_t n);                       // n bytes of any value; few choices for a large n
std::string stretch(std::string s, unsigned den, size_t hi);

// ---- reporting -----------------------------------------------------------------------
[[noreturn]] void fail(const char * fmt, ...) __attribute__((format(printf, 1, 2)));
void say(const char * fmt, ...) __attribute__((format(printf, 1, 2)));
bool verbose();
void label(const char * name);        // class counter (static strings)
void nontrivial();                    // mark this case as non-trivial by kRule
void discard();                       // mark this case as discarded (counted)
void known(const char * key);         // this case ran into a listed known finding (counted)
bool is_known(const char * key);      // is `key` listed as a (non-fixed) known finding?
std::string quote(const void * p, size_t n);
inline std::string quote(const std::string & s) {return quote(s.data(), s.size());}
std::string hex(const void * p, size_t n);
const std::string & scratch();        // per-worker scratch directory (exists; removed by driver)
unsigned worker_index();
uint64_t mix(uint64_t a, uint64_t b);

#define CHECK(cond, ...) do {if (!(cond)) {::pbt::fail(__VA_ARGS__);}} while (0)
#define CHECK_EQ(a, b, what) \
  do { \
    long long pbt_a_ = (long long)(a); long long pbt_b_ = (long long)(b); \
    if (pbt_a_ != pbt_b_) { \
      ::pbt::fail("%s: got %lld, expected %lld", (what), pbt_a_, pbt_b_);} \
  } while (0)
}  // namespace pbt
#endif
namespace pbt
{
void forked();                        // to be called first in a process forked by the harness: keeps its sanitizer reports
bool engine_busy();                   // within one of the engine's instrumentation hooks
bool more(unsigned avg);              // "one more operation?"; about avg operations per sequence
uint64_t size_edge(uint64_t hi);      // size in [0,hi]: mostly small, sometimes 2^k+-1/dictionary/hi
}
