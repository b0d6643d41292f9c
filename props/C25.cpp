#include "mods.h"
using namespace pbt;
namespace pbt
{
const char * const kPropertyId = "C25";
const char * const kRule =
  "a case is a generated script of calls over one object of every container, logging and all allocating functions; it runs once to "
  "count its allocations and then again for each of them (up to 60, evenly spread) with that allocation, or that one and all later ones, "
  "failing, checking status, all objects against models after every call, a retry without failure, and leaks; one evaluation is one "
  "case, the injected faults are counted as label; non-trivial: at least 5 allocations failed in some run";
const Budget kBudget = {16000, 250000, 6000};
static std::string dir;
void property_setup() {setenv("HOME", "/nonexistent-home", 1); dir = mods::make_dir();}
void property_case()
{
  rc::clear_error();
  std::vector<mods::Step> script; bool log = chance(1, 2), heavy = chance(1, 4);
  while (more(14)) {script.push_back(mods::step_gen(heavy));}
  uint64_t total = 0; size_t faults = 0;
  for (int64_t run = -1; ; run++) {
    if (run >= 0 && (uint64_t)run >= std::min<uint64_t>(total, 60) * 2) {break;}
    bool after = run & 1; uint64_t at = run < 0 ? 0 : total <= 60 ? (uint64_t)run / 2 : (uint64_t)run / 2 * total / 60;
    rc::TrackAlloc ta; mods::World w(ta, log, dir);
    if (log) {CHECK_EQ(rcutils_logging_shutdown(), RCUTILS_RET_OK, "logging shutdown");}
    bool spent = false;
    if (run >= 0) {say("-- allocation %" PRIu64 "%s fails", at, after ? " and all later" : "");}
    for (auto & s : script) {
      uint64_t base = ta.n_calls;
      if (run >= 0 && !spent) {
        // absolute index -> relative to this call
        if (after) {ta.arm(at > base ? (int64_t)(at - base) : 0, true);} else if (at >= base) {ta.arm((int64_t)(at - base), false);}
      }
      if (run < 0) {say("%s %d k=%s v=%s n=%zu", mods::opname(s.op), s.sub, quote(s.k).c_str(), quote(s.v).c_str(), s.n);}
      w.exec(s);
      bool failed = ta.n_failed != 0;
      if (failed && run >= 0) {faults++; say("%s failed", mods::opname(s.op));}
      bool all = after && failed;
      if (!all) {ta.disarm();} else {ta.disarm();}
      w.check();
      rc::clear_error();
      if (failed && !after) {
        spent = true;
        w.exec(s); w.check(); rc::clear_error();            // with memory available again, the same call works
        CHECK(!ta.n_failed, "unexpected failure");
      }
    }
    if (run < 0) {total = ta.n_calls;}
    if (after) {ta.arm(0, true);}                            // finalising needs no memory
    w.finish();
    ta.disarm();
    ta.expect_empty("after everything is finalized");
    rc::clear_error();
  }
  if (faults >= 5) {nontrivial();}
  for (size_t i = 0; i < faults; i++) {label("injected fault");}
}
}  // namespace pbt
