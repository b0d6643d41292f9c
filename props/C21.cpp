#include "fs.h"
#include "rcutils/filesystem.h"
using namespace pbt;
namespace pbt
{
const char * const kPropertyId = "C21";
const char * const kRule =
  "a case creates files, directories, symbolic links (to either, dangling, circular), pipes and sockets with generated sizes and "
  "permission bits in a scratch directory and asks every path predicate, the file size and the working directory (with buffers "
  "of every size around its length) about existing, missing and malformed paths to them, against what was created; non-trivial: "
  "a link, a permission bit pattern without owner read or write, or a path through something that is no directory";
const Budget kBudget = {20000, 300000, 10000};
static int home = -1;
void property_setup() {home = open(".", O_RDONLY | O_DIRECTORY); umask(0);}
enum Kind {NONE, FILE_, DIR_, LINK, FIFO, SOCK};
struct Ent {Kind k; mode_t mode; uint64_t size; std::string target;};
static std::map<std::string, Ent> ents;      // flat names
static Ent resolve(const std::string & n, int depth = 0)
{
  auto it = ents.find(n);
  if (it == ents.end() || depth > 30) {return {NONE, 0, 0, ""};}
  if (it->second.k != LINK) {return it->second;}
  if (it->second.target == ".") {return {DIR_, 0755, 0, ""};}
  return resolve(it->second.target, depth + 1);
}
static void ask(const std::string & path, const Ent & e)
{
  rc::Exact p(path);
  bool ex = e.k != NONE, r = ex && (e.mode & 0400), w = ex && (e.mode & 0200);
  say("ask about %s", quote(path).c_str());
#define ASK(fn, want) do {bool got = fn(p); CHECK(got == (want), #fn "(%s) gave %d, expected %d", quote(path).c_str(), got, want);} while (0)
  ASK(rcutils_exists, ex);
  ASK(rcutils_is_directory, e.k == DIR_);
  ASK(rcutils_is_file, e.k == FILE_);
  ASK(rcutils_is_readable, r);
  ASK(rcutils_is_writable, w);
  ASK(rcutils_is_readable_and_writable, r && w);
  size_t s = rcutils_get_file_size(p);
  CHECK(s == (e.k == FILE_ ? e.size : 0), "get_file_size(%s) gave %zu, expected %" PRIu64, quote(path).c_str(), s, e.k == FILE_ ? e.size : 0);
}
void property_case()
{
  rc::clear_error();
  int d = fs::fresh("t"); std::string base = scratch() + "/t";
  ents.clear();
  size_t n = 1 + draw_small(0, 5);
  for (size_t i = 0; i < n; i++) {
    std::string nm = fs::name_gen(chance(1, 30));
    if (ents.count(nm)) {continue;}
    Ent e; e.mode = chance(1, 2) ? (mode_t)draw_plain(0, 0777) : pick(std::vector<mode_t>{0644, 0600, 0400, 0200, 0000, 0444, 0222, 0044, 0022, 0066, 0755});
    e.size = 0;
    switch (weighted({6, 3, 4, 1, 1})) {
      case 0: {
          e.k = FILE_; e.size = chance(1, 6) ? draw_edge(0, 1ull << 40) : draw_small(0, 5000);
          int f = openat(d, nm.c_str(), O_CREAT | O_EXCL | O_RDWR, 0600);
          CHECK(f >= 0, "cannot create a file");
          if (ftruncate(f, (off_t)e.size)) {e.size = 0;}
          fchmod(f, e.mode); close(f); break;
        }
      case 1: e.k = DIR_; CHECK(mkdirat(d, nm.c_str(), 0700) == 0 && fchmodat(d, nm.c_str(), e.mode, 0) == 0, "cannot create a directory"); break;
      case 2: {
          e.k = LINK;
          switch (weighted({6, 1, 1, 1})) {
            case 0: e.target = ents.empty() ? "missing" : std::next(ents.begin(), (long)draw_plain(0, ents.size() - 1))->first; break;
            case 1: e.target = nm; break;
            case 2: e.target = "missing"; break;
            default: e.target = ".";
          }
          CHECK(symlinkat(e.target.c_str(), d, nm.c_str()) == 0, "cannot create a link"); nontrivial(); break;
        }
      case 3: e.k = FIFO; CHECK(mkfifoat(d, nm.c_str(), 0600) == 0 && fchmodat(d, nm.c_str(), e.mode, 0) == 0, "cannot create a pipe"); break;
      default: {
          e.k = SOCK; CHECK(mknodat(d, nm.c_str(), S_IFSOCK | 0600, 0) == 0 && fchmodat(d, nm.c_str(), e.mode, 0) == 0, "cannot create a socket"); break;
        }
    }
    say("%s: %s, mode %o, size %" PRIu64 " %s", quote(nm).c_str(), e.k == FILE_ ? "file" : e.k == DIR_ ? "directory" : e.k == LINK ? "link to" : e.k == FIFO ? "pipe" : "socket",
      e.mode, e.size, quote(e.target).c_str());
    if (e.k != LINK && (e.mode & 0600) != 0600) {nontrivial();}
    ents[nm] = e;
  }
  bool rel = chance(1, 6);
  if (rel) {CHECK(fchdir(d) == 0, "fchdir failed");}
  for (auto & kv : ents) {
    Ent e = resolve(kv.first); std::string p = (rel ? "" : base + "/") + kv.first;
    ask(p, e);
    if (chance(1, 4)) {
      Ent dir = e.k == DIR_ ? e : Ent{NONE, 0, 0, ""};
      if (e.k != DIR_) {nontrivial();}
      ask(p + "/", dir);
      ask(p + "/.", dir);
      ask(p + "/nothing", {NONE, 0, 0, ""});
    }
  }
  static const char * const odd[] = {"", "missing", "no/such/dir/x", " ", "\n"};
  const char * o = odd[draw_plain(0, 4)];
  std::string po = *o && !rel ? base + "/" + o : o;
  if (!ents.count(o)) {ask(po, {NONE, 0, 0, ""});}
  if (chance(1, 10)) {ask(base + std::string(draw_edge(200, 6000), 'z'), {NONE, 0, 0, ""});}
  ask(chance(1, 2) || !rel ? base : ".", {DIR_, 0755, 0, ""});
  if (chance(1, 8)) {
    CHECK(!rcutils_exists(nullptr) && !rcutils_is_file(nullptr) && !rcutils_is_directory(nullptr) && !rcutils_is_readable(nullptr) &&
      !rcutils_is_writable(nullptr) && !rcutils_is_readable_and_writable(nullptr), "a NULL path is something");
  }
  if (chance(1, 3)) {
    std::string deep = base; int at = dup(d);
    static unsigned n_far; bool far = rarely(300, 20, n_far);    // farther down than a path the system takes
    size_t levels = far ? draw_plain(16, 60) : draw_small(0, 6);
    for (size_t i = 0; i < levels; i++) {
      std::string nm = far ? std::string(draw_plain(150, 255), 'f') : "cwd" + fs::name_gen(chance(1, 3)); if (mkdirat(at, nm.c_str(), 0755)) {break;}
      int nx = openat(at, nm.c_str(), O_RDONLY | O_DIRECTORY); close(at); at = nx; deep += "/" + nm;
    }
    CHECK(fchdir(at) == 0, "fchdir failed"); close(at);
    size_t cap = chance(1, 3) ? draw_edge(0, 5000) : deep.size() + 2 - draw_plain(0, 4);
    rc::Exact buf(std::string(cap, '\x33'), false);
    if (deep.size() >= PATH_MAX) {label("beyond PATH_MAX");}
    say("cwd of %zu bytes into %zu", deep.size(), cap);
    bool ok = rcutils_get_cwd(buf, cap);
    bool fits = cap > deep.size();
    int e = fchdir(home); (void)e;
    CHECK(ok == fits, "get_cwd of %zu bytes into %zu gave %d", deep.size(), cap, ok);
    if (ok) {CHECK(memchr(buf.p, 0, cap) && deep == buf.p, "get_cwd gave %s, expected %s", quote(buf.p, strnlen(buf.p, cap)).c_str(), quote(deep).c_str());}
    CHECK(!rcutils_get_cwd(nullptr, 100), "get_cwd(NULL) is accepted");
  }
  int e = fchdir(home); (void)e;
  fs::empty_dir(dup(d)); close(d);
  rc::clear_error();
}
}  // namespace pbt
