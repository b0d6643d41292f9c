#include "fs.h"
#include "rcutils/filesystem.h"
// BUILD wrap: opendir readdir
using namespace pbt;
extern "C" {
DIR * __real_opendir(const char *);
struct dirent * __real_readdir(DIR *);
static int g_io_at = -1, g_io_errno; static bool g_io_open, g_io_hit, g_io_first; static DIR * g_io_dir;
DIR * __wrap_opendir(const char * p)
{
  if (g_io_open && g_io_at >= 0 && g_io_at-- == 0) {g_io_hit = true; errno = g_io_errno; return nullptr;}
  return g_io_dir = __real_opendir(p);
}
struct dirent * __wrap_readdir(DIR * d)
{
  bool first = d == g_io_dir; g_io_dir = nullptr;
  if (!g_io_open && g_io_at >= 0 && first && g_io_at-- == 0) {
    g_io_hit = true; if (g_io_errno) {errno = g_io_errno;}
    return nullptr;
  }
  return __real_readdir(d);
}
}
// the n-th directory opened cannot be opened, or its first entry not be read
static void io_arm(bool open, int n) {static const int e[] = {EIO, EMFILE, ENOMEM, EACCES, ENOENT}; g_io_open = open; g_io_at = n; g_io_errno = e[draw_plain(0, 4)]; g_io_hit = false;}
namespace pbt
{
const char * const kPropertyId = "C22";
const char * const kRule =
  "a case creates a directory tree (files of generated sizes, directories, links to either / dangling / circular, pipes, long and "
  "hidden names, paths up to the system's limit) and compares directory iteration and both directory sizes, for every depth limit "
  "around the tree's depth and with allocation failures and unreadable directories at every point, with what was created; non-trivial: at least one "
  "subdirectory or link, or an allocation failure";
const Budget kBudget = {20000, 200000, 6000};
static int home = -1;
void property_setup() {home = open(".", O_RDONLY | O_DIRECTORY); umask(0);}
struct Node {std::map<std::string, Node> kids; char kind = 'd'; uint64_t size = 0; size_t plen = 0;};
static size_t left;
static void make(int at, Node & n, size_t depth, size_t longs)
{
  size_t k = draw_small(0, depth == 0 ? 8 : 4);
  if (depth == 0 && chance(1, 60)) {k = draw_small(100, 700);}
  for (size_t i = 0; i < k && left; i++) {
    std::string nm = fs::name_gen(longs && chance(1, longs)); if (k > 50) {nm += std::to_string(i);}
    if (n.kids.count(nm) || n.plen + 1 + nm.size() > 4000) {continue;}
    left--;
    Node c; c.plen = n.plen + 1 + nm.size();
    switch (weighted({6, 4, 3, 1})) {
      case 0: {
          c.kind = 'f'; c.size = chance(1, 10) ? draw_edge(0, 1ull << 40) : draw_small(0, 9000);
          int f = openat(at, nm.c_str(), O_CREAT | O_EXCL | O_RDWR, chance(1, 8) ? 0 : 0644);
          CHECK(f >= 0, "cannot create a file");
          if (ftruncate(f, (off_t)c.size)) {c.size = 0;}
          close(f); break;
        }
      case 1: {
          nontrivial();
          CHECK(mkdirat(at, nm.c_str(), 0755) == 0, "cannot create a directory");
          if (depth < 7) {
            int sub = openat(at, nm.c_str(), O_RDONLY | O_DIRECTORY);
            CHECK(sub >= 0, "cannot open a directory");
            make(sub, c, depth + 1, longs); close(sub);
          }
          break;
        }
      case 2: {
          c.kind = 'l'; nontrivial();
          std::string t;
          switch (weighted({4, 1, 1, 1, 1})) {
            case 0: t = n.kids.empty() ? "gone" : std::next(n.kids.begin(), (long)draw_plain(0, n.kids.size() - 1))->first; break;
            case 1: t = nm; break;
            case 2: t = "gone"; break;
            case 3: t = "."; break;
            default: t = "..";
          }
          CHECK(symlinkat(t.c_str(), at, nm.c_str()) == 0, "cannot create a link"); break;
        }
      default: c.kind = 'p'; CHECK(mkfifoat(at, nm.c_str(), 0644) == 0, "cannot create a pipe");
    }
    say("%*s%s %c %" PRIu64, (int)depth * 2, "", quote(nm).c_str(), c.kind, c.size);
    n.kids[nm] = c;
  }
}
// directories inside each other, more than a short counter could tell apart
static void chain(int at, Node & n, size_t levels, size_t bottom)
{
  Node c; c.plen = n.plen + 2;
  CHECK(mkdirat(at, "d", 0755) == 0, "cannot create a directory");
  int sub = openat(at, "d", O_RDONLY | O_DIRECTORY);
  CHECK(sub >= 0, "cannot open a directory");
  if (levels % 4 == 1 || levels < 4) {
    Node f; f.kind = 'f'; f.size = bottom + levels;
    int x = openat(sub, "f", O_CREAT | O_EXCL | O_RDWR, 0644);
    CHECK(x >= 0 && ftruncate(x, (off_t)f.size) == 0, "cannot create a file");
    close(x); c.kids["f"] = f;
  }
  if (levels > 1) {chain(sub, c, levels - 1, bottom);}
  close(sub); n.kids["d"] = c;
}
static size_t height(const Node & n) {size_t h = 0; for (auto & k : n.kids) {if (k.second.kind == 'd') {h = std::max(h, height(k.second));}} return h + 1;}
static uint64_t total(const Node & n, size_t max_depth, size_t depth = 1)
{
  uint64_t s = 0;
  for (auto & k : n.kids) {
    if (k.second.kind == 'f') {s += k.second.size;}
    if (k.second.kind == 'd' && (!max_depth || depth + 1 <= max_depth)) {s += total(k.second, max_depth, depth + 1);}
  }
  return s;
}
static int open_fds() {int n = 0; for (int i = 0; i < 64; i++) {if (fcntl(i, F_GETFD) != -1) {n++;}} return n;}
static void iterate(const char * path, const Node & n, int depth = 0)
{
  rc::TrackAlloc ta;
  say("iterate %s", quote(path).c_str());
  int64_t at = chance(1, 5) ? (int64_t)draw_plain(0, 3) : -1;
  ta.arm(at, chance(1, 2));
  bool none = false;       // a directory without even "." and "..", as some file systems have them
  if (chance(1, 12)) {io_arm(chance(1, 2), 0); if (!g_io_open && chance(1, 2)) {g_io_errno = 0; none = true;} }
  errno = chance(1, 2) ? 0 : ENOENT;
  rcutils_dir_iter_t * it = rcutils_dir_iter_start(path, ta.get());
  bool io = g_io_hit && !none, ended = g_io_hit && none, failed = ta.n_failed != 0 || io; ta.disarm(); g_io_at = -1; g_io_hit = false;
  if (io) {label("directory that cannot be read");}
  CHECK((it == nullptr) == failed, "dir_iter_start(%s) gave %p with%s an allocation failure%s", quote(path).c_str(), (void *)it, failed ? "" : "out", io ? " or an error of the file system" : "");
  CHECK(!io || rc::error_is_set(), "dir_iter_start sets no error when the directory cannot be read");
  rc::clear_error();
  if (!it) {nontrivial(); ta.expect_empty("after dir_iter_start failed"); return;}
  if (ended) {
    label("directory without any entry");
    CHECK(!it->entry_name, "iterating a directory without entries gives the name %s", quote(it->entry_name).c_str());
    rcutils_dir_iter_end(it); ta.expect_empty("after dir_iter_end"); return;
  }
  std::map<std::string, int> seen; size_t stop = chance(1, 6) ? draw_small(0, 5) : SIZE_MAX, got = 0;
  bool more_ = it->entry_name != nullptr;
  while (more_ && got < stop) {
    CHECK(it->entry_name, "dir_iter_next gave true without a name");
    int c = ++seen[it->entry_name]; got++;
    CHECK(c == 1, "iterating %s gave %s twice", quote(path).c_str(), quote(it->entry_name).c_str());
    CHECK(!strcmp(it->entry_name, ".") || !strcmp(it->entry_name, "..") || n.kids.count(it->entry_name),
      "iterating %s gave %s, which was not created", quote(path).c_str(), quote(it->entry_name).c_str());
    // another iteration meanwhile, as when a tree is walked
    if (depth < 3 && got % 4 == 1 && chance(1, 10)) {
      auto kid = n.kids.find(it->entry_name);
      std::string sub = path, name = it->entry_name; bool down = kid != n.kids.end() && kid->second.kind == 'd';
      if (down) {sub += "/" + name;}
      {rc::Exact e(sub); iterate(e, down ? kid->second : n, depth + 1);}
      CHECK(it->entry_name && name == it->entry_name, "another iteration changed the name %s an iterator gives", quote(name).c_str());
      label("an iteration inside another");
    }
    more_ = rcutils_dir_iter_next(it);
  }
  if (!more_) {
    for (auto & k : n.kids) {CHECK(seen.count(k.first), "iterating %s did not give %s", quote(path).c_str(), quote(k.first).c_str());}
    for (size_t i = draw_small(0, 3); i; i--) {CHECK(!rcutils_dir_iter_next(it), "dir_iter_next gave true after the end");}
  } else {label("iteration ended early");}
  rcutils_dir_iter_end(it);
  ta.expect_empty("after dir_iter_end");
}
void property_case()
{
  rc::clear_error();
  int d = fs::fresh("t"); std::string base = scratch() + "/t";
  int fds = open_fds();
  left = chance(1, 60) ? 1000 : 40;
  Node root; root.plen = base.size();
  static unsigned n_chain;
  if (rarely(700, 5, n_chain)) {
    size_t levels = draw_plain(60, 450); say("%zu directories inside each other", levels);
    chain(d, root, levels, draw_edge(0, 100000)); label("very deep tree"); nontrivial();
  } else {make(d, root, 0, chance(1, 8) ? 2 : chance(1, 4) ? 20 : 0);}
  bool rel = root.plen < 4000 && chance(1, 4);
  std::string path = base;
  if (rel) {CHECK(fchdir(d) == 0, "fchdir failed"); path = chance(1, 2) ? "." : "./";}
  else if (chance(1, 6)) {path += chance(1, 2) ? "/" : "/.";}
  if (path.size() > 2000) {label("long");}
  {
    rc::Exact p(path);
    iterate(p, root);
    for (auto & k : root.kids) {
      if (k.second.kind == 'd' && chance(1, 3)) {rc::Exact sub(path + "/" + k.first); iterate(sub, k.second);}
    }
    size_t h = height(root), asks = 1 + draw_small(0, 3);
    for (size_t i = 0; i < asks; i++) {
      size_t depth = chance(1, 4) ? draw_edge(0, UINT64_MAX) : draw_plain(0, h + 1);
      bool plain = chance(1, 3);
      if (plain) {depth = 1;}
      rc::TrackAlloc ta; uint64_t size = draw_edge(0, UINT64_MAX), want = total(root, depth);
      int64_t at = chance(1, 3) ? (int64_t)draw_small(0, 200) : -1;
      ta.arm(at, chance(1, 2));
      if (at < 0 && chance(1, 6)) {io_arm(chance(1, 2), (int)draw_small(0, 12));}
      rcutils_ret_t r = plain ? rcutils_calculate_directory_size(p, &size, ta.get()) :
        rcutils_calculate_directory_size_with_recursion(p, depth, &size, ta.get());
      bool io = g_io_hit, failed = ta.n_failed != 0; ta.disarm(); g_io_at = -1; g_io_hit = false;
      say("size with depth limit %zu, failing allocation %" PRId64 "%s: %s", depth, at, io ? ", error of the file system" : "", rc::ret_name(r));
      if (io) {
        CHECK_EQ(r, RCUTILS_RET_ERROR, "directory size when a directory cannot be read");
      } else if (failed) {
        nontrivial();
        CHECK(r == RCUTILS_RET_BAD_ALLOC || r == RCUTILS_RET_ERROR, "directory size with a failed allocation gave %s", rc::ret_name(r));
      } else {
        CHECK_EQ(r, RCUTILS_RET_OK, "directory size");
        CHECK(size == want, "size of a tree of height %zu with depth limit %zu is %" PRIu64 ", expected %" PRIu64, h, depth, size, want);
      }
      ta.expect_empty("after directory size");
      rc::clear_error();
    }
  }
  if (chance(1, 3)) {      // what is no directory
    rc::TrackAlloc ta; uint64_t size;
    std::string bad = "gone/x";
    for (auto & k : root.kids) {if (k.second.kind == 'f' || k.second.kind == 'p') {bad = k.first; break;}}
    rc::Exact b(rel ? bad : base + "/" + bad);
    CHECK_EQ(rcutils_calculate_directory_size(b, &size, ta.get()), RCUTILS_RET_ERROR, "size of what is no directory");
    CHECK_EQ(rcutils_calculate_directory_size_with_recursion(b, draw_edge(0, 10), &size, ta.get()), RCUTILS_RET_ERROR, "recursive size of what is no directory");
    CHECK(!rcutils_dir_iter_start(b, ta.get()), "iteration of what is no directory starts");
    CHECK_EQ(rcutils_calculate_directory_size(nullptr, &size, ta.get()), RCUTILS_RET_INVALID_ARGUMENT, "size of NULL");
    CHECK_EQ(rcutils_calculate_directory_size_with_recursion(nullptr, 0, &size, ta.get()), RCUTILS_RET_INVALID_ARGUMENT, "recursive size of NULL");
    CHECK_EQ(rcutils_calculate_directory_size(".", nullptr, ta.get()), RCUTILS_RET_INVALID_ARGUMENT, "size into NULL");
    CHECK_EQ(rcutils_calculate_directory_size_with_recursion(".", 0, nullptr, ta.get()), RCUTILS_RET_INVALID_ARGUMENT, "recursive size into NULL");
    ta.expect_empty("after refused calls");
  }
  if (chance(1, 20)) {     // a working directory which has been removed has no entries at all
    std::string gone = scratch() + "/gone";
    mkdir(gone.c_str(), 0755);
    CHECK(chdir(gone.c_str()) == 0 && rmdir(gone.c_str()) == 0, "cannot set up a removed directory");
    rc::TrackAlloc ta; uint64_t size = 7;
    rcutils_ret_t r = rcutils_calculate_directory_size_with_recursion(".", 0, &size, ta.get());
    CHECK(r != RCUTILS_RET_OK || size == 0, "a removed directory has size %" PRIu64, size);
    rcutils_dir_iter_t * it = rcutils_dir_iter_start(".", ta.get());
    if (it) {
      CHECK(it->entry_name == nullptr || !strcmp(it->entry_name, ".") || !strcmp(it->entry_name, ".."), "a removed directory has an entry");
      rcutils_dir_iter_end(it);
    }
    ta.expect_empty("after a removed directory"); label("removed directory");
  }
  int e = fchdir(home); (void)e;
  CHECK_EQ(open_fds(), fds, "open file descriptors");
  fs::empty_dir(dup(d)); close(d);
  rc::clear_error();
}
}  // namespace pbt
