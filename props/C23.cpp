#include "fs.h"
#include "rcutils/filesystem.h"
#include <sys/socket.h>
#include <sys/un.h>
using namespace pbt;
namespace pbt
{
const char * const kPropertyId = "C23";
const char * const kRule =
  "a case joins, expands and converts generated paths (any bytes, format specifiers, tildes, lengths around powers of two up to 5000) "
  "with a generated, empty or unset HOME and with allocation failures, or makes directories under generated absolute, relative, "
  "nested, existing and impossible paths inside a scratch directory, against string equations and a model of the tree; non-trivial: "
  "a result of more than 100 bytes, a failing allocation, a leading tilde, or a directory that cannot be made";
const Budget kBudget = {120000, 1500000, 30000};
static int home = -1;
void property_setup() {rc::foreign_locale_ready(); home = open(".", O_RDONLY | O_DIRECTORY); umask(022);}
static std::string path_gen()
{
  if (chance(1, 400)) {return stretch(str_of("/ab~", 0, 4), 1, 140000);}
  switch (weighted({4, 4, 2, 1})) {
    case 0: return str_of("/a~.%s\\", 0, 8);
    case 1: return cstr(40);
    case 2: return str_of("/ab", 0, 3) + "/" + str_of("%~sd/.", 0, 6);
    default: {std::string s = cstr(4), p = str_of("ab/~%", 1, 3); size_t n = draw_edge(0, 5000); while (s.size() < n) {s += p;} return s.substr(0, std::max<size_t>(n, 1));}
  }
}
static void result(const char * what, char * got, const std::string & want, rc::TrackAlloc & ta, const rcutils_allocator_t & a)
{
  bool failed = ta.n_failed != 0; ta.disarm();
  if (failed) {nontrivial(); CHECK(!got, "%s gave a path although an allocation failed", what);}
  else {
    CHECK(got, "%s gave NULL", what);
    CHECK(ta.owns(got) && ta.size_of(got) > want.size(), "%s: the result is no large enough block of the allocator", what);
    CHECK(want == got, "%s gave %s, expected %s", what, quote(got, strlen(got)).c_str(), quote(want).c_str());
    if (want.size() > 100) {nontrivial();}
    a.deallocate(got, a.state);
  }
  ta.expect_empty(what);
  rc::clear_error();
}
static void strings()
{
  std::string l = path_gen(), r = path_gen(), h = chance(1, 3) ? "/home/" + path_gen() : path_gen();
  rc::Exact el(l), er(r);
  rc::TrackAlloc ta; rcutils_allocator_t a = ta.get();
  auto arm = [&] {if (chance(1, 4)) {ta.arm((int64_t)draw_plain(0, 3), chance(1, 2));}};
  say("paths %s and %s, home %s", quote(l).c_str(), quote(r).c_str(), quote(h).c_str());
  arm();
  result("join_path", rcutils_join_path(el, er, a), l + "/" + r, ta, a);
  arm();
  result("to_native_path", rcutils_to_native_path(el, a), l, ta, a);
  bool unset = chance(1, 8);
  if (unset) {unsetenv("HOME"); h.clear();} else {setenv("HOME", h.c_str(), 1);}
  if (chance(1, 2)) {l = "~" + l;}
  rc::Exact e(l);
  arm();
  char * got = rcutils_expand_user(e, a);
  if (l[0] == '~' && h.empty()) {
    CHECK(!got, "expand_user without a home directory gave a path"); ta.disarm(); ta.expect_empty("after expand_user"); label("no home");
  } else {result("expand_user", got, l[0] == '~' ? h + l.substr(1) : l, ta, a);}
  if (l[0] == '~') {nontrivial();}
  if (chance(1, 8)) {
    CHECK(!rcutils_join_path(nullptr, e, a) && !rcutils_join_path(e, nullptr, a) && !rcutils_join_path(nullptr, nullptr, a) &&
      !rcutils_to_native_path(nullptr, a) && !rcutils_expand_user(nullptr, a), "a NULL path gave a path");
    ta.expect_empty("after NULL paths");
  }
  setenv("HOME", "/nonexistent-home", 1);
}
static void dirs()
{
  int d = fs::fresh("m"); std::string base = scratch() + "/m";
  CHECK(fchdir(d) == 0, "fchdir failed");
  std::map<std::string, char> kind;                 // relative path below base -> kind
  kind[""] = 'd';
  auto parent = [](const std::string & p) {size_t k = p.rfind('/'); return k == std::string::npos ? std::string() : p.substr(0, k);};
  auto put = [&](const char * n, char k) {
      if (kind.count(n)) {return;}
      if (k == 'f') {int f = openat(d, n, O_CREAT | O_RDWR, 0644); close(f);}
      if (k == 'l') {CHECK(symlinkat(".", d, n) == 0, "symlink");}
      if (k == 'p') {CHECK(mkfifoat(d, n, 0644) == 0, "mkfifo");}
      if (k == 's') {     // a socket
        int f = socket(AF_UNIX, SOCK_STREAM, 0); struct sockaddr_un a; memset(&a, 0, sizeof a); a.sun_family = AF_UNIX; snprintf(a.sun_path, sizeof a.sun_path, "%s", n);
        CHECK(f >= 0 && bind(f, (struct sockaddr *)&a, sizeof a) == 0, "bind"); close(f);
      }
      if (k == 'h') {CHECK(symlinkat("p", d, n) == 0, "symlink");}
      if (k == 'g') {CHECK(symlinkat("nowhere", d, n) == 0, "symlink");}
      kind[n] = k;
    };
  if (chance(1, 2)) {put("f", 'f');}
  if (chance(1, 3)) {put("l", 'l');}
  if (chance(1, 3)) {put("g", 'g');}
  if (chance(1, 4)) {put("p", 'p'); if (chance(1, 2)) {put("h", 'h');}}
  if (chance(1, 8)) {put("s", 's');}
  while (more(6)) {
    std::string rel; size_t depth = 1 + draw_small(0, 3);
    for (size_t i = 0; i < depth; i++) {rel += (i ? "/" : "") + (chance(1, 40) ? std::string(draw_plain(250, 260), 'n') : str_of(chance(1, 3) ? "lgf%psh" : "ab", 1, 1));}
    std::string abs = base + "/" + rel;
    bool absolute = !chance(1, 6), ok;
    if (!absolute) {abs = rel;}
    // what has to be there: every component but the last a directory ('l' leads back to base)
    std::string at, last; bool reach = true; size_t pos = 0;
    while (reach) {
      size_t k = rel.find('/', pos); std::string c = rel.substr(pos, k == std::string::npos ? k : k - pos);
      if (k == std::string::npos) {last = c; break;}
      std::string nx = at.empty() ? c : at + "/" + c;
      if (c.size() > 255 || !kind.count(nx)) {reach = false;}
      else if (kind[nx] == 'l') {at = "";}
      else if (kind[nx] == 'd') {at = nx;}
      else {reach = false;}
      pos = k + 1;
    }
    std::string target = at.empty() ? last : at + "/" + last;
    char was = reach && kind.count(target) ? kind[target] : 0;
    ok = absolute && reach && last.size() <= 255 && (was == 0 || was == 'd' || was == 'l');
    std::string p = abs + ((ok || was == 'f' || was == 'p') && chance(1, 8) ? "/" : "");
    if (chance(1, 20)) {errno = EEXIST;}           // a stale errno says nothing about this call
    rc::Exact ep(p);
    bool got = rcutils_mkdir(ep);
    say("mkdir %s: %d", quote(p).c_str(), got);
    CHECK(got == ok, "mkdir(%s) gave %d, expected %d", quote(p).c_str(), got, ok);
    if (!ok) {nontrivial();}
    if (ok && !was) {kind[target] = 'd';}
    struct stat st;
    if (ok) {CHECK(stat(p.c_str(), &st) == 0 && S_ISDIR(st.st_mode), "mkdir(%s) gave true but there is no directory", quote(p).c_str());}
    if (ok && !was) {CHECK((st.st_mode & 0700) == 0700, "mkdir(%s) made a directory of mode %o", quote(p).c_str(), st.st_mode & 07777);}
    (void)parent;
  }
  CHECK(!rcutils_mkdir(nullptr) && !rcutils_mkdir(""), "mkdir of NULL or the empty path succeeds");
  // nothing else has appeared or changed
  for (auto & k : kind) {
    struct stat st;
    CHECK(lstat((base + "/" + k.first).c_str(), &st) == 0, "%s is gone", quote(k.first).c_str());
    char is = S_ISDIR(st.st_mode) ? 'd' : S_ISREG(st.st_mode) ? 'f' : S_ISFIFO(st.st_mode) ? 'p' : S_ISSOCK(st.st_mode) ? 's' : 'l';
    CHECK(is == (k.second == 'g' || k.second == 'h' ? 'l' : k.second), "%s has become something else", quote(k.first).c_str());
  }
  std::vector<std::string> todo{""};
  while (!todo.empty()) {
    std::string at = todo.back(); todo.pop_back();
    DIR * dd = opendir((base + "/" + at).c_str());
    CHECK(dd, "cannot list %s", quote(at).c_str());
    while (struct dirent * e = readdir(dd)) {
      if (!strcmp(e->d_name, ".") || !strcmp(e->d_name, "..")) {continue;}
      std::string n = at.empty() ? e->d_name : at + "/" + e->d_name;
      CHECK(kind.count(n), "%s has appeared", quote(n).c_str());
      if (kind[n] == 'd') {todo.push_back(n);}
    }
    closedir(dd);
  }
  int e = fchdir(home); (void)e;
  fs::empty_dir(dup(d)); close(d);
}
void property_case()
{
  rc::ForeignLocale foreign(chance(1, 8));
  rc::clear_error();
  if (chance(1, 8)) {label("mkdir"); dirs();} else {strings();}
}
}  // namespace pbt
