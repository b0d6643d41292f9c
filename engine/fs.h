// Generated directory trees inside the worker's scratch directory; shared by the file system properties.
#ifndef FS_H_
#define FS_H_
#include "rc.h"
#include <dirent.h>
#include <set>
#include <sys/un.h>
#include <sys/socket.h>
namespace fs
{
using namespace pbt;
// Removes what lies below dirfd (never follows links); takes the descriptor.
inline void empty_dir(int dfd)
{
  DIR * d = fdopendir(dfd);
  if (!d) {close(dfd); return;}
  std::vector<std::string> names;
  while (struct dirent * e = readdir(d)) {if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) {names.push_back(e->d_name);}}
  for (auto & n : names) {
    struct stat st;
    if (fstatat(dfd, n.c_str(), &st, AT_SYMLINK_NOFOLLOW) == 0 && S_ISDIR(st.st_mode)) {
      fchmodat(dfd, n.c_str(), 0700, 0);
      int sub = openat(dfd, n.c_str(), O_RDONLY | O_DIRECTORY | O_NOFOLLOW);
      if (sub >= 0) {empty_dir(sub);}
      unlinkat(dfd, n.c_str(), AT_REMOVEDIR);
    } else {unlinkat(dfd, n.c_str(), 0);}
  }
  closedir(d);
}
inline int fresh(const char * sub)      // an empty directory below scratch()
{
  std::string p = scratch() + "/" + sub;
  int old = open(p.c_str(), O_RDONLY | O_DIRECTORY | O_NOFOLLOW);
  if (old >= 0) {empty_dir(old); rmdir(p.c_str());}      // a new directory: the kernel remembers names looked up in vain
  mkdir(p.c_str(), 0755);
  int fd = open(p.c_str(), O_RDONLY | O_DIRECTORY | O_NOFOLLOW);
  CHECK(fd >= 0, "cannot open %s", p.c_str());
  return fd;
}
inline std::string name_gen(bool longs)
{
  std::string s;
  switch (weighted({5, 3, 2, 1})) {
    case 0: s = str_of("abc", 1, 3); break;
    case 1: s = str_of("ab. ~%s", 1, 6); break;
    case 2: s = "." + str_of(".ab", 0, 3); break;
    default: s = cstr(20); break;
  }
  if (longs) {s += std::string(draw_plain(150, 230), 'L');}
  for (auto & c : s) {if (c == '/') {c = '_';}}
  if (s.empty() || s == "." || s == "..") {s += "x";}
  return s;
}
}  // namespace fs
#endif
