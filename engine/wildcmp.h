// A C library whose comparisons return numbers of any size with the right sign, as the standard allows.  (The sanitizer's
// own versions only return -1, 0 and 1.)  A harness that includes this has a line "// BUILD wrap:" with the functions.
#ifndef WILDCMP_H_
#define WILDCMP_H_
#include <climits>
#include <cstddef>
extern "C" {
static int wild(int r, const char * a, const char * b, bool more)
{
  static const int size[] = {1, 255, 256, 128, 200, 65536, 1 << 24, INT_MAX};
  if (!r) {return 0;}
  int s = size[((unsigned char)a[0] * 5 + (unsigned char)b[0] * 3 + (unsigned char)(more && a[0] ? a[1] : 0) + (unsigned char)(more && b[0] ? b[1] : 0)) & 7];
  return r < 0 ? -s : s;
}
#define WILD2(name) int __real_ ## name(const char *, const char *); \
  int __wrap_ ## name(const char * a, const char * b) {return wild(__real_ ## name(a, b), a, b, true);}
#define WILD3(name) int __real_ ## name(const char *, const char *, size_t); \
  int __wrap_ ## name(const char * a, const char * b, size_t n) {return wild(__real_ ## name(a, b, n), a, b, false);}
}
#endif  // WILDCMP_H_
