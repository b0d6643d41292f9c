#include "rc.h"
#include <algorithm>
#include "rcutils/qsort.h"
using namespace pbt;
namespace pbt
{
const char * const kPropertyId = "C30";
const char * const kRule =
  "a case sorts a generated array (0..600, at times up to 70000, elements of 1..40, at times up to 140000, bytes; few or many distinct keys, sorted, reversed, organ-pipe and equal "
  "inputs; ascending, descending and coarse comparisons) and checks order, that it is a permutation of the input, that only the "
  "array is touched; comparisons may give any magnitude and sort an array of their own; non-trivial: at least three elements not yet in order";
const Budget kBudget = {150000, 2000000, 30000};
void property_setup() {}
static char * g_base, * g_end; static size_t g_size; static int g_mode; static bool g_bad; static uint64_t g_calls;
static int64_t key(const void * p)
{
  const unsigned char * b = (const unsigned char *)p;
  int64_t k = b[0]; if (g_size > 1) {k = k * 256 + b[1];}
  if (g_mode == 1) {k = -k;}
  if (g_mode == 2) {k /= 16;}
  if (g_mode == 3) {k = 0;}
  return k;
}
static int g_scale, g_nested;
// a comparison by a key of its own, for an array that is sorted while another one is
static int cmp_nested(const void * a, const void * b)
{
  uint32_t x, y; memcpy(&x, a, 3); memcpy(&y, b, 3); x &= 0xffffff; y &= 0xffffff;
  return x < y ? 1 : x > y ? -1 : 0;
}
static int cmp(const void * a, const void * b)
{
  g_calls++;
  int64_t x = key(a), y = key(b);
  if (g_nested > 0 && g_nested-- % 2) {
    unsigned char own[5 * 3];
    for (size_t i = 0; i < sizeof own; i++) {own[i] = (unsigned char)mix(g_calls, i);}
    CHECK_EQ(rcutils_qsort(own, 5, 3, cmp_nested), RCUTILS_RET_OK, "a sort inside a comparison");
    for (size_t i = 1; i < 5; i++) {CHECK(cmp_nested(own + 3 * (i - 1), own + 3 * i) <= 0, "an array sorted inside a comparison is out of order");}
  }
  if (g_scale == 1) {return x < y ? INT_MIN : x > y ? INT_MAX : 0;}
  if (g_scale == 2) {return (int)(x - y);}
  return x < y ? -1 : x > y ? 1 : 0;
}
static int never(const void *, const void *) {g_bad = true; return 0;}
void property_case()
{
  rc::clear_error();
  size_t n = chance(1, 20) ? draw_plain(100, 600) : size_edge(60), size = chance(1, 3) ? draw_plain(1, 3) : draw_plain(1, 40);
  if (chance(1, 60)) {size = draw_edge(1, 5000); if (chance(1, 20)) {size = draw_edge(1, 140000);} n = std::min<size_t>(n, 12); label("large elements");}
  else if (chance(1, 2000)) {n = draw_edge(600, 70000); size = std::min<size_t>(size, 4); label("many elements");}
  g_size = size; g_mode = (int)weighted({4, 3, 2, 1}); g_nested = 0; g_scale = (int)draw_plain(0, 2);
  unsigned shape = weighted({5, 2, 1, 1, 1}), vals = chance(1, 3) ? 3 : 255;
  std::string data;
  for (size_t i = 0; i < n; i++) {
    uint64_t k = shape == 0 ? n > 1000 ? mix(vals, i) % (vals + 1) : draw_plain(0, vals) : shape == 1 ? i * 255 / n : shape == 2 ? 255 - i * 255 / n : shape == 3 ? std::min(i, n - i) * 255 / n : 7;
    std::string e(size, 0); e[0] = (char)k;
    for (size_t j = 1; j < size; j++) {e[j] = (char)mix(i, j);}
    if (size > 1 && n <= 1000 && chance(1, 4)) {e[1] = (char)draw_plain(0, 2);}
    data += e;
  }
  rc::Exact buf(data, false);
  g_base = buf.p; g_end = g_base + data.size(); g_calls = 0; g_bad = false;
  bool sorted = true;
  for (size_t i = 1; i < n; i++) {if (cmp(data.data() + (i - 1) * size, data.data() + i * size) > 0) {sorted = false;}}
  say("%zu elements of %zu bytes, shape %u, comparison %d", n, size, shape, g_mode);
  if (chance(1, 12)) {
    CHECK_EQ(rcutils_qsort(buf, n, size, nullptr), RCUTILS_RET_INVALID_ARGUMENT, "sorting without a comparison"); rc::clear_error();
    CHECK_EQ(rcutils_qsort(nullptr, 2 + n, size, never), RCUTILS_RET_INVALID_ARGUMENT, "sorting NULL"); rc::clear_error();
    CHECK_EQ(rcutils_qsort(nullptr, draw_plain(0, 1), size, never), RCUTILS_RET_OK, "sorting no or one element at NULL");
    CHECK_EQ(rcutils_qsort(buf, n ? 1 : 0, size, never), RCUTILS_RET_OK, "sorting one element");
    CHECK(!g_bad, "a comparison took place where nothing is to compare");
    CHECK(data == std::string(buf.p, data.size()), "a refused or empty sort has changed the array");
  }
  if (chance(1, 10)) {g_nested = (int)draw_plain(1, 40); say("the first %d comparisons sort an array of their own", (g_nested + 1) / 2); label("sorting inside a comparison");}
  CHECK_EQ(rcutils_qsort(buf, n, size, cmp), RCUTILS_RET_OK, "sort");
  g_nested = 0;
  CHECK(!rc::error_is_set(), "sorting sets an error message");
  std::vector<std::string> a, b;
  for (size_t i = 0; i < n; i++) {
    a.push_back(data.substr(i * size, size)); b.emplace_back(buf.p + i * size, size);
    if (i) {CHECK(cmp(b[i - 1].data(), b[i].data()) <= 0, "elements %zu and %zu of %zu are out of order", i - 1, i, n);}
  }
  std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end());
  CHECK(a == b, "the sorted array is no permutation of the input");
  if (n >= 3 && !sorted) {nontrivial();}
}
}  // namespace pbt
