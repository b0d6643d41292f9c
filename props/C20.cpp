#include "rc.h"
#include <inttypes.h>
#include <math.h>
#include "rcutils/sha256.h"
using namespace pbt;
namespace pbt
{
const char * const kPropertyId = "C20";
const char * const kRule =
  "a case hashes 1-3 generated messages of 0..3000 bytes (lengths around the block and padding boundaries favoured) in generated "
  "pieces, with the contexts interleaved, reused after a digest and abandoned half way, against an independent SHA-256 (one case "
  "hashes 512 MiB against a stored digest, and some contexts are taken up to 2^55 blocks further by their bit count); non-trivial: at least two pieces and two blocks, or a length within 9 bytes below a block end";
const Budget kBudget = {400000, 6000000, 200000};
static uint32_t K[64], H0[8];
static uint32_t rr(uint32_t x, int n) {return x >> n | x << (32 - n);}
static std::string reference(const std::string & msg, uint64_t skipped_bits = 0)
{
  std::string m = msg; m += '\x80';
  while (m.size() % 64 != 56) {m += '\0';}
  uint64_t bits = (uint64_t)msg.size() * 8 + skipped_bits;
  for (int i = 7; i >= 0; i--) {m += (char)(bits >> (8 * i));}
  uint32_t h[8]; memcpy(h, H0, sizeof h);
  for (size_t o = 0; o < m.size(); o += 64) {
    uint32_t w[64];
    for (int i = 0; i < 16; i++) {w[i] = 0; for (int b = 0; b < 4; b++) {w[i] = w[i] * 256 + (unsigned char)m[o + 4 * i + b];}}
    for (int i = 16; i < 64; i++) {
      w[i] = w[i - 16] + (rr(w[i - 15], 7) ^ rr(w[i - 15], 18) ^ w[i - 15] >> 3) + w[i - 7] + (rr(w[i - 2], 17) ^ rr(w[i - 2], 19) ^ w[i - 2] >> 10);
    }
    uint32_t v[8]; memcpy(v, h, sizeof v);
    for (int i = 0; i < 64; i++) {
      uint32_t t1 = v[7] + (rr(v[4], 6) ^ rr(v[4], 11) ^ rr(v[4], 25)) + ((v[4] & v[5]) | (~v[4] & v[6])) + K[i] + w[i];
      uint32_t t2 = (rr(v[0], 2) ^ rr(v[0], 13) ^ rr(v[0], 22)) + ((v[0] & v[1]) | (v[2] & (v[0] | v[1])));
      for (int j = 7; j > 0; j--) {v[j] = v[j - 1];}
      v[4] += t1; v[0] = t1 + t2;
    }
    for (int i = 0; i < 8; i++) {h[i] += v[i];}
  }
  std::string out;
  for (int i = 0; i < 8; i++) {for (int b = 3; b >= 0; b--) {out += (char)(h[i] >> (8 * b));}}
  return out;
}
void property_setup()
{
  int n = 0;
  for (int p = 2; n < 64; p++) {                 // constants: fractional parts of roots of primes
    bool prime = true; for (int d = 2; d * d <= p; d++) {prime &= p % d != 0;}
    if (!prime) {continue;}
    long double c = cbrtl((long double)p), s = sqrtl((long double)p);
    K[n] = (uint32_t)((c - floorl(c)) * 4294967296.0L);
    if (n < 8) {H0[n] = (uint32_t)((s - floorl(s)) * 4294967296.0L);}
    n++;
  }
  if (hex(reference("abc").data(), 4) != hex("\xba\x78\x16\xbf", 4)) {fail("the reference SHA-256 is wrong");}
}
static unsigned big;
static size_t length()
{
  switch (weighted({4, 4, 2})) {
    case 0: return draw_small(0, 300);
    case 1: {size_t b = 64 * draw_small(0, 6); return b + 48 + draw_plain(0, 20);}
    default: return rarely(40, 60, big) ? draw_edge(0, 400000) : draw_edge(0, 3000);
  }
}
struct Stream {rcutils_sha256_ctx_t * c; std::string msg; size_t pos = 0; unsigned pieces = 0; bool active = false; uint64_t skip = 0;};
static void huge()
{
  static const unsigned char want[] = {0xe7, 0xaa, 0x73, 0x98, 0x8a, 0x76, 0xdf, 0x25, 0xdf, 0xff, 0x4e, 0x83, 0x0a, 0xce, 0x9d, 0x95, 0x49, 0x07, 0x23, 0x2d, 0xae, 0x24, 0xc2, 0x51, 0xd7, 0x50, 0x4d, 0xe9, 0xd1, 0xed, 0x8b, 0x48};
  std::string mb(1 << 20, 'a'); rcutils_sha256_ctx_t c; uint8_t out[32];
  say("512 MiB of 'a' and \"abc\"");
  rcutils_sha256_init(&c);
  for (int i = 0; i < 512; i++) {rcutils_sha256_update(&c, (const uint8_t *)mb.data(), mb.size());}
  rcutils_sha256_update(&c, (const uint8_t *)"abc", 3);
  rcutils_sha256_final(&c, out);
  label("512 MiB");
  CHECK(!memcmp(out, want, 32), "the digest of 2^29+3 bytes is %s, expected %s", hex(out, 32).c_str(), hex(want, 32).c_str());
}
void property_case()
{
  static unsigned n_huge = 0;
  if (chance(1, 3000) && worker_index() == 0 && n_huge++ == 0) {huge(); return;}
  size_t n = 1 + draw_small(0, 2);
  std::vector<Stream> st(n);
  for (auto & s : st) {s.c = (rcutils_sha256_ctx_t *)malloc(sizeof *s.c); memset(s.c, (int)draw(0, 255), sizeof *s.c);}
  while (more(14)) {
    Stream & s = st[draw_plain(0, n - 1)]; int id = (int)(&s - st.data());
    if (!s.active) {
      s.msg = ""; size_t len = length(); s.pos = 0; s.pieces = 0; s.active = true; s.skip = 0;
      if (chance(1, 2)) {uint64_t x = draw(0, UINT64_MAX); while (s.msg.size() < len) {x = mix(x, 1); s.msg.append((char *)&x, 8);} s.msg.resize(len);} else {
        s.msg = std::string(len, (char)draw(0, 255));
      }
      say("context %d: init, message of %zu bytes", id, len);
      rcutils_sha256_init(s.c);
    }
    size_t left = s.msg.size() - s.pos;
    if (chance(1, 20)) {say("context %d: abandoned", id); s.active = false; continue;}
    if (left && !chance(1, 4)) {
      size_t k = chance(1, 3) ? left : chance(1, 2) ? draw_small(0, left) : std::min<size_t>(left, 64 - (s.pos % 64) + draw_plain(0, 2) - (draw_plain(0, 1) ? 1 : 0));
      if (k > left) {k = left;}
      say("context %d: update with %zu bytes", id, k);
      rc::Exact e(s.msg.substr(s.pos, k), false);
      rcutils_sha256_update(s.c, (const uint8_t *)e.p, k);
      CHECK(!memcmp(e.p, s.msg.data() + s.pos, k), "update changed its input");
      s.pos += k; s.pieces++;
      // Nobody can feed 2^61 bytes.  Where the context plainly counts the bits of the whole blocks it took, let it
      // go on from the same state with more of them.
      if (s.pos && s.pos % 64 == 0 && !s.skip && s.c->datalen == 0 && s.c->bitlen == s.pos * 8 && chance(1, 6)) {
        uint64_t blocks = draw_edge(1, (UINT64_MAX >> 9) - (1u << 20));
        if (chance(1, 2)) {blocks >>= draw_plain(0, 54); blocks += !blocks;}
        s.skip = blocks * 512; s.c->bitlen += s.skip;
        say("context %d: taken to be %" PRIu64 " blocks further", id, blocks);
        label("astronomically long message");
      }
      continue;
    }
    rc::Exact out(std::string(32, 0), false);
    say("context %d: final after %zu bytes", id, s.pos);
    rcutils_sha256_final(s.c, (uint8_t *)out.p);
    std::string m = s.msg.substr(0, s.pos), w = reference(m, s.skip);
    CHECK(!memcmp(out.p, w.data(), 32), "the digest of %zu bytes in %u pieces (and %" PRIu64 " bits before) is %s, expected %s", m.size(), s.pieces, s.skip, hex(out.p, 32).c_str(), hex(w.data(), 32).c_str());
    if ((s.pieces >= 2 && m.size() > 64) || m.size() % 64 >= 55) {nontrivial();}
    s.active = false;
  }
  for (auto & s : st) {free(s.c);}
}
}  // namespace pbt
