// C24: incremental SHA-256.
#include <algorithm>
#include "wl.h"
extern "C" {
#include "rcutils/sha256.h"
}
using namespace sim;
namespace {
enum { INIT, UPDATE, FINAL, HUGE_, NOPS };
const char * const names[] = {"sha256_init", "sha256_update", "sha256_final", "sha256_huge"};
const int SLOTS = 3;
// ---- reference, from FIPS 180-4
struct Sha {
  uint32_t h[8] = {0x6a09e667, 0xbb67ae85, 0x3c6ef372, 0xa54ff53a, 0x510e527f, 0x9b05688c, 0x1f83d9ab, 0x5be0cd19};
  std::string buf;
  uint64_t len = 0;
  static uint32_t rot(uint32_t x, int n) {return x >> n | x << (32 - n);}
  static const uint32_t * K()
  {
    static uint32_t k[64];
    static bool done = false;
    if (!done) {                 // fractional parts of the cube roots of the first 64 primes
      int n = 0;
      for (int p = 2; n < 64; ++p) {
        bool prime = true;
        for (int d = 2; d * d <= p; ++d) {if (p % d == 0) {prime = false;}}
        if (!prime) {continue;}
        unsigned __int128 lo = 0, hi = (unsigned __int128)8 << 36;     // floor(cbrt(p) * 2^36)
        while (lo + 1 < hi) {
          unsigned __int128 m = (lo + hi) / 2;
          unsigned __int128 sq = m * m;
          // m^3 <= p * 2^108
          if (sq <= (((unsigned __int128)p << 108) / m)) {lo = m;} else {hi = m;}
        }
        k[n++] = (uint32_t)(lo >> 4);
      }
      done = true;
    }
    return k;
  }
  void block(const unsigned char * b)
  {
    const uint32_t * k = K();
    uint32_t w[64];
    for (int i = 0; i < 16; ++i) {w[i] = (uint32_t)b[4 * i] << 24 | (uint32_t)b[4 * i + 1] << 16 | (uint32_t)b[4 * i + 2] << 8 | b[4 * i + 3];}
    for (int i = 16; i < 64; ++i) {
      uint32_t s0 = rot(w[i - 15], 7) ^ rot(w[i - 15], 18) ^ w[i - 15] >> 3, s1 = rot(w[i - 2], 17) ^ rot(w[i - 2], 19) ^ w[i - 2] >> 10;
      w[i] = w[i - 16] + s0 + w[i - 7] + s1;
    }
    uint32_t v[8];
    memcpy(v, h, sizeof v);
    for (int i = 0; i < 64; ++i) {
      uint32_t s1 = rot(v[4], 6) ^ rot(v[4], 11) ^ rot(v[4], 25), c = (v[4] & v[5]) ^ (~v[4] & v[6]);
      uint32_t t1 = v[7] + s1 + c + k[i] + w[i];
      uint32_t s0 = rot(v[0], 2) ^ rot(v[0], 13) ^ rot(v[0], 22), m = (v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]);
      for (int j = 7; j > 0; --j) {v[j] = v[j - 1];}
      v[4] += t1;
      v[0] = t1 + s0 + m;
    }
    for (int i = 0; i < 8; ++i) {h[i] += v[i];}
  }
  void add(const char * p, size_t n)
  {
    len += n;
    buf.append(p, n);
    size_t o = 0;
    while (buf.size() - o >= 64) {block((const unsigned char *)buf.data() + o); o += 64;}
    buf.erase(0, o);
  }
  std::string digest()
  {
    uint64_t bits = len * 8;
    std::string pad = "\x80";
    while ((buf.size() + pad.size()) % 64 != 56) {pad += '\0';}
    for (int i = 7; i >= 0; --i) {pad += (char)(bits >> (8 * i));}
    add(pad.data(), pad.size());
    std::string o;
    for (uint32_t x : h) {for (int i = 3; i >= 0; --i) {o += (char)(x >> (8 * i));}}
    return o;
  }
};
std::string hex(const std::string & s) {std::string o; char b[4]; for (unsigned char c : s) {snprintf(b, sizeof b, "%02x", c); o += b;} return o;}
void gen(Rng & r, Plan & p, bool th)
{
  if (r.chance(1, 20000)) {              // a message of more than 2^32 bits
    p.cfg["threads"] = 1;
    p.ops = {mkop(0, INIT, {0}), mkop(0, HUGE_, {0, 512}), mkop(0, UPDATE, {0, (int64_t)r.below(200), 1, 0}), mkop(0, FINAL, {0})};
    return;
  }
  int nt = (int)r.pick(std::vector<int>{1, 2, 2, 3});
  p.cfg["threads"] = nt;
  gen_schedule(r, p, nt, 25000);
  int n = (int)r.range(3, th ? 80 : 36);
  for (int t = 0; t < nt; ++t) {for (int s = 0; s < SLOTS; ++s) {p.ops.push_back(mkop(t, INIT, {s}));}}
  for (int i = 0; i < n; ++i) {
    int t = (int)r.below((uint64_t)nt);
    int64_t s = (int64_t)r.below(SLOTS);
    if (r.chance(1, 6)) {p.ops.push_back(mkop(t, r.chance(1, 5) ? INIT : FINAL, {s}));
    } else {
      int64_t len = r.chance(1, 2) ? r.pick(std::vector<int64_t>{0, 0, 1, 1, 2, 7, 8, 9, 54, 55, 56, 57, 63, 64, 65, 119, 120, 121, 127, 128, 129, 192, 255, 256, 257}) :
        r.chance(1, 10) ? (r.chance(1, 300) ? (int64_t)wide_len(r) : (int64_t)r.below(5000)) : (int64_t)r.below(70);
      p.ops.push_back(mkop(t, UPDATE, {s, len, (int64_t)r.below(1000000), r.chance(1, 4) ? (int64_t)r.below(8) : 0}));
    }
  }
  for (int t = 0; t < nt; ++t) {for (int s = 0; s < SLOTS; ++s) {p.ops.push_back(mkop(t, FINAL, {s}));}}
}
void exec(const Plan & p)
{
  run_threads(p, (int)p.C("threads", 1), [&](int tid) {
    rcutils_sha256_ctx_t * ctx[SLOTS];
    Sha ref[SLOTS];
    bool open[SLOTS] = {};
    for (auto & c : ctx) {c = (rcutils_sha256_ctx_t *)guarded_keep(sizeof(rcutils_sha256_ctx_t)); memset(c, 0xa5, sizeof *c);}
    for (auto & o : p.ops) {
      if (o.tid != tid) {continue;}
      size_t s = umod(o.A(0), SLOTS);
      begin_op(o, names[o.code]);
      switch (o.code) {
        case INIT:
          rcutils_sha256_init(ctx[s]);
          end_op();
          if (open[s]) {probe("abandoned-and-reinitialised");}
          ref[s] = Sha();
          open[s] = true;
          break;
        case UPDATE: {
            if (!open[s]) {rcutils_sha256_init(ctx[s]); ref[s] = Sha(); open[s] = true;}
            size_t n = umod(o.A(1), 100000), off = umod(o.A(3), 8);
            char * b = guarded(n + off);
            Rng r((uint64_t)o.A(2));
            for (size_t i = 0; i < n; ++i) {b[off + i] = (char)r.next();}
            std::string copy(b + off, n);
            seal(b, n + off);
            rcutils_sha256_update(ctx[s], (const uint8_t *)b + off, n);
            end_op("%zu", n);
            CHECK(memcmp(copy.data(), b + off, n) == 0, "input-changed", "the message was changed");
            memset(b, 0x5a, n + off);           // the caller reuses its buffer
            ref[s].add(copy.data(), n);
            break;
          }
        case FINAL: {
            if (!open[s]) {end_op(); break;}
            uint8_t * out = (uint8_t *)guarded(RCUTILS_SHA256_BLOCK_SIZE);
            memset(out, 0x11, RCUTILS_SHA256_BLOCK_SIZE);
            uint64_t len = ref[s].len;
            rcutils_sha256_final(ctx[s], out);
            end_op();
            open[s] = false;
            std::string got((const char *)out, RCUTILS_SHA256_BLOCK_SIZE), want = ref[s].digest();
            CHECK(got == want, "digest", "message of %llu bytes: digest %s, not %s", (unsigned long long)len, hex(got).c_str(), hex(want).c_str());
            size_t rest = len % 64;
            probe(rest == 0 ? "whole-blocks" : rest < 56 ? "short-rest" : "long-rest");
            break;
          }
        case HUGE_: {                        // n units of 1 MiB
            if (!open[s]) {rcutils_sha256_init(ctx[s]); ref[s] = Sha(); open[s] = true;}
            size_t n = umod(o.A(1), 1024);
            const size_t M = 1 << 20;
            std::string block(M, 'h');
            for (size_t i = 0; i < n; ++i) {
              if (i) {end_op(); begin_op(o, names[o.code]);}
              if (i == 511) {probe("more-than-2^32-bits");}
              rcutils_sha256_update(ctx[s], (const uint8_t *)block.data(), M);
              ref[s].add(block.data(), M);
            }
            end_op();
            break;
          }
        default: end_op(); break;
      }
    }
  });
  run_single(p, [&] {finish_run("at the end");});
}
const Workload W{"C24", names, NOPS, gen, exec};
Reg reg(&W);
}  // namespace
