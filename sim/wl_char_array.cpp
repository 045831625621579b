// C05: growable text buffers (owned and borrowed). C06: byte arrays.
#include "wl.h"
#include <algorithm>
extern "C" {
#include "rcutils/types/char_array.h"
#include "rcutils/types/uint8_array.h"
}
using namespace sim;
namespace {
enum { INIT, BORROW, FINI, STRCPY, MEMCPY, STRCAT, STRNCAT, PRINTF, RESIZE, EXPAND, NULLS, NOPS };
const char * const names[] = {"init", "borrow", "fini", "strcpy", "memcpy", "strcat", "strncat", "vsprintf", "resize", "expand",
  "nulls"};

size_t gsize(Rng & r)
{
  if (r.chance(1, 6)) {return r.chance(1, 1500) ? wide_len(r) : edge_len(r, 4200);}
  return (size_t)r.pick(std::vector<int>{0, 1, 1, 2, 3, 4, 7, 8, 15, 16, 17, 31, 64, 100, 1023, 1024, 1025, 3000});
}
void gen(Rng & r, Plan & p, bool th)
{
  p.cfg["heap"] = r.chance(1, 4);
  p.cfg["zero_null"] = r.chance(1, 4);
  p.cfg["startcap"] = (int64_t)gsize(r);
  p.cfg["startmode"] = (int64_t)r.below(3);
  unsigned frate = (unsigned)r.pick(std::vector<int>{0, 0, 1, 2, 4});
  unsigned w[NOPS] = {2, 3, 2, 5, 3, 6, 5, 6, 4, 4, 1};
  for (auto & x : w) {if (r.chance(1, 4)) {x = x * 3;} else if (r.chance(1, 5)) {x = 0;}}
  w[PRINTF] += 1;
  unsigned tot = 0;
  for (auto x : w) {tot += x;}
  bool wide = r.chance(1, 500);       // a text longer than a 16-bit length, and what follows on it
  int n = (int)r.range(1, wide ? 12 : th ? 80 : 30);
  for (int i = 0; i < n; ++i) {
    if (wide && r.chance(1, 4)) {
      p.ops.push_back(mkop(0, r.pick(std::vector<int>{STRCPY, STRCPY, MEMCPY, STRCAT}), {}, {std::string(wide_len(r), "wide"[r.below(4)])}));
    }
    unsigned x = (unsigned)r.below(tot);
    int c = 0;
    while (x >= w[c]) {x -= w[c++];}
    Op o;
    switch (c) {
      case INIT: case BORROW: o = mkop(0, c, {(int64_t)gsize(r), (int64_t)r.below(30)}); break;
      case RESIZE: case EXPAND: o = mkop(0, c, {r.chance(1, 30) ? (r.chance(1, 2) ? huge_len(r, 1) : -(int64_t)r.below(3) - 1) : (int64_t)gsize(r), (int64_t)r.below(3)}); break;
      case PRINTF: o = mkop(0, c, {(int64_t)r.below(6), r.range(-5000, 5000), (int64_t)r.below(3)}, {gen_text(r, r.chance(1, 3) ? gsize(r) : 12, "abcXYZ %")}); break;
      case NULLS: o = mkop(0, c, {(int64_t)r.below(6)}); break;
      case STRNCAT: {
          std::string s = gen_text(r, r.chance(1, 3) ? gsize(r) : 10, "abcdefgh");
          o = mkop(0, c, {(int64_t)r.below(s.size() + 4), (int64_t)r.below(2)}, {s});
          break;
        }
      default: o = mkop(0, c, {}, {gen_text(r, r.chance(1, 3) ? gsize(r) : 10, "abcdefgh")}); break;
    }
    gen_faults(r, o, c == PRINTF ? std::vector<int>{F_ALLOC, F_FMT} : std::vector<int>{F_ALLOC}, frate, 10);
    p.ops.push_back(o);
  }
}
rcutils_ret_t print(rcutils_char_array_t * a, const char * f, ...)
{
  va_list ap;
  va_start(ap, f);
  rcutils_ret_t r = rcutils_char_array_vsprintf(a, f, ap);
  // the caller's list must still be usable
  va_list c;
  va_copy(c, ap);
  char b[16];
  vsnprintf(b, sizeof b, f, c);
  va_end(c);
  va_end(ap);
  return r;
}
std::string print_model(const char * f, ...)
{
  va_list ap;
  va_start(ap, f);
  static char b[300000];
  int n = vsnprintf(b, sizeof b, f, ap);
  va_end(ap);
  return std::string(b, (size_t)n);
}
void exec(const Plan & p)
{
  run_single(p, [&]() {
    g_zero_null = p.C("zero_null");
    int id = p.C("heap") ? HEAP : 1;
    rcutils_allocator_t al = id ? allocator(1) : rcutils_get_default_allocator();
    rcutils_char_array_t a = rcutils_get_zero_initialized_char_array();
    enum Know { STR, BYTES, LOOSE } know = STR;   // what is known of the content
    std::string m;                                // STR: the text; BYTES: the bytes
    bool live = false;
    char * borrowed = nullptr;
    size_t bcap = 0;
    auto take = [&](int mode, size_t cap, size_t textlen) {
        rcutils_ret_t ret = RCUTILS_RET_OK;
        a = rcutils_get_zero_initialized_char_array();
        if (mode == 0) {
          ret = rcutils_char_array_init(&a, cap, allocp(al));
          borrowed = nullptr;
          CHECK(ret == RCUTILS_RET_OK || fired(), "spurious-failure", "init returned %d", ret);
          if (ret != RCUTILS_RET_OK) {
            CHECK(ret == RCUTILS_RET_BAD_ALLOC, "code", "init without memory returned %d", ret);
            CHECK(live_blocks(id) == 0, "leak", "failed init kept memory");
            know = LOOSE;
            live = true;       // still has to be safe to finalise and to use
            CHECK(a.buffer_capacity == 0, "state", "failed init left capacity %zu", a.buffer_capacity);
            return ret;
          }
          CHECK(a.buffer_capacity == cap && a.buffer_length == 0, "state", "init(%zu) left capacity %zu length %zu", cap,
            a.buffer_capacity, a.buffer_length);
          know = STR;
          m.clear();
        } else {
          borrowed = guarded_keep(cap);
          bcap = cap;
          a.buffer = cap == 0 && mode == 2 ? nullptr : borrowed;
          a.owns_buffer = false;
          a.buffer_capacity = cap;
          a.allocator = al;
          size_t n = cap ? std::min(textlen, cap - 1) : 0;
          memset(borrowed, 'q', n);
          if (cap) {borrowed[n] = 0;}
          a.buffer_length = n ? n + 1 : 0;
          know = STR;
          m.assign(n, 'q');
        }
        live = true;
        return ret;
      };
    bool raw = false;
    auto verify = [&](const char * w) {
        Oracle q;
        if (!live) {return;}
        raw = (raw || !a.buffer_capacity) && !a.buffer_length;
        CHECK(a.buffer_length <= a.buffer_capacity, "length-over-capacity", "after %s: length %zu capacity %zu", w, a.buffer_length,
          a.buffer_capacity);
        if (a.owns_buffer) {
          size_t sz = 0;
          int bid = -1;
          if (a.buffer_capacity == 0) {
            CHECK(a.buffer == nullptr || is_live(a.buffer), "dangling", "after %s: buffer points at released memory", w);
          } else {
            CHECK(a.buffer && is_live(a.buffer, &bid, &sz), "dangling", "after %s: buffer is not live memory", w);
            CHECK(sz >= a.buffer_capacity && bid == id, "state", "after %s: capacity %zu in a block of %zu", w, a.buffer_capacity, sz);
          }
          CHECK(live_blocks(id) <= 1, "leak", "after %s: %zu blocks outstanding", w, live_blocks(id));
        } else {
          CHECK(live_blocks(id) == 0, "leak", "after %s: memory outstanding behind a borrowed buffer", w);
          CHECK(a.buffer == borrowed || (bcap == 0 && !a.buffer), "borrowed", "after %s: borrowed buffer replaced", w);
          CHECK(a.buffer_capacity <= bcap, "borrowed", "after %s: borrowed capacity %zu grew to %zu", w, bcap, a.buffer_capacity);
        }
        if (know == STR) {
          if (a.buffer_length) {
            CHECK(a.buffer_length == m.size() + 1, "model-length", "after %s: length %zu, text has %zu", w, a.buffer_length, m.size());
            CHECK(memcmp(a.buffer, m.c_str(), m.size() + 1) == 0, "model-text", "after %s: text is '%.60s', expected '%.60s'", w,
              std::string(a.buffer, a.buffer_length).c_str(), m.c_str());
          } else {
            CHECK(m.empty(), "model-length", "after %s: length 0, text has %zu", w, m.size());
            // growing from capacity 0 gives raw storage, anything else leaves an empty text terminated
            if (a.buffer_capacity && !raw) {CHECK(a.buffer[0] == 0, "model-text", "after %s: empty text not terminated", w);}
          }
        } else if (know == BYTES) {
          CHECK(a.buffer_length == m.size(), "model-length", "after %s: length %zu, expected %zu", w, a.buffer_length, m.size());
          CHECK(m.empty() || memcmp(a.buffer, m.data(), m.size()) == 0, "model-text", "after %s: bytes differ", w);
        }
      };
    Op first;
    begin_op(first, "start");
    take((int)p.C("startmode"), (size_t)p.C("startcap"), 5);
    verify("start");
    end_op();
    for (auto & o : p.ops) {
      begin_op(o, names[o.code]);
      rcutils_reset_error();
      rcutils_ret_t ret = 0;
      const std::string & s = o.S(0);
      auto fini = [&]() {
          NoFaults nf;
          CHECK(rcutils_char_array_fini(&a) == RCUTILS_RET_OK, "fini", "fini failed");
          CHECK(live_blocks(id) == 0, "leak", "fini kept %zu blocks", live_blocks(id));
          CHECK(!a.buffer && !a.buffer_capacity && !a.buffer_length, "fini", "fini left fields");
          live = false;
        };
      bool huge = false;
      auto settle = [&]() {         // a failed call: safe state, and usable again once memory is there
          CHECK(fired() || huge, "spurious-failure", "%s failed with %d though nothing failed", names[o.code], ret);
          CHECK(ret == RCUTILS_RET_BAD_ALLOC || fired_kind(F_FMT), "code", "%s without memory returned %d", names[o.code], ret);
          probe(a.owns_buffer ? "failed-owned" : "failed-borrowed");
          know = LOOSE;
          verify("failure");
          if (calls_in_op(F_ALLOC) % 2) {
            fini();
            NoFaults nf;
            CHECK(rcutils_char_array_fini(&a) == RCUTILS_RET_OK, "fini", "second fini failed");
          } else {
            NoFaults nf;
            rcutils_reset_error();
            rcutils_ret_t r2 = rcutils_char_array_strcpy(&a, "usable again after a failure");
            CHECK(r2 == RCUTILS_RET_OK, "no-recovery", "strcpy still fails (%d)", r2);
            know = STR;
            m = "usable again after a failure";
          }
        };
      if (o.code == INIT || o.code == BORROW) {
        if (live) {fini();}
        ret = take(o.code == INIT ? 0 : 1 + (int)(o.A(1) & 1), (size_t)o.A(0), (size_t)o.A(1));
      } else if (o.code == FINI) {
        if (live) {
          fini();
          live = true;               // a finalised array may be used again
          know = STR;
          m.clear();
          if (!a.owns_buffer) {borrowed = nullptr; bcap = 0;}
        }
      } else if (!live) {
        // nothing
      } else if (o.code == STRCPY) {
        ret = rcutils_char_array_strcpy(&a, s.c_str());
        if (ret == RCUTILS_RET_OK) {know = STR; m = s; CHECK(a.buffer_length == m.size() + 1, "model-length", "strcpy length");} else {settle();}
      } else if (o.code == MEMCPY) {
        ret = rcutils_char_array_memcpy(&a, s.data(), s.size());
        if (ret == RCUTILS_RET_OK) {know = BYTES; m = s;} else {settle();}
      } else if (o.code == STRCAT || o.code == STRNCAT) {
        if (know == STR) {
          std::string add = s;
          if (o.code == STRCAT) {
            ret = rcutils_char_array_strcat(&a, s.c_str());
          } else {
            size_t n = (size_t)o.A(0);
            add = s.substr(0, n);
            char * src = guarded(n <= s.size() && o.A(1) ? n : s.size() + 1);   // n bytes need not be terminated
            memcpy(src, s.c_str(), n <= s.size() && o.A(1) ? n : s.size() + 1);
            seal(src, n <= s.size() && o.A(1) ? n : s.size() + 1);
            ret = rcutils_char_array_strncat(&a, src, n);
          }
          if (ret == RCUTILS_RET_OK) {m += add;} else {settle();}
        }
      } else if (o.code == PRINTF) {
        std::string want;
        int d = (int)o.A(1);
        const char * t = s.c_str();
        switch (umod(o.A(0), 6)) {
          case 0: want = print_model("%s", t); ret = print(&a, "%s", t); break;
          case 1: want = print_model("%d:%s:%d", d, t, d + 1); ret = print(&a, "%d:%s:%d", d, t, d + 1); break;
          case 2: want = print_model("%*d", (int)s.size(), d); ret = print(&a, "%*d", (int)s.size(), d); break;
          case 3: want = print_model("%.*s|%%|%lld|%f", d & 15, t, (long long)d << 33, d / 7.0);
            ret = print(&a, "%.*s|%%|%lld|%f", d & 15, t, (long long)d << 33, d / 7.0); break;
          case 4: want = print_model("plain text"); ret = print(&a, "plain text"); break;
          default: want = ""; ret = print(&a, "%s", ""); break;
        }
        if (ret == RCUTILS_RET_OK) {
          know = STR;
          m = want;
          CHECK(a.buffer_length == m.size() + 1, "model-length", "vsprintf length %zu, expected %zu", a.buffer_length, m.size() + 1);
        } else {
          if (fired_kind(F_FMT)) {probe(calls_in_op(F_FMT) > 1 ? "second-pass-failed" : "first-pass-failed");}
          settle();
        }
      } else if (o.code == RESIZE || o.code == EXPAND) {
        size_t n = (size_t)o.A(0);
        huge = n > (1u << 24);
        size_t c0 = a.buffer_capacity, l0 = a.buffer_length;
        bool own = a.owns_buffer;
        ret = o.code == RESIZE ? rcutils_char_array_resize(&a, n) : rcutils_char_array_expand_as_needed(&a, n);
        if (o.code == RESIZE && n == 0) {
          CHECK(ret == RCUTILS_RET_INVALID_ARGUMENT && a.buffer_capacity == c0, "resize-zero", "resize(0) returned %d", ret);
        } else if (ret == RCUTILS_RET_OK) {
          if (o.code == RESIZE) {CHECK(a.buffer_capacity == n, "capacity", "resize(%zu) gave capacity %zu", n, a.buffer_capacity);}
          CHECK(a.buffer_capacity >= n || o.code == RESIZE, "capacity", "capacity %zu after asking for %zu", a.buffer_capacity, n);
          if (o.code == EXPAND) {
            CHECK(a.buffer_capacity >= c0, "capacity", "expand shrank %zu to %zu", c0, a.buffer_capacity);
            if (n <= c0) {CHECK(a.buffer_capacity == c0 && a.owns_buffer == own, "capacity", "expand(%zu) changed a buffer of %zu", n, c0);}
          }
          size_t lim = a.buffer_capacity;
          CHECK(a.buffer_length == std::min(l0, lim), "model-length", "length %zu after resizing %zu to %zu", a.buffer_length, l0, lim);
          if (lim < l0) {
            probe("truncated");
            CHECK(memcmp(a.buffer, m.data(), std::min(m.size(), lim - 1)) == 0 || know == LOOSE, "model-text", "truncation changed the text");
            know = LOOSE;
          } else if (know == BYTES && !own && a.owns_buffer && l0 && l0 == std::min(c0, lim)) {
            // documented for text: a copied borrowed buffer always gets a terminator in its last byte
            CHECK(memcmp(a.buffer, m.data(), m.size() - 1) == 0, "model-text", "growing changed the bytes");
            know = LOOSE;
          }
        } else {settle();}
      } else if (o.code == NULLS) {
        switch (umod(o.A(0), 5)) {
          case 0: ret = rcutils_char_array_init(nullptr, 1, allocp(al)); break;
          case 1: {rcutils_char_array_t z = rcutils_get_zero_initialized_char_array(); ret = rcutils_char_array_init(&z, 4, nullptr); break;}
          case 2: ret = rcutils_char_array_fini(nullptr); break;
          case 3: ret = rcutils_char_array_resize(nullptr, 3); break;
          default: ret = rcutils_char_array_expand_as_needed(nullptr, 3); break;
        }
        CHECK(ret != RCUTILS_RET_OK, "invalid-argument", "invalid call %zu accepted", umod(o.A(0), 5));
      }
      end_op("%d %zu", ret, a.buffer_length);
      verify(names[o.code]);
      if (id) {CHECK(blocks_since(HEAP, 0) == 0, "default-heap", "char array used the default heap");}
    }
    if (live) {CHECK(rcutils_char_array_fini(&a) == RCUTILS_RET_OK, "fini", "final fini failed");}
    finish_run("char array");
  });
}
const Workload W{"C05", names, NOPS, gen, exec};
Reg reg(&W);

// ---------------------------------------------------------------- C06
enum { U_INIT, U_FINI, U_WRITE, U_RESIZE, U_NULLS, U_NOPS };
const char * const unames[] = {"init", "fini", "write", "resize", "nulls"};
void ugen(Rng & r, Plan & p, bool th)
{
  p.cfg["zero_null"] = r.chance(1, 4);
  p.cfg["heap"] = r.chance(1, 4);
  unsigned frate = (unsigned)r.pick(std::vector<int>{0, 1, 2, 4});
  bool wide = r.chance(1, 500);       // several sizes past a 16-bit length, one after the other
  auto size = [&] {return wide && r.chance(1, 2) ? wide_len(r) : gsize(r);};
  int n = (int)r.range(1, wide ? 12 : th ? 80 : 30);
  for (int i = 0; i < n; ++i) {
    unsigned x = i == 0 ? 0 : (unsigned)r.below(14);
    Op o = x < 2 ? mkop(0, U_INIT, {(int64_t)r.below(2), (int64_t)size()}) : x < 3 ? mkop(0, U_FINI, {(int64_t)r.below(2)}) :
      x < 8 ? mkop(0, U_WRITE, {(int64_t)r.below(2), (int64_t)r.below(wide ? 70000 : 4000), (int64_t)r.below(1u << 30)}) :
      x < 13 ? mkop(0, U_RESIZE, {(int64_t)r.below(2), r.chance(1, 30) ? (r.chance(1, 2) ? huge_len(r, 1) : -1 - (int64_t)r.below(3)) : (int64_t)size()}) :
      mkop(0, U_NULLS, {(int64_t)r.below(2), (int64_t)r.below(4)});
    gen_faults(r, o, {F_ALLOC}, frate, 10);
    p.ops.push_back(o);
  }
}
void uexec(const Plan & p)
{
  run_single(p, [&]() {
    g_zero_null = p.C("zero_null");
    struct U { rcutils_uint8_array_t a = rcutils_get_zero_initialized_uint8_array(); std::string m; size_t len = 0; bool live = false; } t[2];
    int ids[2] = {p.C("heap") ? HEAP : 1, 2};
    auto verify = [&](int i, const char * w) {
        Oracle q;
        U & x = t[i];
        if (!x.live) {CHECK(live_blocks(ids[i]) == 0, "leak", "after %s: memory held", w); return;}
        CHECK(x.a.buffer_capacity == x.m.size(), "capacity", "after %s: capacity %zu, expected %zu", w, x.a.buffer_capacity, x.m.size());
        CHECK(x.a.buffer_length <= x.a.buffer_capacity, "length-over-capacity", "after %s: length %zu capacity %zu", w, x.a.buffer_length,
          x.a.buffer_capacity);
        CHECK(x.a.buffer_length == x.len, "model-length", "after %s: length %zu, expected %zu", w, x.a.buffer_length, x.len);
        size_t sz = 0;
        if (!x.m.empty()) {
          CHECK(is_live(x.a.buffer, nullptr, &sz) && sz >= x.m.size(), "dangling", "after %s: buffer of %zu is not live memory", w, x.m.size());
          CHECK(memcmp(x.a.buffer, x.m.data(), x.m.size()) == 0, "model-bytes", "after %s: bytes differ", w);
        } else {
          CHECK(!x.a.buffer || is_live(x.a.buffer), "dangling", "after %s: empty array points at released memory", w);
        }
        CHECK(live_blocks(ids[i]) <= 1, "leak", "after %s: %zu blocks outstanding", w, live_blocks(ids[i]));
      };
    for (auto & o : p.ops) {
      begin_op(o, unames[o.code]);
      rcutils_reset_error();
      int i = (int)umod(o.A(0), 2);
      U & x = t[i];
      rcutils_allocator_t al = ids[i] ? allocator(ids[i]) : rcutils_get_default_allocator();
      rcutils_ret_t ret = 0;
      auto fini = [&]() {
          NoFaults nf;
          CHECK(rcutils_uint8_array_fini(&x.a) == RCUTILS_RET_OK, "fini", "fini failed");
          CHECK(!x.a.buffer && !x.a.buffer_length && !x.a.buffer_capacity, "fini", "fini left fields");
          x.live = false;
        };
      if (o.code == U_INIT) {
        if (x.live) {fini();}
        ret = rcutils_uint8_array_init(&x.a, (size_t)o.A(1), allocp(al));
        if (ret == RCUTILS_RET_OK) {
          x.live = true;
          x.len = 0;
          CHECK(x.a.buffer_capacity == (size_t)o.A(1), "capacity", "init(%lld) gave capacity %zu", (long long)o.A(1), x.a.buffer_capacity);
          x.m.assign((size_t)o.A(1), '\1');
          if (!x.m.empty()) {memset(x.a.buffer, 1, x.m.size());}
        } else {
          CHECK(fired(), "spurious-failure", "init failed with %d", ret);
          CHECK(ret == RCUTILS_RET_BAD_ALLOC, "code", "init without memory returned %d", ret);
          CHECK(x.a.buffer_capacity == 0 && live_blocks(ids[i]) == 0, "state", "failed init left something");
          fini();
        }
      } else if (o.code == U_FINI) {
        if (x.live) {fini();}
      } else if (!x.live) {
      } else if (o.code == U_WRITE) {
        if (!x.m.empty()) {
          size_t n = umod(o.A(1), x.m.size() + 1);
          Rng r((uint64_t)o.A(2));
          for (size_t k = 0; k < n; ++k) {x.m[k] = (char)r.next(); x.a.buffer[k] = (uint8_t)x.m[k];}
          x.len = x.a.buffer_length = n;
        }
      } else if (o.code == U_RESIZE) {
        size_t n = (size_t)o.A(1);
        bool huge = n > (1u << 24);
        ret = rcutils_uint8_array_resize(&x.a, n);
        if (n == 0) {CHECK(ret == RCUTILS_RET_INVALID_ARGUMENT, "resize-zero", "resize(0) returned %d", ret);} else if (ret == RCUTILS_RET_OK) {
          CHECK(!huge, "capacity", "impossible size accepted");
          size_t old = x.m.size();
          x.m.resize(n, '\2');
          if (n > old) {
            CHECK(x.a.buffer_capacity == n, "capacity", "resize(%zu) gave capacity %zu", n, x.a.buffer_capacity);
            memset(x.a.buffer + old, 2, n - old);
          }
          x.len = std::min(x.len, n);
        } else {
          CHECK(fired() || huge, "spurious-failure", "resize failed with %d", ret);
          CHECK(ret == RCUTILS_RET_BAD_ALLOC, "code", "resize without memory returned %d", ret);
          probe("resize-failed");
          if (x.a.buffer_capacity == 0) {x.m.clear(); x.len = 0;}
          verify(i, "failed resize");
          if (o.A(1) & 1) {fini();} else {
            NoFaults nf;
            ret = rcutils_uint8_array_resize(&x.a, 5);
            CHECK(ret == RCUTILS_RET_OK, "no-recovery", "resize still fails (%d)", ret);
            size_t old = x.m.size();
            x.m.resize(5, '\3');
            if (old < 5) {memset(x.a.buffer + old, 3, 5 - old);}
            x.len = std::min<size_t>(x.len, 5);
          }
        }
      } else {
        switch (umod(o.A(1), 3)) {
          case 0: ret = rcutils_uint8_array_init(nullptr, 1, allocp(al)); break;
          case 1: ret = rcutils_uint8_array_resize(nullptr, 1); break;
          default: ret = rcutils_uint8_array_fini(nullptr); break;
        }
        CHECK(ret != RCUTILS_RET_OK, "invalid-argument", "NULL accepted");
      }
      end_op("%d", ret);
      for (int k = 0; k < 2; ++k) {verify(k, unames[o.code]);}
      if (ids[0]) {CHECK(blocks_since(HEAP, 0) == 0, "default-heap", "byte array used the default heap");}
    }
    for (int k = 0; k < 2; ++k) {
      if (t[k].live) {CHECK(rcutils_uint8_array_fini(&t[k].a) == RCUTILS_RET_OK, "fini", "final fini failed");}
    }
    finish_run("byte array");
  });
}
const Workload WU{"C06", unames, U_NOPS, ugen, uexec};
Reg regu(&WU);
}
