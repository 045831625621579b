// C04: string arrays against vectors of optional strings.
#include "wl.h"
#include <algorithm>
extern "C" {
#include "rcutils/strdup.h"
#include "rcutils/types/string_array.h"
}
using namespace sim;
namespace {
enum { INIT, FINI, PUT, RESIZE, CMP, SORT, NULLS, NOPS };
const char * const names[] = {"init", "fini", "put", "resize", "cmp", "sort", "nulls"};
const int NA = 3;

void gen(Rng & r, Plan & p, bool th)
{
  p.cfg["zero_null"] = r.chance(1, 3);
  p.cfg["realloc0"] = r.chance(1, 3);
  unsigned frate = (unsigned)r.pick(std::vector<int>{0, 0, 1, 3, 6});
  int maxsz = (int)r.pick(std::vector<int>{3, 3, 8, 30});
  if (r.chance(1, th ? 12 : 25)) {maxsz = 300;}
  bool wide = r.chance(1, 800);         // more slots than 16 bits can count
  if (wide) {maxsz = 70000;}
  int n = wide ? (int)r.range(2, 12) : (int)r.range(1, th ? 150 : 60);
  int na = (int)r.range(1, NA);
  for (int i = 0; i < n; ++i) {
    Op o;
    int64_t a = (int64_t)r.below((uint64_t)na);
    unsigned x = (unsigned)r.below(20);
    std::vector<int> kinds{F_ALLOC};
    if (i < na) {a = i; x = 0;}
    if (x < 2) {o = mkop(0, INIT, {a, r.chance(1, 30) ? huge_len(r, 8) : wide && r.chance(2, 3) ? (int64_t)wide_len(r) : (int64_t)r.below((uint64_t)maxsz)}); kinds.push_back(F_FI);}
    else if (x < 3) {o = mkop(0, FINI, {a}); kinds.push_back(F_FI);}
    else if (x < 9) {
      o = mkop(0, PUT, {a, (int64_t)r.below(wide ? 70000 : maxsz > 40 ? 1000 : 40)}, {r.chance(1, 30) ? gen_long(r, 300, "/") : r.chance(1, 3) ? gen_text(r, 3, "ab\xe4") : std::string("s") + std::to_string(r.below(8))});
    } else if (x < 15) {o = mkop(0, RESIZE, {a, r.chance(1, 40) ? (r.chance(1, 2) ? huge_len(r, 8) : (int64_t)(SIZE_MAX / 8 - 2 + r.below(12)) * (r.chance(1, 4) ? 3 : 1)) :
        wide && r.chance(1, 2) ? (int64_t)wide_len(r) : (int64_t)r.below((uint64_t)maxsz + 1)}); kinds.push_back(F_FI);}
    else if (x < 17) {o = mkop(0, CMP, {a, (int64_t)r.below((uint64_t)na)});}
    else if (x < 19) {o = mkop(0, SORT, {a});}
    else {o = mkop(0, NULLS, {a, (int64_t)r.below(8)});}
    gen_faults(r, o, kinds, frate, 10);
    for (auto & f : o.f) {if (f.kind == F_FI && o.code == RESIZE) {f.nth = 1 + f.nth % 2;}}
    p.ops.push_back(o);
  }
}
struct Slot { bool set = false; std::string s; bool operator==(const Slot & o) const {return set == o.set && s == o.s;} };
struct A {
  rcutils_string_array_t a = rcutils_get_zero_initialized_string_array();
  std::vector<Slot> m;
  bool live = false;
};
void exec(const Plan & p)
{
  run_single(p, [&]() {
    g_zero_null = p.C("zero_null");
    g_realloc0_block = p.C("realloc0");
    A t[NA];
    auto verify = [&](int i, const char * w) {
        Oracle q;
        A & x = t[i];
        if (!x.live) {return;}
        CHECK(x.a.size == x.m.size(), "model-size", "after %s: size %zu, expected %zu", w, x.a.size, x.m.size());
        size_t n = 0;
        for (size_t k = 0; k < x.m.size(); ++k) {
          const char * s = x.a.data[k];
          CHECK((s != nullptr) == x.m[k].set, "model-slot", "after %s: slot %zu is %s", w, k, s ? "filled" : "empty");
          if (s) {
            ++n;
            CHECK(is_live(s), "dangling", "after %s: slot %zu points at released memory", w, k);
            CHECK(x.m[k].s == s, "model-slot", "after %s: slot %zu is '%s', expected '%s'", w, k, s, x.m[k].s.c_str());
          }
        }
        size_t lb = live_blocks(i + 1);
        CHECK(lb <= n + 1, "leak", "after %s: %zu blocks held for %zu strings", w, lb, n);
      };
    for (auto & o : p.ops) {
      begin_op(o, names[o.code]);
      rcutils_reset_error();
      int i = (int)umod(o.A(0), NA);
      A & x = t[i];
      rcutils_allocator_t al = allocator(i + 1);
      rcutils_ret_t ret = 0;
      if (o.code == INIT) {
        if (!x.live) {
          x.a = rcutils_get_zero_initialized_string_array();
          ret = rcutils_string_array_init(&x.a, (size_t)o.A(1), allocp(al));
          if (ret == RCUTILS_RET_OK) {
            CHECK((size_t)o.A(1) <= (1u << 24), "impossible-size", "init with %zu slots succeeded", (size_t)o.A(1));
            x.live = true;
            x.m.assign((size_t)o.A(1), Slot());
          } else {
            CHECK(fired() || (size_t)o.A(1) > (1u << 24), "spurious-failure", "init failed with %d though nothing failed", ret);
            CHECK(ret == RCUTILS_RET_BAD_ALLOC || fired_kind(F_FI), "code", "init without memory returned %d", ret);
            probe("init-failed");
            NoFaults nf;
            CHECK(live_blocks(i + 1) == 0, "leak", "failed init kept memory");
            fi_off();
            CHECK(rcutils_string_array_fini(&x.a) == RCUTILS_RET_OK, "fini", "fini after a failed init failed");
          }
        }
      } else if (o.code == FINI) {
        if (x.live) {
          ret = rcutils_string_array_fini(&x.a);
          if (ret == RCUTILS_RET_OK) {
            x.live = false;
            CHECK(x.a.data == nullptr && x.a.size == 0, "fini", "fini left size %zu", x.a.size);
            CHECK(live_blocks(i + 1) == 0, "leak", "fini kept %zu blocks", live_blocks(i + 1));
            CHECK(rcutils_string_array_fini(&x.a) == RCUTILS_RET_OK || fired(), "fini", "second fini failed");
          } else {CHECK(fired_kind(F_FI), "spurious-failure", "fini returned %d", ret);}
        }
      } else if (!x.live) {
        // nothing
      } else if (o.code == PUT) {
        if (!x.m.empty()) {
          size_t k = umod(o.A(1), x.m.size());
          NoFaults nf;
          al.deallocate(x.a.data[k], al.state);
          if (o.A(1) % 5 == 4) {
            x.a.data[k] = nullptr;
            x.m[k] = Slot();
          } else {
            x.a.data[k] = rcutils_strdup(o.S(0).c_str(), al);
            CHECK(x.a.data[k], "spurious-failure", "strdup failed");
            x.m[k].set = true;
            x.m[k].s = o.S(0);
          }
        }
      } else if (o.code == RESIZE) {
        size_t n = (size_t)o.A(1);
        char ** d0 = x.a.data;
        if (n >= x.m.size()) {fi_off();}   // only the part before anything was changed may fail for no reason
        ret = rcutils_string_array_resize(&x.a, n);
        if (ret == RCUTILS_RET_OK) {
          CHECK(n <= (1u << 24), "impossible-size", "resize to %zu slots succeeded", n);
          if (n < x.m.size()) {probe("shrunk");}
          if (n == 0) {probe("shrunk-to-nothing");}
          x.m.resize(n);
        } else {
          CHECK(fired() || n > (1u << 24), "spurious-failure", "resize failed with %d though nothing failed", ret);
          CHECK(ret == RCUTILS_RET_BAD_ALLOC || fired_kind(F_FI), "code", "resize without memory returned %d", ret);
          CHECK(x.a.data == d0, "resize", "failed resize replaced the storage");
          if (n > SIZE_MAX / sizeof(char *)) {probe("size-wraps");}
          probe(n < x.m.size() ? "shrink-failed" : "grow-failed");
          fi_off();
          verify(i, "failed resize");
          if (n <= (1u << 24)) {
            NoFaults nf;
            ret = rcutils_string_array_resize(&x.a, n);
            CHECK(ret == RCUTILS_RET_OK, "no-recovery", "resize still fails (%d)", ret);
            x.m.resize(n);
          }
        }
      } else if (o.code == CMP) {
        A & y = t[umod(o.A(1), NA)];
        if (y.live) {
          int res = 77;
          ret = rcutils_string_array_cmp(&x.a, &y.a, &res);
          int want = 0;
          bool null = false;
          size_t s = std::min(x.m.size(), y.m.size());
          for (size_t k = 0; k < s && !want; ++k) {
            if (!x.m[k].set || !y.m[k].set) {null = true; break;}
            want = x.m[k].s.compare(y.m[k].s);
          }
          if (null) {CHECK(ret != RCUTILS_RET_OK, "cmp", "comparison with an empty slot succeeded");} else {
            if (!want) {want = x.m.size() < y.m.size() ? -1 : x.m.size() > y.m.size();}
            CHECK(ret == RCUTILS_RET_OK, "cmp", "cmp returned %d", ret);
            CHECK((res < 0) == (want < 0) && (res > 0) == (want > 0), "cmp", "cmp gave %d, expected sign %d", res, want);
          }
        }
      } else if (o.code == SORT) {
        for (size_t k = 0; k < 9 && !x.m.empty(); ++k) {
          size_t l = umod(o.A(1) + (int64_t)(k / 3), x.m.size()), m = umod(o.A(2) + (int64_t)(k % 3), x.m.size());
          int c = rcutils_string_array_sort_compare(&x.a.data[l], &x.a.data[m]);
          const Slot & a = x.m[l], & b = x.m[m];
          int w = a.set != b.set ? (a.set ? -1 : 1) : a.set ? a.s.compare(b.s) : 0;
          CHECK((c < 0) == (w < 0) && (c > 0) == (w > 0), "sort-compare", "comparing '%.60s' and '%.60s' gives %d, expected sign %d", a.set ? a.s.c_str() : "(null)",
            b.set ? b.s.c_str() : "(null)", c, w);
        }
        ret = rcutils_string_array_sort(&x.a);
        CHECK(ret == RCUTILS_RET_OK, "sort", "sort returned %d", ret);
        std::stable_sort(x.m.begin(), x.m.end(), [](const Slot & a, const Slot & b) {
            if (a.set != b.set) {return a.set;}
            return a.s < b.s;
          });
      } else if (o.code == NULLS) {
        int res;
        switch (umod(o.A(1), 6)) {
          case 0: ret = rcutils_string_array_init(nullptr, 1, allocp(al)); break;
          case 1: {auto z = rcutils_get_zero_initialized_string_array(); ret = rcutils_string_array_init(&z, 1, nullptr); break;}
          case 2: ret = rcutils_string_array_cmp(&x.a, nullptr, &res); break;
          case 3: ret = rcutils_string_array_cmp(&x.a, &x.a, nullptr); break;
          case 4: ret = rcutils_string_array_resize(nullptr, 1); break;
          default: ret = rcutils_string_array_fini(nullptr); break;
        }
        CHECK(ret != RCUTILS_RET_OK, "invalid-argument", "invalid call %zu accepted", umod(o.A(1), 6));
      }
      end_op("%d", ret);
      for (int k = 0; k < NA; ++k) {verify(k, names[o.code]);}
      CHECK(blocks_since(HEAP, 0) == 0, "default-heap", "string array used the default heap");
    }
    for (int k = 0; k < NA; ++k) {
      if (t[k].live) {CHECK(rcutils_string_array_fini(&t[k].a) == RCUTILS_RET_OK, "fini", "final fini failed");}
    }
    finish_run("string array");
  });
}
const Workload W{"C04", names, NOPS, gen, exec};
Reg reg(&W);
}
