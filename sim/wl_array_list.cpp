// C03: array list against a vector.
#include "wl.h"
extern "C" {
#include "rcutils/types/array_list.h"
}
using namespace sim;
namespace {
enum { ADD, SET, REMOVE, GET, SIZE, REINIT, NULLS, ADDN, REMOVEN, NOPS };
const char * const names[] = {"add", "set", "remove", "get", "size", "reinit", "nulls", "add-many", "remove-many"};

std::string elem(int64_t v, size_t ds)
{
  std::string e(ds, '\0');
  Rng r((uint64_t)v);
  for (auto & c : e) {c = (char)r.next();}
  return e;
}
void gen(Rng & r, Plan & p, bool th)
{
  p.cfg["cap"] = r.chance(1, 2) ? 1 : r.range(1, 9);
  p.cfg["ds"] = r.pick(std::vector<int>{1, 2, 3, 4, 7, 8, 16, 24, 33, 100, 257});
  p.cfg["zero_null"] = r.chance(1, 8);
  bool big = r.chance(1, th ? 12 : 25);
  if (big) {
    p.cfg["cap"] = r.chance(1, 4) ? r.range(1, 9) : r.chance(1, 2) ? (int64_t)1 << r.range(4, 9) : r.range(10, 600);
    p.cfg["ds"] = r.pick(std::vector<int>{1, 2, 4, 8, 12});
  }
  unsigned frate = (unsigned)r.pick(std::vector<int>{0, 0, 1, 3, 8});
  if (r.chance(1, 700)) {               // more elements, or larger ones, than 16 bits can count
    p.cfg["wide"] = 1;
    p.cfg["cap"] = r.chance(1, 2) ? r.range(1, 9) : (int64_t)wide_len(r);
    if (r.chance(1, 3)) {
      p.cfg["ds"] = (int64_t)wide_len(r);
      p.cfg["cap"] = r.range(1, 9);
      for (int i = 0, n = (int)r.range(3, 14); i < n; ++i) {
        p.ops.push_back(r.chance(2, 3) ? mkop(0, ADD, {(int64_t)r.below(1000000)}) : r.chance(1, 2) ? mkop(0, REMOVE, {(int64_t)r.below(40), 0}) :
          mkop(0, SET, {(int64_t)r.below(40), 0, (int64_t)r.below(1000000)}));
        gen_faults(r, p.ops.back(), {F_ALLOC}, frate, 10);
      }
      return;
    }
    p.cfg["ds"] = r.pick(std::vector<int>{1, 2, 4, 12});
    p.ops.push_back(mkop(0, ADDN, {(int64_t)r.below(1000000), (int64_t)wide_len(r)}));
    for (int i = 0, n = (int)r.range(0, 6); i < n; ++i) {
      p.ops.push_back(r.chance(1, 3) ? mkop(0, ADD, {(int64_t)r.below(1000000)}) : r.chance(1, 2) ? mkop(0, REMOVE, {(int64_t)r.below(70000), (int64_t)r.chance(1, 6)}) :
        mkop(0, SET, {(int64_t)r.below(70000), (int64_t)r.chance(1, 6), (int64_t)r.below(1000000)}));
      gen_faults(r, p.ops.back(), {F_ALLOC}, frate, 10);
    }
    return;
  }
  unsigned wadd = 2 + (unsigned)r.below(6), wrem = (unsigned)r.below(5);
  int n = (int)r.range(1, th ? 120 : 60);
  for (int i = 0; i < n; ++i) {
    unsigned x = (unsigned)r.below(wadd + wrem + 6);
    Op o;
    if (big && r.chance(1, 4)) {
      o = r.chance(2, 3) ? mkop(0, ADDN, {(int64_t)r.below(1000000), r.range(1, 200)}) : mkop(0, REMOVEN, {(int64_t)r.below(1000), r.range(1, 250)});
    }
    else if (x < wadd) {o = mkop(0, ADD, {(int64_t)r.below(1000000)});}
    else if (x < wadd + wrem) {o = mkop(0, REMOVE, {(int64_t)r.below(big ? 1000 : 40), (int64_t)r.chance(1, 12)});}
    else if (x < wadd + wrem + 2) {o = mkop(0, SET, {(int64_t)r.below(40), (int64_t)r.chance(1, 12), (int64_t)r.below(1000000)});}
    else if (x < wadd + wrem + 4) {o = mkop(0, GET, {(int64_t)r.below(40), (int64_t)r.chance(1, 8)});}
    else if (x < wadd + wrem + 5) {o = mkop(0, SIZE);}
    else if (r.chance(1, 30)) {
      uint64_t ds = (uint64_t)p.cfg["ds"];   // as many elements as no memory can hold: their size in bytes may wrap around
      o = mkop(0, REINIT, {(int64_t)(r.chance(1, 4) ? SIZE_MAX - r.below(3) : r.chance(1, 2) ? (uint64_t)huge_len(r, ds) : SIZE_MAX / ds * (1 + r.below(ds)) / (r.chance(1, 2) ? 1 : ds) + r.below(40))});
    } else {o = r.chance(1, 4) ? mkop(0, REINIT, {r.range(0, 9)}) : mkop(0, NULLS, {(int64_t)r.below(12)});}
    gen_faults(r, o, {F_ALLOC}, frate, 10);
    p.ops.push_back(o);
  }
}
void exec(const Plan & p)
{
  run_single(p, [&]() {
    g_zero_null = p.C("zero_null");
    size_t ds = (size_t)std::max<int64_t>(1, p.C("ds", 4));
    rcutils_array_list_t l = rcutils_get_zero_initialized_array_list();
    std::vector<std::string> m;
    bool live = false;
    auto init = [&](const Op * o, size_t cap) {
        rcutils_ret_t ret = rcutils_array_list_init(&l, cap, ds, allocp(1));
        int f = fired();
        if (cap == 0) {
          CHECK(ret == RCUTILS_RET_INVALID_ARGUMENT, "init", "init with capacity 0 returned %d", ret);
          CHECK(l.impl == nullptr, "init", "failed init left an object");
          return;
        }
        bool huge = cap > ((size_t)1 << 29) / ds;
        CHECK(ret == RCUTILS_RET_OK || f || huge, "spurious-failure", "init failed with %d though nothing failed", ret);
        CHECK(ret != RCUTILS_RET_OK || !huge, "impossible-capacity", "init with room for %zu elements of %zu bytes succeeded", cap, ds);
        if (huge) {probe("impossible-capacity");}
        if (ret == RCUTILS_RET_OK) {live = true; m.clear();} else {
          CHECK(l.impl == nullptr && live_blocks(1) == 0, "init", "failed init kept something");
          CHECK(ret == RCUTILS_RET_BAD_ALLOC, "init-code", "failed allocation in init returned %d", ret);
        }
      };
    auto verify = [&](const char * w) {
        Oracle q;
        if (!live) {return;}
        size_t n = 12345;
        rcutils_ret_t r = rcutils_array_list_get_size(&l, &n);
        CHECK(r == RCUTILS_RET_OK && n == m.size(), "model-size", "after %s: size %zu, expected %zu", w, n, m.size());
        std::string b(ds, 'x');
        for (size_t i = 0; i < m.size(); ++i) {
          r = rcutils_array_list_get(&l, i, &b[0]);
          CHECK(r == RCUTILS_RET_OK && b == m[i], "model-element", "after %s: element %zu differs (ret %d)", w, i, r);
        }
        CHECK(rcutils_array_list_get(&l, m.size(), &b[0]) == RCUTILS_RET_INVALID_ARGUMENT, "bounds",
          "get at size succeeded");
        rcutils_reset_error();
      };
    Op first;
    begin_op(first, "init");
    init(nullptr, (size_t)std::max<int64_t>(1, p.C("cap", 1)));
    end_op();
    for (auto & o : p.ops) {
      begin_op(o, names[o.code]);
      rcutils_reset_error();
      rcutils_ret_t ret = 0;
      if (o.code == REINIT) {
        if (live) {
          ret = rcutils_array_list_fini(&l);
          CHECK(ret == RCUTILS_RET_OK && l.impl == nullptr && live_blocks(1) == 0, "fini", "fini ret %d", ret);
          live = false;
        }
        init(&o, (size_t)o.A(0));
      } else if (!live) {
        char b[70000];
        ret = o.code == ADD ? rcutils_array_list_add(&l, b) : rcutils_array_list_get(&l, 0, b);
        CHECK(ret != RCUTILS_RET_OK, "uninit", "operation on an uninitialised list succeeded");
      } else if (o.code == ADDN) {
        for (int64_t k = 0, n = p.C("wide") ? o.A(1) % 70000 : o.A(1) % 1000; k < n; ++k) {
          op_step();
          std::string e = elem(o.A(0) + k, ds);
          int before = fired();
          ret = rcutils_array_list_add(&l, e.data());
          if (ret == RCUTILS_RET_OK) {m.push_back(e); continue;}
          CHECK(fired() > before, "spurious-failure", "add failed with %d though nothing failed", ret);
          probe("add-failed");
        }
        if (m.size() > 64) {probe("large-list");}
        if (m.size() > 65536) {probe("list-past-16-bits");}
      } else if (o.code == REMOVEN) {
        for (int64_t k = 0; k < o.A(1) % 1000 && !m.empty(); ++k) {
          size_t i = umod(o.A(0) * k, m.size());
          ret = rcutils_array_list_remove(&l, i);
          CHECK(ret == RCUTILS_RET_OK, "bounds", "remove(%zu) of %zu returned %d", i, m.size(), ret);
          m.erase(m.begin() + (long)i);
        }
        if (m.size() < 8) {probe("drained");}
      } else if (o.code == ADD) {
        std::string e = elem(o.A(0), ds);
        ret = rcutils_array_list_add(&l, e.data());
        int f = fired();
        CHECK(ret == RCUTILS_RET_OK || f, "spurious-failure", "add failed with %d though nothing failed", ret);
        if (ret == RCUTILS_RET_OK) {m.push_back(e);} else {
          probe("add-failed");
          CHECK(ret == RCUTILS_RET_BAD_ALLOC, "code", "add without memory returned %d", ret);
          NoFaults nf;
          rcutils_reset_error();
          verify("failed add");
          ret = rcutils_array_list_add(&l, e.data());
          CHECK(ret == RCUTILS_RET_OK, "no-recovery", "add still fails (%d) once memory is available", ret);
          m.push_back(e);
        }
      } else if (o.code == SET || o.code == GET || o.code == REMOVE) {
        size_t i = o.A(1) ? m.size() + umod(o.A(0), 3) : umod(o.A(0), m.size());
        bool oob = i >= m.size();
        if (o.code == SET) {
          std::string e = elem(o.A(2), ds);
          ret = rcutils_array_list_set(&l, i, e.data());
          if (!oob) {m[i] = e;}
        } else if (o.code == REMOVE) {
          ret = rcutils_array_list_remove(&l, i);
          if (!oob) {m.erase(m.begin() + (long)i);}
        } else {
          std::string b(ds, 'x');
          ret = rcutils_array_list_get(&l, i, &b[0]);
          if (!oob) {CHECK(b == m[i], "model-element", "get(%zu) gave other bytes", i);}
        }
        CHECK(ret == (oob ? RCUTILS_RET_INVALID_ARGUMENT : RCUTILS_RET_OK), "bounds",
          "%s(%zu) of %zu returned %d", names[o.code], i, m.size(), ret);
      } else if (o.code == SIZE) {
        size_t n = 99;
        ret = rcutils_array_list_get_size(&l, &n);
        CHECK(ret == RCUTILS_RET_OK && n == m.size(), "model-size", "size %zu, expected %zu", n, m.size());
      } else if (o.code == NULLS) {
        char b[70000];
        size_t n;
        switch (umod(o.A(0), 6)) {
          case 0: ret = rcutils_array_list_add(&l, nullptr); break;
          case 1: ret = rcutils_array_list_get(nullptr, 0, b); break;
          case 2: ret = rcutils_array_list_get_size(&l, nullptr); break;
          case 3: ret = rcutils_array_list_init(&l, 1, ds, allocp(1)); break;
          case 4: ret = rcutils_array_list_get_size(nullptr, &n); break;
          default: ret = rcutils_array_list_set(&l, 0, nullptr); break;
        }
        CHECK(ret != RCUTILS_RET_OK, "invalid-argument", "invalid call %zu accepted", umod(o.A(0), 6));
      }
      end_op("%d", ret);
      verify(names[o.code]);
      CHECK(blocks_since(HEAP, 0) == 0, "default-heap", "list used the default heap");
    }
    if (live) {
      CHECK(rcutils_array_list_fini(&l) == RCUTILS_RET_OK, "fini", "final fini failed");
      CHECK(l.impl == nullptr, "fini", "fini left the object");
    }
    finish_run("array list");
  });
}
const Workload W{"C03", names, NOPS, gen, exec};
Reg reg(&W);
}
