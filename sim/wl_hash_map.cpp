// C01: hash map against a dictionary.
#include "wl.h"
extern "C" {
#include "rcutils/types/hash_map.h"
}
using namespace sim;
namespace {
enum { SET, UNSET, GET, EXISTS, ITER, ITERFROM, SIZE, REINIT, NULLS, SETN, UNSETN, NOPS };
const char * const names[] = {"set", "unset", "get", "exists", "iterate", "iterate-from", "size", "reinit", "nulls", "set-many", "unset-many"};

size_t g_ks = 4, g_hashmode = 0;
size_t hasher(const void * k)
{
  uint64_t h = hash64(k, g_ks);
  switch (g_hashmode) {
    case 0: return (size_t)h;
    case 1: return 7;                                    // everything collides
    case 2: return (size_t)(h & 3);
    case 3: return (size_t)(h & 1 ? SIZE_MAX : 0);
    case 4: return (size_t)(h << 32);                    // low bits equal: one bucket, different hashes
    case 5: return (size_t)(*(const unsigned char *)k);
    default: return (size_t)(h & 0xF0);
  }
}
int cmp(const void * a, const void * b) {return memcmp(a, b, g_ks);}
std::string key_of(int64_t v, bool strkeys)
{
  (void)strkeys;
  std::string k(g_ks, '\0');
  Rng r((uint64_t)v + 77);
  for (auto & c : k) {c = (char)r.next();}
  k[0] = (char)v;
  if (g_ks > 1) {k[1] = (char)(v >> 8);}
  return k;
}
void gen(Rng & r, Plan & p, bool th)
{
  p.cfg["cap"] = r.pick(std::vector<int>{1, 1, 2, 2, 3, 4, 5, 7, 8, 9, 12, 16, 17, 33, 64, 100});
  p.cfg["ks"] = r.pick(std::vector<int>{1, 2, 4, 8, 8, 12, 40});
  p.cfg["ds"] = r.pick(std::vector<int>{1, 4, 8, 16, 50, 300});
  p.cfg["hash"] = r.pick(std::vector<int>{0, 0, 0, 1, 2, 3, 4, 5, 6});
  p.cfg["str"] = r.chance(1, 4);
  unsigned frate = (unsigned)r.pick(std::vector<int>{0, 0, 1, 2, 5});
  int keys = (int)r.pick(std::vector<int>{3, 8, 20, 60, 150});
  if (p.cfg["ks"] == 1 && keys > 100) {keys = 100;}
  bool big = r.chance(1, th ? 20 : 40);
  if (big) {
    p.cfg["cap"] = r.chance(1, 2) ? r.range(1, 300) : (int64_t)1 << r.range(5, 11);
    p.cfg["hash"] = r.pick(std::vector<int>{0, 0, 0, 5, 6});
    p.cfg["ks"] = r.pick(std::vector<int>{2, 4, 8});
    p.cfg["ds"] = r.pick(std::vector<int>{1, 4, 8});
    keys = 3000;
  }
  if (r.chance(1, 1000)) {              // more entries than 16 bits can count, or more in one bucket than 8 bits can
    bool one = r.chance(2, 3);
    p.cfg["wide"] = 1;
    p.cfg["str"] = 0;
    p.cfg["cap"] = one ? r.range(1, 64) : r.chance(1, 3) ? (int64_t)wide_len(r) : r.range(1, 300);
    p.cfg["hash"] = one ? r.range(1, 5) : 0;
    p.cfg["ks"] = r.pick(std::vector<int>{3, 4, 8});
    p.cfg["ds"] = r.pick(std::vector<int>{1, 4, 8});
    int64_t n = one ? r.range(260, 600) : (int64_t)wide_len(r);
    p.ops.push_back(mkop(0, SETN, {0, (int64_t)r.below(1u << 30), n}));
    for (int i = 0, k = (int)r.range(0, 4); i < k; ++i) {
      int64_t at = (int64_t)r.below((uint64_t)n);
      p.ops.push_back(r.chance(1, 4) ? mkop(0, UNSETN, {at, 0, r.range(1, 300)}) : r.chance(1, 3) ? mkop(0, UNSET, {at}) :
        r.chance(1, 2) ? mkop(0, GET, {at}) : mkop(0, SET, {at, (int64_t)r.below(1u << 30)}));
      gen_faults(r, p.ops.back(), {F_ALLOC}, frate, 10);
    }
    return;
  }
  unsigned ws = 2 + (unsigned)r.below(8), wu = (unsigned)r.below(5);
  int n = (int)r.range(1, th ? 250 : r.chance(1, 5) ? 180 : 50);
  for (int i = 0; i < n; ++i) {
    unsigned x = (unsigned)r.below(ws + wu + 7);
    int64_t k = (int64_t)r.below((uint64_t)keys);
    Op o;
    if (big && r.chance(1, 4)) {
      o = mkop(0, r.chance(2, 3) ? SETN : UNSETN, {k, (int64_t)r.below(1u << 30), r.range(1, r.chance(1, 4) ? 1500 : 200)});
    }
    else if (x < ws) {o = mkop(0, SET, {k, (int64_t)r.below(1u << 30)});}
    else if (x < ws + wu) {o = mkop(0, UNSET, {k});}
    else if (x < ws + wu + 2) {o = mkop(0, GET, {k});}
    else if (x < ws + wu + 3) {o = mkop(0, EXISTS, {k});}
    else if (x < ws + wu + 4) {o = mkop(0, ITER);}
    else if (x < ws + wu + 5) {o = mkop(0, ITERFROM, {k});}
    else if (x < ws + wu + 6) {o = mkop(0, SIZE);}
    else if (r.chance(1, 30)) {   // as many buckets as no memory can hold: their size in bytes may wrap around
      o = mkop(0, REINIT, {r.chance(1, 2) ? huge_len(r, 24) : (int64_t)(SIZE_MAX / r.pick(std::vector<size_t>{1, 2, 4, 8, 16, 24, 32, 48, 64, 72, 128}) - 2 + r.below(5))});
    } else {o = r.chance(1, 6) ? mkop(0, REINIT, {r.range(1, 20)}) : mkop(0, NULLS, {(int64_t)r.below(16)});}
    gen_faults(r, o, {F_ALLOC}, frate, 10);
    p.ops.push_back(o);
  }
}
void exec(const Plan & p)
{
  run_single(p, [&]() {
    bool str = p.C("str");
    g_ks = str ? sizeof(char *) : (size_t)std::max<int64_t>(1, p.C("ks", 4));
    g_hashmode = (size_t)p.C("hash");
    size_t ds = (size_t)std::max<int64_t>(1, p.C("ds", 4));
    rcutils_hash_map_t h = rcutils_get_zero_initialized_hash_map();
    std::map<std::string, std::string> m;
    std::map<int64_t, char *> strs;           // string keys live in guarded memory
    std::map<int64_t, char *> strs2;          // equal text, other address
    bool live = false;
    bool flip = false;
    auto key = [&](int64_t v) -> std::string {
        if (!str) {return key_of(v, false);}
        flip = !flip;
        auto & s = flip ? strs[v] : strs2[v];
        if (!s) {
          std::string t = std::string((size_t)(v % 7), (char)('a' + v % 3)) + std::to_string(v);
          if (v == 0) {t = "";}
          s = guarded_keep(t.size() + 1);
          memcpy(s, t.c_str(), t.size() + 1);
          seal(s, t.size() + 1);
        }
        return std::string((const char *)&s, sizeof s);
      };
    auto norm = [&](const std::string & k) -> std::string {   // model key
        if (!str) {return k;}
        char * s;
        memcpy(&s, k.data(), sizeof s);
        return std::string(s);
      };
    auto init = [&](size_t cap) {
        rcutils_ret_t ret = rcutils_hash_map_init(&h, cap, g_ks, ds,
            str ? rcutils_hash_map_string_hash_func : hasher,
            str ? rcutils_hash_map_string_cmp_func : cmp, allocp(1));
        bool huge = cap > (size_t)1 << 24;
        CHECK(ret == RCUTILS_RET_OK || fired() || huge, "spurious-failure", "init failed with %d though nothing failed", ret);
        CHECK(ret != RCUTILS_RET_OK || !huge, "impossible-capacity", "init with room for %zu buckets succeeded", cap);
        if (huge) {probe("impossible-capacity");}
        if (ret == RCUTILS_RET_OK) {
          live = true;
          m.clear();
          size_t c = 0;
          CHECK(rcutils_hash_map_get_capacity(&h, &c) == RCUTILS_RET_OK && c >= cap, "capacity",
            "capacity %zu after init with %zu", c, cap);
        } else {
          CHECK(ret == RCUTILS_RET_BAD_ALLOC, "code", "init without memory returned %d", ret);
          CHECK(h.impl == nullptr && live_blocks(1) == 0, "init", "failed init kept something");
        }
      };
    auto iterate = [&](const char * w) {
        std::set<std::string> seen;
        std::string k(g_ks, 'k'), v(ds, 'v'), prev;
        rcutils_ret_t ret = rcutils_hash_map_get_next_key_and_data(&h, nullptr, &k[0], &v[0]);
        size_t n = 0;
        while (ret == RCUTILS_RET_OK) {
          op_step();
          std::string mk = norm(k);
          CHECK(seen.insert(mk).second, "iterate-twice", "%s: iteration gave an entry twice", w);
          auto it = m.find(mk);
          CHECK(it != m.end(), "iterate-ghost", "%s: iteration gave a key that is not in the map", w);
          CHECK(it->second == v, "iterate-value", "%s: iteration gave a wrong value", w);
          CHECK(++n <= m.size(), "iterate-twice", "%s: iteration does not end", w);
          prev = k;
          // the place for the next key may be where the previous one is
          ret = rcutils_hash_map_get_next_key_and_data(&h, n & 1 ? k.data() : prev.data(), &k[0], &v[0]);
        }
        CHECK(ret == RCUTILS_RET_HASH_MAP_NO_MORE_ENTRIES, "iterate-code", "%s: iteration ended with %d", w, ret);
        CHECK(n == m.size(), "iterate-missing", "%s: iteration gave %zu of %zu entries", w, n, m.size());
      };
    auto verify = [&](const char * w) {
        Oracle q;
        if (!live) {return;}
        size_t n = 0, c = 0;
        CHECK(rcutils_hash_map_get_size(&h, &n) == RCUTILS_RET_OK && n == m.size(), "model-size",
          "after %s: size %zu, expected %zu", w, n, m.size());
        CHECK(rcutils_hash_map_get_capacity(&h, &c) == RCUTILS_RET_OK && c >= 1, "capacity", "after %s", w);
        iterate(w);
      };
    Op first;
    begin_op(first, "init");
    init((size_t)std::max<int64_t>(1, p.C("cap", 1)));
    end_op();
    int step = 0;
    bool anyf = false, big = false;
    for (auto & o : p.ops) {
      begin_op(o, names[o.code]);
      rcutils_reset_error();
      rcutils_ret_t ret = 0;
      uint64_t mark = alloc_mark();
      (void)mark;
      if (o.code == REINIT) {
        if (live) {
          ret = rcutils_hash_map_fini(&h);
          CHECK(ret == RCUTILS_RET_OK && h.impl == nullptr, "fini", "fini returned %d", ret);
          CHECK(live_blocks(1) == 0, "leak", "fini left %zu blocks", live_blocks(1));
          live = false;
        }
        init((size_t)std::max<int64_t>(1, o.A(0)));
      } else if (!live) {
        std::string k = key(0), v(ds, 'z');
        ret = rcutils_hash_map_set(&h, k.data(), v.data());
        CHECK(ret != RCUTILS_RET_OK, "uninit", "set on an uninitialised map succeeded");
      } else if (o.code == SET) {
        std::string k = key(o.A(0)), v(ds, '\0');
        Rng vr((uint64_t)o.A(1));
        for (auto & c : v) {c = (char)vr.next();}
        bool had = m.count(norm(k)) > 0;
        size_t cap0 = 0, cap1 = 0;
        {Oracle q; (void)!rcutils_hash_map_get_capacity(&h, &cap0);}
        ret = rcutils_hash_map_set(&h, k.data(), v.data());
        int f = fired();
        CHECK(ret == RCUTILS_RET_OK || f, "spurious-failure", "set failed with %d though nothing failed", ret);
        if (ret == RCUTILS_RET_OK) {
          m[norm(k)] = v;
          {Oracle q; (void)!rcutils_hash_map_get_capacity(&h, &cap1);}
          if (cap1 > cap0) {probe("grew");}
          if (f && cap1 == cap0) {probe("grow-failed");}
        } else {
          probe("set-failed");
          CHECK(ret == RCUTILS_RET_BAD_ALLOC, "code", "set without memory returned %d", ret);
          if (had) {probe("update-failed");}
          verify("failed set");
          NoFaults nf;
          rcutils_reset_error();
          ret = rcutils_hash_map_set(&h, k.data(), v.data());
          CHECK(ret == RCUTILS_RET_OK, "no-recovery", "set still fails (%d) once memory is available", ret);
          m[norm(k)] = v;
        }
      } else if (o.code == SETN) {
        for (int64_t i = 0, lim = p.C("wide") ? 70000 : 3000; i < o.A(2) % lim; ++i) {
          op_step();
          std::string k = key((o.A(0) + i) % lim), v(ds, '\0');
          Rng vr((uint64_t)(o.A(1) + i));
          for (auto & c : v) {c = (char)vr.next();}
          int before = fired();
          ret = rcutils_hash_map_set(&h, k.data(), v.data());
          if (ret == RCUTILS_RET_OK) {m[norm(k)] = v; continue;}
          CHECK(fired() > before, "spurious-failure", "set failed with %d though nothing failed", ret);
          probe("set-failed");
        }
        if (m.size() > 200) {probe("large-map");}
        if (m.size() > 65536) {probe("map-past-16-bits");}
        big = true;
        verify("set-many");
      } else if (o.code == UNSETN) {
        for (int64_t i = 0, lim = p.C("wide") ? 70000 : 3000; i < o.A(2) % lim; ++i) {
          op_step();
          std::string k = key((o.A(0) + i) % lim);
          ret = rcutils_hash_map_unset(&h, k.data());
          CHECK(ret == RCUTILS_RET_OK, "unset", "unset returned %d", ret);
          m.erase(norm(k));
        }
        big = true;
        verify("unset-many");
      } else if (o.code == UNSET) {
        std::string k = key(o.A(0));
        ret = rcutils_hash_map_unset(&h, k.data());
        CHECK(ret == RCUTILS_RET_OK, "unset", "unset returned %d", ret);
        m.erase(norm(k));
      } else if (o.code == GET) {
        std::string k = key(o.A(0)), v(ds, 'v');
        ret = rcutils_hash_map_get(&h, k.data(), &v[0]);
        auto it = m.find(norm(k));
        if (it == m.end()) {CHECK(ret == RCUTILS_RET_NOT_FOUND, "get-code", "get of an absent key returned %d", ret);}
        else {
          CHECK(ret == RCUTILS_RET_OK, "get-code", "get of a present key returned %d", ret);
          CHECK(v == it->second, "get-value", "get gave a wrong value");
        }
      } else if (o.code == EXISTS) {
        std::string k = key(o.A(0));
        ErrorKept kept(event_seq() & 1);
        bool b = rcutils_hash_map_key_exists(&h, k.data());
        kept.check("asking for a key");
        CHECK(b == (m.count(norm(k)) > 0), "exists", "key_exists gave %d", b);
      } else if (o.code == ITER) {
        iterate("iterate");
      } else if (o.code == ITERFROM) {
        std::string k = key(o.A(0)), k2(g_ks, 'k'), v(ds, 'v');
        ret = rcutils_hash_map_get_next_key_and_data(&h, k.data(), &k2[0], &v[0]);
        if (!m.count(norm(k))) {CHECK(ret == RCUTILS_RET_NOT_FOUND, "iterate-code", "iteration from an absent key: %d", ret);}
        else {CHECK(ret == RCUTILS_RET_OK || ret == RCUTILS_RET_HASH_MAP_NO_MORE_ENTRIES, "iterate-code", "from a key: %d", ret);}
      } else if (o.code == SIZE) {
        size_t n = 0;
        ret = rcutils_hash_map_get_size(&h, &n);
        CHECK(ret == RCUTILS_RET_OK && n == m.size(), "model-size", "size %zu expected %zu", n, m.size());
      } else {
        std::string k = key(1), v(ds, 'v');
        size_t n;
        rcutils_hash_map_t z = rcutils_get_zero_initialized_hash_map();
        switch (umod(o.A(0), 8)) {
          case 0: ret = rcutils_hash_map_set(&h, nullptr, v.data()); break;
          case 1: ret = rcutils_hash_map_set(&h, k.data(), nullptr); break;
          case 2: ret = rcutils_hash_map_get(nullptr, k.data(), &v[0]); break;
          case 3: ret = rcutils_hash_map_unset(&z, k.data()); break;
          case 4: ret = rcutils_hash_map_get_size(&z, &n); break;
          case 5: ret = rcutils_hash_map_init(&z, 0, g_ks, ds, hasher, cmp, allocp(1)); break;
          case 6: ret = rcutils_hash_map_get_next_key_and_data(&h, nullptr, nullptr, &v[0]); break;
          default: ret = rcutils_hash_map_key_exists(&h, nullptr) ? RCUTILS_RET_OK : RCUTILS_RET_ERROR; break;
        }
        CHECK(ret != RCUTILS_RET_OK, "invalid-argument", "invalid call %zu accepted", umod(o.A(0), 8));
        CHECK(z.impl == nullptr, "invalid-argument", "rejected init left an object");
      }
      anyf |= fired() > 0;
      end_op("%d", ret);
      CHECK(anyf || blocks_since(HEAP, 0) == 0, "default-heap", "%s of a map with its own allocator used the default heap", names[o.code]);
      if (++step % 4 == 0 || m.size() < 20 || (o.code == SET && m.size() < 200)) {verify(names[o.code]);}
    }
    {
      // every key ever used is looked up once more
      Oracle q;
      if (live) {
        std::string v(ds, 'v');
        for (int64_t k = 0; k < (big ? 3000 : 150); ++k) {
          std::string kk = key(k);
          auto it = m.find(norm(kk));
          rcutils_ret_t r = rcutils_hash_map_get(&h, kk.data(), &v[0]);
          CHECK(it == m.end() ? r == RCUTILS_RET_NOT_FOUND : (r == RCUTILS_RET_OK && v == it->second), "get-final",
            "final lookup of key %lld: %d", (long long)k, r);
        }
      }
    }
    if (live) {
      rcutils_ret_t r = rcutils_hash_map_fini(&h);
      CHECK(r == RCUTILS_RET_OK && h.impl == nullptr, "fini", "final fini returned %d", r);
    }
    finish_run("hash map");
  });
}
const Workload W{"C01", names, NOPS, gen, exec};
Reg reg(&W);
}
