// C02: string maps against dictionaries.
#include "wl.h"
extern "C" {
#include "rcutils/types/string_map.h"
}
using namespace sim;
namespace {
enum { SET, SETNR, UNSET, GET, GETN, RESERVE, CLEAR, ITER, COPY, ALIAS, REINIT, NULLS, SETN, NOPS };
const char * const names[] = {"set", "set_no_resize", "unset", "get", "getn", "reserve", "clear", "iterate", "copy",
  "set-alias", "reinit", "nulls", "set-many"};

std::string gkey(Rng & r, int fam)
{
  static const char * fixed[] = {"", "a", "ab", "abc", "abcd", "abcde", "b", "ba", "B", "key", "key1", "key10", "key11", "k"};
  if (r.chance(1, 8000)) {return std::string(wide_len(r), 'w') + std::to_string(r.below(2));}
  if (r.chance(1, 60)) {return std::string("long") + gen_long(r, 300, "/").substr(0, 8 * (1 + r.below(40)));}
  if (fam == 0) {return fixed[r.below(14)];}
  if (fam == 1) {return "k" + std::to_string(r.below(6));}
  if (fam == 2) {return "node/param_" + std::to_string(r.below(40));}
  return gen_text(r, 5, "ab/\xc3=");
}
void gen(Rng & r, Plan & p, bool th)
{
  p.cfg["cap0"] = r.pick(std::vector<int>{0, 0, 1, 2, 3, 8, 20});
  p.cfg["cap1"] = r.pick(std::vector<int>{0, 1, 4});
  p.cfg["zero_null"] = r.chance(1, 6);
  int fam = (int)r.below(4);
  unsigned frate = (unsigned)r.pick(std::vector<int>{0, 0, 1, 2, 5});
  unsigned w[NOPS];
  for (auto & x : w) {x = 1 + (unsigned)r.below(5);}
  w[SET] += 4;
  w[CLEAR] = r.chance(1, 3);
  w[REINIT] = r.chance(1, 3);
  w[COPY] = (unsigned)r.below(3);
  w[NULLS] = 1;
  bool big = r.chance(1, th ? 25 : 50);
  w[SETN] = big ? 3 : 0;
  unsigned tot = 0;
  for (auto x : w) {tot += x;}
  int n = (int)r.range(1, th ? 160 : 60);
  int64_t uniq = 0;
  bool two = r.chance(1, 2);
  for (int i = 0; i < n; ++i) {
    unsigned x = (unsigned)r.below(tot);
    int c = 0;
    while (x >= w[c]) {x -= w[c++];}
    int64_t which = two ? (int64_t)r.below(2) : 0;
    Op o;
    switch (c) {
      case SET: case SETNR:
        o = mkop(0, c, {which, ++uniq, (int64_t)(r.chance(1, 30) ? (r.chance(1, 200) ? wide_len(r) : edge_len(r, 2100)) : r.below(20))}, {gkey(r, fam)}); break;
      case UNSET: case GET: o = mkop(0, c, {which}, {gkey(r, fam)}); break;
      case GETN: {
          std::string k = gkey(r, fam);
          std::string t = k + (r.chance(1, 2) ? gen_text(r, 4, "abcd1") : "");
          o = mkop(0, c, {which, (int64_t)r.below(t.size() + 1), (int64_t)r.chance(1, 2)}, {t});
          break;
        }
      case RESERVE:
        o = mkop(0, c, {which, r.chance(1, 12) ? r.pick(std::vector<int64_t>{-1, -2, (int64_t)(SIZE_MAX / 16), (int64_t)(SIZE_MAX / 16 + 1), INT64_MAX, huge_len(r, 16), huge_len(r, 16)}) :
              r.chance(1, 2500) ? (int64_t)wide_len(r) :
              r.chance(1, 2) ? (int64_t)r.below(6) : (int64_t)r.below(30)});
        break;
      case SETN: o = mkop(0, c, {which, ++uniq, r.range(1, 150)}); uniq += 150; break;
      case REINIT: o = mkop(0, c, {which, (int64_t)r.below(6)}); break;
      case NULLS: o = mkop(0, c, {which, (int64_t)r.below(16)}); break;
      case ALIAS: o = mkop(0, c, {which, (int64_t)r.below(10), (int64_t)r.below(3)}); break;
      default: o = mkop(0, c, {which, (int64_t)r.below(2)}); break;
    }
    gen_faults(r, o, {F_ALLOC}, frate, 10);
    p.ops.push_back(o);
  }
}
typedef std::map<std::string, std::string> M;
struct T {
  rcutils_string_map_t sm = rcutils_get_zero_initialized_string_map();
  M m;
  bool live = false;
  size_t cap = 0;
  std::map<std::string, const char *> held;   // value pointers given out: valid until their own pair is updated or removed
};
void exec(const Plan & p)
{
  run_single(p, [&]() {
    g_zero_null = p.C("zero_null");
    T t[2];
    auto capacity = [&](T & x) {
        size_t c = 0;
        CHECK(rcutils_string_map_get_capacity(&x.sm, &c) == RCUTILS_RET_OK, "capacity", "get_capacity failed");
        return c;
      };
    auto read_all = [&](T & x, const char * w) {
        M got;
        const char * prev = nullptr;
        size_t n = 0;
        while (true) {
          const char * k = rcutils_string_map_get_next_key(&x.sm, prev);
          if (!k) {break;}
          CHECK(got.count(k) == 0, "iterate-twice", "after %s: key '%s' visited twice", w, k);
          const char * v = rcutils_string_map_get(&x.sm, k);
          CHECK(v != nullptr, "iterate-ghost", "after %s: key '%s' visited but has no value", w, k);
          got[k] = v;
          prev = k;
          CHECK(++n < 100000, "iterate-forever", "iteration does not end");
        }
        return got;
      };
    auto verify = [&](T & x, const char * w) {
        Oracle q;
        if (!x.live) {return;}
        size_t n = 999, c = capacity(x);
        CHECK(rcutils_string_map_get_size(&x.sm, &n) == RCUTILS_RET_OK && n == x.m.size(), "model-size",
          "after %s: size %zu, expected %zu", w, n, x.m.size());
        CHECK(c >= n, "capacity", "after %s: capacity %zu below size %zu", w, c, n);
        M got = read_all(x, w);
        CHECK(got == x.m, "model-content", "after %s: iteration gives %zu pairs that differ from the expected %zu", w, got.size(),
          x.m.size());
        for (auto & kv : x.m) {
          const char * v = rcutils_string_map_get(&x.sm, kv.first.c_str());
          CHECK(v && kv.second == v, "model-lookup", "after %s: lookup of '%s' gives '%s', expected '%s'", w, kv.first.c_str(),
            v ? v : "(null)", kv.second.c_str());
          CHECK(rcutils_string_map_key_exists(&x.sm, kv.first.c_str()), "model-lookup", "after %s: '%s' not found", w,
            kv.first.c_str());
          auto h = x.held.find(kv.first);
          CHECK(h == x.held.end() || kv.second == h->second, "value-pointer", "after %s: the value of '%s' that a caller holds became '%.60s'", w,
            kv.first.c_str(), h->second);
          x.held[kv.first] = v;
        }
        x.cap = c;
      };
    auto init = [&](int i, size_t cap) {
        T & x = t[i];
        rcutils_ret_t ret = rcutils_string_map_init(&x.sm, cap, allocator(i + 1));
        CHECK(ret == RCUTILS_RET_OK || fired(), "spurious-failure", "init failed with %d though nothing failed", ret);
        if (ret == RCUTILS_RET_OK) {
          x.live = true;
          x.m.clear();
          x.held.clear();
          CHECK(capacity(x) >= cap, "capacity", "capacity %zu after init with %zu", capacity(x), cap);
        } else {
          CHECK(ret == RCUTILS_RET_BAD_ALLOC, "code", "init without memory returned %d", ret);
          CHECK(x.sm.impl == nullptr && live_blocks(i + 1) == 0, "init", "failed init kept something");
        }
        return ret;
      };
    Op first;
    begin_op(first, "init");
    init(0, (size_t)p.C("cap0"));
    init(1, (size_t)p.C("cap1"));
    verify(t[0], "init");
    verify(t[1], "init");
    end_op();
    for (auto & o : p.ops) {
      begin_op(o, names[o.code]);
      rcutils_reset_error();
      int wi = (int)umod(o.A(0), 2);
      T & x = t[wi];
      rcutils_ret_t ret = 0;
      const std::string & k = o.S(0);
      auto after_failure = [&]() {
          CHECK(fired(), "spurious-failure", "%s failed with %d though nothing failed", names[o.code], ret);
          CHECK(ret == RCUTILS_RET_BAD_ALLOC, "code", "%s without memory returned %d", names[o.code], ret);
          probe("failed-operation");
        };
      if (o.code == REINIT) {
        if (x.live) {
          ret = rcutils_string_map_fini(&x.sm);
          CHECK(ret == RCUTILS_RET_OK, "fini", "fini returned %d", ret);
          CHECK(x.sm.impl == nullptr && live_blocks(wi + 1) == 0, "fini", "fini kept %zu blocks", live_blocks(wi + 1));
          x.live = false;
        }
        ret = init(wi, (size_t)o.A(1));
      } else if (!x.live) {
        ret = rcutils_string_map_set(&x.sm, "a", "b");
        CHECK(ret == RCUTILS_RET_STRING_MAP_INVALID, "uninit", "set on an uninitialised map returned %d", ret);
        CHECK(rcutils_string_map_get(&x.sm, "a") == nullptr && !rcutils_string_map_key_exists(&x.sm, "a") &&
          rcutils_string_map_get_next_key(&x.sm, nullptr) == nullptr, "uninit", "an uninitialised map has content");
      } else if (o.code == SET || o.code == SETNR) {
        std::string v = std::string((size_t)o.A(2), 'v') + std::to_string(o.A(1));
        bool exists = x.m.count(k) != 0;
        size_t c0;
        {Oracle q; c0 = capacity(x);}
        bool full = x.m.size() == c0;
        auto call = [&]() {
            return o.code == SET ? rcutils_string_map_set(&x.sm, guarded_str(k), guarded_str(v)) :
                   rcutils_string_map_set_no_resize(&x.sm, guarded_str(k), guarded_str(v));
          };
        ret = call();
        if (ret == RCUTILS_RET_OK) {x.held.erase(k);}
        if (o.code == SETNR) {
          Oracle q;
          CHECK(capacity(x) == c0, "capacity", "set_no_resize changed the capacity");
          if (full) {
            probe("set_no_resize-when-full");
            CHECK(exists || ret == RCUTILS_RET_NOT_ENOUGH_SPACE, "not-enough-space", "new key into a full map returned %d", ret);
          }
          CHECK(ret != RCUTILS_RET_NOT_ENOUGH_SPACE || (full && !exists), "not-enough-space", "reported a full map wrongly");
        }
        if (o.code == SET) {
          Oracle q;
          size_t c1 = capacity(x);
          if (exists || !full) {
            CHECK(c1 == c0, "capacity", "set of %s key into a map with %s changed the capacity from %zu to %zu",
              exists ? "an existing" : "a new", full ? "no room" : "room", c0, c1);
          } else if (ret == RCUTILS_RET_OK) {CHECK(c1 > c0, "capacity", "a new key fitted into a full map");}
          if (exists && full && fired()) {probe("update-of-full-map-with-fault");}
        }
        if (ret == RCUTILS_RET_OK) {x.m[k] = v;} else if (!(o.code == SETNR && ret == RCUTILS_RET_NOT_ENOUGH_SPACE)) {
          after_failure();
          verify(x, "failed set");
          NoFaults nf;
          ret = call();
          x.held.erase(k);
          CHECK(ret == RCUTILS_RET_OK, "no-recovery", "%s still fails (%d) once memory is available", names[o.code], ret);
          x.m[k] = v;
        }
      } else if (o.code == SETN) {
        for (int64_t i = 0; i < o.A(2) % 1000; ++i) {
          std::string kk = "m" + std::to_string((o.A(1) + i) % 400), v = std::to_string(o.A(1) + i);
          int before = fired();
          ret = rcutils_string_map_set(&x.sm, guarded_str(kk), guarded_str(v));
          if (ret == RCUTILS_RET_OK) {x.m[kk] = v; x.held.erase(kk); continue;}
          CHECK(fired() > before, "spurious-failure", "set failed with %d though nothing failed", ret);
          probe("failed-operation");
        }
        if (x.m.size() > 100) {probe("large-map");}
      } else if (o.code == UNSET) {
        ret = rcutils_string_map_unset(&x.sm, guarded_str(k));
        CHECK(ret == (x.m.count(k) ? RCUTILS_RET_OK : RCUTILS_RET_STRING_KEY_NOT_FOUND), "unset", "unset of %s key returned %d",
          x.m.count(k) ? "a present" : "an absent", ret);
        if (ret == RCUTILS_RET_OK) {
          x.m.erase(k);
          x.held.erase(k);
          if (x.m.size() && x.cap > x.m.size()) {probe("hole-left-by-unset");}
        }
      } else if (o.code == GET) {
        ErrorKept kept(event_seq() & 1);
        const char * v = rcutils_string_map_get(&x.sm, guarded_str(k));
        bool e = rcutils_string_map_key_exists(&x.sm, guarded_str(k));
        kept.check("looking a key up");
        auto it = x.m.find(k);
        CHECK(e == (it != x.m.end()), "model-lookup", "key_exists('%s') gave %d", k.c_str(), e);
        CHECK(it == x.m.end() ? v == nullptr : v && it->second == v, "model-lookup", "get('%s') gave '%s'", k.c_str(), v ? v : "(null)");
      } else if (o.code == GETN) {
        size_t n = std::min<size_t>((size_t)o.A(1), k.size());
        // the key need not be terminated: either more text follows, or nothing at all
        char * b = guarded(o.A(2) ? n : k.size());
        memcpy(b, k.data(), o.A(2) ? n : k.size());
        seal(b, o.A(2) ? n : k.size());
        ErrorKept kept(event_seq() & 1);
        const char * v = rcutils_string_map_getn(&x.sm, b, n);
        bool e = rcutils_string_map_key_existsn(&x.sm, b, n);
        kept.check("looking the start of a text up");
        auto it = x.m.find(k.substr(0, n));
        CHECK(e == (it != x.m.end()), "model-lookupn", "key_existsn('%s', %zu) gave %d", k.c_str(), n, e);
        CHECK(it == x.m.end() ? v == nullptr : v && it->second == v, "model-lookupn", "getn('%s', %zu) gave '%s'", k.c_str(), n,
          v ? v : "(null)");
      } else if (o.code == RESERVE) {
        size_t c = (size_t)o.A(1), c0;
        {Oracle q; c0 = capacity(x);}
        ret = rcutils_string_map_reserve(&x.sm, c);
        bool huge = c > (1u << 24);
        Oracle q;
        if (ret == RCUTILS_RET_OK) {
          CHECK(!huge && capacity(x) >= c, "capacity", "capacity %zu after reserving %zu", capacity(x), c);
          if (c < c0 && capacity(x) < c0) {probe("shrunk");}
        } else {
          CHECK(ret == RCUTILS_RET_BAD_ALLOC, "code", "reserve without memory returned %d", ret);
          CHECK(fired() || huge, "spurious-failure", "reserve failed with %d though nothing failed", ret);
          CHECK(capacity(x) == c0, "capacity", "failed reserve changed the capacity from %zu to %zu", c0, capacity(x));
          probe("reserve-failed");
          if (!huge) {
            verify(x, "failed reserve");
            CHECK(rcutils_string_map_reserve(&x.sm, c) == RCUTILS_RET_OK, "no-recovery", "reserve still fails");
          }
        }
      } else if (o.code == CLEAR) {
        x.held.clear();
        ret = rcutils_string_map_clear(&x.sm);
        CHECK(ret == RCUTILS_RET_OK, "clear", "clear returned %d", ret);
        x.m.clear();
      } else if (o.code == ITER) {
        M got = read_all(x, "iterate");
        CHECK(got == x.m, "model-content", "iteration gives %zu pairs, expected %zu", got.size(), x.m.size());
        char other[8] = "nokey";
        CHECK(rcutils_string_map_get_next_key(&x.sm, other) == nullptr, "iterate-ghost", "next key of a foreign pointer");
      } else if (o.code == ALIAS) {
        // arguments that point into the map itself
        if (!x.m.empty()) {
          auto it = x.m.begin();
          std::advance(it, (long)umod(o.A(1), x.m.size()));
          std::string key = it->first, val = it->second;
          const char * kp = nullptr;
          {
            Oracle q;
            while ((kp = rcutils_string_map_get_next_key(&x.sm, kp)) && key != kp) {}
          }
          const char * vp = rcutils_string_map_get(&x.sm, key.c_str());
          CHECK(kp && vp, "model-lookup", "'%s' not found", key.c_str());
          x.held.erase(o.A(2) == 1 ? val : key);
          if (o.A(2) == 0) {
            ret = rcutils_string_map_set(&x.sm, kp, vp);
          } else if (o.A(2) == 1) {
            ret = rcutils_string_map_set(&x.sm, val.c_str(), kp);
            if (ret == RCUTILS_RET_OK) {x.m[val] = key;}
          } else {
            ret = rcutils_string_map_unset(&x.sm, kp);
            CHECK(ret == RCUTILS_RET_OK, "unset", "unset of a present key returned %d", ret);
            x.m.erase(key);
          }
          if (ret != RCUTILS_RET_OK) {after_failure();}
        }
      } else if (o.code == COPY) {
        T & d = t[umod(o.A(1), 2)];
        if (!d.live) {
          ret = rcutils_string_map_copy(&x.sm, &d.sm);
          CHECK(ret == RCUTILS_RET_STRING_MAP_INVALID, "uninit", "copy into an uninitialised map returned %d", ret);
        } else {
          M old = d.m;
          for (auto & kv : x.m) {d.held.erase(kv.first);}
          ret = rcutils_string_map_copy(&x.sm, &d.sm);
          if (ret == RCUTILS_RET_OK) {for (auto & kv : M(x.m)) {d.m[kv.first] = kv.second;}} else {
            after_failure();
            probe("copy-failed");
            {
              Oracle q;
              M got = read_all(d, "failed copy");
              for (auto & kv : got) {
                bool o1 = old.count(kv.first) && old[kv.first] == kv.second;
                bool o2 = x.m.count(kv.first) && x.m[kv.first] == kv.second;
                CHECK(o1 || o2, "copy-partial", "failed copy left '%s'='%s', in neither map", kv.first.c_str(), kv.second.c_str());
              }
              for (auto & kv : old) {CHECK(got.count(kv.first), "copy-partial", "failed copy lost '%s'", kv.first.c_str());}
              d.m = got;
            }
            NoFaults nf;
            ret = rcutils_string_map_copy(&x.sm, &d.sm);
            CHECK(ret == RCUTILS_RET_OK, "no-recovery", "copy still fails (%d)", ret);
            for (auto & kv : M(x.m)) {d.m[kv.first] = kv.second;}
          }
          verify(d, "copy");
        }
      } else if (o.code == NULLS) {
        size_t n;
        switch (umod(o.A(1), 8)) {
          case 0: ret = rcutils_string_map_set(&x.sm, nullptr, "x"); break;
          case 1: ret = rcutils_string_map_set(&x.sm, "x", nullptr); break;
          case 2: ret = rcutils_string_map_set_no_resize(&x.sm, "x", nullptr); break;
          case 3: ret = rcutils_string_map_unset(&x.sm, nullptr); break;
          case 4: ret = rcutils_string_map_init(&x.sm, 1, allocator(wi + 1));
            CHECK(ret == RCUTILS_RET_STRING_MAP_ALREADY_INIT, "invalid-argument", "second init returned %d", ret);
            break;
          case 5: ret = rcutils_string_map_get_size(&x.sm, nullptr); break;
          case 6: ret = rcutils_string_map_get_capacity(nullptr, &n); break;
          default:
            CHECK(rcutils_string_map_get(&x.sm, nullptr) == nullptr && !rcutils_string_map_key_exists(nullptr, "a"),
            "invalid-argument", "NULL key or map accepted");
            ret = RCUTILS_RET_ERROR;
            break;
        }
        CHECK(ret != RCUTILS_RET_OK, "invalid-argument", "invalid call %zu accepted", umod(o.A(1), 8));
      }
      end_op("%d", ret);
      verify(t[0], names[o.code]);
      verify(t[1], names[o.code]);
      CHECK(blocks_since(HEAP, 0) == 0, "default-heap", "map used the default heap");
    }
    for (int i = 0; i < 2; ++i) {
      CHECK(rcutils_string_map_fini(&t[i].sm) == RCUTILS_RET_OK && !t[i].sm.impl, "fini", "final fini failed");
    }
    finish_run("string map");
  });
}
const Workload W{"C02", names, NOPS, gen, exec};
Reg reg(&W);
}
