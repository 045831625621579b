// C21: shared library handles.
#include "wl.h"
extern "C" {
#include "rcutils/shared_library.h"
}
using namespace sim;
namespace {
enum { LOAD, UNLOAD, GET, HAS, LOADED, PEND, NAME, NULLS, NOPS };
const char * const names[] = {"load_shared_library", "unload_shared_library", "get_symbol", "has_symbol", "is_shared_library_loaded", "w:pending-error",
  "get_platform_library_name", "null_arguments"};
const int SLOTS = 3;
const std::vector<std::string> libs{"liba.so", "/opt/lib/libb.so", "libc_.so", "", "libdup.so"};
const std::vector<std::string> syms{"f", "g", "only_a", "only_b", "null_value", "data", "", "no such", "of_the_program"};
void gen(Rng & r, Plan & p, bool th)
{
  int nt = (int)r.pick(std::vector<int>{1, 1, 1, 2, 3});
  p.cfg["threads"] = nt;
  p.cfg["dlclears"] = r.chance(1, 2);
  p.cfg["plen"] = r.chance(1, 300) ? (int64_t)wide_len(r) : r.chance(1, 2) ? 250 : (int64_t)edge_len(r, 1100);
  gen_schedule(r, p, nt, 500);
  unsigned fn = (unsigned)r.pick(std::vector<int>{0, 1, 2, 3});
  int n = (int)r.range(3, th ? 80 : 35);
  for (int i = 0; i < n; ++i) {
    int t = (int)r.below((uint64_t)nt);
    int64_t slot = (int64_t)r.below(SLOTS);
    Op o;
    switch (r.below(16)) {
      case 0: case 1: case 2: case 3:
        o = mkop(t, LOAD, {slot, (int64_t)r.range(1, 3)}, {r.chance(1, 8) ? "missing.so" : r.pick(libs)});
        gen_faults(r, o, {F_DLOPEN, F_DLINFO, F_ALLOC, F_DLCLOSE}, fn, 4);
        if (!o.f.empty() && r.chance(1, 4)) {Fault f; f.kind = F_DLCLOSE; f.nth = 1; o.f.push_back(f);}
        if (nt == 1 && r.chance(1, 25)) {Fault f; f.kind = F_FI; f.nth = (int)r.range(1, 4); o.f.push_back(f);}
        break;
      case 4: case 5: case 6:
        o = mkop(t, UNLOAD, {slot});
        gen_faults(r, o, {F_DLCLOSE}, fn, 8);
        break;
      case 7: case 8: case 9: case 10:
        o = mkop(t, GET, {slot}, {r.pick(syms)});
        gen_faults(r, o, {F_DLSYM, F_FMT}, fn, 6);
        break;
      case 11: case 12:
        o = mkop(t, HAS, {slot}, {r.pick(syms)});
        gen_faults(r, o, {F_DLSYM}, fn, 6);
        break;
      case 13: o = mkop(t, r.chance(1, 2) ? LOADED : PEND, {slot}); break;
      case 14:
        o = mkop(t, NAME, {r.chance(1, 3) ? (int64_t)r.below(60) : -1, (int64_t)r.below(6), (int64_t)r.below(2)}, {r.chance(1, 10) ? std::string(r.chance(1, 100) ? wide_len(r) : edge_len(r, 1100), 'x') : gen_text(r, 12, "ab/_%s.")});
        gen_faults(r, o, {F_FMT}, fn, 6);
        break;
      default: o = mkop(t, NULLS, {slot, (int64_t)r.below(14)}); break;
    }
    p.ops.push_back(o);
  }
}
struct Slot {
  rcutils_shared_library_t l;
  int lib = -1, id = 1;
};
int find(const std::string & n) {for (size_t i = 0; i < g_dl.libs.size(); ++i) {if (g_dl.libs[i].name == n || g_dl.libs[i].path == n) {return (int)i;}} return -1;}
void exec(const Plan & p)
{
  int nt = (int)p.C("threads", 1);
  run_single(p, [&] {
    g_dl.clears = p.C("dlclears");
    g_dl.libs.push_back({"liba.so", "/usr/lib/liba.so.1", {{"f", (void *)0xa1}, {"g", (void *)0xa2}, {"only_a", (void *)0xa3}, {"null_value", nullptr}, {"data", (void *)0xa4}}, 0, false});
    g_dl.libs.push_back({"libb.so", "/opt/lib/libb.so", {{"f", (void *)0xb1}, {"only_b", (void *)0xb2}, {"", (void *)0xb3}, {"data", (void *)0xb4}}, 0, false});
    g_dl.libs.push_back({"libc_.so", "relative/libc_.so", {{"g", (void *)0xc1}}, 0, false});
    g_dl.libs.push_back({"", "", {{"f", (void *)0xd1}}, 0, true});
    g_dl.libs.push_back({"libdup.so", std::string("/") + std::string((size_t)(p.C("plen", 250) % 100000), 'p') + "/libdup.so", {{"f", (void *)0xe1}, {"null_value", (void *)0xe2}}, 0, false});
  });
  std::vector<std::vector<Slot>> all((size_t)nt, std::vector<Slot>(SLOTS));
  std::vector<int> want(8, 0);           // handles each library must have open
  auto refs = [&](const char * where) {
      if (nt > 1) {return;}
      for (size_t i = 0; i < g_dl.libs.size(); ++i) {
        CHECK(g_dl.libs[i].refs == want[i], "handles", "%s: '%s' is open %d times, but %d loads are outstanding", where, g_dl.libs[i].name.c_str(), g_dl.libs[i].refs, want[i]);
      }
    };
  run_threads(p, nt, [&](int tid) {
    auto & sl = all[(size_t)tid];
    for (auto & s : sl) {s.l = rcutils_get_zero_initialized_shared_library();}
    auto id_of = [&](int k) {return 1 + tid * 2 + (k & 1);};
    for (auto & o : p.ops) {
      if (o.tid != tid) {continue;}
      {Quiet q; rcutils_reset_error();}
      begin_op(o, names[o.code]);
      Slot & s = sl[umod(o.A(0), SLOTS)];
      bool was = s.lib >= 0;
      auto loaded = [&] {Oracle q; return rcutils_is_shared_library_loaded(&s.l);};
      switch (o.code) {
        case LOAD: {
            int id = id_of((int)o.A(1));
            size_t l0 = live_blocks(id);
            int lib = find(o.S(0));
            rcutils_ret_t r = rcutils_load_shared_library(&s.l, guarded_str(o.S(0)), allocator(id));
            int f = fired(), fc = fired_kind(F_DLCLOSE), fi = fired_kind(F_FI);
            end_op("%d", r);
            fi_off();
            if (was) {
              CHECK(r == RCUTILS_RET_INVALID_ARGUMENT || fi, "loaded-again", "loading into a handle in use gave %d", r);
              break;
            }
            if (r == RCUTILS_RET_OK) {
              CHECK(lib >= 0, "missing-loaded", "loading '%s' succeeded", o.S(0).c_str());
              CHECK(!fired_kind(F_DLOPEN) && !fired_kind(F_ALLOC) && !fi, "unreported", "a failure while loading was not reported");
              CHECK(loaded(), "not-loaded", "loaded but is_loaded says no");
              CHECK(s.l.library_path && g_dl.libs[(size_t)lib].path == s.l.library_path, "path", "the handle's path is '%s'", s.l.library_path ? s.l.library_path : "(null)");
              int own = -1;
              CHECK(is_live(s.l.library_path, &own) && own == id, "path", "the path is not memory of the given allocator");
              s.lib = lib;
              s.id = id;
              want[(size_t)lib]++;
              probe("loaded");
            } else {
              CHECK(f || lib < 0, "spurious-failure", "loading '%s' gave %d", o.S(0).c_str(), r);
              CHECK(!loaded(), "half-loaded", "loading failed but the handle says loaded");
              CHECK(live_blocks(id) == l0, "leak", "a failed load kept %zu blocks", live_blocks(id) - l0);
              {Quiet q; if (!fi) {CHECK(rcutils_error_is_set(), "no-reason", "a failed load left no error message");}}
              if (fc && lib >= 0) {want[(size_t)lib] = g_dl.libs[(size_t)lib].refs; if (nt > 1) {want[7] = 1;}}      // the loader refused to close it
              probe(f ? "load-fault" : lib < 0 ? "load-missing" : "load-other");
            }
            refs("load");
            break;
          }
        case UNLOAD: {
            size_t l0 = live_blocks(s.id);
            rcutils_ret_t r = rcutils_unload_shared_library(&s.l);
            int f = fired();
            end_op("%d", r);
            if (!was) {
              CHECK(r == RCUTILS_RET_INVALID_ARGUMENT, "unload-unloaded", "unloading a handle that is not loaded gave %d", r);
              refs("unload");
              break;
            }
            if (f) {
              CHECK(r != RCUTILS_RET_OK, "unreported", "closing the library failed but unloading succeeded");
              {Quiet q; CHECK(rcutils_error_is_set(), "no-reason", "a failed unload left no error message");}
              if (loaded()) {probe("unload-failed-kept"); refs("unload"); break;}
              probe("unload-failed-dropped");
            } else {
              CHECK(r == RCUTILS_RET_OK, "spurious-failure", "unloading gave %d", r);
              want[(size_t)s.lib]--;
              probe("unloaded");
            }
            CHECK(!loaded() && s.l.lib_pointer == nullptr && s.l.library_path == nullptr, "still-loaded", "the handle still looks loaded after unloading");
            CHECK(live_blocks(s.id) + 1 == l0, "leak", "unloading released %zu blocks", l0 - live_blocks(s.id));
            s.lib = -1;
            refs("unload");
            break;
          }
        case GET: case HAS: {
            const char * sym = guarded_str(o.S(0));
            void * a = nullptr;
            bool h = false;
            if (o.code == GET) {a = rcutils_get_symbol(&s.l, sym);} else {h = rcutils_has_symbol(&s.l, sym);}
            int f = fired_kind(F_DLSYM);
            end_op("%p %d", a, h);
            void * w = nullptr;
            if (was) {auto & m = g_dl.libs[(size_t)s.lib].syms; auto i = m.find(o.S(0)); w = i == m.end() ? nullptr : i->second;}
            if (f) {w = nullptr; probe("lookup-fault");}
            if (o.code == GET) {
              CHECK(a == w, "wrong-symbol", "'%s' of '%s' gave %p, the loader has %p", o.S(0).c_str(), was ? g_dl.libs[(size_t)s.lib].name.c_str() : "(nothing)", a, w);
              Quiet q;
              if (!a && !fired_kind(F_FMT)) {CHECK(rcutils_error_is_set(), "no-reason", "a failed lookup left no error message");}
            } else {CHECK(h == (w != nullptr), "wrong-symbol", "has '%s' gave %d, the loader has %p", o.S(0).c_str(), h, w);}
            if (w) {probe("symbol-found");}
            break;
          }
        case LOADED: {
            bool r = rcutils_is_shared_library_loaded(&s.l);
            end_op("%d", r);
            CHECK(r == was, "is-loaded", "is_loaded gave %d", r);
            break;
          }
        case PEND: g_dl.pending[tid] = "an error of someone else's lookup"; probe("pending-error"); end_op(); break;
        case NAME: {
            std::string w = "lib" + o.S(0) + (o.A(2) ? "d.so" : ".so");
            size_t n = o.A(0) >= 0 ? (size_t)o.A(0) : w.size() + umod(o.A(1), 6) - 2;
            if (n > 80000) {n = 0;}
            char * b = guarded(n);
            memset(b, '#', n);
            rcutils_ret_t r = rcutils_get_platform_library_name(guarded_str(o.S(0)), b, (unsigned)n, o.A(2));
            int f = fired();
            end_op("%d", r);
            if (r == RCUTILS_RET_OK) {
              CHECK(n > w.size(), "name", "'%s' does not fit %zu bytes but the call succeeded", w.c_str(), n);
              CHECK(w == b, "name", "'%s' instead of '%s'", b, w.c_str());
            } else {CHECK(f || n <= w.size(), "name", "'%s' fits %zu bytes but the call gave %d", w.c_str(), n, r);}
            break;
          }
        case NULLS: {
            rcutils_shared_library_t z = rcutils_get_zero_initialized_shared_library();
            rcutils_allocator_t za = rcutils_get_zero_initialized_allocator();
            char b[64];
            bool bad = false;
            switch (umod(o.A(1), 11)) {
              case 0: bad = rcutils_load_shared_library(NULL, "liba.so", allocator(1)) == RCUTILS_RET_OK; break;
              case 1: bad = rcutils_load_shared_library(&z, NULL, allocator(1)) == RCUTILS_RET_OK; break;
              case 2: bad = rcutils_load_shared_library(&z, "liba.so", za) == RCUTILS_RET_OK; break;
              case 3: bad = rcutils_unload_shared_library(NULL) == RCUTILS_RET_OK; break;
              case 4: bad = rcutils_unload_shared_library(&z) == RCUTILS_RET_OK; break;
              case 5: bad = rcutils_get_symbol(NULL, "f") != NULL; break;
              case 6: bad = rcutils_get_symbol(&z, "f") != NULL; break;
              case 7: bad = rcutils_get_symbol(&s.l, NULL) != NULL; break;
              case 8: bad = rcutils_has_symbol(NULL, "f") || rcutils_has_symbol(&z, "f") || rcutils_has_symbol(&s.l, NULL); break;
              case 9: bad = rcutils_get_platform_library_name(NULL, b, 64, true) == RCUTILS_RET_OK; break;
              default: bad = rcutils_get_platform_library_name("x", NULL, 64, true) == RCUTILS_RET_OK; break;
            }
            end_op("%d", bad);
            CHECK(!bad, "null-argument", "variant %lld: a bad argument was accepted", (long long)o.A(1));
            refs("bad argument");
            break;
          }
        default: end_op(); break;
      }
    }
  });
  run_single(p, [&] {
    Oracle q;
    if (want[7] == 0) {
      int held = 0, open = g_dl.total_refs();
      for (int i = 0; i < 7; ++i) {held += want[(size_t)i];}
      CHECK(open == held, "handles", "%d handles open at the end, %d loads outstanding", open, held);
    }
    for (auto & v : all) {
      for (auto & s : v) {
        if (s.lib >= 0) {CHECK(rcutils_unload_shared_library(&s.l) == RCUTILS_RET_OK, "spurious-failure", "unloading at the end failed");}
      }
    }
    finish_run("at the end");
  });
}
const Workload W{"C21", names, NOPS, gen, exec};
Reg reg(&W);
}  // namespace
