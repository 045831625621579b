// C07: helpers that return new strings, against re-implementations from their documentation. C22: environment helpers.
#include "wl.h"
extern "C" {
#include "rcutils/env.h"
#include "rcutils/filesystem.h"
#include "rcutils/format_string.h"
#include "rcutils/process.h"
#include "rcutils/repl_str.h"
#include "rcutils/split.h"
#include "rcutils/strdup.h"
#include "rcutils/types/string_array.h"
}
using namespace sim;
namespace {
enum { DUP, NDUP, FMT, FMTLIM, REPL, SPLIT, SPLITLAST, JOIN, NATIVE, EXPAND, EXE, DROP, NULLS, NOPS };
const char * const names[] = {"strdup", "strndup", "format_string", "format_string_limit", "repl_str", "split", "split_last",
  "join_path", "to_native_path", "expand_user", "executable_name", "drop", "nulls"};

std::string gtext(Rng & r)
{
  if (r.chance(1, 12000)) {             // longer, with more tokens, than 16 bits can count
    std::string s;
    size_t n = wide_len(r);
    int k = (int)r.below(3);
    while (s.size() < n * (k ? 2 : 1)) {s += k == 0 ? "x" : k == 1 ? "a/" : "/b";}
    if (k == 0 && r.chance(1, 2)) {s.insert(r.below(s.size()), "/");}
    return s;
  }
  if (r.chance(1, 12)) {return gen_long(r, 700, "/ax");}
  switch (r.below(8)) {
    case 0: return "";
    case 1: return gen_text(r, 3, "/");
    case 2: return gen_text(r, 8, "a/");
    case 3: return gen_text(r, 12, "ab//.c");
    case 4: return gen_text(r, 40, "hello/world/%s\xe2\x82\xac ");
    case 5: return std::string(r.below(300), 'x') + gen_text(r, 3, "/x");
    case 6: {
        std::string s;
        size_t n = r.below(r.chance(1, 6) ? 250 : 20);
        for (size_t i = 0; i < n; ++i) {s += gen_text(r, 2, "ab"); s += '/';}
        return s;
      }
    default: return gen_text(r, 6, "~/ab");
  }
}
std::string gbig(Rng & r) {return r.chance(1, 8) ? std::string((size_t)r.range(2030, 2060), 'y') + gtext(r) : gtext(r);}

void gen(Rng & r, Plan & p, bool th)
{
  p.cfg["zero_null"] = r.chance(1, 6);
  p.cfg["heap"] = r.chance(1, 4);
  p.cfg["home"] = (int64_t)r.below(5);
  p.cfg["exe"] = (int64_t)r.below(9);
  unsigned frate = (unsigned)r.pick(std::vector<int>{0, 1, 2, 4, 6});
  int n = (int)r.range(1, th ? 60 : 24);
  for (int i = 0; i < n; ++i) {
    int c = (int)r.below(NOPS);
    if (c == NULLS && r.chance(3, 4)) {c = SPLIT;}
    Op o = mkop(0, c, {0, 0, (int64_t)r.chance(1, 2)}, {gtext(r)});
    std::vector<int> kinds = {F_ALLOC};
    switch (c) {
      case DUP: kinds.push_back(F_FI); break;
      case NDUP: o.a[0] = r.chance(1, 10) ? -1 : (int64_t)r.below(o.s[0].size() + 4); kinds.push_back(F_FI); break;
      case FMT:
        o.s[0] = gbig(r);
        o.a[0] = (int64_t)r.below(5);
        o.a[1] = r.range(-1000000, 1000000);
        kinds = {F_ALLOC, F_FMT, F_FI};
        break;
      case FMTLIM:
        o.a[0] = (int64_t)r.below(5);
        o.a[1] = r.range(-1000000, 1000000);
        o.a.push_back(r.chance(1, 20) ? r.pick(std::vector<int64_t>{0, -1, INT64_MAX}) : (int64_t)r.below(o.s[0].size() + 12));
        kinds = {F_ALLOC, F_FMT, F_FI};
        break;
      case REPL: {
          std::string from = r.chance(1, 2) ? "/" : gen_text(r, 3, "ab/x");
          if (from.empty()) {from = "a";}
          o.s.push_back(from);
          o.s.push_back(gen_text(r, r.chance(1, 4) ? 20 : 3, "ab/_Z"));
          break;
        }
      case SPLIT: case SPLITLAST:
        o.a[0] = r.pick(std::vector<int64_t>{'/', '/', '/', 'a', 'x'});
        kinds.push_back(F_FI);
        break;
      case JOIN: o.s[0] = gbig(r); o.s.push_back(gbig(r)); kinds = {F_ALLOC, F_FMT, F_FI}; break;
      case EXPAND:
        if (r.chance(2, 3)) {o.s[0] = "~" + gbig(r);}
        kinds = {F_ALLOC, F_FMT, F_FI, F_GETENV};
        break;
      case EXE: kinds.push_back(F_FI); break;
      default: o.a[0] = (int64_t)r.below(64); break;
    }
    gen_faults(r, o, kinds, frate, 10);
    if (c == SPLIT || c == SPLITLAST) {
      // a library fault point inside the clean-up after another failure has no documented outcome
      for (auto & f : o.f) {if (f.kind == F_FI) {o.f = {f}; break;}}
    }
    p.ops.push_back(o);
  }
}
std::string vfull(const char * f, ...)
{
  va_list ap, c;
  va_start(ap, f);
  va_copy(c, ap);
  int n = vsnprintf(nullptr, 0, f, c);
  va_end(c);
  std::string s((size_t)n + 1, 0);
  vsnprintf(&s[0], s.size(), f, ap);
  va_end(ap);
  s.resize((size_t)n);
  return s;
}
std::string repl(const std::string & s, const std::string & from, const std::string & to)
{
  std::string o;
  size_t i = 0;
  while (true) {
    size_t k = s.find(from, i);
    if (k == std::string::npos) {return o + s.substr(i);}
    o += s.substr(i, k - i) + to;
    i = k + from.size();
  }
}
std::vector<std::string> split_model(const std::string & s, char d)
{
  std::vector<std::string> v;
  size_t i = 0;
  while (i <= s.size()) {
    size_t k = s.find(d, i);
    if (k == std::string::npos) {k = s.size();}
    if (k > i) {v.push_back(s.substr(i, k - i));}
    i = k + 1;
  }
  return v;
}
// one leading and one trailing delimiter do not count as "the last", one doubled delimiter is dropped from the left part
std::vector<std::string> split_last_model(const std::string & s, char d)
{
  std::vector<std::string> v;
  if (s.empty()) {return v;}
  size_t lo = s[0] == d, hi = s.size() - (s.back() == d);
  size_t at = std::string::npos;
  for (size_t i = lo; i < hi; ++i) {if (s[i] == d) {at = i;}}
  if (at == std::string::npos) {
    v.push_back(s.substr(lo));
  } else {
    size_t e = at;
    if (e > lo && s[e - 1] == d) {--e;}
    v.push_back(s.substr(lo, e - lo));
    v.push_back(hi > at + 1 ? s.substr(at + 1, hi - at - 1) : "");
  }
  return v;
}
struct Held {
  char * p = nullptr;
  rcutils_string_array_t arr = rcutils_get_zero_initialized_string_array();
  bool is_arr = false;
  std::string want;
  std::vector<std::string> wantv;
};
struct In {          // an exactly sized, guarded input string
  char * p;
  std::string s;
  explicit In(const std::string & t, bool term = true): s(t)
  {
    size_t n = t.size() + (term ? 1 : 0);
    p = guarded(n);
    memcpy(p, t.c_str(), n);
    seal(p, n);
  }
  void check(const char * w) const {CHECK(memcmp(p, s.data(), s.size()) == 0, "input-changed", "%s changed its input", w);}
};
void exec(const Plan & p)
{
  run_single(p, [&]() {
    g_zero_null = p.C("zero_null");
    int id = p.C("heap") ? 0 : 1;
    rcutils_allocator_t al = id ? allocator(1) : rcutils_get_default_allocator();
    static const char * homes[] = {"/home/user", "", nullptr, "/", "/very/long/home/directory/of/somebody"};
    const char * home = homes[umod(p.C("home"), 5)];
    if (home) {g_env["HOME"] = home;}
    static const char * exes[] = {"/usr/bin/node", "node", "./a/b", "/", "", "dir/", "//x//", "a", "/opt/x y/z.bin"};
    static const char * exenames[] = {"node", "node", "b", "/", ".", "dir", "x", "a", "z.bin"};
    size_t ei = umod(p.C("exe"), 9);
    set_exe(exes[ei]);
    std::vector<Held> held;
    auto release = [&](size_t i) {
        Oracle q;
        Held & h = held[i];
        if (h.is_arr) {
          CHECK(h.arr.size == h.wantv.size(), "result-later", "list has %zu strings later, had %zu", h.arr.size, h.wantv.size());
          for (size_t k = 0; k < h.arr.size; ++k) {
            CHECK(h.wantv[k] == h.arr.data[k], "result-later", "string %zu of a list changed later", k);
          }
          CHECK(rcutils_string_array_fini(&h.arr) == RCUTILS_RET_OK, "fini", "cannot release the list");
        } else {
          CHECK(h.want == h.p, "result-later", "result changed later");
          al.deallocate(h.p, al.state);
        }
        held.erase(held.begin() + (long)i);
      };
    for (auto & o : p.ops) {
      begin_op(o, names[o.code]);
      rcutils_reset_error();
      size_t before = live_blocks(id);
      const char * w = names[o.code];
      // documented never to set an error message, successful or not
      bool silent = o.code == DUP || o.code == NDUP || o.code == FMT || o.code == FMTLIM ||
        (o.code == NULLS && (umod(o.A(0), 14) < 2 || umod(o.A(0), 14) == 3 || umod(o.A(0), 14) == 4));
      ErrorKept kept(silent && event_seq() & 1);
      bool isstr = false, maynull = false, anyof = false;
      char * r = nullptr;
      std::string want, want2;
      int d = (int)o.A(1);
      In s(o.S(0));
      auto fmt = [&](size_t lim, bool lim_given, bool expect) {
          const char * t = s.p;
          std::string full;
#define DOFMT(...) do { if (expect) {full = vfull(__VA_ARGS__);} else {r = lim_given ? rcutils_format_string_limit(al, lim, __VA_ARGS__) : \
              rcutils_format_string(al, __VA_ARGS__);} } while (0)
          switch (umod(o.A(0), 5)) {
            case 0: DOFMT("%s", t); break;
            case 1: DOFMT("%d:%s", d, t); break;
            case 2: DOFMT("%s|%-12d|%%|%.2f", t, d, d / 8.0); break;
            case 3: DOFMT("%.*s%c%lld", d & 31, t, 'A' + (d & 15), (long long)d * 1000003); break;
            default: DOFMT("%*s", d & 63, t); break;
          }
          return full;
        };
      switch (o.code) {
        case DUP: isstr = true; want = o.S(0); r = rcutils_strdup(s.p, al); break;
        case NDUP: {
            isstr = true;
            size_t m = (size_t)o.A(0);
            want = o.S(0).substr(0, m);
            bool unterm = m <= o.S(0).size() && o.A(2);
            In u(o.S(0).substr(0, m), !unterm);
            r = rcutils_strndup(unterm ? u.p : s.p, m, al);
            u.check(w);
            break;
          }
        case FMT: isstr = true; want = fmt(0, false, true).substr(0, 2047); fmt(0, false, false); break;
        case FMTLIM: {
            isstr = true;
            size_t lim = (size_t)o.A(3);
            want = fmt(0, true, true).substr(0, lim ? lim - 1 : 0);
            fmt(lim, true, false);
            maynull = lim == 0;
            break;
          }
        case REPL: {
            isstr = true;
            std::string what = o.S(1).empty() ? "a" : o.S(1);
            In from(what), to(o.S(2));
            want = repl(o.S(0), what, o.S(2));
            r = rcutils_repl_str(s.p, from.p, to.p, allocp(al));
            from.check(w);
            to.check(w);
            break;
          }
        case JOIN: {
            isstr = true;
            In b(o.S(1));
            want = o.S(0) + "/" + o.S(1);
            r = rcutils_join_path(s.p, b.p, al);
            b.check(w);
            if (want.size() > 2047) {probe("long-join");}
            break;
          }
        case NATIVE: isstr = true; want = o.S(0); r = rcutils_to_native_path(s.p, al); break;
        case EXPAND:
          isstr = true;
          want = o.S(0);
          if (!want.empty() && want[0] == '~') {
            if (home && *home) {want = home + want.substr(1);} else {
              r = rcutils_expand_user(s.p, al);
              CHECK(!r, "result", "expanded '~' without a home directory");
              isstr = false;
              break;
            }
          }
          r = rcutils_expand_user(s.p, al);
          break;
        case EXE: isstr = true; want = exenames[ei]; r = rcutils_get_executable_name(al); break;
        case SPLIT: case SPLITLAST: {
            Held h;
            h.is_arr = true;
            char dl = (char)o.A(0);
            rcutils_ret_t ret = o.code == SPLIT ? rcutils_split(s.p, dl, al, &h.arr) : rcutils_split_last(s.p, dl, al, &h.arr);
            fi_off();
            h.wantv = o.code == SPLIT ? split_model(o.S(0), dl) : split_last_model(o.S(0), dl);
            if (ret == RCUTILS_RET_OK) {
              CHECK(h.arr.size == h.wantv.size(), "result", "%s gives %zu tokens, expected %zu", w, h.arr.size, h.wantv.size());
              for (size_t k = 0; k < h.arr.size; ++k) {
                CHECK(h.arr.data[k] && h.wantv[k] == h.arr.data[k], "result", "%s token %zu is '%s', expected '%s'", w, k,
                  h.arr.data[k] ? h.arr.data[k] : "(null)", h.wantv[k].c_str());
              }
              held.push_back(h);
            } else {
              CHECK(fired(), "spurious-failure", "%s failed with %d though nothing failed", w, ret);
              CHECK(ret == RCUTILS_RET_BAD_ALLOC || fired_kind(F_FI), "code", "%s without memory returned %d", w, ret);
              CHECK(h.arr.data == nullptr, "failure-value", "failed %s left an array behind", w);
              CHECK(live_blocks(id) == before, "leak", "failed %s kept %zu blocks", w, live_blocks(id) - before);
              CHECK(rcutils_string_array_fini(&h.arr) == RCUTILS_RET_OK, "failure-value", "array of a failed %s cannot be finalised", w);
              probe("split-failed");
            }
            break;
          }
        case DROP: if (!held.empty()) {release(umod(o.A(0), held.size()));} break;
        case NULLS: {
            NoFaults nf;
            rcutils_allocator_t bad = rcutils_get_zero_initialized_allocator();
            rcutils_string_array_t a = rcutils_get_zero_initialized_string_array();
            switch (umod(o.A(0), 14)) {
              case 0: r = rcutils_strdup(nullptr, al); break;
              case 1: r = rcutils_strndup(nullptr, 3, al); break;
              case 2: r = rcutils_strdup(s.p, bad); break;
              case 3: {const char * volatile nf2 = nullptr; r = rcutils_format_string_limit(al, 10, nf2, 1); break;}
              case 4: r = rcutils_format_string_limit(bad, 10, "%d", 1); break;
              case 5: r = rcutils_repl_str(s.p, "a", "b", &bad); break;
              case 6: r = rcutils_join_path(nullptr, s.p, al); break;
              case 7: r = rcutils_join_path(s.p, nullptr, al); break;
              case 8: r = rcutils_to_native_path(nullptr, al); break;
              case 9: r = rcutils_expand_user(nullptr, al); break;
              case 10: r = rcutils_get_executable_name(bad); break;
              case 11: CHECK(rcutils_split(s.p, '/', al, nullptr) != RCUTILS_RET_OK, "invalid-argument", "split into NULL accepted"); break;
              case 12: CHECK(rcutils_split(nullptr, '/', al, &a) == RCUTILS_RET_OK && a.size == 0, "result", "split of NULL"); break;
              default: CHECK(rcutils_split_last(nullptr, '/', al, &a) == RCUTILS_RET_OK && a.size == 0, "result", "split_last of NULL"); break;
            }
            CHECK(!r, "invalid-argument", "invalid call %zu gave a string", umod(o.A(0), 14));
            break;
          }
        default: break;
      }
      (void)anyof;
      s.check(w);
      if (silent) {kept.check(w);}
      if (isstr) {
        if (r) {
          CHECK(is_live(r), "result", "%s gave memory that is not a block of the allocator", w);
          CHECK(want == r, "result", "%s gave '%.80s', expected '%.80s' (%zu and %zu characters)", w, r, want.c_str(), strlen(r),
            want.size());
          CHECK(live_blocks(id) == before + 1, "leak", "%s left %zu blocks, expected 1", w, live_blocks(id) - before);
          CHECK(!fired_kind(F_FMT), "swallowed-failure", "%s succeeded though formatting failed", w);
          Held h;
          h.p = r;
          h.want = want;
          held.push_back(h);
        } else {
          CHECK(fired() || maynull, "spurious-failure", "%s gave NULL though nothing failed", w);
          CHECK(live_blocks(id) == before, "leak", "failed %s kept %zu blocks", w, live_blocks(id) - before);
          if (!maynull) {probe("string-failed");}
        }
      }
      end_op("%llx", r ? (unsigned long long)hash64(r, strlen(r)) : 0ull);
      if (id) {CHECK(blocks_since(HEAP, 0) == 0, "default-heap", "%s used the default heap", w);}
    }
    while (!held.empty()) {release(held.size() - 1);}
    finish_run("string helpers");
  });
}
const Workload W{"C07", names, NOPS, gen, exec};
Reg reg(&W);

// ---------------------------------------------------------------- C22
enum { E_SET, E_SETOW, E_GET, E_HOME, E_EXTERN, E_BAD, E_NOPS };
const char * const enames[] = {"set_env", "set_env_overwrite", "get_env", "get_home_dir", "external-change", "invalid"};
const char * const keys[] = {"A", "AB", "HOME", "ROS_HOME", "a", "USERPROFILE", "B"};
void egen(Rng & r, Plan & p, bool th)
{
  unsigned frate = (unsigned)r.pick(std::vector<int>{0, 1, 3});
  for (int i = 0; i < 7; ++i) {if (r.chance(1, 3)) {p.cfg[std::string("has_") + keys[i]] = 1;}}
  // names and values longer than an 8- or 16-bit length
  bool wide = r.chance(1, 600);
  p.cfg["longkey"] = wide ? (int64_t)wide_len(r) : r.chance(1, 20) ? r.range(250, 600) : 0;
  int n = (int)r.range(1, wide ? 8 : th ? 60 : 25);
  for (int i = 0; i < n; ++i) {
    int c = (int)r.pick(std::vector<int>{E_SET, E_SET, E_SETOW, E_SETOW, E_GET, E_GET, E_GET, E_HOME, E_EXTERN, E_BAD});
    // value kind: 0 text 1 empty 2 NULL
    Op o = mkop(0, c, {(int64_t)r.below(7), r.pick(std::vector<int64_t>{0, 0, 0, 1, 2}), (int64_t)r.chance(1, 2)},
      {wide && r.chance(1, 2) ? std::string(wide_len(r), "xy="[r.below(3)]) :
        r.chance(1, 30) ? std::string((size_t)r.range(250, 1100), 'v') : gen_text(r, 12, "abc= /%s\xc3\xa9")});
    if (c != E_BAD && c != E_EXTERN) {
      gen_faults(r, o, c == E_GET || c == E_HOME ? std::vector<int>{F_FI} : std::vector<int>{F_SETENV, F_FI}, frate, 10);
      for (auto & f : o.f) {if (f.kind == F_FI) {f.nth = 1;}}
    }
    p.ops.push_back(o);
  }
}
void eexec(const Plan & p)
{
  run_single(p, [&]() {
    std::map<std::string, std::string> m;
    const std::string longkey = std::string("ROS_HOME") + std::string((size_t)(p.C("longkey") > 0 ? p.C("longkey") % 100000 : 0), 'K');
    auto key = [&](size_t i) -> std::string {return i == 3 ? longkey : keys[i];};
    for (int i = 0; i < 7; ++i) {if (p.C((std::string("has_") + keys[i]).c_str())) {m[key(i)] = std::string("init-") + keys[i];}}
    g_env = m;
    for (auto & o : p.ops) {
      begin_op(o, enames[o.code]);
      rcutils_reset_error();
      std::string k = key(umod(o.A(0), 7));
      std::string v = o.A(1) == 1 ? "" : o.S(0);
      bool isnull = o.A(1) == 2;
      int res = 0;
      switch (o.code) {
        case E_SET: case E_SETOW: {
            bool ow = o.code == E_SET || o.A(2);
            In kk(k), vv(v);
            bool ok = o.code == E_SET ? rcutils_set_env(kk.p, isnull ? nullptr : vv.p) :
              rcutils_set_env_overwrite(kk.p, isnull ? nullptr : vv.p, ow);
            kk.check("set_env");
            vv.check("set_env");
            memset(vv.p, 'Z', v.size());      // the environment must hold a copy
            fi_off();
            if (ok) {
              CHECK(!fired(), "swallowed-failure", "set_env reports success though setting failed");
              if (ow || !m.count(k)) {
                if (isnull) {m.erase(k);} else {m[k] = v;}
              }
            } else {
              CHECK(fired(), "spurious-failure", "set_env('%s') failed though nothing failed", k.c_str());
              CHECK(rcutils_error_is_set() || fired_kind(F_FI), "no-reason", "failed set_env left no error message");
            }
            CHECK(g_env == m, "environment", "environment differs from the expected one after %s('%s')", enames[o.code], k.c_str());
            res = ok;
            break;
          }
        case E_GET: {
            const char * val = "untouched";
            In kk(k);
            const char * err = rcutils_get_env(kk.p, &val);
            fi_off();
            kk.check("get_env");
            if (err) {
              CHECK(fired(), "spurious-failure", "get_env reports '%s'", err);
            } else {
              CHECK(!fired(), "swallowed-failure", "get_env reports success though it failed");
              CHECK(val, "value", "get_env gave NULL");
              std::string want = m.count(k) ? m[k] : "";
              CHECK(want == val, "value", "get_env('%s') gave '%s', expected '%s'", k.c_str(), val, want.c_str());
            }
            res = !!err;
            break;
          }
        case E_HOME: {
            const char * h = rcutils_get_home_dir();
            fi_off();
            if (!fired()) {
              std::string want = m.count("HOME") ? m["HOME"] : "";
              if (want.empty()) {CHECK(!h, "value", "home directory '%s' though none is set", h);} else {
                CHECK(h && want == h, "value", "home directory is '%s', expected '%s'", h ? h : "(null)", want.c_str());
              }
            } else {CHECK(!h, "value", "home directory given though reading it failed");}
            break;
          }
        case E_EXTERN:      // another part of the process changes the environment directly
          if (isnull) {m.erase(k); g_env.erase(k);} else {m[k] = v; g_env[k] = v;}
          break;
        case E_BAD: {
            const char * val = "untouched";
            switch (umod(o.A(0), 6)) {
              case 0: CHECK(!rcutils_set_env(nullptr, "x"), "invalid-argument", "NULL name accepted"); break;
              case 1: CHECK(!rcutils_set_env("", "x"), "invalid-argument", "empty name accepted"); break;
              case 2: CHECK(!rcutils_set_env("a=b", o.A(1) == 2 ? nullptr : "x"), "invalid-argument", "name with '=' accepted"); break;
              case 3: CHECK(rcutils_get_env(nullptr, &val) != nullptr, "invalid-argument", "NULL name accepted"); break;
              case 4: CHECK(rcutils_get_env("A", nullptr) != nullptr, "invalid-argument", "NULL output accepted"); break;
              default: CHECK(!rcutils_set_env_overwrite("x=y", "1", o.A(2)), "invalid-argument", "name with '=' accepted"); break;
            }
            CHECK(g_env == m, "environment", "an invalid call changed the environment");
            break;
          }
        default: break;
      }
      end_op("%d", res);
    }
    finish_run("environment");
  });
}
const Workload EW{"C22", enames, E_NOPS, egen, eexec};
Reg ereg(&EW);
}  // namespace
