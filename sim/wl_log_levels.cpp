// C11: logger levels.
#include "wl.h"
using namespace sim;
namespace {
enum { SET, GET, GETN, EFF, ENABLED, SETDEF, GETDEF, PARSE, RESTART, BAD, SETMANY, NOPS };
const char * const names[] = {"set_logger_level", "get_logger_level", "get_logger_leveln", "effective_level", "is_enabled_for",
  "set_default_level", "get_default_level", "severity_from_string", "restart", "bad-args", "set-many"};
std::string gen_name(Rng & r)
{
  static const std::vector<std::string> comp = {"a", "b", "ab", "c", "a", "b", "", "x_1", "node"};
  if (r.chance(1, 30)) {
    if (r.chance(1, 600)) {std::string s(wide_len(r), 'w'); s[s.size() - 1 - r.below(6)] = '.'; return s;}
    if (r.chance(1, 20)) {                                   // more ancestors than 8 bits can count
      std::string s = "a";
      for (int i = 0, k = (int)r.range(250, 270); i < k; ++i) {s += ".a";}
      return s;
    }
    return gen_long(r, 400, ".");
  }
  if (r.chance(1, 30)) {return std::string((size_t)r.range(200, 1300), 'n') + (r.chance(1, 2) ? ".a" : "");}
  if (r.chance(1, 20)) {return "";}
  std::string s = r.pick(comp);
  size_t d = r.below(4);
  for (size_t i = 0; i < d; ++i) {s += "." + r.pick(comp);}
  return s;
}
void gen(Rng & r, Plan & p, bool th)
{
  int nt = (int)r.pick(std::vector<int>{1, 2, 2, 3});
  p.cfg["threads"] = nt;
  gen_schedule(r, p, nt);
  p.cfg["auto"] = r.chance(1, 4) ? 1 + (int64_t)r.below(10) : 0;
  size_t n = 3 + r.below(th ? 60 : 30);
  unsigned heavy = (unsigned)r.below(3);
  std::vector<std::string> pool;
  for (int i = 0, k = (int)r.range(2, 14); i < k; ++i) {pool.push_back(gen_name(r));}
  if (r.chance(1, 2)) {                                     // an ancestor of one of them
    const std::string s = r.pick(pool);
    size_t k = s.find('.', s.size() > 1 ? r.below(s.size() - 1) : 0);
    if (k != std::string::npos) {pool.push_back(s.substr(0, k)); pool.push_back(s.substr(0, k));}
  }
  unsigned faultn = (unsigned)r.pick(std::vector<int>{0, 1, 1, 3});
  if (r.chance(1, 60)) {                                    // many loggers with levels of their own
    bool wide = r.chance(1, 60);
    size_t k = (size_t)(wide ? r.range(500, 2000) : r.range(20, 400));
    p.ops.push_back(mkop(0, SETMANY, {10 * r.range(1, 5), (int64_t)r.below(1000), 0, (int64_t)k}));
    if (wide) {n = r.below(5);}
    for (int i = 0; i < 4; ++i) {pool.push_back("many.m" + std::to_string(r.below(1000 + k)) + (r.chance(1, 2) ? ".x" : ""));}
  }
  for (size_t i = 0; i < n; ++i) {
    std::string nm = r.chance(4, 5) ? r.pick(pool) : gen_name(r);
    int64_t lv = r.chance(9, 10) ? 10 * (int64_t)r.below(6) : r.pick(std::vector<int64_t>{-1, 1, 5, 15, 49, 51, 60, INT32_MAX, INT32_MIN});
    unsigned x = (unsigned)r.below(20);
    Op o;
    if (x < 7 + heavy * 2) {o = mkop(0, SET, {lv}, {nm});} else if (x < 13) {
      o = mkop(0, r.pick(std::vector<int>{GET, GETN, EFF, EFF, ENABLED, ENABLED}), {(int64_t)r.below(64), (int64_t)r.below(5)}, {nm});
    } else if (x < 16) {o = mkop(0, SETDEF, {r.pick(std::vector<int64_t>{0, 10, 20, 30, 40, 50, 5, 35, 60, 1000})});
    } else if (x < 17) {o = mkop(0, GETDEF);} else if (x < 18) {
      static const std::vector<std::string> w = {"DEBUG", "INFO", "WARN", "ERROR", "FATAL", "UNSET", "debug", "Warn", "eRROR",
        "", "WARNING", " INFO", "INF", "DEBUGG", "f\xe4tal", "20", "unset"};
      std::string s = r.pick(w);
      for (auto & c : s) {if (r.chance(1, 4) && c >= 0) {c = (char)(c ^ (((c | 32) >= 'a' && (c | 32) <= 'z') ? 32 : 0));}}
      o = mkop(0, PARSE, {}, {s});
    } else if (x < 19) {o = mkop(0, BAD, {(int64_t)r.below(5)});} else {o = r.chance(1, 6) ? mkop(0, RESTART) : mkop(0, EFF, {}, {nm});}
    gen_faults(r, o, {F_ALLOC, F_ALLOC, F_FI, F_FMT, F_WRITE}, faultn, 8);
    p.ops.push_back(o);
  }
  // afterwards: queries from several threads at once
  for (int i = 0; nt > 1 && i < (int)r.range(2, 16); ++i) {
    Op o = mkop((int)r.below((uint64_t)nt), r.pick(std::vector<int>{EFF, ENABLED, GET, GETN}), {(int64_t)r.below(64), (int64_t)r.below(5), 1},
      {r.chance(4, 5) ? r.pick(pool) : gen_name(r)});
    gen_faults(r, o, {F_ALLOC}, faultn, 12);
    p.ops.push_back(o);
  }
}
std::map<std::string, int> lv;
int def;
bool either_root(const std::string & n) {return (n.empty() || n[0] == '.') && lv.count("");}
// levels the documentation allows as the effective one (two only where the empty name was given a level of its own)
std::vector<int> effective(const std::string & n)
{
  std::string s = n;
  while (true) {
    auto i = lv.find(s);
    if (i != lv.end() && i->second != 0) {
      if (s.empty()) {return {i->second, def};}
      return {i->second};
    }
    size_t k = s.rfind('.');
    if (k == std::string::npos) {return {def};}
    s = s.substr(0, k);
  }
}
bool in(int v, const std::vector<int> & s) {for (int x : s) {if (x == v) {return true;}} return false;}
void sweep(const Plan & p, const char * after)
{
  Oracle q;
  CHECK(rcutils_logging_get_default_logger_level() == def, "default-level", "after %s the default level is %d, not %d", after,
    rcutils_logging_get_default_logger_level(), def);
  std::set<std::string> ns;
  for (auto & o : p.ops) {if (!o.s.empty() && o.code != PARSE && ns.size() < 24) {ns.insert(o.s[0]);}}
  size_t at = 0, stride = lv.size() / 30 + 1;
  for (auto & kv : lv) {if (at++ % stride == 0 || lv.size() < 30) {ns.insert(kv.first);}}
  for (auto & n : ns) {
    int e = rcutils_logging_get_logger_effective_level(n.c_str());
    CHECK(in(e, effective(n)), "effective-level", "after %s the effective level of '%.60s' is %d, not %d", after, n.c_str(), e, effective(n)[0]);
    int g = rcutils_logging_get_logger_level(n.c_str());
    int want = n.empty() ? def : lv.count(n) ? lv[n] : 0;
    CHECK(g == want, "own-level", "after %s the level of '%.60s' is %d, not %d", after, n.c_str(), g, want);
  }
  rcutils_reset_error();
}
void query(const Op & o)
{
  const std::string & n = o.S(0);
  switch (o.code) {
    case GET: {
        int g = rcutils_logging_get_logger_level(guarded_str(n));
        int f = (fi_off(), fired());
        int want = n.empty() ? def : lv.count(n) ? lv[n] : 0;
        CHECK(g == want || (f && (g == -1 || g == 0)), "own-level", "get_logger_level('%.60s') = %d, not %d", n.c_str(), g, want);
        break;
      }
    case GETN: {
        size_t len = umod(o.A(0), n.size() + 1);
        std::string k = n.substr(0, len);
        char * b = guarded(n.size());      // no terminator
        memcpy(b, n.data(), n.size());
        seal(b, n.size());
        int g = rcutils_logging_get_logger_leveln(b, len);
        int f = (fi_off(), fired());
        int want = k.empty() ? def : lv.count(k) ? lv[k] : 0;
        CHECK(g == want || (f && (g == -1 || g == 0)), "own-level", "get_logger_leveln('%.60s') = %d, not %d", k.c_str(), g, want);
        break;
      }
    case EFF: {
        int g = rcutils_logging_get_logger_effective_level(guarded_str(n));
        int f = (fi_off(), fired());
        CHECK(in(g, effective(n)) || (f && g == -1), "effective-level", "effective level of '%.60s' = %d, not %d", n.c_str(), g,
          effective(n)[0]);
        if (f && g == -1) {probe("effective-level-failed");}
        break;
      }
    default: {
        int sev = 10 * (1 + (int)umod(o.A(1), 5)) + (umod(o.A(0), 7) == 0 ? -1 : 0);
        bool nul = umod(o.A(0), 9) == 0;
        bool e = rcutils_logging_logger_is_enabled_for(nul ? nullptr : guarded_str(n), sev);
        int f = (fi_off(), fired());
        bool ok = false;
        for (int v : nul ? std::vector<int>{def} : effective(n)) {ok = ok || e == (sev >= v);}
        CHECK(ok || (f && !e), "enabled", "'%.60s' is %senabled for %d at level %d", nul ? "(null)" : n.c_str(), e ? "" : "not ", sev,
          nul ? def : effective(n)[0]);
        break;
      }
  }
}
// sets logging up: explicitly, or by the first use of it
void start(const Plan & p, int n)
{
  Oracle q;
  lv.clear();
  def = RCUTILS_LOG_SEVERITY_INFO;
  int how = p.C("auto") ? (int)umod(p.C("auto") - 1 + 3 * n, 10) : -1;
  bool ok = true;
  switch (how) {
    case -1: ok = rcutils_logging_initialize_with_allocator(allocator(1)) == RCUTILS_RET_OK; break;
    case 0: ok = rcutils_logging_get_default_logger_level() == def; break;
    case 1: ok = rcutils_logging_get_logger_level("") == def; break;
    case 2: ok = rcutils_logging_get_logger_leveln("", 0) == def; break;
    case 3: ok = rcutils_logging_get_logger_effective_level("first.use") == def; break;
    case 4: ok = rcutils_logging_logger_is_enabled_for("first.use", def) && !rcutils_logging_logger_is_enabled_for("first.use", def - 1); break;
    case 5: ok = rcutils_logging_set_logger_level("a", 40) == RCUTILS_RET_OK; lv["a"] = 40; break;
    case 6: rcutils_logging_set_default_logger_level(30); def = 30; break;
    case 7: ok = rcutils_logging_get_output_handler() == &rcutils_logging_console_output_handler; break;
    case 8: rcutils_logging_set_output_handler(nullptr); ok = rcutils_logging_get_output_handler() == nullptr; break;
    default: ok = rcutils_logging_get_logger_leveln("first.use", 9) == 0; break;
  }
  CHECK(ok, "init", "logging is not set up by its first use (%d)", how);
  rcutils_reset_error();
}
void exec(const Plan & p)
{
  int nt = (int)p.C("threads", 1);
  run_single(p, [&] {
    int starts = 0;
    start(p, starts);
    for (auto & o : p.ops) {
      if (o.A(2)) {continue;}
      begin_op(o, names[o.code]);
      const std::string & n = o.S(0);
      long res = 0;
      switch (o.code) {
        case SET: {
            int l = (int)o.A(0);
            bool valid = l >= 0 && l <= 50 && l % 10 == 0;
            rcutils_ret_t r = rcutils_logging_set_logger_level(guarded_str(n), l);
            int f = (fi_off(), fired());
            res = r;
            if (!valid) {CHECK(r != RCUTILS_RET_OK, "set-level", "level %d was accepted", l);} else {
              CHECK(r == RCUTILS_RET_OK || f, "set-level", "setting '%.60s' to %d returned %d", n.c_str(), l, r);
              if (r == RCUTILS_RET_OK) {
                lv[n] = l;
                if (n.empty()) {
                  def = l;
                  Oracle q;
                  if (l == 0 && rcutils_logging_get_default_logger_level() == RCUTILS_LOG_SEVERITY_INFO) {def = RCUTILS_LOG_SEVERITY_INFO;}
                }
              } else {probe("set-level-failed");}
            }
            break;
          }
        case SETMANY: {
            for (int64_t i = 0, k = (int64_t)umod(o.A(3), 70000); i < k; ++i) {
              op_step();
              std::string m = "many.m" + std::to_string(o.A(1) + i);
              int l = 10 * (1 + (int)umod(o.A(0) / 10 + i, 5));
              int before = fired();
              rcutils_ret_t r = rcutils_logging_set_logger_level(m.c_str(), l);
              if (r == RCUTILS_RET_OK) {lv[m] = l; continue;}
              CHECK(fired() > before, "set-level", "setting '%s' to %d returned %d", m.c_str(), l, r);
              Quiet q;
              rcutils_reset_error();
            }
            if (lv.size() > 200) {probe("many-loggers");}
            break;
          }
        case SETDEF: rcutils_logging_set_default_logger_level((int)o.A(0)); def = o.A(0) ? (int)o.A(0) : (int)RCUTILS_LOG_SEVERITY_INFO; break;
        case GETDEF: {
            int g = rcutils_logging_get_default_logger_level();
            CHECK(g == def, "default-level", "the default level is %d, not %d", g, def);
            break;
          }
        case PARSE: {
            int v = -77, want = -1;
            rcutils_ret_t r = rcutils_logging_severity_level_from_string(guarded_str(n), allocator(2), &v);
            int f = (fi_off(), fired());
            std::string u = n;
            for (auto & c : u) {if (c >= 'a' && c <= 'z') {c = (char)(c - 32);}}
            for (int s = 0; s <= 50; s += 10) {
              static const char * const nm[] = {"UNSET", "DEBUG", "INFO", "WARN", "ERROR", "FATAL"};
              if (u == nm[s / 10]) {want = s;}
              CHECK(g_rcutils_log_severity_names[s] && !strcmp(g_rcutils_log_severity_names[s], nm[s / 10]), "level-name", "level %d is called '%s'", s,
                g_rcutils_log_severity_names[s] ? g_rcutils_log_severity_names[s] : "(null)");
            }
            if (r == RCUTILS_RET_OK) {CHECK(v == want, "parse-level", "'%s' parses as %d, not %d", n.c_str(), v, want);} else {
              CHECK(v == -77, "parse-level", "failed parse wrote %d", v);
              CHECK(f || want < 0, "parse-level", "'%s' is not accepted (%d)", n.c_str(), r);
              CHECK(f || r == RCUTILS_RET_LOGGING_SEVERITY_STRING_INVALID, "parse-level", "'%s' gives %d", n.c_str(), r);
            }
            CHECK(live_blocks(2) == 0, "leak", "parsing a level name kept memory");
            break;
          }
        case RESTART: {
            rcutils_ret_t r = rcutils_logging_shutdown();
            fi_off();
            CHECK(r == RCUTILS_RET_OK, "shutdown", "shutdown returned %d", r);
            CHECK(live_blocks(1) == 0 && live_blocks(HEAP) == 0, "leak", "shutdown kept memory");
            start(p, ++starts);
            break;
          }
        case BAD: {
            int v = 0;
            rcutils_allocator_t z = rcutils_get_zero_initialized_allocator();
            switch (umod(o.A(0), 5)) {
              case 0: CHECK(rcutils_logging_set_logger_level(nullptr, 20) != 0, "bad-args", "set_logger_level(NULL) accepted"); break;
              case 1: CHECK(rcutils_logging_get_logger_level(nullptr) == -1, "bad-args", "get_logger_level(NULL)"); break;
              case 2: CHECK(rcutils_logging_get_logger_effective_level(nullptr) == -1, "bad-args", "effective_level(NULL)"); break;
              case 3: CHECK(rcutils_logging_severity_level_from_string(nullptr, allocator(2), &v) != 0, "bad-args", "from_string(NULL)"); break;
              default: CHECK(rcutils_logging_severity_level_from_string("INFO", z, &v) != 0, "bad-args", "from_string, no allocator"); break;
            }
            break;
          }
        default: query(o); break;
      }
      int fz = end_op("%ld", res);
      (void)fz;
      {Quiet q; rcutils_reset_error();}
      sweep(p, names[o.code]);
    }
  });
  if (nt > 1) {
    run_threads(p, nt, [&](int tid) {
      for (auto & o : p.ops) {
        if (!o.A(2) || o.tid != tid) {continue;}
        begin_op(o, names[o.code]);
        query(o);
        end_op();
        Quiet q;
        rcutils_reset_error();
      }
    });
    probe("concurrent-queries");
  }
  run_single(p, [&] {sweep(p, "the concurrent queries"); finish_run("at the end");});
}
const Workload W{"C11", names, NOPS, gen, exec};
Reg reg(&W);
}  // namespace
