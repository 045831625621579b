// C15: conditional log macros.  C16: throttled ones.  C27: both, in programs built with a minimum severity.
#include "user_log.h"
#include "wl.h"
extern "C" {
extern const u_site_t u_sites_m1[], u_sites_m2[], u_sites_m3[], u_sites_m4[], u_sites_m5[], u_sites_cxx[];
const char * u_log_file_m1(void);
const char * u_log_file_m2(void);
const char * u_log_file_m3(void);
const char * u_log_file_m4(void);
const char * u_log_file_m5(void);
const char * u_log_file_cxx(void);
}
using namespace sim;
namespace {
// parts of the program built with different minimum severities
struct Part { const u_site_t * sites; const char * (* file)(void); int min; };
const Part parts[] = {{u_sites, u_log_file, 0}, {u_sites_m1, u_log_file_m1, 20}, {u_sites_m2, u_log_file_m2, 30}, {u_sites_m3, u_log_file_m3, 40},
  {u_sites_m4, u_log_file_m4, 50}, {u_sites_m5, u_log_file_m5, 60},
  {u_sites_cxx, u_log_file_cxx, 0}};        // the last one is written in C++
const int PARTS = 7;
enum { RUN, LEVEL, DEFAULT, NOPS };
const char * const names[] = {"execute", "set_level", "set_default_level"};
void gen_common(Rng & r, Plan & p, bool th, bool thr, bool min = false)
{
  int nt = (int)r.pick(std::vector<int>{1, 1, 2, 3});
  p.cfg["threads"] = nt;
  p.cfg["auto"] = r.chance(1, 8);
  gen_schedule(r, p, nt);
  p.cfg["mono"] = r.pick(std::vector<int64_t>{1, 1999999999, 2000000000, 2000000001, 1000000000000, (int64_t)r.below(10000000000)});
  p.cfg["deflevel"] = r.chance(2, 3) ? 10 : 10 * r.range(1, 5);
  p.cfg["tick"] = thr ? r.pick(std::vector<int64_t>{0, 1, 1}) : 3;
  p.cfg["neg"] = r.below(3);
  size_t n = 4 + r.below(th ? 90 : 45);
  std::vector<int> pool;
  int lo = thr ? u_first_throttled : 0, hi = thr ? u_num_sites - 1 : u_first_throttled - 1;
  for (int i = 0, k = (int)r.range(1, 6); i < k; ++i) {
    int site = (int)r.range(lo, hi);
    pool.push_back(site + (min ? u_num_sites * (int)r.range(0, PARTS - 1) : r.chance(1, 4) ? u_num_sites * (PARTS - 1) : 0));
    // the same statement in another part of the program
    if (min && r.chance(1, 2)) {pool.push_back(site + u_num_sites * (int)r.range(0, PARTS - 1));}
  }
  if (min) {p.cfg["cold"] = r.chance(1, 4);}
  std::vector<int64_t> t((size_t)(u_num_sites * PARTS), r.pick(std::vector<int64_t>{0, 0, 1, 4999999, 5000000, 1000000000, -7000000, 1700000000000000000ll}));
  unsigned faultn = (unsigned)r.pick(std::vector<int>{0, 0, 1, 2});
  unsigned back = (unsigned)r.below(4);
  for (size_t i = 0; i < n; ++i) {
    if (nt == 1 && r.chance(1, 10)) {
      p.ops.push_back(r.chance(1, 3) ? mkop(0, DEFAULT, {10 * (int64_t)r.below(6)}) :
        mkop(0, LEVEL, {10 * (int64_t)r.below(6)}, {r.pick(std::vector<std::string>{"a", "a.b", "b"})}));
      continue;
    }
    size_t s = (size_t)r.pick(pool);
    int64_t d = u_sites[s % (size_t)u_num_sites].ms * 1000000;
    int64_t & now = t[r.chance(1, 2) ? s : (size_t)pool[0]];
    switch (r.below(12)) {
      case 0: case 1: now += d; break;
      case 2: now += d - 1; break;
      case 3: now += d + 1; break;
      case 4: now += 1; break;
      case 5: now += d / 2; break;
      case 6: now += (int64_t)r.below(3 * (uint64_t)d + 7); break;
      case 7: if (r.below(4) < back) {now -= (int64_t)r.below(4 * (uint64_t)d + 9);} break;
      case 8: if (r.below(8) < back) {now = (int64_t)r.below(20000000);} break;
      default: now += r.chance(1, 2) ? 0 : d; break;
    }
    int64_t adv = r.pick(std::vector<int64_t>{0, 1, 999999999, 1000000000, 1999999999, 2000000000, 2000000001, (int64_t)r.below(3000000000)});
    Op o = mkop((int)(s % (size_t)nt), RUN, {(int64_t)s, r.chance(2, 3), r.chance(3, 4), now, adv, thr && r.chance(1, 14), (int64_t)r.below(2)},
      {r.pick(std::vector<std::string>{"", "a", "a.b", "b", "c"})});
    gen_faults(r, o, {F_CLOCK, F_CLOCK, F_ALLOC}, faultn, 8);
    if (o.f.empty() && r.chance(1, 150)) {o.a.push_back(r.chance(1, 700) ? 66000 : (int64_t)r.pick(std::vector<int>{2, 10, 260, 600}));}
    p.ops.push_back(o);
  }
}
void gen(Rng & r, Plan & p, bool th) {gen_common(r, p, th, false);}
void tgen(Rng & r, Plan & p, bool th) {gen_common(r, p, th, true);}
void mgen(Rng & r, Plan & p, bool th) {gen_common(r, p, th, r.chance(1, 3), true);}

struct Now { bool cond = true; int64_t time = 0; bool fail = false, scribble = false; const char * name = nullptr; int values = 0, conds = 0, times = 0, elses = 0, names = 0; int64_t read = 0; };
Now cur[8];
struct Call { int tid, sev; std::string fn, file, name, text; size_t line; };
std::vector<Call> calls;
void handler(const rcutils_log_location_t * l, int sev, const char * name, rcutils_time_point_value_t, const char * f, va_list * args)
{
  char b[512];
  va_list a;
  va_copy(a, *args);
  vsnprintf(b, sizeof b, f, a);
  va_end(a);
  calls.push_back({my_tid(), sev, l ? l->function_name : "", l ? l->file_name : "", name ? name : "(null)", b, l ? l->line_number : 0});
  ev("handler %s", b);
}
struct Site { bool once = false, first = true, unknown = false; std::vector<int64_t> last{0}; };
std::map<std::string, int> lv;
int deflevel;
int eff(const std::string & n)
{
  std::string s = n;
  while (true) {
    auto i = lv.find(s);
    if (i != lv.end() && i->second) {return i->second;}
    size_t k = s.rfind('.');
    if (k == std::string::npos) {return deflevel;}
    s = s.substr(0, k);
  }
}
void exec(const Plan & p)
{
  int nt = (int)p.C("threads", 1);
  calls.clear();
  std::vector<std::string> files;                  // the user's code yields: not while looking at records
  for (auto & q : parts) {files.push_back(q.file());}
  static std::vector<std::vector<Site>> st;     // [site][which call of the function]
  st.assign((size_t)(u_num_sites * PARTS), std::vector<Site>(2));
  run_single(p, [&] {
    Oracle q;
    g_clock.set(1700000000000000000ll, p.C("mono", 1));
    g_clock.tick = p.C("tick");
    if (!p.C("auto")) {CHECK(rcutils_logging_initialize_with_allocator(allocator(1)) == RCUTILS_RET_OK, "init", "cannot initialise logging");}
    rcutils_logging_set_output_handler(handler);
    deflevel = p.C("deflevel", 20) ? (int)p.C("deflevel", 20) : 20;
    rcutils_logging_set_default_logger_level(deflevel);
    lv.clear();
    if (nt > 1) {
      CHECK(rcutils_logging_set_logger_level("a", 30) == RCUTILS_RET_OK, "init", "cannot set a level");
      lv["a"] = 30;
    }
  });
  auto step = [&](const Op & o, int tid) {
    begin_op(o, names[o.code]);
    if (o.code == LEVEL) {
      if (nt == 1 && !o.S(0).empty() && rcutils_logging_set_logger_level(guarded_str(o.S(0)), (int)o.A(0)) == RCUTILS_RET_OK) {lv[o.S(0)] = (int)o.A(0);}
      end_op();
      return;
    }
    if (o.code == DEFAULT && nt > 1) {end_op(); return;}
    if (o.code == DEFAULT) {
      rcutils_logging_set_default_logger_level((int)o.A(0));
      deflevel = o.A(0) ? (int)o.A(0) : 20;
      end_op();
      return;
    }
    size_t si = umod(o.A(0), (size_t)(u_num_sites * PARTS)), part = si / (size_t)u_num_sites;
    const std::string & file = files[part];
    if (si % (size_t)nt != (size_t)tid) {end_op(); return;}      // every site belongs to one thread
    const u_site_t & u = parts[part].sites[si % (size_t)u_num_sites];
    bool out = u.sev < parts[part].min;            // not part of the program at all
    bool go = o.A(2) || u.form == 0;
    Site & s = st[si][u.form == 2 && !go ? 1 : 0];
    bool thr = u.kind == K_THROTTLE || u.kind == K_SKIPFIRST_THROTTLE;
    Now & c = cur[tid];
    c = Now();
    c.cond = o.A(1);
    c.time = o.A(3);
    c.fail = thr && !u.steady && o.A(5);
    c.scribble = o.A(6);
    std::string nm = o.S(0);
    c.name = guarded_str(nm);
    if (u.steady) {g_clock.advance(o.A(4));}
    size_t c0 = calls.size();
    int64_t m0 = g_clock.mono();
    bool cold = out && nt == 1 && p.C("cold");
    if (cold) {
      Oracle q;
      CHECK(rcutils_logging_shutdown() == RCUTILS_RET_OK, "init", "cannot shut logging down");
    }
    int line = u.run(go);
    int64_t m1 = g_clock.mono();
    int f = fired();
    int64_t io = calls_in_op(F_ALLOC) + calls_in_op(F_CLOCK) + calls_in_op(F_GETENV) + calls_in_op(F_WRITE) + calls_in_op(F_FMT);
    end_op("%d", c.values);
    {Quiet q; rcutils_reset_error();}
    if (out) {
      for (size_t k = c0; k < calls.size(); ++k) {
        CHECK(calls[k].tid != tid, "compiled-out", "%s is below the minimum severity but logged '%s'", u.func, calls[k].text.c_str());
      }
      CHECK(!c.values && !c.conds && !c.times && !c.names, "compiled-out", "%s is below the minimum severity: argument evaluated %d, condition %d, name %d, time source %d times",
        u.func, c.values, c.conds, c.names, c.times);
      CHECK(c.elses == (u.form == 1 && !go), "else", "%s: the else branch ran %d times", u.func, c.elses);
      CHECK(!io, "compiled-out", "%s is below the minimum severity but called the system", u.func);
      if (cold) {
        CHECK(!g_rcutils_logging_initialized, "compiled-out", "%s is below the minimum severity but initialised logging", u.func);
        probe("compiled-out-without-logging");
        Oracle q;
        CHECK(rcutils_logging_initialize_with_allocator(allocator(1)) == RCUTILS_RET_OK, "init", "cannot initialise logging");
        rcutils_logging_set_output_handler(handler);
        rcutils_logging_set_default_logger_level(deflevel);
        for (auto & l : lv) {CHECK(rcutils_logging_set_logger_level(l.first.c_str(), l.second) == RCUTILS_RET_OK, "init", "cannot set a level");}
      } else {probe("compiled-out");}
      return;
    }
    std::vector<const Call *> mine, reports;
    std::string text = std::string("site ") + (u.func + 5) + (u.form == 2 && !go ? " other" : "") + " value " + std::to_string(77 + tid);
    for (size_t k = c0; k < calls.size(); ++k) {
      if (calls[k].tid != tid) {continue;}
      (calls[k].text.compare(0, 5, "site ") == 0 ? mine : reports).push_back(&calls[k]);
    }
    CHECK(c.values <= 1 && c.conds <= 1 && c.times <= 1 && mine.size() <= 1, "evaluations", "%s: argument evaluated %d, condition %d, time source %d times, %zu messages",
      u.func, c.values, c.conds, c.times, mine.size());
    for (auto m : mine) {
      CHECK(m->text == text && m->sev == u.sev && m->fn == u.func && m->file == file && m->line == (size_t)line &&
        m->name == (u.named ? nm : ""), "content", "%s: '%s' severity %d logger '%s' at %s:%zu", u.func, m->text.c_str(), m->sev, m->name.c_str(),
        m->fn.c_str(), m->line);
    }
    if (u.form == 1 && !go) {
      CHECK(c.elses == 1 && mine.empty() && !c.values && !c.conds && !c.times, "else", "%s: the else branch ran %d times", u.func, c.elses);
      return;
    }
    CHECK(c.elses == 0, "else", "%s: the else branch ran as well", u.func);
    bool enabled = u.sev >= (u.named ? eff(nm) : deflevel);
    bool pass = enabled;
    bool clockfail = c.fail, maybe = false;
    if (f && !c.values) {
      // a failed level query drops the message before the condition, a failed clock after it; what cannot be told apart is not judged
      if (fired_kind(F_ALLOC)) {
        if (u.kind == K_SKIPFIRST || u.kind == K_SKIPFIRST_THROTTLE || c.times) {s.unknown = true;}
        probe("level-query-failed");
        return;
      }
    }
    if (fired_kind(F_ALLOC)) {if (thr || u.kind == K_SKIPFIRST) {s.unknown = true;}}
    switch (u.kind) {
      case K_ONCE: pass = enabled && !s.once; if (enabled) {s.once = true;} break;
      case K_SKIPFIRST: pass = enabled && !s.first; if (enabled) {s.first = false;} break;
      case K_EXPRESSION: case K_FUNCTION:
        pass = enabled && c.cond;
        CHECK(c.conds == (enabled ? 1 : 0), "condition", "%s: the condition was evaluated %d times", u.func, c.conds);
        break;
      case K_THROTTLE: case K_SKIPFIRST_THROTTLE: {
          if (!enabled) {CHECK(c.times == 0, "disabled", "%s: the time source was read although the level is not enabled", u.func); break;}
          int64_t now = c.read, later = now;
          if (u.steady) {
            if (f && fired_kind(F_CLOCK)) {           // the time source or the time stamp failed
              s.unknown = true;
              probe("steady-clock-failed");
              return;
            }
            now = m0 + g_clock.tick;      // other threads may have moved the clock meanwhile
            later = nt > 1 ? m1 : now;
          } else {CHECK(c.times == 1, "time-source", "%s: the time source was read %d times", u.func, c.times);}
          if (clockfail) {
            pass = true;
            s.last.push_back(0);
            s.last.push_back(now);
            probe("time-source-failed");
            if (u.kind == K_THROTTLE) {
              CHECK(reports.size() == (f ? reports.size() : (eff("") <= 40 ? 1u : 0u)), "report", "%s: a failing time source was reported %zu times", u.func, reports.size());
            }
          } else {
            bool any = false, all = true;
            for (int64_t l : s.last) {any = any || later >= l + u.ms * 1000000; all = all && now >= l + u.ms * 1000000;}
            pass = any;
            if (any != all) {maybe = true; pass = c.values > 0;}
            if (u.kind == K_SKIPFIRST_THROTTLE && maybe) {s.unknown = true;}
            if (pass) {s.last = {now}; if (later != now) {s.last.push_back(later);}}
            CHECK(reports.empty() || f, "report", "%s: an error was reported: '%s'", u.func, reports[0]->text.c_str());
          }
          if (u.kind == K_SKIPFIRST_THROTTLE) {
            bool was = s.first;
            if (pass) {s.first = false;}
            if (pass && was) {probe("first-passing-dropped");}
            pass = pass && !was;
          }
          break;
        }
      default: break;
    }
    if (s.unknown) {return;}
    CHECK(c.values == (pass ? 1 : 0), "selection", "%s: %s, logger level %d: the message was %sdue but its argument was evaluated %d times", u.func,
      enabled ? "enabled" : "not enabled", u.named ? eff(nm) : deflevel, pass ? "" : "not ", c.values);
    if (!f) {CHECK(mine.size() == (pass ? 1u : 0u), "selection", "%s: the message was %sdue but %zu arrived", u.func, pass ? "" : "not ", mine.size());}
  };
  run_threads(p, nt, [&](int tid) {
    for (auto & o : p.ops) {
      if (o.tid != tid) {continue;}
      int64_t n = o.code == RUN ? std::max<int64_t>(1, std::min<int64_t>(o.A(7), 70000)) : 1;
      for (int64_t i = 0; i < n; ++i) {step(o, tid);}
    }
  });
  run_single(p, [&] {finish_run("at the end");});
}
const Workload W{"C15", names, NOPS, gen, exec};
Reg reg(&W);
const Workload TW{"C16", names, NOPS, tgen, exec};
Reg treg(&TW);
const Workload MW{"C27", names, NOPS, mgen, exec};
Reg mreg(&MW);
}  // namespace
extern "C" {
int u_value(void) {cur[my_tid()].values++; return 77 + my_tid();}
bool u_cond(void) {cur[my_tid()].conds++; return cur[my_tid()].cond;}
int u_number(void) {return u_cond() ? 7 : 3;}
const char * u_name(void) {cur[my_tid()].names++; return cur[my_tid()].name;}
void u_else(void) {cur[my_tid()].elses++;}
int u_time(int64_t * now)
{
  Now & c = cur[my_tid()];
  c.times++;
  c.read = c.time;
  ev("time source %lld", (long long)c.time);
  if (!c.fail || c.scribble) {*now = c.time;}
  return c.fail ? RCUTILS_RET_ERROR : RCUTILS_RET_OK;
}
}
