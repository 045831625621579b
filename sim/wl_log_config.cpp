// C12: life cycle and configuration of the logging system.
#include "logmodel.h"
extern "C" void un_autoinit(const rcutils_allocator_t *);
using namespace sim;
namespace {
enum { SETENV, INIT, SHUTDOWN, LOG, SETDEF, SETLVL, SETHANDLER, GETHANDLER, QUERY, TTY, NOPS };
const char * const names[] = {"environment", "initialize", "shutdown", "log", "set_default_level", "set_logger_level", "set_handler",
  "get_handler", "query-level", "tty"};
const char * const VARS[] = {"RCUTILS_LOGGING_USE_STDOUT", "RCUTILS_LOGGING_BUFFERED_STREAM", "RCUTILS_COLORIZED_OUTPUT",
  "RCUTILS_CONSOLE_OUTPUT_FORMAT", "RCUTILS_CONSOLE_STDOUT_LINE_BUFFERED"};
void gen(Rng & r, Plan & p, bool th)
{
  size_t n = 4 + r.below(th ? 60 : 28);
  p.cfg["clock"] = (int64_t)r.below(4000000000ull) * 1000000000ll + (int64_t)r.below(1000000000);
  p.cfg["tz"] = r.pick(std::vector<int64_t>{0, 0, 3600, -18000, 20700});
  unsigned faultn = (unsigned)r.pick(std::vector<int>{0, 1, 1, 2});
  unsigned bad = (unsigned)r.below(3);
  for (size_t i = 0; i < n; ++i) {
    unsigned x = (unsigned)r.below(24);
    Op o;
    if (x < 6) {
      int v = (int)r.pick(std::vector<int>{0, 1, 2, 3, 3, 3, 4});
      std::string val;
      bool unset = r.chance(1, 4);
      if (v == 3) {val = r.chance(1, 12) ? "" : gen_format(r, th);} else {
        val = r.chance(bad, 6) ? r.pick(std::vector<std::string>{"2", "01", "true", " 1", "1 ", "-1", "yes", "\\x1b"}) :
          r.pick(std::vector<std::string>{"0", "1", "1", ""});
      }
      o = mkop(0, SETENV, {v, unset}, {val});
    } else if (x < 11) {o = mkop(0, INIT, {(int64_t)r.pick(std::vector<int>{0, 1, 1, 2, 2, 3, 8, 9}), (int64_t)r.below(2), (int64_t)r.chance(1, 4)});
    } else if (x < 14) {o = mkop(0, SHUTDOWN);
    } else if (x < 17) {
      o = mkop(0, LOG, {10 * (int64_t)r.range(1, 5)}, {r.pick(std::vector<std::string>{"", "a", "a.b", "c"}), gen_text(r, r.chance(1, 6) ? 1300 : 20, "abc{}%\\ nx")});
    } else if (x < 18) {o = mkop(0, SETDEF, {10 * (int64_t)r.below(6)});
    } else if (x < 20) {o = mkop(0, SETLVL, {10 * (int64_t)r.below(6)}, {r.pick(std::vector<std::string>{"", "a", "a.b", "c"})});
    } else if (x < 21) {o = mkop(0, SETHANDLER, {(int64_t)r.below(3)});
    } else if (x < 22) {o = mkop(0, GETHANDLER);
    } else if (x < 23) {o = mkop(0, QUERY, {(int64_t)r.below(4)}, {r.pick(std::vector<std::string>{"", "a", "a.b", "c"})});
    } else {o = mkop(0, TTY, {(int64_t)r.below(4)});}
    if (o.code == INIT) {gen_faults(r, o, {F_ALLOC, F_ALLOC, F_FI, F_SETVBUF, F_WRITE, F_FMT}, faultn, 3);
    } else if (o.code != SETENV && o.code != TTY) {gen_faults(r, o, {F_ALLOC, F_FI, F_SETVBUF, F_WRITE, F_FMT}, faultn, 12);}
    p.ops.push_back(o);
  }
}
int handled;
void other_handler(const rcutils_log_location_t *, int, const char *, rcutils_time_point_value_t, const char *, va_list *) {++handled;}
struct Cfg {
  bool out = false, color = false, autocolor = true, fmt_known = true;
  int buf = -1;
  std::string format;
  int def = 20;
  std::map<std::string, int> lv;
  rcutils_logging_output_handler_t handler = nullptr;
  int id = 0;
};
bool inited;
Cfg cur;
std::string env(int v) {auto i = g_env.find(VARS[v]); return i == g_env.end() ? "" : i->second;}
// what the environment says; false: some variable has a value that is not accepted
bool want_cfg(Cfg & c)
{
  c = Cfg();
  c.handler = &rcutils_logging_console_output_handler;
  for (int v = 0; v < 3; ++v) {
    std::string e = env(v);
    if (e != "" && e != "0" && e != "1") {return false;}
    if (v == 0) {c.out = e == "1";}
    if (v == 1) {c.buf = e == "" ? -1 : e == "0" ? _IONBF : _IOLBF;}
    if (v == 2) {c.autocolor = e == ""; c.color = e == "1";}
  }
  c.format = env(3).empty() ? default_format() : env(3);
  return true;
}
bool line_ok(const std::string & got, const Cfg & c, const LogRec & rec)
{
  std::string f = c.format;
  size_t parts = 0;
  for (size_t cut : {(size_t)2047, (size_t)2048, f.size()}) {
    std::string body = render(f.substr(0, cut), rec, &parts), g = got;
    if (g.empty() || g.back() != '\n') {return false;}
    g.pop_back();
    bool color = c.autocolor ? g_isatty[c.out ? 1 : 2] : c.color;
    if (color) {
      size_t m = g.find('m');
      if (g.compare(0, 2, "\033[") != 0 || m == std::string::npos || g.size() < m + 5) {continue;}
      if (g.substr(g.size() - 4) != "\033[0m") {continue;}
      g = g.substr(m + 1, g.size() - m - 5);
    }
    if (g == body) {return true;}
    if (parts >= 1024 && g.size() < body.size() && body.compare(0, g.size(), g) == 0) {probe("too-many-substitutions"); return true;}
  }
  return false;
}
void log_it(int sev, const std::string & name, const std::string & msg)
{
  static const rcutils_log_location_t loc = {"some_function", "dir/some_file.cpp", 1234567u};
  rcutils_log(&loc, sev, guarded_str(name), "%s", guarded_str(msg));
}
LogRec rec_of(int sev, const std::string & name, const std::string & msg)
{
  LogRec r;
  r.msg = msg;
  r.name = name;
  r.sev = sev;
  r.fn = "some_function";
  r.file = "dir/some_file.cpp";
  r.line = 1234567;
  r.ts = g_clock.last_wall;
  return r;
}
int eff(const std::string & n)
{
  std::string s = n;
  while (true) {
    auto i = cur.lv.find(s);
    if (i != cur.lv.end() && i->second) {return i->second;}
    size_t k = s.rfind('.');
    if (k == std::string::npos) {return cur.def;}
    s = s.substr(0, k);
  }
}
// logs one line with nothing failing and compares it with the configuration in force
void probe_line(const char * after)
{
  if (cur.handler != &rcutils_logging_console_output_handler) {return;}
  int sev = 50;
  size_t a = g_out.data.size(), b = g_err.data.size();
  log_it(sev, "c.probe", "probe message");
  std::string o = g_out.data.substr(a), e = g_err.data.substr(b);
  CHECK((cur.out ? e : o).empty(), "stream", "%s: a message for %s wrote '%.80s' to the other stream", after, cur.out ? "stdout" : "stderr",
    (cur.out ? e : o).c_str());
  const std::string & g = cur.out ? o : e;
  Cfg d = cur;
  d.format = default_format();
  CHECK(line_ok(g, cur, rec_of(sev, "c.probe", "probe message")) || (!cur.fmt_known && line_ok(g, d, rec_of(sev, "c.probe", "probe message"))),
    "line", "%s: with the format '%.200s' the line is '%.300s'", after, cur.format.c_str(), g.c_str());
}
void check_cfg(const char * after)
{
  Oracle q;
  CHECK(g_rcutils_logging_initialized == inited, "initialized-flag", "after %s the initialised flag is %d", after, g_rcutils_logging_initialized);
  if (!inited) {
    for (int i = 0; i < 8; ++i) {CHECK(live_blocks(i) == 0, "leak", "after %s logging is down but memory of allocator %d is in use", after, i);}
    return;
  }
  for (int i = 0; i < 8; ++i) {
    if (i != cur.id) {CHECK(live_blocks(i) == 0, "allocator", "after %s memory of allocator %d is in use, not only of %d", after, i, cur.id);}
  }
  CHECK(rcutils_logging_get_output_handler() == cur.handler, "handler", "after %s another output handler is installed", after);
  CHECK(rcutils_logging_get_default_logger_level() == cur.def, "default-level", "after %s the default level is %d, not %d", after,
    rcutils_logging_get_default_logger_level(), cur.def);
  for (const char * n : {"a", "a.b", "c", "c.d"}) {
    int e = rcutils_logging_get_logger_effective_level(n);
    CHECK(e == eff(n), "logger-level", "after %s the level of '%s' is %d, not %d", after, n, e, eff(n));
  }
  probe_line(after);
  rcutils_reset_error();
}
// after a call that may have initialised logging: ret is the result or -1 when it is not known (automatic initialisation)
void settle(const char * what, int id, int ret, int f)
{
  Cfg w;
  bool good = want_cfg(w);
  if (inited) {return;}
  bool now = g_rcutils_logging_initialized;
  if (ret >= 0) {CHECK((ret == RCUTILS_RET_OK) == now, "init", "%s returned %d but the initialised flag is %d", what, ret, now);}
  CHECK(!now || good || (f && false), "init-bad-environment", "%s accepted an invalid environment", what);
  CHECK(now || !good || f, "init", "%s failed (%d) in a good environment", what, ret);
  if (!now) {probe(good ? "init-failed-by-fault" : "init-failed-by-environment"); return;}
  if (f) {probe("init-survived-fault");}
  w.id = id;
  w.fmt_known = !fired_kind(F_FI);
  inited = true;
  cur = w;
  Stream & s = w.out ? g_out : g_err, & t = w.out ? g_err : g_out;
  CHECK(s.bufmode == w.buf, "buffering", "%s: buffering mode %d requested, %d set", what, w.buf, s.bufmode);
  CHECK(t.bufmode == -1, "buffering", "%s: the buffering of the other stream was changed to %d", what, t.bufmode);
}
void exec(const Plan & p)
{
  run_single(p, [&] {
    g_clock.set(p.C("clock"), 1000);
    g_clock.tick = 7;
    g_tz_offset = p.C("tz");
    inited = false;
    int nth = 0;
    for (auto & o : p.ops) {
      begin_op(o, names[o.code]);
      g_out.bufmode = g_err.bufmode = -1;
      const std::string & n = o.S(0);
      size_t a = g_out.data.size(), b = g_err.data.size();
      uint64_t c0[8];
      for (int i = 0; i < 8; ++i) {c0[i] = alloc_calls(i);}
      bool was = inited;
      int h0 = handled;
      ++nth;
      switch (o.code) {
        case SETENV: {
            int v = (int)umod(o.A(0), 5);
            if (o.A(1)) {g_env.erase(VARS[v]);} else {g_env[VARS[v]] = n.substr(0, n.find('\0'));}
            break;
          }
        case INIT: {
            int id = (int)o.A(0);
            if (id < 0 || (id > 3 && id != 8 && id != 9)) {id = 1;}
            rcutils_allocator_t al = id == 9 ? rcutils_get_zero_initialized_allocator() : allocator(id >= 1 && id <= 3 ? id : 1);
            if (id == 9 && o.A(1)) {al = allocator(1); al.reallocate = nullptr;}
            rcutils_ret_t r = -1;
            if (o.A(2) & 1) {                  // what the log macros do first: no result, a failure is only told on stderr
              rcutils_reset_error();
              un_autoinit(id == 0 || id == 8 ? nullptr : &al);
              fi_off();
              std::string told = g_err.data.substr(b);
              if (was) {CHECK(told.empty() && g_out.data.size() == a, "init-again", "initialising again wrote '%.80s'", told.c_str());
              } else if (!g_rcutils_logging_initialized) {
                probe("auto-init-failed");
                CHECK(!rcutils_error_is_set(), "auto-init", "a failed automatic initialisation left an error set");
                CHECK(fired_kind(F_WRITE) || told.find("error initializing logging: ") != std::string::npos, "auto-init", "a failed automatic initialisation says '%.120s'", told.c_str());
                CHECK(id != 9 || fired() || told.find("llocator is invalid") != std::string::npos, "auto-init", "an invalid allocator is reported as '%.120s'", told.c_str());
              }
              r = was || g_rcutils_logging_initialized ? RCUTILS_RET_OK : id == 9 ? RCUTILS_RET_INVALID_ARGUMENT : -1;
            } else {r = id == 0 || id == 8 ? rcutils_logging_initialize() : rcutils_logging_initialize_with_allocator(al);}
            fi_off();
            int f = fired();
            if (was) {
              CHECK(r == RCUTILS_RET_OK, "init-again", "initialising again returned %d", r);
              for (int i = 0; i < 8; ++i) {CHECK(alloc_calls(i) == c0[i], "init-again", "initialising again used allocator %d", i);}
            } else if (id == 9) {
              CHECK(r == RCUTILS_RET_INVALID_ARGUMENT && !g_rcutils_logging_initialized, "init-bad-allocator", "an invalid allocator gives %d", r);
            } else {settle("initialisation", id == 8 ? 0 : id, r, f);}
            if (nth > 3 && inited && !was) {probe("initialised-again");}
            break;
          }
        case SHUTDOWN: {
            rcutils_ret_t r = rcutils_logging_shutdown();
            fi_off();
            CHECK(r == RCUTILS_RET_OK || fired(), "shutdown", "shutdown returned %d", r);
            CHECK(!g_rcutils_logging_initialized, "shutdown", "still initialised after shutdown");
            inited = false;
            break;
          }
        case LOG: {
            int sev = 10 * (int)(1 + umod(o.A(0) / 10 - 1, 5));
            log_it(sev, n, o.S(1));
            fi_off();
            int f = fired();
            settle("a log call", 0, -1, f);
            if (f || !inited) {break;}
            std::string so = g_out.data.substr(a), se = g_err.data.substr(b);
            if (!was) {break;}                 // start-up may have said something on stderr
            bool en = sev >= (n.empty() && cur.lv.count("") && cur.lv[""] ? cur.lv[""] : eff(n));
            if (n.empty() && cur.lv.count("") && cur.lv[""] != cur.def) {break;}
            if (cur.handler == &rcutils_logging_console_output_handler && en) {
              CHECK((cur.out ? se : so).empty(), "stream", "a message for %s wrote '%.80s' to the other stream", cur.out ? "stdout" : "stderr",
                (cur.out ? se : so).c_str());
              CHECK(line_ok(cur.out ? so : se, cur, rec_of(sev, n, o.S(1).substr(0, o.S(1).find('\0')))) || !cur.fmt_known, "line",
                "with the format '%.200s' the line is '%.300s'", cur.format.c_str(), (cur.out ? so : se).c_str());
            } else {
              CHECK(so.empty() && se.empty(), "output", "a message that is not for the console wrote '%.80s'", (so + se).c_str());
              CHECK(handled - h0 == (cur.handler == &other_handler && en ? 1 : 0), "handler", "the handler was called %d times", handled - h0);
            }
            break;
          }
        case SETDEF: {
            rcutils_logging_set_default_logger_level((int)o.A(0));
            fi_off();
            settle("set_default_logger_level", 0, -1, fired());
            if (inited) {cur.def = o.A(0) ? (int)o.A(0) : 20;}
            break;
          }
        case SETLVL: {
            int level = 10 * (int)umod(o.A(0) / 10, 6);
            rcutils_ret_t r = rcutils_logging_set_logger_level(guarded_str(n), level);
            fi_off();
            int f = fired();
            settle("set_logger_level", 0, -1, f);
            if (inited) {
              CHECK(r == RCUTILS_RET_OK || f, "set-level", "set_logger_level returned %d", r);
              if (r == RCUTILS_RET_OK) {
                cur.lv[n] = level;
                Oracle q;
                if (n.empty()) {cur.def = level ? level : rcutils_logging_get_default_logger_level();}
              }
            } else {CHECK(r != RCUTILS_RET_OK, "set-level", "set_logger_level succeeded without a logging system");}
            break;
          }
        case SETHANDLER: {
            auto h = umod(o.A(0), 3) == 0 ? &other_handler : umod(o.A(0), 3) == 1 ? nullptr : &rcutils_logging_console_output_handler;
            rcutils_logging_set_output_handler(h);
            fi_off();
            settle("set_output_handler", 0, -1, fired());
            if (inited) {cur.handler = h;}
            break;
          }
        case GETHANDLER: {
            auto h = rcutils_logging_get_output_handler();
            fi_off();
            settle("get_output_handler", 0, -1, fired());
            if (inited) {CHECK(h == cur.handler, "handler", "another output handler is installed");}
            break;
          }
        case QUERY: {
            int g = umod(o.A(0), 4) == 0 ? rcutils_logging_get_default_logger_level() : umod(o.A(0), 4) == 1 ?
              rcutils_logging_get_logger_level(guarded_str(n)) : umod(o.A(0), 4) == 2 ? rcutils_logging_get_logger_effective_level(guarded_str(n)) :
              rcutils_logging_logger_is_enabled_for(guarded_str(n), 40);
            (void)g;
            fi_off();
            settle("a query", 0, -1, fired());
            break;
          }
        case TTY: g_isatty[1] = o.A(0) & 1; g_isatty[2] = o.A(0) & 2; break;
        default: break;
      }
      end_op("%d", inited);
      {Quiet q; rcutils_reset_error();}
      check_cfg(names[o.code]);
    }
    // whatever happened, a good environment gives a working system
    if (!inited) {
      Oracle q;
      for (auto v : VARS) {g_env.erase(v);}
      g_out.bufmode = g_err.bufmode = -1;
      rcutils_ret_t r = rcutils_logging_initialize_with_allocator(allocator(3));
      settle("initialisation at the end", 3, r, 0);
    }
    check_cfg("the end");
    finish_run("at the end");
  });
}
const Workload W{"C12", names, NOPS, gen, exec};
Reg reg(&W);
}  // namespace
