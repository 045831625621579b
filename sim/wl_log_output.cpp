// C13: lines of the console handler.  C14: delivery to the output handler.
#include "logmodel.h"
using namespace sim;
namespace {
// ---------------------------------------------------------------- C13
enum { LOG, LOGI, DIRECT, FORMAT, NOPS };
const char * const names[] = {"log", "log_internal", "console-handler", "format_message"};
std::string gen_msg(Rng & r)
{
  unsigned x = (unsigned)r.below(10);
  size_t n = r.chance(1, 3000) ? wide_len(r) : x < 5 ? r.below(30) : x < 7 ? (size_t)r.range(960, 1060) : x < 8 ? (size_t)r.range(1, 3000) : x < 9 ? 1023 : 0;
  std::string s;
  while (s.size() < n) {s += r.pick(std::vector<std::string>{"w", "ord ", "{", "}", "%s", "%", "\\n", "\n", "{name}", "xyz"});}
  s.resize(n);
  return s;
}
void gen(Rng & r, Plan & p, bool th)
{
  int nt = (int)r.pick(std::vector<int>{1, 2, 2, 3, 4});
  p.cfg["threads"] = nt;
  gen_schedule(r, p, nt, 2500);
  p.cfg["clock"] = (int64_t)r.below(4000000000ull) * 1000000000ll + (int64_t)r.below(1000000000);
  p.cfg["tick"] = (int64_t)r.pick(std::vector<int64_t>{1, 1000, 999999937, 60000000000ll});
  p.cfg["tz"] = r.pick(std::vector<int64_t>{0, 0, 3600, -18000, 20700});
  p.cfg["out"] = r.chance(1, 2);
  p.cfg["color"] = r.below(4);              // 0 off, 1 on, 2/3 by terminal
  p.cfg["tty"] = r.below(4);
  p.cfg["buf"] = r.below(3);
  p.cfg["deflevel"] = 10 * r.range(1, 3);
  bool custom = r.chance(3, 4);
  Op cfg = mkop(-1, NOPS, {custom}, {custom ? gen_format(r, th) : ""});
  if (r.chance(1, 2)) {cfg.s[0] = cfg.s[0].empty() ? "" : cfg.s[0] + "{message}";}
  for (int i = 0; i < (int)r.below(4); ++i) {
    cfg.a.push_back(10 * r.range(1, 5));
    cfg.s.push_back(r.pick(std::vector<std::string>{"a", "a.b", "b", "c.d"}));
  }
  p.ops.push_back(cfg);
  size_t n = 2 + r.below(th ? 24 : 12);
  unsigned faultn = (unsigned)r.pick(std::vector<int>{0, 0, 1, 2});
  for (size_t i = 0; i < n; ++i) {
    unsigned x = (unsigned)r.below(16);
    int code = x < 11 ? LOG : x < 13 ? LOGI : x < 15 ? DIRECT : FORMAT;
    std::string nm = r.pick(std::vector<std::string>{"", "a", "a.b", "a.b.c", "b", "c.d", "e"});
    if (r.chance(1, 20)) {nm = std::string(r.chance(1, 250) ? wide_len(r) : (size_t)r.range(100, 1100), 'N');}
    Op o = mkop((int)r.below((uint64_t)nt), code,
      {r.chance(15, 16) ? 10 * r.range(1, 5) : r.pick(std::vector<int64_t>{0, 60, 15, -10}), (int64_t)r.below(8), (int64_t)r.below(64),
        r.pick(std::vector<int64_t>{0, 1, 999999999, 1000000000, 1700000000123456789ll, (int64_t)r.below(9000000000000000000ull)}),
        r.pick(std::vector<int64_t>{1, 42, 999999999, 1000000000, 4294967296ll, (int64_t)r.below(100000)})},
      {nm, gen_msg(r), r.chance(1, 12) ? std::string(r.chance(1, 400) ? wide_len(r) : (size_t)r.range(900, 1200), 'f') : "path/file_" + std::to_string(r.below(9)) + ".cpp"});
    gen_faults(r, o, nt == 1 ? std::vector<int>{F_ALLOC, F_ALLOC, F_FMT, F_WRITE, F_CLOCK, F_LOCALTIME, F_STRFTIME, F_FI} :
      std::vector<int>{F_ALLOC, F_ALLOC, F_FMT, F_WRITE, F_CLOCK, F_LOCALTIME, F_STRFTIME}, faultn, 6);
    p.ops.push_back(o);
  }
}
// what the thread's error state says before a call
std::string error_before(const Op & o)
{
  Quiet q;
  if (o.A(2) & 2) {rcutils_set_error_state("an earlier error", "earlier.c", 3);}
  return rcutils_get_error_string().str;
}
void error_after(const std::string & was, int f)
{
  Quiet q;
  std::string now = rcutils_get_error_string().str;
  rcutils_reset_error();
  CHECK(f || was == now, "error-state", "a log call in which nothing failed changed the error '%.100s' to '%.100s'", was.c_str(), now.c_str());
}
std::string fmt_direct;
void direct(const rcutils_log_location_t * loc, int sev, const char * name, int64_t ts, const char * f, ...)
{
  va_list ap;
  va_start(ap, f);
  rcutils_logging_console_output_handler(loc, sev, name, ts, f, &ap);
  va_end(ap);
}
std::string fmt(const char * f, ...)
{
  va_list ap, c;
  va_start(ap, f);
  va_copy(c, ap);
  int n = vsnprintf(nullptr, 0, f, c);
  va_end(c);
  std::string s((size_t)n + 1, 0);
  vsnprintf(&s[0], s.size(), f, ap);
  va_end(ap);
  s.resize((size_t)n);
  return s;
}
#define CALL(fn, ...) \
  switch (kind) { \
    case 0: case 1: case 2: fn(__VA_ARGS__, "%s", m); break; \
    case 3: fn(__VA_ARGS__, "%d:%s|%05ld|%c", i, m, (long)i * 77, 'q'); break; \
    case 4: fn(__VA_ARGS__, "%*s<%.*s>", 1100, "pad", i, m); break; \
    case 5: fn(__VA_ARGS__, "100%% {message} without arguments"); break; \
    case 6: fn(__VA_ARGS__, "%.3f %s %llx %s", 2.5 * i, m, 0x1234567890ull + (unsigned)i, "tail"); break; \
    default: fn(__VA_ARGS__, "%s%s%s%s", m, m, m, "end"); break; \
  }
std::string expected(int kind, const char * m, int i)
{
  std::string s;
  auto f2 = [&](auto... a) {s = fmt(a...);};
  switch (kind) {
    case 0: case 1: case 2: f2("%s", m); break;
    case 3: f2("%d:%s|%05ld|%c", i, m, (long)i * 77, 'q'); break;
    case 4: f2("%*s<%.*s>", 1100, "pad", i, m); break;
    case 5: f2("100%% {message} without arguments"); break;
    case 6: f2("%.3f %s %llx %s", 2.5 * i, m, 0x1234567890ull + (unsigned)i, "tail"); break;
    default: f2("%s%s%s%s", m, m, m, "end"); break;
  }
  return s;
}
std::map<std::string, int> lv;
int deflevel;
int eff(const std::string & n)
{
  std::string s = n;
  while (true) {
    auto i = lv.find(s);
    if (i != lv.end() && i->second) {return i->second;}
    size_t k = s.rfind('.');
    if (k == std::string::npos) {return deflevel;}
    s = s.substr(0, k);
  }
}
struct Done { std::string line; uint64_t from, to; int tid; bool hit; };
void exec(const Plan & p)
{
  int nt = (int)p.C("threads", 1);
  std::string format;
  bool out = p.C("out"), color = false;
  const Op * cfg = nullptr;
  for (auto & o : p.ops) {if (o.code == NOPS) {cfg = &o;}}
  run_single(p, [&] {
    Oracle q;
    g_clock.set(p.C("clock"), 5);
    g_clock.tick = std::max<int64_t>(1, p.C("tick", 1));
    g_tz_offset = p.C("tz");
    g_isatty[1] = p.C("tty") & 1;
    g_isatty[2] = p.C("tty") & 2;
    g_env["RCUTILS_LOGGING_USE_STDOUT"] = out ? "1" : "0";
    if (p.C("buf") < 2) {g_env["RCUTILS_LOGGING_BUFFERED_STREAM"] = p.C("buf") ? "1" : "0";}
    if (p.C("color") < 2) {g_env["RCUTILS_COLORIZED_OUTPUT"] = p.C("color") ? "1" : "0";}
    color = p.C("color") < 2 ? p.C("color") : g_isatty[out ? 1 : 2];
    format = cfg && cfg->A(0) && !cfg->S(0).empty() ? cfg->S(0) : default_format();
    if (cfg && cfg->A(0)) {g_env["RCUTILS_CONSOLE_OUTPUT_FORMAT"] = cfg->S(0);}
    CHECK(rcutils_logging_initialize_with_allocator(allocator(1)) == RCUTILS_RET_OK, "init", "cannot initialise logging");
    deflevel = p.C("deflevel", 20) ? (int)p.C("deflevel", 20) : 20;
    rcutils_logging_set_default_logger_level(deflevel);
    lv.clear();
    for (size_t i = 1; cfg && i < cfg->s.size(); ++i) {
      int level = 10 * (int)umod(cfg->A(i) / 10, 6);
      if (cfg->s[i].empty()) {continue;}
      CHECK(rcutils_logging_set_logger_level(cfg->s[i].c_str(), level) == RCUTILS_RET_OK, "init", "cannot set a level");
      lv[cfg->s[i]] = level;
    }
  });
  size_t before = live_blocks(1);
  static std::vector<Done> done;
  done.clear();
  Stream & S = out ? g_out : g_err, & T = out ? g_err : g_out;
  run_threads(p, nt, [&](int tid) {
    for (auto & o : p.ops) {
      if (o.tid != tid || o.code == NOPS) {continue;}
      begin_op(o, names[o.code]);
      int sev = (int)o.A(0), kind = (int)umod(o.A(1), 8), i = (int)umod(o.A(2), 64);
      bool nul = i == 7, noloc = i % 5 == 0;
      const char * m = guarded_str(o.S(1).substr(0, o.S(1).find('\0')));
      const char * nm = guarded_str(o.S(0));
      std::string fn = "function_" + std::to_string(i);
      rcutils_log_location_t loc = {fn.c_str(), o.S(2).c_str(), (size_t)o.A(4)};
      size_t sw = S.writes.size(), tw = T.writes.size();
      uint64_t from = event_seq();
      int64_t w0 = g_clock.wall();
      bool enabled = true;
      LogRec rec;
      rec.msg = expected(kind, m, i);
      rec.name = nul ? "" : o.S(0);
      rec.fn = fn;
      rec.file = o.S(2);
      rec.line = (uint64_t)o.A(4);
      rec.loc = !noloc;
      rec.sev = sev;
      rec.ts = o.A(3);
      bool known_sev = sev >= 10 && sev <= 50 && sev % 10 == 0;
      if (o.code == FORMAT) {
        if (!known_sev) {end_op(); continue;}
        rcutils_char_array_t a = rcutils_get_zero_initialized_char_array();
        rcutils_allocator_t al = allocator(2);
        rcutils_ret_t r = rcutils_char_array_init(&a, 0, allocp(al));
        bool ini = r == RCUTILS_RET_OK;
        if (ini) {r = rcutils_char_array_strcpy(&a, "");}
        if (r == RCUTILS_RET_OK) {r = rcutils_logging_format_message(noloc ? nullptr : &loc, sev, nm, o.A(3), m, &a);}
        fi_off();
        rec.msg = m;
        rec.name = o.S(0);
        size_t parts;
        std::string want = render(format.substr(0, 2047), rec, &parts);
        CHECK(r == RCUTILS_RET_OK || fired(), "format-message", "formatting returned %d", r);
        if (r == RCUTILS_RET_OK) {
          std::string got = a.buffer;
          CHECK(got == want || (parts >= 1024 && want.compare(0, got.size(), got) == 0), "format-message", "format '%.200s' gave '%.200s', not '%.200s'",
            format.c_str(), got.c_str(), want.c_str());
        }
        if (ini) {CHECK(rcutils_char_array_fini(&a) == RCUTILS_RET_OK, "format-message", "cannot finalise the buffer");}
        Quiet q;
        rcutils_reset_error();
        end_op();
        continue;
      }
      std::string eb = error_before(o);
      rcutils_log_location_t * l = noloc ? nullptr : &loc;
      const char * n = nul && o.code != DIRECT ? nullptr : nm;
      if (o.code == DIRECT) {rec.name = o.S(0);}
      if (o.code == LOG) {enabled = sev >= (n ? eff(o.S(0)) : deflevel); CALL(rcutils_log, l, sev, n)
      } else if (o.code == LOGI) {CALL(rcutils_log_internal, l, sev, n)} else {CALL(direct, l, sev, nm, o.A(3))}
      uint64_t to = event_seq();
      fi_off();
      int f = fired();
      std::string got, other;
      for (size_t k = sw; k < S.writes.size(); ++k) {if (S.writes[k].tid == tid) {got += S.writes[k].text;}}
      for (size_t k = tw; k < T.writes.size(); ++k) {if (T.writes[k].tid == tid) {other += T.writes[k].text;}}
      // no other thread's output may stand inside this line
      bool mixed = false, seen = false, foreign = false;
      for (size_t k = sw; k < S.writes.size(); ++k) {
        if (S.writes[k].tid == tid) {mixed = mixed || (seen && foreign); seen = true;} else if (seen) {foreign = true;}
      }
      std::string line;
      end_op("%zu", got.size());
      error_after(eb, f);
      if (f) {                               // the message may be missing or cut short; diagnostics go to stderr
        probe("faulted-message");
        if (nt == 1) {CHECK(live_blocks(1) == before, "leak", "a failed log call kept memory");}
        if (fired_kind(F_FI)) {continue;}    // the injection itself says so on stdout
        if (out && enabled && known_sev && !color && (o.code == DIRECT || decode_escapes(format).find("time") == std::string::npos)) {
          std::string want = render(format.substr(0, 2047), rec) + "\n";
          CHECK(want.compare(0, got.size(), got) == 0, "faulted-line", "a failing log call wrote '%.200s', which is no beginning of '%.200s'",
            got.c_str(), want.c_str());
        }
        if (out && !enabled) {CHECK(got.empty(), "disabled-output", "a message below the level wrote '%.100s'", got.c_str());}
        continue;
      }
      if (!enabled) {
        CHECK(got.empty() && other.empty(), "disabled-output", "a message below the level wrote '%.100s'", (got + other).c_str());
        continue;
      }
      if (!known_sev) {
        CHECK(out ? got.empty() : true, "unknown-severity", "a message of unknown severity %d wrote '%.100s'", sev, got.c_str());
        continue;
      }
      CHECK(!mixed, "mixed-lines", "output of another thread stands inside the line '%.200s'", got.c_str());
      CHECK(other.empty(), "stream", "the message for %s also wrote '%.100s' to the other stream", out ? "stdout" : "stderr", other.c_str());
      CHECK(!got.empty() && got.back() == '\n', "line", "the message gave '%.200s', not a whole line", got.c_str());
      std::string g = got.substr(0, got.size() - 1);
      if (color) {
        size_t e = g.find('m');
        CHECK(g.compare(0, 2, "\033[") == 0 && e != std::string::npos && g.size() >= e + 5 && g.substr(g.size() - 4) == "\033[0m", "color",
          "the line is not wrapped in a colour: '%.200s'", g.c_str());
        static const std::map<int, std::string> col = {{10, "32"}, {20, "0"}, {30, "33"}, {40, "31"}, {50, "31"}};
        CHECK(g.substr(2, e - 2) == col.at(sev), "color", "severity %d is shown in colour '%s'", sev, g.substr(2, e - 2).c_str());
        g = g.substr(e + 1, g.size() - e - 5);
      }
      size_t parts = 0;
      std::string ff = format.substr(0, 2047), want;
      bool ok = false;
      if (o.code == DIRECT || decode_escapes(ff).find("time") == std::string::npos) {
        want = render(ff, rec, &parts);
        ok = g == want;
      } else {
        int64_t w1 = g_clock.wall(), tick = g_clock.tick;
        for (int64_t t = w0 + tick; t <= w1 && !ok; t += tick) {
          rec.ts = t;
          want = render(ff, rec, &parts);
          ok = g == want;
        }
        if (want.empty()) {rec.ts = 0; want = render(ff, rec, &parts);}
      }
      if (!ok && parts >= 1024) {ok = want.compare(0, g.size(), g) == 0; probe("too-many-substitutions");}
      if (rec.msg.size() > 1023) {probe("long-message");}
      size_t df = 0;
      while (df < g.size() && df < want.size() && g[df] == want[df]) {++df;}
      CHECK(ok, "line", "thread %d, format '%.200s': the line differs at byte %zu of %zu: '%.120s', not '%.120s'", tid, format.c_str(), df, want.size(),
        g.c_str() + (df < 20 ? 0 : df - 20), want.c_str() + (df < 20 ? 0 : df - 20));
      (void)from;
      (void)to;
      if (nt == 1) {CHECK(live_blocks(1) == before, "leak", "a log call kept memory");}
    }
  });
  run_single(p, [&] {
    Oracle q;
    size_t a = S.data.size();
    direct(nullptr, 50, "last", 0, "last %d", 1);
    std::string g = S.data.substr(a);
    LogRec rec;
    rec.msg = "last 1";
    rec.name = "last";
    rec.loc = false;
    rec.sev = 50;
    size_t parts;
    std::string want = render(format.substr(0, 2047), rec, &parts);
    if (color) {want = "\033[31m" + want + "\033[0m";}
    CHECK(g == want + "\n" || parts >= 1024, "still-working", "afterwards the console handler wrote '%.200s', not '%.200s'", g.c_str(), want.c_str());
    CHECK(live_blocks(1) == before, "leak", "log calls kept %zu blocks", live_blocks(1) - before);
    finish_run("at the end");
  });
}
const Workload W{"C13", names, NOPS, gen, exec};
Reg reg(&W);

// ---------------------------------------------------------------- C14
enum { DLOG, DLOGI, DSET, DLEVEL, DDEF, DJUMP, DGET, D_NOPS };
const char * const dnames[] = {"log", "log_internal", "set_handler", "set_level", "set_default_level", "clock-jump", "get_handler"};
void dgen(Rng & r, Plan & p, bool th)
{
  int nt = (int)r.pick(std::vector<int>{1, 2, 2, 3, 4});
  p.cfg["threads"] = nt;
  if (r.chance(1, 40)) {
    // the first log calls of all initialise logging
    p.cfg["lazy"] = 1;
    gen_schedule(r, p, nt, 400);
    for (int i = 0, k = nt + (int)r.below(6); i < k; ++i) {
      p.ops.push_back(mkop(i < nt ? i : (int)r.below((uint64_t)nt), DLOG, {10 * r.range(1, 5)},
        {r.pick(std::vector<std::string>{"", "a", "a.b"}), gen_text(r, 12, "ab ")}));
    }
    return;
  }
  gen_schedule(r, p, nt, 400);
  p.cfg["clock"] = (int64_t)r.below(4000000000ull) * 1000000000ll + (int64_t)r.below(1000000000);
  p.cfg["tick"] = (int64_t)r.pick(std::vector<int64_t>{1, 1000, 999999937});
  p.cfg["auto"] = r.chance(1, 6);
  int epochs = (int)r.range(1, th ? 5 : 3);
  p.cfg["epochs"] = epochs;
  unsigned faultn = (unsigned)r.pick(std::vector<int>{0, 0, 1, 2});
  static const std::vector<std::string> nms = {"", "a", "a.b", "a.b.c", "b", "c.d", "e"};
  for (int e = 0; e < epochs; ++e) {
    for (int i = 0, k = (int)r.below(4); i < k; ++i) {
      unsigned x = (unsigned)r.below(10);
      Op o = x < 4 ? mkop(-1, DSET, {0, 0, 0, 0, (int64_t)r.below(4)}) : x < 6 ? mkop(-1, DLEVEL, {10 * (int64_t)r.below(6)}, {r.pick(nms)}) :
        x < 7 ? mkop(-1, DDEF, {10 * (int64_t)r.below(6)}) : x < 9 ? mkop(-1, DJUMP, {0, 0, 0, 0, (int64_t)r.range(-2000000000000ll, 2000000000000ll)}) :
        mkop(-1, DGET);
      o.a.resize(6);
      o.a[5] = e;
      p.ops.push_back(o);
    }
    for (int i = 0, k = 1 + (int)r.below(th ? 16 : 9); i < k; ++i) {
      Op o = mkop((int)r.below((uint64_t)nt), r.chance(5, 6) ? DLOG : DLOGI,
        {r.chance(9, 10) ? 10 * r.range(1, 5) : (int64_t)r.range(-5, 70), (int64_t)r.below(8), (int64_t)r.below(64), (int64_t)r.below(3), 0, e},
        {r.chance(1, 20) ? gen_long(r, 600, ".") : r.pick(nms), gen_text(r, r.chance(1, 8) ? (r.chance(1, 400) ? 70000 : 1500) : 16, "ab{}% \n")});
      gen_faults(r, o, {F_CLOCK, F_CLOCK, F_ALLOC, F_WRITE, F_FMT}, faultn, 6);
      p.ops.push_back(o);
    }
  }
}
struct Call { int which, tid, sev; bool loc; std::string fn, file, name, text; size_t line; int64_t ts; const char * format; };
std::vector<Call> calls;
int nest;
void got(int which, const rcutils_log_location_t * l, int sev, const char * name, int64_t ts, const char * f, va_list * args)
{
  Call c{which, my_tid(), sev, l != nullptr, "", "", name ? name : "(null)", "", 0, ts, f};
  if (l) {c.fn = l->function_name; c.file = l->file_name; c.line = l->line_number;}
  va_list a;
  va_copy(a, *args);
  static thread_local char b[300000];
  vsnprintf(b, sizeof b, f, a);
  va_end(a);
  c.text = b;
  ev("handler %d sev %d", which, sev);
  calls.push_back(c);
  yield(Y_CALL);
}
void h0(const rcutils_log_location_t * l, int s, const char * n, rcutils_time_point_value_t t, const char * f, va_list * a) {got(0, l, s, n, t, f, a);}
void h1(const rcutils_log_location_t * l, int s, const char * n, rcutils_time_point_value_t t, const char * f, va_list * a) {got(1, l, s, n, t, f, a);}
// a handler that logs itself
void h2(const rcutils_log_location_t * l, int s, const char * n, rcutils_time_point_value_t t, const char * f, va_list * a)
{
  got(2, l, s, n, t, f, a);
  if (strcmp(f, "nested %d") != 0) {rcutils_log(nullptr, 50, nullptr, "nested %d", 5);}
}
// Log calls of several threads, the first of which initialise logging: every message above INFO is written once, whole.
void lazy_exec(const Plan & p)
{
  int nt = (int)p.C("threads", 1);
  static bool reads[8];
  memset(reads, 0, sizeof reads);
  g_clock.set(1700000000000000000ll, 5);
  g_clock.tick = 1;
  g_env.erase("RCUTILS_CONSOLE_OUTPUT_FORMAT");
  g_on_getenv = [] (const char *) {
    // the environment is read while initialising: a second thread in there finds logging half initialised by the first
    reads[my_tid()] = true;
    for (int i = 0; i < 8; ++i) {
      if (i != my_tid() && reads[i]) {
        known_stop("concurrent-lazy-initialisation", "threads %d and %d initialise logging at the same time in their first log calls", i, my_tid());
      }
    }
  };
  run_threads(p, nt, [&](int tid) {
    for (auto & o : p.ops) {
      if (o.tid != tid || o.code != DLOG) {continue;}
      begin_op(o, "log");
      int sev = 10 * (int)(1 + umod(o.A(0) / 10 - 1, 5));
      const char * m = guarded_str(o.S(1)), * nm = guarded_str(o.S(0));
      size_t so = g_out.writes.size(), se = g_err.writes.size();
      rcutils_log(nullptr, sev, nm, "%s", m);
      end_op();
      std::string got;
      for (size_t k = so; k < g_out.writes.size(); ++k) {CHECK(g_out.writes[k].tid != tid, "console", "something was written to stdout");}
      for (size_t k = se; k < g_err.writes.size(); ++k) {if (g_err.writes[k].tid == tid) {got += g_err.writes[k].text;}}
      static const std::map<int, std::string> sn = {{20, "INFO"}, {30, "WARN"}, {40, "ERROR"}, {50, "FATAL"}};
      std::string h = sev >= 20 ? "[" + sn.at(sev) + "] [17" : "", t = sev >= 20 ? "] [" + o.S(0) + "]: " + o.S(1) + "\n" : "";
      CHECK(got.size() == h.size() + t.size() + (sev >= 20 ? 18 : 0) && got.compare(0, h.size(), h) == 0 && got.compare(got.size() - t.size(), t.size(), t) == 0,
        "first-messages", "a message of severity %d logged while logging is not initialised yet gave '%.200s'", sev, got.c_str());
    }
  });
  probe("lazy-initialisation");
  run_single(p, [&] {finish_run("at the end");});
}
void dexec(const Plan & p)
{
  if (p.C("lazy")) {lazy_exec(p); return;}
  int nt = (int)p.C("threads", 1);
  static rcutils_logging_output_handler_t cur;
  const rcutils_logging_output_handler_t all[] = {h0, h1, h2, nullptr};
  calls.clear();
  run_single(p, [&] {
    Oracle q;
    g_clock.set(p.C("clock"), 5);
    g_clock.tick = std::max<int64_t>(1, p.C("tick", 1));
    if (!p.C("auto")) {CHECK(rcutils_logging_initialize_with_allocator(allocator(1)) == RCUTILS_RET_OK, "init", "cannot initialise logging");}
    rcutils_logging_set_output_handler(h0);
    cur = h0;
    lv.clear();
    deflevel = 20;
  });
  for (int e = 0; e < (int)p.C("epochs", 1); ++e) {
    run_single(p, [&] {
      for (auto & o : p.ops) {
        if (o.tid != -1 || o.A(5) != e) {continue;}
        begin_op(o, dnames[o.code]);
        switch (o.code) {
          case DSET: cur = all[umod(o.A(4), 4)]; rcutils_logging_set_output_handler(cur); break;
          case DLEVEL: if (!o.S(0).empty() && rcutils_logging_set_logger_level(guarded_str(o.S(0)), (int)o.A(0)) == RCUTILS_RET_OK) {lv[o.S(0)] = (int)o.A(0);} break;
          case DDEF: rcutils_logging_set_default_logger_level((int)o.A(0)); deflevel = o.A(0) ? (int)o.A(0) : 20; break;
          case DJUMP: if (g_clock.wall() + o.A(4) > 0) {g_clock.jump_wall(o.A(4));} break;
          case DGET: CHECK(rcutils_logging_get_output_handler() == cur, "handler", "the installed handler is not the one reported"); break;
          default: break;
        }
        end_op();
        Quiet q;
        rcutils_reset_error();
      }
    });
    int which = cur == h0 ? 0 : cur == h1 ? 1 : cur == h2 ? 2 : -1;
    run_threads(p, nt, [&](int tid) {
      for (auto & o : p.ops) {
        if (o.tid != tid || o.A(5) != e) {continue;}
        begin_op(o, dnames[o.code]);
        int sev = (int)o.A(0), kind = (int)umod(o.A(1), 8), i = (int)umod(o.A(2), 64);
        const char * m = guarded_str(o.S(1)), * nm = guarded_str(o.S(0));
        std::string fn = "fn_" + std::to_string(i), file = "file_" + std::to_string(i * 7);
        rcutils_log_location_t loc = {fn.c_str(), file.c_str(), (size_t)i * 1000};
        rcutils_log_location_t * l = o.A(3) == 0 ? nullptr : &loc;
        const char * n = o.A(3) == 1 && o.S(0).empty() ? nullptr : nm;
        size_t c0 = calls.size(), so = g_out.writes.size(), se = g_err.writes.size();
        int64_t w0 = g_clock.wall();
        bool enabled = o.code == DLOGI || sev >= (n ? eff(o.S(0)) : deflevel);
        std::string eb = error_before(o);
        if (o.code == DLOG) {CALL(rcutils_log, l, sev, n)} else {CALL(rcutils_log_internal, l, sev, n)}
        int64_t w1 = g_clock.wall();
        int f = fired(), mine = 0;
        end_op();
        error_after(eb, f);
        bool nested_seen = false;
        for (size_t k = c0; k < calls.size(); ++k) {
          const Call & c = calls[k];
          if (c.tid != tid) {continue;}
          if (strcmp(c.format, "nested %d") == 0) {
            nested_seen = true;
            CHECK(c.text == "nested 5" && c.name == "" && c.sev == 50 && !c.loc, "nested", "a message logged by the handler arrived as '%s'", c.text.c_str());
            continue;
          }
          ++mine;
          CHECK(c.which == which, "handler", "handler %d was called, not %d", c.which, which);
          CHECK(c.sev == sev, "severity", "severity %d arrived as %d", sev, c.sev);
          CHECK(c.loc == (l != nullptr) && (!l || (c.fn == fn && c.file == file && c.line == (size_t)i * 1000)), "location",
            "the location arrived as %s %s:%zu", c.fn.c_str(), c.file.c_str(), c.line);
          CHECK(c.name == (n ? o.S(0) : ""), "name", "the name '%s' arrived as '%s'", n ? n : "(null)", c.name.c_str());
          std::string w = expected(kind, m, i);
          CHECK(c.text == w, "message", "the message '%.200s' arrived as '%.200s'", w.c_str(), c.text.c_str());
          if (w1 >= w0) {
            CHECK(c.ts > w0 && c.ts <= w1 && (c.ts - w0) % g_clock.tick == 0, "time-stamp", "the time stamp is %lld, the clock went from %lld to %lld",
              (long long)c.ts, (long long)w0, (long long)w1);
          }
        }
        if (!f) {
          CHECK(mine == (enabled && which >= 0 ? 1 : 0), "delivery", "a message that is %s was delivered %d times (severity %d, logger '%s')",
            enabled ? "enabled" : "not enabled", mine, sev, n ? n : "(null)");
          if (which == 2 && enabled) {CHECK(nested_seen || deflevel > 50, "nested", "the message logged by the handler was lost");}
          for (size_t k = so; k < g_out.writes.size(); ++k) {CHECK(g_out.writes[k].tid != tid, "console", "something was written to stdout");}
          for (size_t k = se; k < g_err.writes.size(); ++k) {
            CHECK(g_err.writes[k].tid != tid, "console", "something was written to stderr: '%.100s'", g_err.writes[k].text.c_str());
          }
        } else {
          probe("faulted-call");
          CHECK(mine <= (enabled && which >= 0 ? 1 : 0), "delivery", "a message that is %s was delivered %d times", enabled ? "enabled" : "not enabled", mine);
        }
      }
    });
  }
  run_single(p, [&] {finish_run("at the end");});
}
const Workload DW{"C14", dnames, D_NOPS, dgen, dexec};
Reg dreg(&DW);
}  // namespace
