// C29: what is documented as allocating no memory allocates none, and so works when memory is exhausted.
#include "logmodel.h"
extern "C" {
#include "rcutils/time.h"
#include "rcutils/types/array_list.h"
#include "rcutils/types/hash_map.h"
}
using namespace sim;
namespace {
enum { L_ADD, L_SET, L_REMOVE, L_GET, L_SIZE, M_SET, M_UNSET, M_GET, M_EXISTS, M_WALK, M_COUNT, G_SET, G_DEFAULT, G_LEVEL, G_EFFECTIVE, G_ENABLED, G_HANDLER,
  LOG, LOGI, NOW, TEXT, EXHAUST, FILL, DRAIN, NOPS };
const char * const names[] = {"array_list_add", "array_list_set", "array_list_remove", "array_list_get", "array_list_get_size", "hash_map_set", "hash_map_unset",
  "hash_map_get", "hash_map_key_exists", "hash_map_get_next_key_and_data", "hash_map_get_size/capacity", "set_logger_level", "default_logger_level",
  "get_logger_level", "get_logger_effective_level", "logger_is_enabled_for", "output_handler", "log", "log_internal", "time_now", "time_string", "exhaust-memory", "add-many", "remove-many"};
int g_hash = 0;
size_t hasher(const void * k) {uint64_t v; memcpy(&v, k, 8); return g_hash == 0 ? (size_t)(v * 0x9E3779B97F4A7C15ull) : g_hash == 1 ? (size_t)(v & 3) : 5;}
int cmp(const void * a, const void * b) {uint64_t x, y; memcpy(&x, a, 8); memcpy(&y, b, 8); return x < y ? -1 : x > y;}
const std::vector<std::string> loggers = {"", "a", "a.b", "a.b.c", "b", "node.very.deep.down.in.the.tree", "a.bc"};
void gen(Rng & r, Plan & p, bool th)
{
  p.cfg["ds"] = r.pick(std::vector<int>{1, 4, 8, 40});
  p.cfg["cap"] = r.range(1, 9);
  p.cfg["mcap"] = r.pick(std::vector<int>{1, 2, 4, 16});
  p.cfg["hash"] = r.below(3);
  p.cfg["out"] = r.chance(1, 2);
  p.cfg["color"] = r.below(2);
  p.cfg["tz"] = r.pick(std::vector<int64_t>{0, 3600, -18000});
  p.cfg["clock"] = (int64_t)r.below(4000000000ull) * 1000000000ll + (int64_t)r.below(1000000000);
  p.cfg["auto"] = r.chance(1, 10);
  std::string f = r.chance(1, 2) ? default_format() : gen_format(r, th);
  if (f.size() > 400) {f = "{message} [{name}] {date_time_with_ms} {time} {line_number}";}
  int n = (int)r.range(4, th ? 140 : 70);
  int at = r.chance(1, 8) ? n : (int)r.below((uint64_t)n);
  bool first = true, big = r.chance(1, 8);   // containers large enough to have grown several times
  for (int i = 0; i < n; ++i) {
    if (i == at) {p.ops.push_back(mkop(0, EXHAUST));}
    int code = (int)r.below(EXHAUST);
    if (i < at && r.chance(1, 3)) {code = r.pick(std::vector<int>{L_ADD, M_SET, G_SET});}
    if (big && r.chance(1, 4)) {code = r.chance(1, 2) ? FILL : DRAIN;}
    Op o = mkop(0, code);
    int64_t level = 10 * (int64_t)r.below(6);
    std::string name = r.pick(loggers);
    switch (code) {
      case L_ADD: o.a = {(int64_t)r.below(1000000)}; break;
      case L_SET: o.a = {(int64_t)r.below(40), r.chance(1, 10), (int64_t)r.below(1000000)}; break;
      case L_REMOVE: case L_GET: o.a = {(int64_t)r.below(40), r.chance(1, 10)}; break;
      case M_SET: o.a = {(int64_t)r.below(24), (int64_t)r.below(1000000)}; break;
      case M_UNSET: case M_GET: case M_EXISTS: o.a = {(int64_t)r.below(24)}; break;
      case FILL: case DRAIN: o.a = {(int64_t)r.below(2), r.range(1, 150), (int64_t)r.below(1000)}; break;
      case G_SET: o.a = {level}; o.s = {name}; break;
      case G_DEFAULT: o.a = {level, (int64_t)r.below(2)}; break;
      case G_LEVEL: o.a = {(int64_t)r.below(2)}; o.s = {name}; break;
      case G_EFFECTIVE: o.s = {name}; break;
      case G_ENABLED: o.a = {level, r.chance(1, 8)}; o.s = {name}; break;
      case G_HANDLER: o.a = {(int64_t)r.below(3)}; break;
      case LOG: case LOGI: {
          std::string m = r.chance(1, 4) ? gen_text(r, (size_t)r.range(850, 1100), "w xyz{}") : gen_text(r, 60, "w xyz{}\n");
          o.a = {10 * r.range(1, 5), r.chance(1, 8), (int64_t)r.below(100000), r.chance(1, 5)};
          o.s = {r.chance(1, 2) ? "" : name, m};
          break;
        }
      case NOW: o.a = {(int64_t)r.below(2)}; break;
      case TEXT: o.a = {(int64_t)r.below(3), r.pick(std::vector<int64_t>{0, 1, 999999999, -1, 1700000000123456789ll, (int64_t)r.below(9000000000000000000ull)})}; break;
      default: break;
    }
    if (first) {o.s.resize(3); o.s[2] = f; first = false;}
    p.ops.push_back(o);
  }
}
std::string last_msg;
int handled;
void handler(const rcutils_log_location_t *, int, const char *, rcutils_time_point_value_t, const char * f, va_list * args)
{
  char b[2048];
  va_list a;
  va_copy(a, *args);
  vsnprintf(b, sizeof b, f, a);
  va_end(a);
  last_msg = b;
  ++handled;
}
std::string elem(int64_t v, size_t n) {std::string s(n, 0); Rng r((uint64_t)v); for (auto & c : s) {c = (char)r.next();} return s;}
void exec(const Plan & p)
{
  run_single(p, [&] {
    size_t ds = (size_t)std::max<int64_t>(1, p.C("ds", 4));
    g_hash = (int)p.C("hash");
    rcutils_array_list_t l = rcutils_get_zero_initialized_array_list();
    rcutils_hash_map_t m = rcutils_get_zero_initialized_hash_map();
    std::vector<std::string> ml;
    std::map<uint64_t, int64_t> mm;
    std::map<std::string, int> lv;
    int deflevel = 20;
    std::string format = default_format();
    bool out = p.C("out"), color = p.C("color"), recording = false;
    {
      Oracle q;
      for (auto & o : p.ops) {if (!o.S(2).empty()) {format = o.S(2);}}
      g_clock.set(p.C("clock"), 77);
      g_tz_offset = p.C("tz");
      g_env["RCUTILS_LOGGING_USE_STDOUT"] = out ? "1" : "0";
      g_env["RCUTILS_COLORIZED_OUTPUT"] = color ? "1" : "0";
      g_env["RCUTILS_CONSOLE_OUTPUT_FORMAT"] = format;
      CHECK((p.C("auto") ? rcutils_logging_initialize() : rcutils_logging_initialize_with_allocator(allocator(1))) == RCUTILS_RET_OK, "init", "cannot initialise logging");
      CHECK(rcutils_array_list_init(&l, (size_t)std::max<int64_t>(1, p.C("cap", 1)), ds, allocp(2)) == RCUTILS_RET_OK, "init", "cannot set up");
      CHECK(rcutils_hash_map_init(&m, (size_t)std::max<int64_t>(1, p.C("mcap", 1)), 8, 8, hasher, cmp, allocp(3)) == RCUTILS_RET_OK, "init", "cannot set up");
    }
    for (auto & o : p.ops) {
      if (o.code == EXHAUST) {
        g_no_memory = true;
        ev("memory is exhausted");
        probe("exhausted");
        continue;
      }
      bool lookup = false;        // looks a logger up by name
      bool may = false;           // documented to allocate
      const char * w = names[o.code];
      const char * nm = guarded_str(o.S(0));
      std::string e(ds, 0);
      begin_op(o, w);
      rcutils_ret_t ret = 0;
      auto noalloc = [&](bool allowed = false) {
          int64_t n = calls_in_op(F_ALLOC);
          end_op("%d", ret);
          if (!n || allowed) {return true;}
          if (lookup) {
            known("level-lookup-copies-name", "looking up the level of logger '%s' copies its name: it is documented to allocate no memory, and fails without", o.S(0).c_str());
            return false;
          }
          violate("allocates", "%s is documented to allocate no memory but asked for some %lld times", w, (long long)n);
        };
      switch (o.code) {
        case L_ADD: {
            std::string v = elem(o.A(0), ds);
            ret = rcutils_array_list_add(&l, v.data());
            int f = fired();
            noalloc(true);
            CHECK(ret == RCUTILS_RET_OK || f, "list", "add failed with %d though nothing failed", ret);
            if (ret == RCUTILS_RET_OK) {ml.push_back(v);} else {probe("add-without-memory");}
            break;
          }
        case FILL: {
            for (int64_t i = 0; i < (int64_t)umod(o.A(1), 200); ++i) {
              int before = fired();
              if (o.A(0)) {
                std::string v = elem(o.A(2) + i, ds);
                ret = rcutils_array_list_add(&l, v.data());
                if (ret == RCUTILS_RET_OK) {ml.push_back(v);}
              } else {
                uint64_t k = (uint64_t)(o.A(2) + i);
                ret = rcutils_hash_map_set(&m, &k, &i);
                if (ret == RCUTILS_RET_OK) {mm[k] = i;}
              }
              CHECK(ret == RCUTILS_RET_OK || fired() > before, o.A(0) ? "list" : "map", "returned %d though nothing failed", ret);
              if (ret != RCUTILS_RET_OK && g_no_memory) {break;}
            }
            noalloc(true);
            if (ml.size() > 100 || mm.size() > 100) {probe("large");}
            break;
          }
        case DRAIN: {
            for (int64_t i = 0; i < (int64_t)umod(o.A(1), 200); ++i) {
              if (o.A(0)) {
                if (ml.empty()) {break;}
                size_t at = umod(o.A(2) * i, ml.size());
                ret = rcutils_array_list_remove(&l, at);
                ml.erase(ml.begin() + (long)at);
              } else {
                if (mm.empty()) {break;}
                uint64_t k = o.A(2) & 1 ? mm.begin()->first : mm.rbegin()->first;
                ret = rcutils_hash_map_unset(&m, &k);
                mm.erase(k);
              }
              CHECK(ret == RCUTILS_RET_OK, o.A(0) ? "list" : "map", "returned %d", ret);
            }
            w = o.A(0) ? names[L_REMOVE] : names[M_UNSET];
            noalloc();
            break;
          }
        case L_SET: case L_GET: case L_REMOVE: {
            size_t i = o.A(1) ? ml.size() + umod(o.A(0), 3) : umod(o.A(0), ml.size());
            bool oob = i >= ml.size();
            std::string v = elem(o.A(2), ds);
            if (o.code == L_SET) {ret = rcutils_array_list_set(&l, i, v.data());
            } else if (o.code == L_GET) {ret = rcutils_array_list_get(&l, i, &e[0]);} else {ret = rcutils_array_list_remove(&l, i);}
            noalloc();
            CHECK(ret == (oob ? RCUTILS_RET_INVALID_ARGUMENT : RCUTILS_RET_OK), "list", "%s(%zu) of %zu elements returned %d", w, i, ml.size(), ret);
            if (oob) {break;}
            if (o.code == L_SET) {ml[i] = v;
            } else if (o.code == L_REMOVE) {ml.erase(ml.begin() + (long)i);
            } else {CHECK(e == ml[i], "list", "element %zu is not what was stored", i);}
            break;
          }
        case L_SIZE: {
            size_t n = 99;
            ret = rcutils_array_list_get_size(&l, &n);
            noalloc();
            CHECK(ret == RCUTILS_RET_OK && n == ml.size(), "list", "size %zu, not %zu", n, ml.size());
            for (size_t i = 0; i < ml.size(); ++i) {
              Oracle q;
              CHECK(rcutils_array_list_get(&l, i, &e[0]) == RCUTILS_RET_OK && e == ml[i], "list", "element %zu is not what was stored", i);
            }
            break;
          }
        case M_SET: {
            uint64_t k = (uint64_t)o.A(0);
            int64_t v = o.A(1);
            bool had = mm.count(k);
            ret = rcutils_hash_map_set(&m, &k, &v);
            int f = fired();
            noalloc(true);
            CHECK(ret == RCUTILS_RET_OK || f, "map", "set failed with %d though nothing failed", ret);
            if (ret == RCUTILS_RET_OK) {mm[k] = v;} else if (!had) {probe("set-without-memory");}
            break;
          }
        case M_UNSET: case M_GET: case M_EXISTS: {
            uint64_t k = (uint64_t)o.A(0);
            bool had = mm.count(k), got = false;
            int64_t v = -1;
            if (o.code == M_UNSET) {ret = rcutils_hash_map_unset(&m, &k);
            } else if (o.code == M_GET) {ret = rcutils_hash_map_get(&m, &k, &v);} else {got = rcutils_hash_map_key_exists(&m, &k);}
            noalloc();
            if (o.code == M_UNSET) {CHECK(ret == RCUTILS_RET_OK, "map", "unset returned %d", ret); mm.erase(k);
            } else if (o.code == M_GET) {CHECK(ret == (had ? RCUTILS_RET_OK : RCUTILS_RET_NOT_FOUND) && (!had || v == mm[k]), "map", "get returned %d, value %lld", ret, (long long)v);
            } else {CHECK(got == had, "map", "key_exists said %d", got);}
            break;
          }
        case M_WALK: {
            std::map<uint64_t, int64_t> seen;
            uint64_t k = 0, prev;
            int64_t v = 0;
            ret = rcutils_hash_map_get_next_key_and_data(&m, nullptr, &k, &v);
            while (ret == RCUTILS_RET_OK && seen.size() <= mm.size()) {
              seen[k] = v;
              prev = k;
              ret = rcutils_hash_map_get_next_key_and_data(&m, &prev, &k, &v);
            }
            noalloc();
            CHECK(ret == RCUTILS_RET_HASH_MAP_NO_MORE_ENTRIES && seen == mm, "map", "walking over %zu entries gave %zu, last return %d", mm.size(), seen.size(), ret);
            break;
          }
        case M_COUNT: {
            size_t n = 99, c = 0;
            ret = rcutils_hash_map_get_size(&m, &n);
            rcutils_ret_t r2 = rcutils_hash_map_get_capacity(&m, &c);
            noalloc();
            CHECK(ret == RCUTILS_RET_OK && r2 == RCUTILS_RET_OK && n == mm.size() && c > 0, "map", "size %zu, not %zu", n, mm.size());
            break;
          }
        case G_SET: {
            int level = 10 * (int)umod(o.A(0) / 10, 6);
            ret = rcutils_logging_set_logger_level(nm, level);
            int f = fired();
            noalloc(true);
            CHECK(ret == RCUTILS_RET_OK || f, "level", "set_logger_level failed with %d though nothing failed", ret);
            if (ret == RCUTILS_RET_OK) {lv[o.S(0)] = level; if (o.S(0).empty()) {deflevel = level;}}
            break;
          }
        case G_DEFAULT: {
            int got = -1, level = 10 * (int)umod(o.A(0) / 10, 6);
            if (o.A(1)) {rcutils_logging_set_default_logger_level(level); deflevel = level ? level : 20;} else {got = rcutils_logging_get_default_logger_level();}
            ret = got;
            noalloc();
            CHECK(o.A(1) || got == deflevel, "level", "default level %d, not %d", got, deflevel);
            break;
          }
        case G_LEVEL: case G_EFFECTIVE: case G_ENABLED: {
            lookup = o.code == G_LEVEL ? !o.S(0).empty() : !lv.empty();
            bool nul = o.code == G_ENABLED && o.A(1);
            if (nul) {lookup = false;}
            ret = o.code == G_LEVEL ? (o.A(0) ? rcutils_logging_get_logger_leveln(nm, o.S(0).size()) : rcutils_logging_get_logger_level(nm)) :
              o.code == G_EFFECTIVE ? rcutils_logging_get_logger_effective_level(nm) : (int)rcutils_logging_logger_is_enabled_for(nul ? nullptr : nm, (int)o.A(0));
            bool f = fired() != 0;
            if (!noalloc() && f) {break;}
            std::string s = nul ? "" : o.S(0);
            int want;
            if (o.code == G_LEVEL) {want = s.empty() ? deflevel : lv.count(s) ? lv[s] : 0;
            } else {
              while (true) {
                if (lv.count(s) && lv[s]) {want = lv[s]; break;}
                size_t k = s.rfind('.');
                if (k == std::string::npos) {want = deflevel; break;}
                s.resize(k);
              }
              if (nul) {want = deflevel;}
              if (o.code == G_ENABLED) {want = o.A(0) >= want;}
            }
            // the level of "" is the default one, also where a level of its own is stored for it
            if (!(s.empty() && lv.count(""))) {CHECK(ret == want, "level", "%s of '%s' gave %d, not %d", w, o.S(0).c_str(), ret, want);}
            break;
          }
        case G_HANDLER: {
            rcutils_logging_output_handler_t h = nullptr;
            if (o.A(0) == 0) {h = rcutils_logging_get_output_handler();
            } else {recording = o.A(0) == 1; rcutils_logging_set_output_handler(recording ? handler : rcutils_logging_console_output_handler);}
            noalloc();
            if (o.A(0) == 0) {CHECK(h == (recording ? handler : rcutils_logging_console_output_handler), "handler", "another output handler is installed");}
            break;
          }
        case LOG: case LOGI: {
            int sev = 10 * (1 + (int)umod(o.A(0) / 10 - 1, 5));
            bool nul = o.A(1), noloc = o.A(3);
            rcutils_log_location_t loc = {"function", "file.cpp", (size_t)o.A(2)};
            LogRec rec;
            rec.msg = o.S(1);
            rec.name = nul ? "" : o.S(0);
            rec.fn = "function";
            rec.file = "file.cpp";
            rec.line = (uint64_t)o.A(2);
            rec.loc = !noloc;
            rec.sev = sev;
            rec.ts = g_clock.wall();
            Stream & S = out ? g_out : g_err;
            size_t w0 = S.data.size();
            int h0 = handled;
            lookup = o.code == LOG && !lv.empty() && !nul;
            const char * text = guarded_str(o.S(1));
            int want = deflevel;
            std::string s = nul ? "" : o.S(0);
            while (!nul) {
              if (lv.count(s) && lv[s]) {want = lv[s]; break;}
              size_t k = s.rfind('.');
              if (k == std::string::npos) {break;}
              s.resize(k);
            }
            if (!nul && s.empty() && lv.count("")) {want = -1;}
            bool enabled = o.code == LOGI || sev >= want, judge = o.code == LOGI || want >= 0;
            if (o.code == LOG) {rcutils_log(noloc ? nullptr : &loc, sev, nul ? nullptr : nm, "%s", text);
            } else {rcutils_log_internal(noloc ? nullptr : &loc, sev, nul ? nullptr : nm, "%s", text);}
            bool f = fired() != 0;
            std::string line = render(format, rec);
            if (color) {
              const char * col = sev == 10 ? "\x1b[32m" : sev == 20 ? "\x1b[0m" : sev == 30 ? "\x1b[33m" : "\x1b[31m";
              line = col + line + "\x1b[0m";
            }
            bool fits = recording || (line.size() <= 1023 && rec.msg.size() <= 1023);
            if (!fits) {probe("long-message");}
            if (!noalloc(!fits) && f) {break;}
            if ((!fits && f) || !judge) {break;}
            if (recording) {
              CHECK(handled - h0 == (enabled ? 1 : 0) && (!enabled || last_msg == rec.msg), "log", "a message that was %sdue reached the handler %d times", enabled ? "" : "not ", handled - h0);
            } else {
              std::string got = S.data.substr(w0), due = enabled ? line + "\n" : "";
              CHECK(got == due, "log", "wrote '%.300s', not '%.300s'", got.c_str(), due.c_str());
              if (enabled && g_no_memory) {probe("logged-without-memory");}
            }
            break;
          }
        case NOW: {
            rcutils_time_point_value_t t = 0;
            ret = o.A(0) ? rcutils_steady_time_now(&t) : rcutils_system_time_now(&t);
            noalloc();
            CHECK(ret == RCUTILS_RET_OK && t == (o.A(0) ? g_clock.mono() : g_clock.wall()), "time", "returned %d, %lld", ret, (long long)t);
            break;
          }
        case TEXT: {
            char * b = guarded(64);
            int64_t t = o.A(1);
            ret = o.A(0) == 0 ? rcutils_time_point_value_as_nanoseconds_string(&t, b, 64) : o.A(0) == 1 ? rcutils_time_point_value_as_seconds_string(&t, b, 64) :
              rcutils_time_point_value_as_date_string(&t, b, 64);
            noalloc();
            if (o.A(0) == 2 && t < 0) {break;}
            std::string want = o.A(0) == 0 ? text_ns(t) : o.A(0) == 1 ? text_seconds(t) : text_date(t);
            CHECK(ret == RCUTILS_RET_OK && want == b, "time", "%lld as text: %d, '%s', not '%s'", (long long)t, ret, ret == RCUTILS_RET_OK ? b : "", want.c_str());
            break;
          }
        default: end_op(); break;
      }
      Quiet q;
      rcutils_reset_error();
    }
    // taking everything down needs no memory either
    Op last = mkop(0, NOPS);
    begin_op(last, "fini");
    rcutils_ret_t a = rcutils_array_list_fini(&l), b = rcutils_hash_map_fini(&m), c = rcutils_logging_shutdown();
    int64_t n = calls_in_op(F_ALLOC);
    end_op("%d %d %d", a, b, c);
    CHECK(n == 0, "allocates", "finalising is documented to allocate no memory but asked for some %lld times", (long long)n);
    CHECK(a == RCUTILS_RET_OK && b == RCUTILS_RET_OK && c == RCUTILS_RET_OK, "fini", "finalising returned %d, %d, %d", a, b, c);
    finish_run("at the end");
  });
}
const Workload W{"C29", names, NOPS, gen, exec};
Reg reg(&W);
}  // namespace
