// C17: clock readings and their texts.
#include <algorithm>
#include "logmodel.h"
#include "wl.h"
extern "C" {
#include "rcutils/time.h"
}
using namespace sim;
namespace {
enum { SYSTEM, STEADY, NULLS, ADVANCE, JUMP, SETWALL, NS, SECONDS, DATE, UNITS, NOPS };
const char * const names[] = {"system_time_now", "steady_time_now", "null_arguments", "advance", "jump_wall", "set_wall", "as_nanoseconds_string",
  "as_seconds_string", "as_date_string", "unit_conversions"};
const std::vector<int64_t> edges{0, 1, 999999999, 1000000000, 1000000001, 999000000, 1234567890, 9999999999999999ll, 1700000000000000001ll,
  1700000000009999999ll, 1700000000010000000ll, 1699999999999999999ll, 4294967295999999999ll, 4294967296000000000ll, 2147483647999999999ll,
  2147483648000000000ll, INT64_MAX, INT64_MAX - 1, 9223372035999999999ll, 951782400000000000ll, 951868799999000000ll, 1735689599999999999ll};
int64_t gen_time(Rng & r)
{
  int64_t t;
  switch (r.below(4)) {
    case 0: t = r.pick(edges); break;
    case 1: t = (int64_t)(r.next() >> (1 + r.below(63))); break;
    case 2: t = (int64_t)r.below(5000000000ull) * 1000000000 + r.pick(std::vector<int64_t>{0, 1, 9, 10, 99, 100, 1000000, 9999999, 10000000, 99999999,
          100000000, 999000000, 999999999, (int64_t)r.below(1000000000)}); break;
    default: t = 1700000000000000000ll + (int64_t)r.below(100000000000000ull); break;
  }
  return t;
}
void gen(Rng & r, Plan & p, bool th)
{
  int nt = (int)r.pick(std::vector<int>{1, 1, 2, 3});
  p.cfg["threads"] = nt;
  gen_schedule(r, p, nt);
  p.cfg["wall"] = gen_time(r);
  p.cfg["mono"] = r.chance(1, 2) ? (int64_t)r.below(3000000000) : gen_time(r) / 2;
  p.cfg["tick"] = r.pick(std::vector<int64_t>{0, 1, 1, 999, 1000000, 500000000, 999999999});
  p.cfg["tz"] = r.pick(std::vector<int64_t>{0, 0, 3600, -3600, 19800, -43200, 50400, 45 * 60});
  int n = (int)r.range(3, th ? 60 : 30);
  unsigned fn = (unsigned)r.below(3);
  for (int i = 0; i < n; ++i) {
    int t = (int)r.below((uint64_t)nt);
    switch (r.below(10)) {
      case 0: case 1: {
          Op o = mkop(t, SYSTEM, {(int64_t)r.next()});
          gen_faults(r, o, {F_CLOCK, F_CLOCK, F_FMT}, fn, 5);
          p.ops.push_back(o);
          break;
        }
      case 2: case 3: {
          Op o = mkop(t, STEADY, {(int64_t)r.next()});
          gen_faults(r, o, {F_CLOCK, F_CLOCK, F_FMT}, fn, 5);
          p.ops.push_back(o);
          break;
        }
      case 4:
        if (r.chance(1, 3)) {p.ops.push_back(mkop(t, NULLS, {(int64_t)r.below(8)}));
        } else if (r.chance(1, 3)) {p.ops.push_back(mkop(t, UNITS, {r.chance(1, 3) ? -gen_time(r) : gen_time(r)}));
        } else {p.ops.push_back(mkop(t, ADVANCE, {r.pick(std::vector<int64_t>{0, 1, 999999999, 1000000000, (int64_t)r.below(100000000000ull)})}));}
        break;
      case 5:
        p.ops.push_back(r.chance(1, 4) ? mkop(t, SETWALL, {r.chance(1, 3) ? -gen_time(r) : gen_time(r)}) :
          mkop(t, JUMP, {r.pick(std::vector<int64_t>{-1, 1, -1000000000, 1000000000, -86400000000000ll, 86400000000000ll,
            (int64_t)r.below(2000000000000ull) - 1000000000000ll, -1600000000000000000ll})}));
        break;
      default: {
          size_t size = r.chance(1, 2) ? 32 + r.below(40) : r.below(34);
          int64_t v = gen_time(r);
          if (r.chance(1, 4)) {v = r.chance(1, 6) ? INT64_MIN + 1 : -v;}
          Op o = mkop(t, NS + (int)r.below(3), {v, (int64_t)size});
          gen_faults(r, o, {F_FMT, F_LOCALTIME, F_STRFTIME}, fn, 6);
          p.ops.push_back(o);
        }
    }
  }
}
void exec(const Plan & p)
{
  run_single(p, [&] {
    g_clock.set(std::min<int64_t>(p.C("wall", 1), 9100000000000000000ll), p.C("mono", 1));
    g_clock.tick = p.C("tick");
    g_tz_offset = p.C("tz");
  });
  int64_t steady_seen = 0;
  run_threads(p, (int)p.C("threads", 1), [&](int tid) {
    for (auto & o : p.ops) {
      if (o.tid != tid) {continue;}
      {Quiet q; rcutils_reset_error();}
      begin_op(o, names[o.code]);
      switch (o.code) {
        case ADVANCE: if (o.A(0) >= 0 && g_clock.wall_s < 9100000000ll && g_clock.mono() < INT64_MAX / 2) {g_clock.advance(o.A(0));} end_op(); break;
        case JUMP: {
            int64_t w;
            if (g_clock.wall_s < 9000000000ll && !__builtin_add_overflow(g_clock.wall(), o.A(0), &w)) {g_clock.jump_wall(o.A(0));}
            end_op();
            break;
          }
        case SETWALL: g_clock.set(std::min<int64_t>(o.A(0), 9100000000000000000ll), g_clock.mono()); end_op(); break;
        case UNITS: {                          // exact for every value and integer type, whatever expression is given
            const int64_t v = o.A(0), k = 1000;
            const int32_t w = (int32_t)(v >> 13);
            const uint16_t h = (uint16_t)(v >> 7);
            const int64_t s = v / (k * k * k), ms = v / (k * k), us = v / k;
            bool good = RCUTILS_NS_TO_S(v) == s && RCUTILS_NS_TO_MS(v) == ms && RCUTILS_NS_TO_US(v) == us &&
              RCUTILS_S_TO_NS(s) == s * k * k * k && RCUTILS_MS_TO_NS(ms) == ms * k * k && RCUTILS_US_TO_NS(us) == us * k &&
              RCUTILS_NS_TO_S(v / 2 + 7) == (v / 2 + 7) / (k * k * k) && RCUTILS_NS_TO_MS(v / 2 + 7) == (v / 2 + 7) / (k * k) && RCUTILS_NS_TO_US(v / 2 + 7) == (v / 2 + 7) / k;
            CHECK(good, "unit-conversion", "the unit conversion macros are wrong for %lld", (long long)v);
            good = RCUTILS_S_TO_NS(w) == w * (k * k * k) && RCUTILS_MS_TO_NS(w) == w * (k * k) && RCUTILS_US_TO_NS(w) == w * k &&
              RCUTILS_S_TO_NS(w / 2 + 1) == (w / 2 + 1) * (k * k * k) && RCUTILS_MS_TO_NS(w / 2 + 1) == (w / 2 + 1) * (k * k) && RCUTILS_US_TO_NS(w / 2 + 1) == (w / 2 + 1) * k &&
              RCUTILS_NS_TO_S(w) == w / (k * k * k) && RCUTILS_NS_TO_MS(w) == w / (k * k) && RCUTILS_NS_TO_US(w) == w / k &&
              RCUTILS_S_TO_NS(h) == h * (k * k * k) && RCUTILS_MS_TO_NS(h) == h * (k * k) && RCUTILS_US_TO_NS(h) == h * k;
            CHECK(good, "unit-conversion", "the unit conversion macros are wrong for %d or %u", w, h);
            CHECK(RCUTILS_S_TO_NS(h / 4.0) == h / 4.0 * 1e9 && RCUTILS_MS_TO_NS(h / 4.0) == h / 4.0 * 1e6 && RCUTILS_US_TO_NS(h / 4.0) == h / 4.0 * 1e3,
              "unit-conversion", "the unit conversion macros are wrong for %g", h / 4.0);
            end_op();
            break;
          }
        case NULLS: {
            rcutils_ret_t r;
            rcutils_time_point_value_t v = 5;
            char * b = guarded(40);
            switch (umod(o.A(0), 8)) {
              case 0: r = rcutils_system_time_now(NULL); break;
              case 1: r = rcutils_steady_time_now(NULL); break;
              case 2: r = rcutils_time_point_value_as_nanoseconds_string(NULL, b, 40); break;
              case 3: r = rcutils_time_point_value_as_nanoseconds_string(&v, NULL, 40); break;
              case 4: r = rcutils_time_point_value_as_seconds_string(NULL, b, 40); break;
              case 5: r = rcutils_time_point_value_as_seconds_string(&v, NULL, 40); break;
              case 6: r = rcutils_time_point_value_as_date_string(NULL, b, 40); break;
              default: r = rcutils_time_point_value_as_date_string(&v, NULL, 40); break;
            }
            end_op("%d", r);
            CHECK(r == RCUTILS_RET_INVALID_ARGUMENT, "null-argument", "variant %lld: a NULL argument gave %d", (long long)o.A(0), r);
            break;
          }
        case SYSTEM: case STEADY: {
            bool wall = o.code == SYSTEM;
            rcutils_time_point_value_t v = o.A(0);
            g_clock.got[wall][tid] = INT64_MIN;
            int64_t c0 = calls_in_op(F_CLOCK);
            uint64_t other = wall ? g_clock.mono_reads : g_clock.wall_reads;
            (void)other;
            int64_t seen = steady_seen;
            rcutils_ret_t r = wall ? rcutils_system_time_now(&v) : rcutils_steady_time_now(&v);
            int f = fired_kind(F_CLOCK);
            int64_t got = g_clock.got[wall][tid];
            end_op("%d %lld", r, (long long)v);
            (void)c0;
            bool bad = f || got < 0;
            if (!bad) {
              CHECK(r == RCUTILS_RET_OK, "lost-reading", "the %s clock was read (%lld) but the call gave %d", wall ? "system" : "steady", (long long)got, r);
              CHECK(v == got, "wrong-reading", "the %s clock read %lld but the call gave %lld", wall ? "system" : "steady", (long long)got, (long long)v);
              if (!wall) {
                CHECK(v >= seen, "steady-backwards", "the steady clock went from %lld back to %lld", (long long)seen, (long long)v);
                if (v > steady_seen) {steady_seen = v;}
              }
            } else if (r == RCUTILS_RET_OK) {
              CHECK(got != INT64_MIN && got >= 0 && v == got, "unreported-failure", "the %s clock could not be read but the call succeeded with %lld",
                wall ? "system" : "steady", (long long)v);
            } else {
              probe(f ? "clock-call-failed" : "clock-negative");
              CHECK(v == o.A(0), "output-touched", "a failed reading changed the output to %lld", (long long)v);
              if (fired_kind(F_FMT) == 0) {Quiet q; CHECK(rcutils_error_is_set(), "no-reason", "a failed reading left no error message");}
            }
            break;
          }
        default: {
            size_t size = umod(o.A(1), 128);
            char * b = guarded(size);
            memset(b, '#', size);
            rcutils_time_point_value_t t = o.A(0);
            rcutils_ret_t r = o.code == NS ? rcutils_time_point_value_as_nanoseconds_string(&t, b, size) :
              o.code == SECONDS ? rcutils_time_point_value_as_seconds_string(&t, b, size) : rcutils_time_point_value_as_date_string(&t, b, size);
            int f = fired();
            int ffmt = fired_kind(F_FMT);
            end_op("%d", r);
            CHECK(t == o.A(0), "input-changed", "the time point was changed");
            if (size == 0) {CHECK(r == RCUTILS_RET_OK, "empty-buffer", "an empty buffer gave %d", r); break;}
            if (r != RCUTILS_RET_OK) {
              CHECK(f || (o.code == DATE && size < 32), "spurious-failure", "%s of %lld into %zu bytes gave %d", names[o.code], (long long)t, size, r);
              if (!ffmt) {Quiet q; CHECK(rcutils_error_is_set(), "no-reason", "a failed conversion left no error message");}
              if (f) {probe("conversion-failed");}
              break;
            }
            CHECK(memchr(b, 0, size) != nullptr, "not-terminated", "%s: no terminator in the buffer", names[o.code]);
            if (o.code == DATE && t < 0) {probe("date-before-epoch"); break;}
            std::string want = o.code == NS ? text_ns(t) : o.code == SECONDS ? text_seconds(t) : text_date(t);
            if (want.size() > size - 1) {want.resize(size - 1); probe("truncated");}
            CHECK(want == b, "wrong-text", "%s of %lld into %zu bytes gave '%s', not '%s'", names[o.code], (long long)t, size, b, want.c_str());
          }
      }
    }
  });
  run_single(p, [&] {finish_run("at the end");});
}
const Workload W{"C17", names, NOPS, gen, exec};
Reg reg(&W);
}  // namespace
