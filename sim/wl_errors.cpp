// C09: error state per thread. C10: fault injection counter.
#include "wl.h"
extern "C" {
#include "rcutils/types/array_list.h"
#include "rcutils/types/char_array.h"
#include "rcutils/types/string_map.h"
#include "user_error.h"
}
using namespace sim;
namespace {
thread_local const u_error_t * U;          // the operation's caller: a C or a C++ file of the program
enum { SET, USET, UFMT, UAPPEND, UAPPENDF, ALIAS, GETSTR, GETSTATE, ISSET, RESET, INITTLS, APIFAIL, STDERR_APPEND, BAD, NOPS };
const char * const names[] = {"set", "set-macro", "set-format", "append", "append-format", "set-from-own", "get_string", "get_state",
  "is_set", "reset", "init-tls", "api-failure", "stderr-append", "invalid"};
const size_t MSG = RCUTILS_ERROR_STATE_MESSAGE_MAX_LENGTH - 1, FIL = RCUTILS_ERROR_STATE_FILE_MAX_LENGTH - 1,
  TOT = RCUTILS_ERROR_MESSAGE_MAX_LENGTH - 1;

size_t glen(Rng & r, size_t lim)
{
  switch (r.below(6)) {
    case 0: return r.below(3);
    case 1: case 2: return r.below(40);
    case 3: return lim - 3 + r.below(7);
    case 4: return TOT - 3 + r.below(7);
    default: return r.chance(1, 300) ? wide_len(r) : r.below(3000);
  }
}
void gen(Rng & r, Plan & p, bool th)
{
  int nt = (int)r.pick(std::vector<int>{1, 2, 2, 3, 3, 4});
  p.cfg["threads"] = nt;
  gen_schedule(r, p, nt);
  int n = (int)r.range(2, th ? 60 : 26);
  unsigned frate = (unsigned)r.pick(std::vector<int>{0, 0, 1, 3});
  for (int i = 0; i < n; ++i) {
    int c = (int)r.pick(std::vector<int>{SET, SET, SET, SET, USET, UFMT, UAPPEND, UAPPENDF, ALIAS, GETSTR, GETSTR, GETSTR, GETSTATE, ISSET,
        RESET, RESET, INITTLS, APIFAIL, STDERR_APPEND, BAD});
    Op o = mkop((int)r.below((uint64_t)nt), c, {(int64_t)glen(r, MSG), (int64_t)glen(r, FIL),
        r.pick(std::vector<int64_t>{0, 1, 9, 10, 99, 12345, INT64_MAX, -1, INT64_MIN}) + (r.chance(1, 2) ? (int64_t)r.below(9) : 0),
        (int64_t)r.below(26), r.chance(1, 4)});
    gen_faults(r, o, c == UFMT || c == UAPPENDF || c == UAPPEND ? std::vector<int>{F_FMT, F_WRITE} : std::vector<int>{F_WRITE}, frate, 10);
    p.ops.push_back(o);
  }
}
std::string text(size_t n, int64_t salt, int tid)
{
  std::string s;
  s.reserve(n);
  for (size_t i = 0; i < n; ++i) {s += (char)('a' + (i * 7 + (size_t)salt + (size_t)tid * 3) % 26);}
  if (n > 2) {s[0] = (char)('0' + tid); s[1] = '%';}
  return s;
}
struct E { bool set = false; std::string msg, file; uint64_t line = 0; };
std::string full(const E & e)
{
  if (!e.set) {return "error not set";}
  return e.msg + ", at " + e.file + ":" + std::to_string(e.line);
}
void exec(const Plan & p)
{
  run_threads(p, (int)p.C("threads", 1), [&](int tid) {
    E e;
    bool known = false;              // the thread's storage is known to be initialised
    bool alone = p.C("threads", 1) == 1;
    auto put = [&](const std::string & m, const std::string & f, uint64_t line) {
        e.set = true;
        e.msg = m.substr(0, MSG);
        e.file = f.substr(0, FIL);
        e.line = line;
      };
    auto check_str = [&](const char * w) {
        rcutils_error_string_t s = rcutils_get_error_string();
        CHECK(memchr(s.str, 0, sizeof s.str), "unterminated", "thread %d after %s: error text not terminated", tid, w);
        CHECK(full(e) == s.str, "error-text", "thread %d after %s: error text is '%.100s'...'%.60s', expected '%.100s'...", tid, w, s.str,
          strlen(s.str) > 60 ? s.str + strlen(s.str) - 60 : "", full(e).c_str());
      };
    auto check_state = [&](const char * w) {
        const rcutils_error_state_t * s = rcutils_get_error_state();
        if (!e.set) {
          CHECK(!s, "error-state", "thread %d after %s: error state '%.60s' though none is set", tid, w, s->message);
          return;
        }
        CHECK(s, "error-state", "thread %d after %s: no error state", tid, w);
        CHECK(memchr(s->message, 0, sizeof s->message) && memchr(s->file, 0, sizeof s->file), "unterminated",
          "thread %d after %s: error state not terminated", tid, w);
        CHECK(e.msg == s->message, "error-state", "thread %d after %s: message '%.60s', expected '%.60s'", tid, w, s->message,
          e.msg.c_str());
        CHECK(e.file == s->file, "error-state", "thread %d after %s: file '%.60s', expected '%.60s'", tid, w, s->file, e.file.c_str());
        CHECK(e.line == s->line_number, "error-state", "thread %d after %s: line %llu, expected %llu", tid, w,
          (unsigned long long)s->line_number, (unsigned long long)e.line);
      };
    auto check_set = [&](const char * w) {
        CHECK(rcutils_error_is_set() == e.set, "error-is-set", "thread %d after %s: error is%s set", tid, w, e.set ? " not" : "");
      };
    for (auto & o : p.ops) {
      if (o.tid != tid) {continue;}
      begin_op(o, names[o.code]);
      U = o.A(4) ? &u_error_cxx : &u_error;
      std::string m = text((size_t)o.A(0), o.A(3), tid), f = text((size_t)o.A(1), o.A(3) + 5, tid);
      E old = e;
      std::string given;               // the message this operation sets, before it is cut
      size_t told = g_err.data.size();
      switch (o.code) {
        case SET: {
            char * a = guarded(m.size() + 1), * b = guarded(f.size() + 1);
            memcpy(a, m.c_str(), m.size() + 1);
            memcpy(b, f.c_str(), f.size() + 1);
            seal(a, m.size() + 1);
            seal(b, f.size() + 1);
            rcutils_set_error_state(a, b, (size_t)o.A(2));
            memset(a, 'X', m.size());      // the library holds copies
            memset(b, 'X', f.size());
            put(m, f, (uint64_t)o.A(2));
            given = m;
            if (m.size() > MSG || f.size() > FIL) {probe("truncated");}
            break;
          }
        case USET: {int l = U->set(m.c_str()); put(m, U->file(), (uint64_t)l); given = m; break;}
        case UFMT: {
            int l = (o.A(2) & 1 ? U->set_fmt_named : U->set_fmt)(m.c_str(), (int)o.A(3));
            if (!fired_kind(F_FMT)) {
              given = (m + " [" + std::to_string((int)o.A(3)) + "]").substr(0, TOT);
              put(given, U->file(), (uint64_t)l);
            }
            break;
          }
        case UAPPEND: case UAPPENDF: {
            bool odd = o.A(2) & 1;
            int l = o.code == UAPPEND ? (odd ? U->append_percent() : U->append()) :
              odd ? U->append_named("outer", (int)o.A(3)) : U->append_fmt((int)o.A(3));
            std::string head = o.code != UAPPEND ? "outer " + std::to_string((int)o.A(3)) : odd ? "100%% of %s, 5% done" : "outer";
            if (old.set) {head += ": " + full(old);}
            e = E();
            if (!fired_kind(F_FMT) || (!old.set && o.code == UAPPEND)) {put(head.substr(0, TOT), U->file(), (uint64_t)l);}
            break;
          }
        case ALIAS: {      // a new error made from the thread's own stored message
            const rcutils_error_state_t * s = rcutils_get_error_state();
            if (e.set && s) {
              std::string om = e.msg, of = e.file;
              size_t off = umod(o.A(0), om.size() + 1);
              rcutils_set_error_state(s->message + off, s->file, (size_t)o.A(2));
              put(om.substr(off), of, (uint64_t)o.A(2));
              given = om.substr(off);
            }
            break;
          }
        case GETSTR: check_str("get"); break;
        case GETSTATE: check_state("get"); break;
        case ISSET: check_set("get"); break;
        case RESET: rcutils_reset_error(); e = E(); break;
        case INITTLS: {
            rcutils_allocator_t al = o.A(3) & 1 ? allocator(1) : rcutils_get_zero_initialized_allocator();
            rcutils_ret_t ret = rcutils_initialize_error_handling_thread_local_storage(al);
            if (o.A(3) & 1) {CHECK(ret == RCUTILS_RET_OK, "init-tls", "initialising the thread-local storage returned %d", ret);}
            else {
              CHECK(ret == RCUTILS_RET_INVALID_ARGUMENT || (ret == RCUTILS_RET_OK && known), "init-tls",
                "initialising the thread-local storage with an unusable allocator returned %d", ret);
            }
            if (ret == RCUTILS_RET_OK) {known = true;}
            break;
          }
        case APIFAIL: {    // a library call that fails and says why
            rcutils_ret_t ret = 0;
            const char * want = nullptr, * wf = nullptr;
            int wl = 0;
            rcutils_allocator_t al = allocator(1);
            CHECK(U->check_choice("a", nullptr) == 0 && U->check_choice(nullptr, "b") == 0 && U->check_choice("a", "b") == 0 &&
              U->check_arg("a") == 0, "null-check", "a value that is not null is taken for null");
            check_set("checking values that are not null");
            switch (umod(o.A(3), 5)) {
              case 4: ret = U->check_choice(nullptr, nullptr); want = "neither choice"; wf = U->file(); wl = -ret; break;
              case 0: ret = rcutils_array_list_init(nullptr, 1, 1, allocp(al)); break;
              case 1: ret = rcutils_char_array_fini(nullptr); break;
              case 2: ret = rcutils_string_map_fini(nullptr); break;
              default: ret = U->check_arg(nullptr); want = "some_argument argument is null"; wf = U->file(); wl = -ret; break;
            }
            CHECK(ret != 0, "api-failure", "an invalid call was accepted");
            const rcutils_error_state_t * s = rcutils_get_error_state();
            CHECK(rcutils_error_is_set() && s && s->message[0], "api-failure", "an invalid call left no reason");
            if (want) {put(want, wf, (uint64_t)wl);} else {
              CHECK(s->line_number > 0 && strstr(s->file, ".c"), "api-failure", "reason of a library failure at '%s':%llu", s->file,
                (unsigned long long)s->line_number);
              put(s->message, s->file, s->line_number);
            }
            break;
          }
        case STDERR_APPEND: {
            if (o.A(3) & 1 && o.A(2) & 1) {U->stderr_append_named("to stderr", (int)o.A(3));} else if (o.A(3) & 1) {U->stderr_append((int)o.A(3));} else {U->stderr_append_plain();}
            e = E();
            if (fired()) {break;}
            std::string out = g_err.data.substr(told), own = o.A(3) & 1 ? "to stderr " + std::to_string((int)o.A(3)) : "to stderr",
              add = old.set ? (": " + full(old)).substr(0, TOT) : "";
            if (alone) {
              CHECK(out == own + add, "stderr", "stderr got '%.200s' instead of '%.200s'", out.c_str(), (own + add).c_str());
            } else {
              CHECK(out.find(own) != out.npos && out.find(add) != out.npos, "stderr", "stderr got '%.200s' without '%.200s' or '%.200s'",
                out.c_str(), own.c_str(), add.c_str());
            }
            break;
          }
        case BAD:
          switch (umod(o.A(3), 3)) {
            case 0: rcutils_set_error_state(nullptr, "f", 1); break;
            case 1: rcutils_set_error_state("m", nullptr, 1); break;
            default: U->check_arg("present"); break;
          }
          break;
        default: break;
      }
      end_op("%d %llu", e.set, (unsigned long long)e.line);
      if (e.set) {known = true;}
      if (!fired()) {
        std::string out = g_err.data.substr(told);
        if (!given.empty() && old.set && given.compare(0, given.size(), full(old), 0, given.size()) &&
          given.compare(0, given.size(), old.msg, 0, given.size()))
        {
          probe("overwritten");         // a different error is overwritten: both are reported
          CHECK(out.find(full(old)) != out.npos, "overwritten", "thread %d: error '%.60s' (%zu) was overwritten and stderr does not say so: '%.300s'",
            tid, full(old).c_str(), full(old).size(), out.c_str());
          CHECK(out.find(full(e)) != out.npos, "overwritten", "thread %d: the report of an overwritten error lacks the new one '%.60s' (%zu): '%.300s'",
            tid, full(e).c_str(), full(e).size(), out.c_str());
        } else if (alone && (!given.empty() || o.code == GETSTR || o.code == GETSTATE || o.code == ISSET || o.code == RESET) &&
          (!old.set || given.empty() || given == old.msg) && given.size() <= MSG && f.size() <= FIL)
        {
          CHECK(out.empty(), "stderr", "nothing was overwritten, but stderr got '%.200s'", out.c_str());
        }
      }
      check_set(names[o.code]);
      if (o.A(3) & 2) {check_str(names[o.code]);}
      check_state(names[o.code]);
      if (o.A(3) & 4) {check_str(names[o.code]);}
      for (int i = 0; i < 8; ++i) {CHECK(alloc_calls(i) == 0, "memory", "error handling asked for memory (allocator %d)", i);}
    }
    check_set("all");
    check_state("all");
    check_str("all");
    check_str("all again");
  });
}
const Workload W{"C09", names, NOPS, gen, exec};
Reg reg(&W);

// ---------------------------------------------------------------- C10
enum { POINT, SETC, GETC, COMPLETE, LOOP, NOINJ, F_NOPS };
const char * const fnames[] = {"fault-point", "set_count", "get_count", "is_test_complete", "test-loop", "no-injection"};
void fgen(Rng & r, Plan & p, bool th)
{
  int nt = (int)r.pick(std::vector<int>{1, 2, 2, 3, 3, 4});
  p.cfg["threads"] = nt;
  gen_schedule(r, p, nt, 120);
  int n = (int)r.range(2, th ? 40 : 24);
  p.cfg["start"] = r.chance(1, 8) ? r.pick(std::vector<int64_t>{-1, -2, -7, INT64_MIN, INT64_MAX}) : (int64_t)r.below((uint64_t)n + 2);
  unsigned setw = (unsigned)r.pick(std::vector<int>{0, 0, 1, 2});
  for (int i = 0; i < n; ++i) {
    unsigned x = (unsigned)r.below(12);
    int tid = (int)r.below((uint64_t)nt);
    Op o = x < 8 ? mkop(tid, POINT, {(int64_t)r.below(5), r.chance(1, 4)}) : x < 9 + setw ? (setw ? mkop(tid, SETC, {r.chance(1, 6) ?
          r.pick(std::vector<int64_t>{-1, -3, INT64_MAX}) : (int64_t)r.below(8)}) : mkop(tid, GETC)) :
      x < 11 ? mkop(tid, GETC) : mkop(tid, COMPLETE);
    if (nt == 1 && r.chance(1, 12)) {o = mkop(0, r.chance(1, 2) ? LOOP : NOINJ, {(int64_t)r.below(7), r.chance(1, 4)});}
    p.ops.push_back(o);
  }
}
struct H { int kind; int64_t arg, res; uint64_t from, to; };
// is there an order of the operations, respecting each thread's order and real time, that the plain counter explains?
struct Lin {
  std::vector<std::vector<H>> h;
  std::set<std::vector<int64_t>> seen;
  size_t steps = 0;
  bool step(const H & o, int64_t & c)
  {
    switch (o.kind) {
      case POINT: {
          bool fail = c == 0;
          if (c >= 0) {--c;}
          return fail == (o.res != 0);
        }
      case SETC: c = o.arg; return true;
      case GETC: return o.res == c;
      default: return (o.res != 0) == (c > -1);
    }
  }
  bool search(std::vector<size_t> at, int64_t c)
  {
    bool done = true;
    for (size_t t = 0; t < h.size(); ++t) {done = done && at[t] == h[t].size();}
    if (done) {return true;}
    std::vector<int64_t> key(at.begin(), at.end());
    key.push_back(c);
    if (!seen.insert(key).second) {return false;}
    if (++steps > 200000) {probe("linearization-search-gave-up"); return true;}
    uint64_t minto = ~0ull;
    for (size_t t = 0; t < h.size(); ++t) {if (at[t] < h[t].size()) {minto = std::min(minto, h[t][at[t]].to);}}
    for (size_t t = 0; t < h.size(); ++t) {
      if (at[t] == h[t].size() || h[t][at[t]].from > minto) {continue;}
      int64_t c2 = c;
      if (!step(h[t][at[t]], c2)) {continue;}
      auto at2 = at;
      at2[t]++;
      if (search(at2, c2)) {return true;}
    }
    return false;
  }
};
void fexec(const Plan & p)
{
  int nt = (int)p.C("threads", 1);
  static Lin lin;
  lin = Lin();
  lin.h.resize((size_t)nt);
  int64_t start = p.C("start", -1);
  rcutils_fault_injection_set_count(start);
  run_threads(p, nt, [&](int tid) {
    int64_t floor = 0;
    for (auto & o : p.ops) {
      if (o.tid != tid) {continue;}
      begin_op(o, fnames[o.code]);
      U = o.A(1) && o.code != SETC ? &u_error_cxx : &u_error;
      H h{o.code, o.A(0), 0, event_seq(), 0};
      bool rec = true;
      switch (o.code) {
        case POINT: h.res = U->point((int)umod(o.A(0), 5)); break;
        case SETC: rcutils_fault_injection_set_count(o.A(0)); break;
        case GETC: h.res = rcutils_fault_injection_get_count(); break;
        case COMPLETE: h.res = rcutils_fault_injection_is_test_complete(); break;
        case LOOP: {
            int k = (int)umod(o.A(0), 7), res[16];
            int it = U->test_loop(k, res, 15);
            CHECK(it == k + 1, "test-loop", "the test loop over %d fault points ran %d times", k, it);
            for (int i = 0; i <= k; ++i) {CHECK(res[i] == i, "test-loop", "iteration %d failed point %d of %d", i, res[i], k);}
            h.kind = SETC;
            h.arg = -1;
            break;
          }
        case NOINJ: {
            int64_t c = rcutils_fault_injection_get_count();
            int failed = U->no_injection((int)umod(o.A(0), 7));
            CHECK(failed == 0, "no-injection", "%d fault points failed inside RCUTILS_NO_FAULT_INJECTION", failed);
            CHECK(rcutils_fault_injection_get_count() == c, "no-injection", "the counter was not put back");
            rec = false;
            break;
          }
        default: break;
      }
      h.to = event_seq();
      if (rec) {lin.h[(size_t)tid].push_back(h);}
      end_op("%lld", (long long)h.res);
      (void)floor;
    }
  });
  CHECK(lin.search(std::vector<size_t>((size_t)nt, 0), start), "counter",
    "no order of the fault points explains which of them failed and what the counter read (start %lld)", (long long)start);
  int64_t end = rcutils_fault_injection_get_count();
  if (nt == 1 || start < 0) {(void)end;}
  rcutils_fault_injection_set_count(-1);
}
const Workload FW{"C10", fnames, F_NOPS, fgen, fexec};
Reg freg(&FW);
}  // namespace
