// C26: search, comparison, option lookup, sorting, bounded printing, error texts and the process id, on inputs that
// several threads share.
#include <algorithm>
#include <ctype.h>
#include "wl.h"
extern "C" {
#include "rcutils/cmdline_parser.h"
#include "rcutils/find.h"
#include "rcutils/isalnum_no_locale.h"
#include "rcutils/process.h"
#include "rcutils/qsort.h"
#include "rcutils/snprintf.h"
#include "rcutils/strcasecmp.h"
#include "rcutils/strerror.h"
}
using namespace sim;
namespace {
enum { FIND, FINDN, LAST, LASTN, CASECMP, NCASECMP, EXIST, OPTION, SORT, PRINT, ERRTEXT, PID, ALNUM, NOPS };
const char * const names[] = {"find", "findn", "find_last", "find_lastn", "strcasecmp", "strncasecmp", "cli_option_exist", "cli_get_option",
  "qsort", "snprintf", "strerror", "get_pid", "isalnum_no_locale"};
std::string text(Rng & r)
{
  static const char * const al = "aAbBzZ.-/ _=09@[`{\xe4\xc4\xff\x80";
  if (r.chance(1, 12)) {
    if (r.chance(1, 700)) {std::string s(wide_len(r), 'w'); s[s.size() - 1 - r.below(8)] = '.'; return s;}
    return gen_long(r, 3000, "./");
  }
  return gen_text(r, (size_t)r.pick(std::vector<int>{1, 3, 6, 12, 40}), r.chance(1, 2) ? "aA.b" : al);
}
void gen(Rng & r, Plan & p, bool th)
{
  int nt = (int)r.pick(std::vector<int>{1, 2, 2, 3});
  p.cfg["threads"] = nt;
  gen_schedule(r, p, nt, 600);
  // few distinct texts, so that threads and operations share them; some differ only in case or at the end
  std::vector<std::string> pool;
  for (int i = 0, k = (int)r.range(2, 6); i < k; ++i) {
    std::string s = text(r);
    pool.push_back(s);
    if (r.chance(1, 2)) {
      for (auto & c : s) {if (r.chance(1, 2)) {c = (char)(isupper((unsigned char)c) ? tolower((unsigned char)c) : toupper((unsigned char)c));}}
      if (r.chance(1, 2)) {s += r.chance(1, 2) ? "x" : "";} else if (!s.empty() && r.chance(1, 2)) {s.pop_back();}
      if (!s.empty() && r.chance(1, 3)) {s[r.below(s.size())] ^= (char)(r.chance(1, 2) ? 0x20 : 1 << r.below(7)); std::replace(s.begin(), s.end(), '\0', '.');}
      pool.push_back(s);
    }
  }
  std::vector<std::string> args;
  std::vector<std::string> opts = {"--a", "--ab", "--abc", "-a", "-", "", "--A", pool[0]};
  for (int i = 0, k = (int)r.below(9); i < k; ++i) {args.push_back(r.chance(2, 3) ? r.pick(opts) : r.pick(pool));}
  std::vector<std::vector<std::string>> vecs = {args, {}, {r.pick(opts)}};
  bool many = r.chance(1, 400);                  // more arguments, or elements to sort, than 8 or 16 bits can count
  if (many) {
    size_t k = r.chance(1, 3) ? wide_len(r) : 250 + r.below(20);
    vecs[0].assign(k, "--filler");
    for (int i = 0; i < 3; ++i) {vecs[0][k - 1 - r.below(6)] = r.pick(opts);}
  }
  int n = many ? (int)r.range(2, 6) : (int)r.range(3, th ? 60 : 30);
  for (int i = 0; i < n; ++i) {
    int t = (int)r.below((uint64_t)nt);
    int code = many ? (int)r.pick(std::vector<int>{EXIST, OPTION, SORT}) : (int)r.below(NOPS);
    const std::string & s = r.pick(pool), & s2 = r.chance(1, 6) ? s : r.pick(pool);
    int64_t ch = r.chance(2, 3) && !s.empty() ? s[r.below(s.size())] : r.pick(std::vector<int64_t>{'.', '/', 'a', 0, 'Q', -1, -28});
    int64_t len = r.chance(1, 3) ? (int64_t)s.size() : (int64_t)r.below(s.size() + 1);
    Op o = mkop(t, code);
    switch (code) {
      case FIND: case LAST: o.s = {s}; o.a = {ch, r.chance(1, 20)}; break;
      case FINDN: case LASTN: o.s = {s}; o.a = {ch, r.chance(1, 20), len}; break;
      case CASECMP: o.s = {s, s2}; o.a = {r.chance(1, 12) ? (int64_t)r.range(1, 7) : 0}; break;
      case NCASECMP: o.s = {s, s2}; o.a = {r.chance(1, 12) ? (int64_t)r.range(1, 7) : 0, r.chance(1, 2) ? len : (int64_t)r.below(s.size() + s2.size() + 3)}; break;
      case EXIST: case OPTION: {
          auto & v = r.chance(3, 4) ? vecs[0] : r.pick(vecs);
          o.s = {r.chance(3, 4) ? r.pick(opts) : !v.empty() ? r.pick(v) : s};
          o.s.insert(o.s.end(), v.begin(), v.end());
          int64_t lo = r.chance(1, 2) ? 0 : (int64_t)r.below(v.size() + 1);
          o.a = {lo, r.chance(1, 2) ? (int64_t)v.size() - lo : (int64_t)r.below(v.size() - (size_t)lo + 1)};
          break;
        }
      case SORT: o.a = {r.pick(std::vector<int64_t>{0, 1, 2, 3, 5, 8, 17, (int64_t)r.below(60)}),
            r.pick(std::vector<int64_t>{1, 2, 3, 4, 7, 8, 12, 16, 24, 33, 64, 300}), (int64_t)r.below(1000000), r.chance(1, 8) ? (int64_t)r.range(1, 3) : 0,
            (int64_t)r.below(5), (int64_t)r.below(4)};
        if (many || r.chance(1, 60)) {
          bool wide = many && r.chance(1, 2);
          o.a[r.chance(1, 2) ? 0 : 1] = wide ? (int64_t)wide_len(r) : r.range(200, 700);
          if (o.a[0] > 100) {o.a[1] = r.range(1, 8);}
        }
        break;
      case PRINT: o.s = {s}; o.a = {r.chance(1, 2) ? (int64_t)r.below(s.size() + 16) : r.pick(std::vector<int64_t>{0, 1, 2, 5, 20, 4000}), (int64_t)r.below(6),
            r.chance(1, 10) ? (int64_t)r.range(1, 3) : 0, (int64_t)r.below(100000) - 500}; break;
      case ERRTEXT: o.a = {r.chance(3, 4) ? (int64_t)r.below(135) : r.pick(std::vector<int64_t>{-1, 41, 58, 134, 9999, INT32_MAX}),
            r.pick(std::vector<int64_t>{1, 2, 5, 14, 23, 24, 64, 1024})}; break;
      case PID: o.a = {nt == 1 && r.chance(1, 2) ? (int64_t)r.range(1, 4194303) : 0}; break;
      case ALNUM: o.a = {(int64_t)r.below(256) - 128}; break;
      default: break;
    }
    if (code == PRINT) {gen_faults(r, o, nt == 1 ? std::vector<int>{F_FMT, F_FI} : std::vector<int>{F_FMT}, 1, 8);}   // the library's own counter is not per thread
    p.ops.push_back(o);
  }
}
// ---- the inputs the threads share
struct Shared { char * term, * raw; };
std::map<std::string, Shared> pool;
std::map<std::vector<std::string>, char **> arrays;
Shared & shared(const std::string & s)
{
  auto i = pool.find(s);
  if (i == pool.end()) {
    Shared h{guarded_keep(s.size() + 1), guarded_keep(s.size())};
    memcpy(h.term, s.c_str(), s.size() + 1);
    memcpy(h.raw, s.data(), s.size());
    seal(h.term, s.size() + 1);
    seal(h.raw, s.size());
    i = pool.emplace(s, h).first;
  }
  return i->second;
}
void unchanged(const char * what)
{
  for (auto & k : pool) {
    CHECK(memcmp(k.second.term, k.first.c_str(), k.first.size() + 1) == 0 && memcmp(k.second.raw, k.first.data(), k.first.size()) == 0, "input-changed",
      "%s: a shared input text is not what it was: '%.60s'", what, k.first.c_str());
  }
  for (auto & a : arrays) {
    for (size_t i = 0; i < a.first.size(); ++i) {CHECK(a.second[i] == shared(a.first[i]).term, "input-changed", "%s: the argument array was changed", what);}
  }
}
int sgn(int v) {return v < 0 ? -1 : v > 0;}
int low(unsigned char c) {return c >= 'A' && c <= 'Z' ? c + 32 : c;}
int casecmp(const std::string & a, const std::string & b, size_t n)
{
  for (size_t i = 0; i < n; ++i) {
    int x = i < a.size() ? low((unsigned char)a[i]) : 0, y = i < b.size() ? low((unsigned char)b[i]) : 0;
    if (x != y) {return x < y ? -1 : 1;}
    if (!x) {return 0;}
  }
  return 0;
}
// ---- sorting
struct Sort { size_t size = 0; int order = 0, nest = 0, calls = 0; const std::string * probe_text = nullptr; };
Sort srt[8];
int by_int(const void * a, const void * b) {int x, y; memcpy(&x, a, sizeof x); memcpy(&y, b, sizeof y); return x < y ? -1 : x > y;}
int cmp_of(const Sort & s, const void * a, const void * b)
{
  size_t n = s.size;
  switch (s.order) {
    case 0: return memcmp(a, b, n);
    case 1: return -memcmp(a, b, n);
    case 2: return (int)(*(const unsigned char *)a >> 5) - (int)(*(const unsigned char *)b >> 5);
    case 3: return 0;
    default: return sgn(memcmp(a, b, n)) * 1000000;
  }
}
int cmp(const void * a, const void * b)
{
  Sort & s = srt[my_tid()];
  ++s.calls;
  yield(Y_CALL);
  if (s.nest == 1 && s.calls % 3 == 0) {       // the comparison itself uses the library
    int v[5] = {5, s.calls, -3, 9, 0};
    Sort keep = s;
    CHECK(rcutils_qsort(v, 5, sizeof v[0], by_int) == RCUTILS_RET_OK && std::is_sorted(v, v + 5), "nested-sort", "a sort inside a comparison went wrong");
    s = keep;
    probe("sort-inside-a-comparison");
  }
  return cmp_of(s, a, b);
}
void exec(const Plan & p)
{
  int nt = (int)p.C("threads", 1);
  pool.clear();
  arrays.clear();
  int64_t pid = g_pid;
  for (auto & o : p.ops) {
    for (auto & s : o.s) {shared(s);}
    if (o.code == EXIST || o.code == OPTION) {
      std::vector<std::string> v(o.s.size() > 1 ? o.s.begin() + 1 : o.s.end(), o.s.end());
      if (!arrays.count(v)) {
        char ** a = (char **)guarded_keep(v.size() * sizeof(char *));
        for (size_t i = 0; i < v.size(); ++i) {a[i] = shared(v[i]).term;}
        seal(a, v.size() * sizeof(char *));
        arrays[v] = a;
      }
    }
  }
  run_threads(p, nt, [&](int tid) {
    for (auto & o : p.ops) {
      if (o.tid != tid) {continue;}
      const std::string & s = o.S(0);
      char ch = (char)o.A(0);
      begin_op(o, names[o.code]);
      switch (o.code) {
        case FIND: case LAST: case FINDN: case LASTN: {
            bool n = o.code == FINDN || o.code == LASTN, last = o.code == LAST || o.code == LASTN, null = o.A(1);
            size_t len = n ? umod(o.A(2), s.size() + 1) : s.size();
            const char * in = null ? nullptr : n ? shared(s).raw : shared(s).term;
            size_t got = o.code == FIND ? rcutils_find(in, ch) : o.code == FINDN ? rcutils_findn(in, ch, len) :
              o.code == LAST ? rcutils_find_last(in, ch) : rcutils_find_lastn(in, ch, len);
            end_op("%zu", got);
            std::string t = s.substr(0, len);
            size_t want = null ? SIZE_MAX : last ? t.rfind(ch) : t.find(ch);
            if (want == std::string::npos) {want = SIZE_MAX;}
            CHECK(got == want, "find", "%s: character %d in '%.80s' (%zu): %zu, not %zu", names[o.code], ch, s.c_str(), len, got, want);
            break;
          }
        case CASECMP: case NCASECMP: {
            const std::string & t = o.S(1);
            bool n = o.code == NCASECMP;
            size_t len = n ? umod(o.A(1), s.size() + t.size() + 3) : SIZE_MAX;
            int64_t nul = o.A(0);
            int v = 424242;
            const char * a = nul & 1 ? nullptr : n && len <= s.size() ? shared(s).raw : shared(s).term;
            const char * b = nul & 2 ? nullptr : n && len <= t.size() ? shared(t).raw : shared(t).term;
            int ret = n ? rcutils_strncasecmp(a, b, len, nul & 4 ? nullptr : &v) : rcutils_strcasecmp(a, b, nul & 4 ? nullptr : &v);
            end_op("%d %d", ret, sgn(v));
            if (nul) {CHECK(ret != 0 && v == 424242, "null-argument", "%s with a null argument: %d", names[o.code], ret); break;}
            CHECK(ret == 0 && sgn(v) == casecmp(s, t, len), "case-compare", "%s('%.60s', '%.60s', %zd): returned %d, value %d, not %d", names[o.code], s.c_str(),
              t.c_str(), (ssize_t)len, ret, v, casecmp(s, t, len));
            break;
          }
        case EXIST: case OPTION: {
            std::vector<std::string> v(o.s.size() > 1 ? o.s.begin() + 1 : o.s.end(), o.s.end());
            size_t lo = umod(o.A(0), v.size() + 1), cnt = umod(o.A(1), v.size() - lo + 1);
            char ** b = arrays[v] + lo;
            size_t at = 0;
            while (at < cnt && v[lo + at] != s) {++at;}
            if (!cnt) {probe("empty-range");}
            if (o.code == EXIST) {
              bool got = rcutils_cli_option_exist(b, b + cnt, shared(s).term);
              end_op("%d", got);
              CHECK(got == (at < cnt), "option", "'%s' among %zu arguments: %s", s.c_str(), cnt, got ? "found" : "not found");
            } else {
              char * got = rcutils_cli_get_option(b, b + cnt, shared(s).term);
              end_op("%s", got ? got : "none");
              char * want = at + 1 < cnt ? b[at + 1] : nullptr;
              CHECK(got == want, "option", "value of '%s' among %zu arguments: %s%s%s, not %s%s%s", s.c_str(), cnt, got ? "'" : "", got ? got : "none", got ? "'" : "",
                want ? "'" : "", want ? want : "none", want ? "'" : "");
            }
            break;
          }
        case SORT: {
            size_t n = umod(o.A(0), 70000), sz = umod(o.A(1), 70000);
            if (!sz) {sz = 1;}
            int64_t mode = o.A(3);
            Sort & c = srt[tid];
            c = Sort();
            c.size = sz;
            c.order = (int)umod(o.A(4), 5);
            c.nest = (int)o.A(5);
            Rng r((uint64_t)o.A(2));
            std::string data(n * sz, '\0');
            unsigned span = r.chance(1, 2) ? 256 : 3;
            for (auto & x : data) {x = (char)r.below(span);}
            char * b = guarded(data.size());
            memcpy(b, data.data(), data.size());
            int ret = rcutils_qsort(mode & 2 ? nullptr : b, n, sz, mode & 1 ? nullptr : cmp);
            end_op("%d", ret);
            std::vector<std::string> was, now;
            for (size_t i = 0; i < n; ++i) {was.push_back(data.substr(i * sz, sz)); now.emplace_back(b + i * sz, sz);}
            if (mode & 1 || (mode & 2 && n > 1)) {
              CHECK(ret == RCUTILS_RET_INVALID_ARGUMENT && rcutils_error_is_set(), "sort-arguments", "qsort without %s: %d, %s", mode & 1 ? "a comparison" : "an array", ret,
                rcutils_error_is_set() ? "with a message" : "no message");
              CHECK(was == now, "sort-arguments", "a refused sort changed the array");
              {Quiet q; rcutils_reset_error();}
              break;
            }
            CHECK(ret == RCUTILS_RET_OK && !rcutils_error_is_set(), "sort", "qsort of %zu elements: %d", n, ret);
            if (mode & 2) {break;}
            for (size_t i = 1; i < n; ++i) {CHECK(cmp_of(c, now[i - 1].data(), now[i].data()) <= 0, "sort", "%zu elements of %zu bytes: element %zu is out of order", n, sz, i);}
            std::sort(was.begin(), was.end());
            std::sort(now.begin(), now.end());
            CHECK(was == now, "sort", "%zu elements of %zu bytes: elements were lost or made up", n, sz);
            break;
          }
        case PRINT: {
            size_t n = umod(o.A(0), 80000);
            int64_t bad = o.A(2);
            char * b = bad & 1 ? nullptr : guarded(n);
            if (b) {memset(b, 0x7e, n);}
            static thread_local char ref[80000];
            int v = (int)o.A(3), want, got;
            errno = 0;
#define P(...) do {want = snprintf(ref, sizeof ref, __VA_ARGS__); got = rcutils_snprintf(b, n, __VA_ARGS__);} while (0)
            if (bad & 2) {want = -1; got = rcutils_snprintf(b, n, nullptr);
            } else {
              switch (umod(o.A(1), 6)) {
                case 0: P("%s", s.c_str()); break;
                case 1: P("%d:%s", v, s.c_str()); break;
                case 2: P("%*d|%-5x", (int)umod(v, 40), v, (unsigned)v); break;
                case 3: P("plain %%"); break;
                case 4: P("%.*s.%s", (int)umod(v, 30), s.c_str(), s.c_str()); break;
                default: P("%lld %c %g", (long long)v << 33, 'c', v / 8.0); break;
              }
            }
            int e = errno;
            int f = fired();
            end_op("%d", got);
            if (f) {CHECK(got < 0, "print-failure", "formatting failed but %d was returned", got); break;}
            bool invalid = bad & 2 || (b ? n == 0 : n != 0);
            if (invalid) {CHECK(got == -1 && e == EINVAL, "print-arguments", "invalid arguments: returned %d, errno %d", got, e); break;}
            CHECK(got == want, "print", "returned %d, not %d, for a buffer of %zu bytes", got, want, n);
            if (b) {
              std::string w = std::string(ref).substr(0, n - 1);
              CHECK(strnlen(b, n) == w.size() && w == b, "print", "%zu bytes of room: '%.*s', not '%s'", n, (int)strnlen(b, n), b, w.c_str());
              if ((size_t)want >= n) {probe("cut-to-the-room");}
            }
            break;
          }
        case ERRTEXT: {
            size_t n = umod(o.A(1), 2000);
            if (!n) {n = 1;}
            char * b = guarded(n);
            memset(b, 0x7e, n);
            int e = (int)o.A(0);
            char room[256];
            std::string want = strerror_r(e, room, sizeof room);
            errno = e;
            rcutils_strerror(b, n);
            end_op("%s", strnlen(b, n) < n ? b : "unterminated");
            want = want.substr(0, n - 1);
            CHECK(strnlen(b, n) < n && want == b, "error-text", "error %d in %zu bytes: '%.*s', not '%s'", e, n, (int)strnlen(b, n), b, want.c_str());
            break;
          }
        case PID: {
            if (o.A(0) && nt == 1) {g_pid = o.A(0); probe("forked");}      // the run goes on in a child
            int got = rcutils_get_pid();
            end_op("%d", got);
            CHECK(got == (int)g_pid, "pid", "process id %d, not %d", got, (int)g_pid);
            break;
          }
        case ALNUM: {
            end_op();
            int c = (int)o.A(0);
            bool want = (c >= '0' && c <= '9') || (c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z');
            CHECK(rcutils_isalnum_no_locale((char)c) == want, "alnum", "character %d: %d", c, !want);
            break;
          }
        default: end_op(); break;
      }
      unchanged(names[o.code]);
    }
  });
  g_pid = pid;
  run_single(p, [&] {finish_run("at the end");});
}
const Workload W{"C26", names, NOPS, gen, exec};
Reg reg(&W);
}  // namespace
