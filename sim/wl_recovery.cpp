// C25: fail, then repeat. Every history is run twice: once with nothing failing, once with faults. Where a call is hit by a
// fault and reports failure it is repeated on the same objects with nothing failing; afterwards its result and all it touched
// must be what they are in the first run. A call that reports success in spite of a fault must have had its whole effect.
#include "wl.h"
#include "internal.h"
#include <algorithm>
extern "C" {
#include "rcutils/env.h"
#include "rcutils/filesystem.h"
#include "rcutils/format_string.h"
#include "rcutils/process.h"
#include "rcutils/repl_str.h"
#include "rcutils/shared_library.h"
#include "rcutils/snprintf.h"
#include "rcutils/split.h"
#include "rcutils/strdup.h"
#include "rcutils/time.h"
#include "rcutils/types.h"
}
using namespace sim;
namespace {
enum { HM_SET, HM_UNSET, HM_GET, HM_EXISTS, HM_NEXT, HM_INIT, SM_SET, SM_SETNR, SM_UNSET, SM_GET, SM_RESERVE, SM_CLEAR, SM_COPY, SM_INIT,
  AL_ADD, AL_SET, AL_RM, AL_GET, AL_INIT, SA_INIT, SA_SPLIT, SA_SPLIT_LAST, SA_RESIZE, SA_PUT, SA_JOIN, CA_STRCPY, CA_MEMCPY, CA_STRCAT, CA_NCAT, CA_PRINT, CA_EXPAND,
  CA_RESIZE, CA_INIT, UA_RESIZE, UA_INIT, DUP, NDUP, FMT, REPL, JOIN, NATIVE, EXPAND, EXE, SNPRINTF, T_NS, T_SEC, T_DATE, NOW_SYS, NOW_STEADY,
  DI_START, DI_NEXT, DI_END, DSIZE, EXISTS, IS_FILE, IS_DIR, IS_R, IS_W, FSIZE, CWD, MKDIR, LIB_LOAD, LIB_GET, LIB_NAME, LIB_UNLOAD,
  GETENV, SETENV, HOME, LOG_INIT, LOG_DOWN, LOG_SET, LOG_GET, LOG_ENABLED, LOG_SAY, LOG_PARSE, NOPS };
const char * const names[] = {"hash_map_set", "hash_map_unset", "hash_map_get", "hash_map_key_exists", "hash_map_get_next", "hash_map_fini_init", "string_map_set",
  "string_map_set_no_resize", "string_map_unset", "string_map_get", "string_map_reserve", "string_map_clear", "string_map_copy", "string_map_fini_init",
  "array_list_add", "array_list_set", "array_list_remove", "array_list_get", "array_list_fini_init", "string_array_fini_init", "split", "split_last",
  "string_array_resize", "string_array_put", "join", "char_array_strcpy", "char_array_memcpy", "char_array_strcat", "char_array_strncat", "char_array_vsprintf",
  "char_array_expand_as_needed", "char_array_resize", "char_array_fini_init", "uint8_array_resize", "uint8_array_fini_init", "strdup", "strndup", "format_string",
  "repl_str", "join_path", "to_native_path", "expand_user", "get_executable_name", "snprintf", "time_as_nanoseconds_string", "time_as_seconds_string",
  "time_as_date_string", "system_time_now", "steady_time_now", "dir_iter_start", "dir_iter_next", "dir_iter_end", "calculate_directory_size", "exists", "is_file",
  "is_directory", "is_readable", "is_writable", "get_file_size", "get_cwd", "mkdir", "load_shared_library", "get_symbol", "get_platform_library_name",
  "unload_shared_library", "get_env", "set_env", "get_home_dir", "logging_initialize", "logging_shutdown", "set_logger_level", "get_logger_effective_level",
  "logger_is_enabled_for", "log", "severity_level_from_string"};
static_assert(sizeof names / sizeof *names == NOPS, "names");

std::string word(Rng & r)
{
  if (r.chance(1, 25)) {return gen_long(r, 300, "/.");}
  switch (r.below(5)) {
    case 0: return gen_text(r, 3, "ab");
    case 1: return gen_text(r, 12, "a/b//c.%s");
    case 2: return gen_text(r, 8, "aBc");
    case 3: return std::string(r.below(90), (char)('a' + r.below(26)));
    default: return "key" + std::to_string(r.below(12));
  }
}
std::vector<int> kinds_of(int c)
{
  if (c <= SM_INIT || (c >= AL_ADD && c <= AL_INIT)) {return {F_ALLOC};}
  if (c >= SA_INIT && c <= SA_JOIN) {return {F_ALLOC, F_ALLOC, F_FI};}
  if (c == CA_PRINT) {return {F_ALLOC, F_FMT};}
  if (c >= CA_STRCPY && c <= UA_INIT) {return {F_ALLOC};}
  if (c >= DUP && c <= EXE) {return {F_ALLOC, F_ALLOC, F_FMT, F_FI, F_GETENV};}
  if (c >= SNPRINTF && c <= T_DATE) {return {F_FMT, F_FI, F_LOCALTIME, F_STRFTIME, F_ALLOC};}
  if (c >= NOW_SYS && c <= NOW_STEADY) {return {F_CLOCK};}
  if (c >= DI_START && c <= DSIZE) {return {F_ALLOC, F_OPENDIR, F_READDIR, F_STAT, F_CLOSEDIR, F_FMT};}
  if (c >= EXISTS && c <= FSIZE) {return {F_STAT};}
  if (c == CWD) {return {F_GETCWD};}
  if (c == MKDIR) {return {F_MKDIR, F_MKDIR, F_STAT};}
  if (c >= LIB_LOAD && c <= LIB_UNLOAD) {return {F_ALLOC, F_DLOPEN, F_DLSYM, F_DLINFO, F_DLCLOSE, F_FI, F_FMT};}
  if (c >= GETENV && c <= HOME) {return {F_SETENV, F_FI};}
  return {F_ALLOC, F_ALLOC, F_SETVBUF, F_FMT, F_CLOCK, F_WRITE, F_LOCALTIME, F_STRFTIME};
}
void gen(Rng & r, Plan & p, bool th)
{
  p.cfg["zero_null"] = r.chance(1, 6);
  p.cfg["realloc0"] = r.chance(1, 4);
  p.cfg["order"] = (int64_t)r.below(1000);
  p.cfg["dlclears"] = r.chance(1, 2);
  p.cfg["heap"] = r.chance(1, 4);            // the default allocator instead of one of the caller's
  p.cfg["wall"] = (int64_t)r.below(4000000000ull) * 1000000000ll + (int64_t)r.below(1000000000);
  p.cfg["fmt"] = (int64_t)r.below(5);
  std::vector<int> swarm;
  size_t k = r.chance(1, 5) ? 50 : 1 + r.below(6);
  for (size_t i = 0; i < k; ++i) {
    int c = (int)r.below(NOPS);
    swarm.push_back(c);
    if (c <= HM_INIT) {for (int x : {HM_SET, HM_SET, HM_SET, HM_UNSET}) {swarm.push_back(x);}}
    if (c >= SM_SET && c <= SM_INIT) {for (int x : {SM_SET, SM_SET, SM_SET, SM_UNSET}) {swarm.push_back(x);}}
    if (c >= AL_ADD && c <= AL_INIT) {for (int x : {AL_ADD, AL_ADD, AL_RM}) {swarm.push_back(x);}}
    if (c >= SA_INIT && c <= SA_JOIN) {for (int x : {SA_SPLIT, SA_RESIZE, SA_PUT}) {swarm.push_back(x);}}
    if (c >= CA_STRCPY && c <= CA_INIT) {for (int x : {CA_STRCPY, CA_PRINT, CA_STRCAT, CA_RESIZE}) {swarm.push_back(x);}}
    if (c >= DI_START && c <= DI_END) {for (int x : {DI_START, DI_NEXT, DI_NEXT, DI_NEXT}) {swarm.push_back(x);}}
    if (c >= LIB_LOAD && c <= LIB_UNLOAD) {for (int x : {LIB_LOAD, LIB_GET, LIB_UNLOAD}) {swarm.push_back(x);}}
    if (c >= LOG_INIT) {for (int x : {LOG_INIT, LOG_DOWN, LOG_SET, LOG_GET, LOG_SAY}) {swarm.push_back(x);}}
  }
  int keys = r.chance(1, 3) ? 60 : 9;
  unsigned frate = (unsigned)r.pick(std::vector<int>{1, 2, 4, 8});
  int n = (int)r.range(2, th ? 80 : 30);
  for (int i = 0; i < n; ++i) {
    Op o = mkop(0, r.pick(swarm), {(int64_t)r.below((uint64_t)keys), (int64_t)r.next() >> (8 + r.below(50)), (int64_t)r.below(300), r.chance(1, 4) ? (int64_t)r.below(4) : 0}, {word(r), word(r), word(r)});
    if (o.code == REPL && r.chance(3, 4)) {     // something to replace, often many times
      o.s[1] = gen_text(r, 2, "ab/k");
      o.s[0] = r.chance(1, 2) ? gen_text(r, 60, "ab/") : o.s[0] + o.s[1] + o.s[0];
    }
    gen_faults(r, o, kinds_of(o.code), frate, 12);
    // the third fault point of a resize lies in finalising what was cut off: nothing can be released when releasing fails
    if (o.code == SA_RESIZE) {for (auto & f : o.f) {if (f.kind == F_FI) {f.nth = 1 + f.nth % 2;}}}
    p.ops.push_back(o);
  }
}
void world(const Plan & p)
{
  g_zero_null = p.C("zero_null");
  g_realloc0_block = p.C("realloc0");
  g_disk.reset();
  g_disk.order_seed = (uint64_t)p.C("order");
  g_disk.mk("/w", Node::DIR_, 0755, 0);
  for (int i = 0; i <= 5; ++i) {g_disk.mk("/w/f" + std::to_string(i), Node::FILE_, (unsigned)(i & 1 ? 0644 : 0444), 100 + 10 * i);}
  g_disk.mk("/w/sub", Node::DIR_, 0755, 0);
  g_disk.mk("/w/sub/deep", Node::FILE_, 0600, 7);
  g_disk.mk("/w/sub/deeper", Node::DIR_, 0755, 0);
  g_disk.mk("/w/sub/deeper/x", Node::FILE_, 0600, 9);
  g_disk.mk("/w/link", Node::LINK_, 0777, 0);
  g_disk.mk("/m", Node::DIR_, 0755, 0);
  g_disk.cwd = "/w";
  g_env.clear();
  g_env["HOME"] = "/home/u";
  g_env["key1"] = "one";
  g_env["key2"] = "";
  static const char * const fmts[] = {nullptr, "{message}", "[{severity}] [{name}]: {message} {line_number}", "{time} {date_time_with_ms} {message}", "{file_name}:{function_name} {message}"};
  if (fmts[p.C("fmt") % 5]) {g_env["RCUTILS_CONSOLE_OUTPUT_FORMAT"] = fmts[p.C("fmt") % 5];}
  set_exe("/usr/bin/some-node");
  g_clock.set(p.C("wall"), 1234567890123ll);
  g_clock.tick = 0;
  g_tz_offset = 3600;
  g_dl.reset();
  g_dl.clears = p.C("dlclears");
  for (int t = 0; t < 3; ++t) {
    std::string s = std::to_string(t);
    g_dl.libs.push_back({"lib" + s + ".so", "/usr/lib/lib" + s + ".so", {{"f", (void *)(uintptr_t)(0xa0 + t)}, {"own" + s, (void *)(uintptr_t)(0xb0 + t)}}, 0, false});
  }
}
size_t hm_hash(const void * k) {return (size_t)(*(const int64_t *)k % 7);}
int hm_cmp(const void * a, const void * b) {int64_t x = *(const int64_t *)a, y = *(const int64_t *)b; return x < y ? -1 : x > y;}
// the documentation of these says that they set no error message in any case
bool silent(int c) {return c == SM_GET || c == HM_EXISTS || c == DUP || c == FMT;}
// these say why they fail, whatever it was; the library's own fault injection returns before they can
bool speaks(const Op & o)
{
  if (fired_kind(F_FI) || (o.code == DI_NEXT && fired_kind(F_FMT))) {return false;}
  return (o.code >= SM_SET && o.code <= SM_INIT && o.code != SM_GET) || o.code == SA_INIT || o.code == SA_RESIZE || (o.code >= CA_STRCPY && o.code <= UA_INIT) ||
         (o.code >= T_NS && o.code <= NOW_STEADY) || o.code == HM_INIT || o.code == AL_INIT || o.code == DI_NEXT || o.code == LOG_INIT;
}

// the documentation of these names RCUTILS_RET_BAD_ALLOC for want of memory
bool says_bad_alloc(int c)
{
  return c == HM_SET || c == HM_INIT || (c >= SM_SET && c <= SM_INIT && c != SM_UNSET && c != SM_GET && c != SM_CLEAR) || c == AL_ADD || c == AL_INIT ||
         (c >= SA_INIT && c <= SA_RESIZE) || (c >= CA_STRCPY && c <= UA_INIT) || c == DSIZE || c == LIB_LOAD;
}
void work(const Plan & p, bool faults, std::vector<std::string> & tr)
{
  int id = p.C("heap") ? HEAP : 1;
  rcutils_allocator_t al = p.C("heap") ? rcutils_get_default_allocator() : allocator(1);
  auto hm = rcutils_get_zero_initialized_hash_map();
  rcutils_string_map_t sm = rcutils_get_zero_initialized_string_map(), sm2 = rcutils_get_zero_initialized_string_map();
  auto li = rcutils_get_zero_initialized_array_list();
  rcutils_string_array_t sa[2] = {rcutils_get_zero_initialized_string_array(), rcutils_get_zero_initialized_string_array()};
  auto ca = rcutils_get_zero_initialized_char_array();
  auto ua = rcutils_get_zero_initialized_uint8_array();
  auto lib = rcutils_get_zero_initialized_shared_library();
  rcutils_dir_iter_t * it = nullptr;
  bool hm_up = false, sm_up = false, li_up = false;
  std::vector<char> borrowed;
  std::string di_seen;
  {
    NoFaults nf;
    CHECK(rcutils_hash_map_init(&hm, 2, sizeof(int64_t), sizeof(int64_t), hm_hash, hm_cmp, allocp(al)) == RCUTILS_RET_OK, "init", "hash map");
    CHECK(rcutils_string_map_init(&sm, 1, al) == RCUTILS_RET_OK, "init", "string map");
    CHECK(rcutils_string_map_init(&sm2, 0, al) == RCUTILS_RET_OK, "init", "string map");
    CHECK(rcutils_array_list_init(&li, 1, sizeof(int64_t), allocp(al)) == RCUTILS_RET_OK, "init", "array list");
    CHECK(rcutils_char_array_init(&ca, 4, allocp(al)) == RCUTILS_RET_OK, "init", "char array");
    CHECK(rcutils_uint8_array_init(&ua, 4, allocp(al)) == RCUTILS_RET_OK, "init", "byte array");
    ca.buffer[0] = 0;
    ca.buffer_length = 1;
    memset(ua.buffer, 0, 4);
    hm_up = sm_up = li_up = true;
  }
  for (size_t oi = 0; oi < p.ops.size(); ++oi) {
    Op o = p.ops[oi];
    if (o.code < 0 || o.code >= NOPS) {continue;}
    if (!faults) {o.f.clear();}
    // an entry that is gone (ENOENT) is no failure of the walk
    if (o.code == DSIZE) {for (auto & f : o.f) {if (f.kind == F_STAT) {f.arg &= ~(int64_t)3;}}}
    std::string out;
    auto put = [&](const char * f, ...) __attribute__((format(printf, 2, 3))) {
        char b[1400];
        va_list ap;
        va_start(ap, f);
        vsnprintf(b, sizeof b, f, ap);
        va_end(ap);
        out += b;
        out += '|';
      };
    auto str = [&](char * s) {
        if (!s) {put("(null)"); return false;}
        put("%zu:%016llx:%.60s", strlen(s), (unsigned long long)hash64(s, strlen(s)), s);
        al.deallocate(s, al.state);
        return true;
      };
    int code = 0;                        // what the last attempt returned, if it returns a code
    auto rc = [&](rcutils_ret_t r) {put("%d", r); code = r; return r == RCUTILS_RET_OK;};
    int64_t k = o.A(0) % 60, v = o.A(1);
    if (k < 0) {k = -k;}
    std::string s0 = o.S(0).c_str(), s1 = o.S(1).c_str(), s2 = o.S(2).c_str();
    const char * a = nullptr, * b = nullptr;
    size_t n2 = (size_t)(o.A(2) & 1023);
    rcutils_string_array_t & s = sa[o.A(0) & 1];
    std::string path = o.A(0) % 4 == 0 ? "/w/f" + std::to_string(n2 % 9) : o.A(0) % 4 == 1 ? "/w" : o.A(0) % 4 == 2 ? "/w/sub" : "/" + s0;
    // puts the objects the call works on into the state it needs; before every attempt
    auto prepare = [&] {
        a = guarded_str(s0);
        b = guarded_str(s1);
        Oracle q;
        switch (o.code) {
          case HM_INIT: if (hm_up) {CHECK(rcutils_hash_map_fini(&hm) == RCUTILS_RET_OK, "fini", "hash map"); hm_up = false;} break;
          case SM_INIT: if (sm_up) {CHECK(rcutils_string_map_fini(&sm) == RCUTILS_RET_OK, "fini", "string map"); sm_up = false;} break;
          case AL_INIT: if (li_up) {CHECK(rcutils_array_list_fini(&li) == RCUTILS_RET_OK, "fini", "array list"); li_up = false;} break;
          case SM_SETNR: {
              size_t c = 0;
              CHECK(rcutils_string_map_get_size(&sm, &c) == RCUTILS_RET_OK && rcutils_string_map_reserve(&sm, c + 1) == RCUTILS_RET_OK, "prepare", "reserve");
              break;
            }
          case SA_INIT: case SA_SPLIT: case SA_SPLIT_LAST:
            CHECK(rcutils_string_array_fini(&s) == RCUTILS_RET_OK, "fini", "string array");
            s = rcutils_get_zero_initialized_string_array();
            break;
          case SA_RESIZE: case SA_PUT: if (!s.allocator.allocate) {CHECK(rcutils_string_array_init(&s, 2, allocp(al)) == RCUTILS_RET_OK, "init", "string array");} break;
          case CA_INIT: CHECK(rcutils_char_array_fini(&ca) == RCUTILS_RET_OK, "fini", "char array"); break;
          case UA_INIT: CHECK(rcutils_uint8_array_fini(&ua) == RCUTILS_RET_OK, "fini", "byte array"); break;
          case DI_START: if (it) {rcutils_dir_iter_end(it); it = nullptr;} break;
          case LIB_LOAD: if (lib.lib_pointer) {CHECK(rcutils_unload_shared_library(&lib) == RCUTILS_RET_OK, "unload", "%s", lib.library_path);} break;
          case LOG_INIT: CHECK(rcutils_logging_shutdown() == RCUTILS_RET_OK, "shutdown", "logging"); break;
          default: break;
        }
        rcutils_reset_error();
      };
    bool first = true;
    // the call itself: gives whether it says that it did what was asked
    auto attempt = [&]() -> bool {
        switch (o.code) {
          case HM_SET: return rc(rcutils_hash_map_set(&hm, &k, &v));
          case HM_UNSET: return rc(rcutils_hash_map_unset(&hm, &k));
          case HM_GET: {int64_t g = -1; bool ok = rc(rcutils_hash_map_get(&hm, &k, &g)); put("%lld", (long long)(ok ? g : 0)); return ok;}
          case HM_EXISTS: return rcutils_hash_map_key_exists(&hm, &k);
          case HM_NEXT: {
              int64_t key = 0, val = 0;
              rcutils_ret_t r = rcutils_hash_map_get_next_key_and_data(&hm, nullptr, &key, &val);
              return rc(r);
            }
          case HM_INIT: return hm_up = rc(rcutils_hash_map_init(&hm, (size_t)(1 + n2 % 5), sizeof(int64_t), sizeof(int64_t), hm_hash, hm_cmp, allocp(al)));
          case SM_SET: return rc(rcutils_string_map_set(&sm, a, b));
          case SM_SETNR: return rc(rcutils_string_map_set_no_resize(&sm, a, b));
          case SM_UNSET: return rc(rcutils_string_map_unset(&sm, a));
          case SM_GET: {const char * g = rcutils_string_map_get(&sm, a); put("%s", g ? g : "(null)"); return g;}
          case SM_RESERVE: {
              size_t c = 0;
              bool ok = rc(rcutils_string_map_reserve(&sm, n2 % 40));
              if (ok) {Oracle q; ok = rcutils_string_map_get_capacity(&sm, &c) == RCUTILS_RET_OK && c >= n2 % 40; CHECK(ok, "missing-effect", "reserve %zu gave OK and capacity %zu", n2 % 40, c);}
              return ok;
            }
          case SM_CLEAR: return rc(rcutils_string_map_clear(&sm));
          case SM_COPY: return rc(o.A(0) & 1 ? rcutils_string_map_copy(&sm2, &sm) : rcutils_string_map_copy(&sm, &sm2));
          case SM_INIT: return sm_up = rc(rcutils_string_map_init(&sm, n2 % 5, al));
          case AL_ADD: return rc(rcutils_array_list_add(&li, &v));
          case AL_SET: return rc(rcutils_array_list_set(&li, (size_t)k % 9, &v));
          case AL_RM: return rc(rcutils_array_list_remove(&li, (size_t)k % 9));
          case AL_GET: {int64_t g = -1; bool ok = rc(rcutils_array_list_get(&li, (size_t)k % 9, &g)); put("%lld", (long long)(ok ? g : 0)); return ok;}
          case AL_INIT: return li_up = rc(rcutils_array_list_init(&li, 1 + n2 % 5, sizeof(int64_t), allocp(al)));
          case SA_INIT: return rc(rcutils_string_array_init(&s, n2 % 6, allocp(al)));
          case SA_SPLIT: return rc(rcutils_split((s0 + "/" + s1 + "/" + s2).c_str(), '/', al, &s));
          case SA_SPLIT_LAST: return rc(rcutils_split_last((s0 + "/" + s1).c_str(), '/', al, &s));
          case SA_RESIZE: return rc(rcutils_string_array_resize(&s, n2 % 9));
          case SA_PUT: {
              if (!s.size) {return true;}
              char * d = rcutils_strdup(a, al);
              if (!d) {return false;}
              al.deallocate(s.data[n2 % s.size], al.state);
              s.data[n2 % s.size] = d;
              return true;
            }
          case SA_JOIN: return true;
          case CA_STRCPY: return rc(rcutils_char_array_strcpy(&ca, a));
          case CA_MEMCPY: return rc(rcutils_char_array_memcpy(&ca, a, s0.size() + 1));
          case CA_STRCAT: return rc(rcutils_char_array_strcat(&ca, a));
          case CA_NCAT: return rc(rcutils_char_array_strncat(&ca, a, (size_t)k));
          case CA_PRINT: {
              auto pr = [&](const char * f, ...) {
                  va_list ap;
                  va_start(ap, f);
                  rcutils_ret_t r = rcutils_char_array_vsprintf(&ca, f, ap);
                  va_end(ap);
                  return r;
                };
              return rc(pr("%s-%d-%s", a, (int)o.A(0), b));
            }
          case CA_EXPAND: {
              bool ok = rc(rcutils_char_array_expand_as_needed(&ca, n2));
              CHECK(!ok || ca.buffer_capacity >= n2, "missing-effect", "expand to %zu gave OK and capacity %zu", n2, ca.buffer_capacity);
              return ok;
            }
          case CA_RESIZE: {bool ok = rc(rcutils_char_array_resize(&ca, 1 + n2)); put("%zu", ok ? ca.buffer_capacity : 0); return ok;}
          case CA_INIT: {
              bool ok = rc(rcutils_char_array_init(&ca, n2 % 20, allocp(al)));
              if (ok && ca.buffer) {ca.buffer[0] = 0; ca.buffer_length = 1;}
              return ok;
            }
          case UA_RESIZE: {
              size_t c0 = ua.buffer_capacity;
              bool ok = rc(rcutils_uint8_array_resize(&ua, 1 + n2));
              for (size_t i = c0; ok && i < ua.buffer_capacity; ++i) {ua.buffer[i] = (uint8_t)(oi * 50 + i);}
              return ok;
            }
          case UA_INIT: {
              bool ok = rc(rcutils_uint8_array_init(&ua, n2 % 20, allocp(al)));
              for (size_t i = 0; ok && i < ua.buffer_capacity; ++i) {ua.buffer[i] = (uint8_t)i;}
              return ok;
            }
          case DUP: return str(rcutils_strdup(a, al));
          case NDUP: return str(rcutils_strndup(a, (size_t)k, al));
          case FMT: return str(o.A(0) & 1 ? rcutils_format_string(al, "%s/%d/%s", a, (int)o.A(2), b) : rcutils_format_string_limit(al, 9, "%d%s", (int)o.A(2), a));
          case REPL: return str(rcutils_repl_str(a, s1.empty() ? "/" : b, s2.c_str(), allocp(al)));
          case JOIN: return str(rcutils_join_path(a, b, al));
          case NATIVE: return str(rcutils_to_native_path(a, al));
          case EXPAND: return str(rcutils_expand_user(("~/" + s0).c_str(), al));
          case EXE: return str(rcutils_get_executable_name(al));
          case SNPRINTF: {
              char buf[64];
              memset(buf, 0, sizeof buf);
              int r = rcutils_snprintf(buf, n2 % 64, "%s+%lld", a, (long long)v);
              put("%d %s", r, r >= 0 && n2 % 64 ? buf : "");
              return r >= 0;
            }
          case T_NS: case T_SEC: case T_DATE: {
              char buf[64];
              memset(buf, 0, sizeof buf);
              rcutils_time_point_value_t t = (v & INT64_MAX) % 4000000000000000000ll;
              bool ok = rc(o.code == T_NS ? rcutils_time_point_value_as_nanoseconds_string(&t, buf, sizeof buf) :
                o.code == T_SEC ? rcutils_time_point_value_as_seconds_string(&t, buf, sizeof buf) : rcutils_time_point_value_as_date_string(&t, buf, sizeof buf));
              put("%s", ok ? buf : "");
              return ok;
            }
          case NOW_SYS: case NOW_STEADY: {
              rcutils_time_point_value_t t = -5;
              bool ok = rc(o.code == NOW_SYS ? rcutils_system_time_now(&t) : rcutils_steady_time_now(&t));
              put("%lld", ok ? (long long)t : 0);
              return ok;
            }
          case DI_START:
            it = rcutils_dir_iter_start(path.c_str(), al);
            put("%s", it && it->entry_name ? it->entry_name : "(none)");
            return it;
          case DI_NEXT: {
              if (!it) {return true;}
              bool r = rcutils_dir_iter_next(it);
              put("%d %s", r, r ? it->entry_name : "");
              return r;
            }
          case DI_END: if (it) {rcutils_dir_iter_end(it); it = nullptr;} return true;
          case DSIZE: {
              uint64_t n = 0;
              bool ok = rc(o.A(0) & 1 ? rcutils_calculate_directory_size_with_recursion("/w", n2 % 4, &n, al) : rcutils_calculate_directory_size("/w", &n, al));
              put("%llu", (unsigned long long)(ok ? n : 0));
              return ok;
            }
          case EXISTS: return rcutils_exists(path.c_str());
          case IS_FILE: return rcutils_is_file(path.c_str());
          case IS_DIR: return rcutils_is_directory(path.c_str());
          case IS_R: return rcutils_is_readable(path.c_str());
          case IS_W: return rcutils_is_writable(path.c_str());
          case FSIZE: {size_t n = rcutils_get_file_size(path.c_str()); put("%zu", n); return n;}
          case CWD: {char buf[64]; bool r = rcutils_get_cwd(buf, sizeof buf); put("%s", r ? buf : ""); return r;}
          case MKDIR: return rcutils_mkdir(("/m/" + std::to_string(k % 6) + (n2 & 1 ? "/x" : "")).c_str());
          case LIB_LOAD: {
              bool ok = rc(rcutils_load_shared_library(&lib, n2 % 7 ? ("lib" + std::to_string(n2 % 3) + ".so").c_str() : "none.so", al));
              return ok;
            }
          case LIB_GET: {
              if (!lib.lib_pointer) {return true;}
              void * g = rcutils_get_symbol(&lib, o.A(0) & 1 ? "f" : ("own" + std::to_string(o.A(0) % 3)).c_str());
              put("%p", g);
              return g;
            }
          case LIB_NAME: {
              char buf[40] = "";
              bool ok = rc(rcutils_get_platform_library_name(a, buf, (unsigned)sizeof buf, o.A(0) & 1));
              put("%s", ok ? buf : "");
              return ok;
            }
          case LIB_UNLOAD: return !lib.lib_pointer || rc(rcutils_unload_shared_library(&lib));
          case GETENV: {const char * g = "x"; const char * e = rcutils_get_env(n2 & 1 ? a : ("key" + std::to_string(n2 % 5)).c_str(), &g); put("%s", e ? "" : g); return !e;}
          case SETENV: return rcutils_set_env(("key" + std::to_string(n2 % 5)).c_str(), n2 % 4 ? a : nullptr);
          case HOME: {const char * h = rcutils_get_home_dir(); put("%s", h ? h : "(null)"); return h;}
          case LOG_INIT: return rc(rcutils_logging_initialize_with_allocator(al));
          case LOG_DOWN: return rc(rcutils_logging_shutdown());
          case LOG_SET: return rc(rcutils_logging_set_logger_level(("a.b." + std::to_string(k % 5)).substr(0, 1 + n2 % 5).c_str(), 10 * (int)(n2 % 6)));
          case LOG_GET: {int l = rcutils_logging_get_logger_effective_level(("a.b." + std::to_string(k % 5)).c_str()); put("%d", l); return l >= 0;}
          case LOG_ENABLED: return rcutils_logging_logger_is_enabled_for(("a.b." + std::to_string(k % 5)).c_str(), 10 * (int)(n2 % 6));
          case LOG_SAY: {
              rcutils_log_location_t loc = {"fn", "file.cpp", (size_t)o.A(0)};
              g_err.data.clear();
              g_out.data.clear();
              rcutils_log(&loc, 10 * (int)(1 + n2 % 5), ("a.b." + std::to_string(k % 5)).c_str(), "%s", a);
              put("%s", (g_out.data + g_err.data).c_str());
              return !first || !fired();
            }
          case LOG_PARSE: {
              static const char * lv[] = {"info", "DEBUG", "Fatal", "warn", "nonsense", "UNSET"};
              int l = -9;
              bool ok = rc(rcutils_logging_severity_level_from_string(lv[n2 % 6], al, &l));
              put("%d", ok ? l : -9);
              return ok;
            }
          default: return true;
        }
      };
    bool on_ca = o.code >= CA_STRCPY && o.code <= CA_INIT;
    std::string ca0 = on_ca && ca.buffer && ca.buffer_length ? std::string(ca.buffer) : std::string();
    std::string ua0((const char *)ua.buffer, ua.buffer_capacity);
    prepare();
    begin_op(o, names[o.code]);
    bool ok = attempt();
    bool err = rcutils_error_is_set(), memory = !ok && fired() && fired() == fired_kind(F_ALLOC);
    int why = code;
    int f = end_op("%d %016llx", ok, (unsigned long long)hash64(out.data(), out.size()));
    first = false;
    // it may fail several times before it can succeed
    for (int64_t again = o.A(3) % 4; f && !ok && again > 0 && o.code != LIB_UNLOAD; --again) {
      if ((on_ca && !ca.buffer) || (o.code == UA_RESIZE && !ua.buffer)) {break;}
      prepare();
      out.clear();
      first = true;
      begin_op(o, names[o.code]);
      ok = attempt();
      err = rcutils_error_is_set(), memory = !ok && fired() && fired() == fired_kind(F_ALLOC);
      why = code;
      f = end_op("%d %016llx", ok, (unsigned long long)hash64(out.data(), out.size()));
      first = false;
      probe("failed-again");
      f += ok;
    }
    CHECK(!silent(o.code) || !err, "message", "%s set an error message: %s", names[o.code], rcutils_get_error_string().str);
    CHECK(!(f && !ok && speaks(o)) || err, "message", "%s fails without an error message", names[o.code]);
    if (f && ok) {probe("success-despite-fault");}
    if (f && !ok) {
      probe((std::string("retry-") + names[o.code]).c_str());
      Oracle q;
      bool lost = (on_ca && !ca.buffer) || (o.code == UA_RESIZE && !ua.buffer);
      if (lost && o.code != CA_INIT) {
        // the contents may be gone, but the object has to be usable
        probe("contents-lost");
        CHECK(attempt(), "no-recovery", "%s fails (%s) when repeated with nothing failing", names[o.code], out.c_str());
        if (on_ca) {
          CHECK(rcutils_char_array_strcpy(&ca, ca0.c_str()) == RCUTILS_RET_OK, "no-recovery", "char array not usable after a failed %s", names[o.code]);
        } else {
          CHECK((ua0.empty() ? rcutils_uint8_array_fini(&ua) : rcutils_uint8_array_resize(&ua, ua0.size())) == RCUTILS_RET_OK, "no-recovery", "byte array not usable after a failed resize");
          memcpy(ua.buffer, ua0.data(), ua0.size());
        }
      }
      if (o.code == LIB_UNLOAD) {
        // what a failed unload leaves of the library is not promised: it can be loaded again
        if (lib.lib_pointer) {ok = attempt();}
        out = "0|";
        ok = true;
      } else {
        prepare();
        out.clear();
        ok = attempt();
      }
      // only memory was missing, as the repeated call shows: that is the reason it has to give
      if (memory && ok && !lost && says_bad_alloc(o.code)) {
        probe("bad-alloc");
        CHECK(why == RCUTILS_RET_BAD_ALLOC, "reason", "%s fails for want of memory and answers %d", names[o.code], why);
      }
    }
    // what the call left behind
    Oracle q;
    if (o.code <= HM_INIT) {
      size_t n = 0;
      CHECK(rcutils_hash_map_get_size(&hm, &n) == RCUTILS_RET_OK, "dump", "hash map size");
      put("%zu", n);
      for (int64_t i = 0; i < 60; ++i) {int64_t g = 0; if (rcutils_hash_map_get(&hm, &i, &g) == RCUTILS_RET_OK) {put("%lld=%lld", (long long)i, (long long)g);}}
    } else if (o.code <= SM_INIT) {
      for (auto * m : {&sm, &sm2}) {
        std::vector<std::string> l;
        for (const char * key = rcutils_string_map_get_next_key(m, nullptr); key && l.size() < 200; key = rcutils_string_map_get_next_key(m, key)) {
          const char * g = rcutils_string_map_get(m, key);
          l.push_back(std::string(key) + "=" + (g ? g : "(null)"));
        }
        std::sort(l.begin(), l.end());
        size_t n = 0;
        CHECK(rcutils_string_map_get_size(m, &n) == RCUTILS_RET_OK, "dump", "string map size");
        put("%zu:", n);
        for (auto & x : l) {put("%s", x.c_str());}
      }
    } else if (o.code <= AL_INIT) {
      size_t n = 0;
      CHECK(rcutils_array_list_get_size(&li, &n) == RCUTILS_RET_OK, "dump", "array list size");
      put("%zu", n);
      for (size_t i = 0; i < n; ++i) {int64_t g = 0; CHECK(rcutils_array_list_get(&li, i, &g) == RCUTILS_RET_OK, "dump", "element"); put("%lld", (long long)g);}
    } else if (o.code <= SA_JOIN) {
      put("%zu", s.size);
      for (size_t i = 0; i < s.size; ++i) {put("%s", s.data[i] ? s.data[i] : "(null)");}
    } else if (on_ca) {
      if (!ca.buffer || !ca.buffer_length) {CHECK(rcutils_char_array_strcpy(&ca, "") == RCUTILS_RET_OK, "dump", "char array");}
      if (o.code == CA_RESIZE) {ca.buffer[ca.buffer_length - 1] = 0;}
      put("%zu %s", ca.buffer_length, ca.buffer);
      CHECK(ca.buffer_length <= ca.buffer_capacity, "dump", "length %zu, capacity %zu", ca.buffer_length, ca.buffer_capacity);
    } else if (o.code == UA_RESIZE || o.code == UA_INIT) {
      put("%zu %016llx", ua.buffer_capacity, (unsigned long long)(ua.buffer ? hash64(ua.buffer, ua.buffer_capacity) : 0));
    } else if (o.code == MKDIR) {
      put("%s", g_disk.dump().c_str());
    } else if (o.code >= LIB_LOAD && o.code <= LIB_UNLOAD) {
      put("%d %s", rcutils_is_shared_library_loaded(&lib), lib.lib_pointer && lib.library_path ? lib.library_path : "(null)");
    } else if (o.code == SETENV) {
      for (auto & x : g_env) {put("%s=%s", x.first.c_str(), x.second.c_str());}
    }
    tr.push_back(std::to_string(oi) + " " + names[o.code] + (f ? " after a fault" : "") + ":" + (ok ? " yes " : " no ") + out);
    rcutils_reset_error();
  }
  Oracle q;
  if (it) {rcutils_dir_iter_end(it);}
  int bad = 0;
  bad |= lib.lib_pointer && rcutils_unload_shared_library(&lib) != RCUTILS_RET_OK;
  bad |= hm_up && rcutils_hash_map_fini(&hm) != RCUTILS_RET_OK;
  bad |= sm_up && rcutils_string_map_fini(&sm) != RCUTILS_RET_OK;
  bad |= rcutils_string_map_fini(&sm2) != RCUTILS_RET_OK;
  bad |= li_up && rcutils_array_list_fini(&li) != RCUTILS_RET_OK;
  for (auto & x : sa) {bad |= rcutils_string_array_fini(&x) != RCUTILS_RET_OK;}
  bad |= rcutils_char_array_fini(&ca) != RCUTILS_RET_OK;
  bad |= rcutils_uint8_array_fini(&ua) != RCUTILS_RET_OK;
  CHECK(!bad, "fini", "an object cannot be finalised at the end");
  rcutils_reset_error();
  CHECK(rcutils_logging_shutdown() == RCUTILS_RET_OK, "fini", "logging");
  check_no_leaks_id(id, faults ? "end of the run with faults" : "end of the run without faults");
  CHECK(g_disk.open_dirs == 0, "handles", "%d directories left open", g_disk.open_dirs);
}
void exec(const Plan & p)
{
  std::vector<std::string> clean, faulty;
  world(p);
  run_single(p, [&] {work(p, false, clean);});
  restore_globals();
  world(p);
  run_single(p, [&] {work(p, true, faulty);});
  run_single(p, [&] {
    CHECK(clean.size() == faulty.size(), "differs", "%zu operations without faults, %zu with", clean.size(), faulty.size());
    for (size_t i = 0; i < clean.size(); ++i) {
      const std::string & x = faulty[i], & y = clean[i];
      std::string xs = x;
      size_t at = xs.find(" after a fault:");
      if (at != std::string::npos) {xs.erase(at, 14);}
      size_t d = 0;
      while (d < xs.size() && d < y.size() && xs[d] == y[d]) {++d;}
      d = d > 40 ? d - 40 : 0;
      CHECK(xs == y, "differs", "operation %.60s: with faults and repeated '%.200s', with nothing failing '%.200s'", x.c_str(), xs.c_str() + d, y.c_str() + d);
    }
    finish_run("recovery");
  });
}
const Workload W{"C25", names, NOPS, gen, exec};
Reg reg(&W);
}  // namespace
