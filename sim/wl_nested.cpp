// C31: callbacks may use the library. Every history is run twice: once with callbacks (allocators, hash and comparison functions,
// output handlers, macro filters, time sources, macro arguments) that only do what they are for, once with callbacks that also use
// the library on objects of their own. Every operation has to give the same in both, and what the callbacks do has to be right.
#include "wl.h"
#include "internal.h"
#include <algorithm>
extern "C" {
#include "rcutils/env.h"
#include "rcutils/filesystem.h"
#include "rcutils/find.h"
#include "rcutils/format_string.h"
#include "rcutils/process.h"
#include "rcutils/qsort.h"
#include "rcutils/repl_str.h"
#include "rcutils/sha256.h"
#include "rcutils/shared_library.h"
#include "rcutils/snprintf.h"
#include "rcutils/split.h"
#include "rcutils/strcasecmp.h"
#include "rcutils/strdup.h"
#include "rcutils/strerror.h"
#include "rcutils/time.h"
#include "rcutils/types.h"
int un_callback(int where, int v);
void un_function(int v);
void un_function_named(int v, const char * name);
void un_throttle(int v);
void un_once(int v);
void un_skipfirst(int v);
void un_expression(int v);
void un_plain(int v);
}
using namespace sim;
namespace {
enum { HM_SET, HM_UNSET, HM_GET, HM_WALK, SM_SET, SM_UNSET, SM_COPY, SM_RESERVE, AL_ADD, AL_RM, SA_RESIZE, SPLIT, SPLIT_LAST, CA_CAT, CA_PRINT, CA_RESIZE, UA_RESIZE,
  DUP, FMT, REPL, JOIN, NATIVE, EXPAND, EXE, SORT, DIR, DSIZE, LIB, PARSE, LOG, FORMAT, LEVEL, QUERY, MACRO, ADVANCE, RESTART, NOPS };
const char * const names[] = {"hash_map_set", "hash_map_unset", "hash_map_get", "hash_map_walk", "string_map_set", "string_map_unset", "string_map_copy", "string_map_reserve",
  "array_list_add", "array_list_remove", "string_array_resize", "split", "split_last", "char_array_strcat", "char_array_vsprintf", "char_array_resize", "uint8_array_resize",
  "strdup", "format_string", "repl_str", "join_path", "to_native_path", "expand_user", "get_executable_name", "qsort", "dir_iter", "calculate_directory_size",
  "load_shared_library", "severity_from_string", "log", "format_message", "set_logger_level", "get_logger_effective_level", "log-macro", "clock-advances", "logging-restart"};
static_assert(sizeof names / sizeof *names == NOPS, "names");

// ---- what callbacks do
bool g_on;                     // the callbacks use the library in this run
int g_depth, g_left;
bool g_may_log;                // the callback running now is outside logging's own data
uint64_t g_z, g_count, g_period;
std::vector<std::string> g_nested;   // texts logged by callbacks that have reached the handler
bool g_silent;
int g_fmt;
uint64_t mix(uint64_t a, uint64_t b) {uint64_t v[2] = {a, b}; return hash64(v, sizeof v);}
void nested_work(uint64_t h);
void callback(bool may_log)
{
  if (!g_on || g_depth >= 2 || g_left <= 0 || g_silent) {return;}
  uint64_t h = mix(g_z, ++g_count);
  if (h % g_period) {return;}
  --g_left;
  bool was = g_may_log;
  g_may_log = may_log && g_depth == 0;
  ++g_depth;
  {
    Oracle q;
    bool e = rcutils_error_is_set();
    std::string s = rcutils_get_error_string().str;
    nested_work(h >> 20);
    CHECK(rcutils_error_is_set() == e && s == rcutils_get_error_string().str, "error-state", "the work in a callback changed the error state to '%.100s'", rcutils_get_error_string().str);
  }
  --g_depth;
  g_may_log = was;
  probe(g_depth ? "nested-twice" : "nested");
}
// allocators whose functions use the library: over allocator 1 (the operations) and 3 (the callbacks)
int g_ids[] = {1, 3};
bool g_handler_phase;
#define BASE rcutils_allocator_t b = allocator(*(int *)s); callback(g_handler_phase)
void * n_alloc(size_t n, void * s) {BASE; return b.allocate(n, b.state);}
void n_free(void * p, void * s) {BASE; b.deallocate(p, b.state);}
void * n_realloc(void * p, size_t n, void * s) {BASE; return b.reallocate(p, n, b.state);}
void * n_zalloc(size_t n, size_t e, void * s) {BASE; return b.zero_allocate(n, e, b.state);}
rcutils_allocator_t nalloc(int which)
{
  rcutils_allocator_t a = rcutils_get_zero_initialized_allocator();
  a.allocate = n_alloc;
  a.deallocate = n_free;
  a.reallocate = n_realloc;
  a.zero_allocate = n_zalloc;
  a.state = &g_ids[which];
  return a;
}
size_t hm_hash(const void * k) {callback(false); return (size_t)(*(const int64_t *)k % 5);}
int hm_cmp(const void * a, const void * b) {callback(false); int64_t x = *(const int64_t *)a, y = *(const int64_t *)b; return x < y ? -1 : x > y;}
size_t text_hash(const void * k) {return rcutils_hash_map_string_hash_func(k);}
int by_int(const void * a, const void * b) {callback(true); int x = *(const int *)a, y = *(const int *)b; return x < y ? -1 : x > y;}

#define N(cond, what) CHECK(cond, "nested", "in a callback: %s went wrong", what)
std::string take(char * s, const rcutils_allocator_t & a)
{
  if (!s) {return "(null)";}
  std::string r = s;
  a.deallocate(s, a.state);
  return r;
}
void handler(const rcutils_log_location_t * l, int sev, const char * name, rcutils_time_point_value_t t, const char * f, va_list * a);
void other_handler(const rcutils_log_location_t *, int, const char *, rcutils_time_point_value_t, const char * f, va_list * a)
{
  char b[64];
  vsnprintf(b, sizeof b, f, *a);
  g_nested.push_back(b);
}
int g_chain;
void nested_log(uint64_t h)
{
  size_t n = g_nested.size(), wrote = g_out.data.size();
  std::string nm = "nest." + std::to_string(h % 3), tx = "nested#" + std::to_string(h % 1000);
  rcutils_logging_output_handler_t old = rcutils_logging_get_output_handler();
  bool other = h & 64;
  int chain = other ? 0 : (int)(h >> 7) % 5;
  chain = std::max(0, chain - 1);
  g_chain = chain;
  if (other) {rcutils_logging_set_output_handler(other_handler);}
  rcutils_log(nullptr, 50, nm.c_str(), "nested#%d", (int)(h % 1000));
  if (other) {
    N(rcutils_logging_get_output_handler() == other_handler, "get_output_handler");
    rcutils_logging_set_output_handler(old);
  }
  N(g_nested.size() == n + 1 + (size_t)chain && g_nested[n] == tx, "log");
  if (!other) {
    std::string out = g_out.data.substr(wrote), mine = "[FATAL] [" + nm + "]: " + tx + "\n";
    N(std::count(out.begin(), out.end(), '\n') == 1 + chain && out.back() == '\n', "the line logged");
    for (int i = 0; i < chain; ++i) {out = out.substr(out.find('\n') + 1);}
    N(g_fmt || out == mine, "the line logged");
    N(out.find(tx) != out.npos, "the line logged");
  } else {N(g_out.data.size() == wrote, "log");}
  probe("nested-log");
}
void nested_work(uint64_t h)
{
  rcutils_allocator_t al = nalloc(1);
  bool l = g_may_log;
  uint64_t z = h / 64;
  int v = (int)(z % 90);
  std::string vs = std::to_string(v);
  switch (h % (l ? 42 : 34)) {
    case 0: N(take(rcutils_strdup(("text" + vs).c_str(), al), al) == "text" + vs, "strdup"); break;
    case 1: N(take(rcutils_strndup("abcdefgh", v % 8, al), al) == std::string("abcdefgh").substr(0, v % 8), "strndup"); break;
    case 2: N(take(rcutils_format_string(al, "<%d|%s>", v, vs.c_str()), al) == "<" + vs + "|" + vs + ">", "format_string"); break;
    case 3: N(take(rcutils_repl_str("a-b--c-", "-", vs.c_str(), allocp(al)), al) == "a" + vs + "b" + vs + vs + "c" + vs, "repl_str"); break;
    case 4: {
        auto s = rcutils_get_zero_initialized_string_array();
        N(rcutils_split((vs + "/x//y" + vs).c_str(), '/', al, &s) == RCUTILS_RET_OK && s.size == 3 && s.data[0] == vs && s.data[2] == "y" + vs, "split");
        N(rcutils_string_array_fini(&s) == RCUTILS_RET_OK, "string_array_fini");
        break;
      }
    case 5: {
        auto s = rcutils_get_zero_initialized_string_array();
        N(rcutils_split_last(("p/q/" + vs).c_str(), '/', al, &s) == RCUTILS_RET_OK && s.size == 2 && s.data[0] == std::string("p/q") && s.data[1] == vs, "split_last");
        N(rcutils_string_array_fini(&s) == RCUTILS_RET_OK, "string_array_fini");
        break;
      }
    case 6: N(take(rcutils_join_path("dir", vs.c_str(), al), al) == "dir/" + vs, "join_path"); break;
    case 7: N(take(rcutils_expand_user(("~/" + vs).c_str(), al), al) == "/home/u/" + vs, "expand_user"); break;
    case 8: {
        auto m = rcutils_get_zero_initialized_string_map();
        N(rcutils_string_map_init(&m, 4, al) == RCUTILS_RET_OK, "string_map_init");    // growing one resets the error state
        for (int i = 0; i < 4; ++i) {N(rcutils_string_map_set(&m, ("k" + std::to_string(i)).c_str(), (vs + std::to_string(i)).c_str()) == RCUTILS_RET_OK, "string_map_set");}
        for (int i = 0; i < 4; ++i) {
          const char * g = rcutils_string_map_get(&m, ("k" + std::to_string(i)).c_str());
          N(g && g == vs + std::to_string(i), "string_map_get");
        }
        N(rcutils_string_map_fini(&m) == RCUTILS_RET_OK, "string_map_fini");
        break;
      }
    case 9: {
        auto li = rcutils_get_zero_initialized_array_list();
        N(rcutils_array_list_init(&li, 1, sizeof(int), allocp(al)) == RCUTILS_RET_OK, "array_list_init");
        for (int i = 0; i < 5; ++i) {int x = v + i; N(rcutils_array_list_add(&li, &x) == RCUTILS_RET_OK, "array_list_add");}
        for (int i = 0; i < 5; ++i) {int x = 0; N(rcutils_array_list_get(&li, (size_t)i, &x) == RCUTILS_RET_OK && x == v + i, "array_list_get");}
        N(rcutils_array_list_fini(&li) == RCUTILS_RET_OK, "array_list_fini");
        break;
      }
    case 10: {
        auto c = rcutils_get_zero_initialized_char_array();
        N(rcutils_char_array_init(&c, 2, allocp(al)) == RCUTILS_RET_OK, "char_array_init");
        N(rcutils_char_array_strcpy(&c, vs.c_str()) == RCUTILS_RET_OK && rcutils_char_array_strcat(&c, "-more-and-more") == RCUTILS_RET_OK && c.buffer == vs + "-more-and-more", "char_array_strcat");
        N(rcutils_char_array_fini(&c) == RCUTILS_RET_OK, "char_array_fini");
        break;
      }
    case 11: {
        char b[64];
        rcutils_time_point_value_t t = 1500000000123456789ll + v;
        N(rcutils_time_point_value_as_nanoseconds_string(&t, b, sizeof b) == RCUTILS_RET_OK && b == "1500000000123456" + std::to_string(789 + v), "time as nanoseconds");
        break;
      }
    case 12: {
        char b[64];
        rcutils_time_point_value_t t = 86400000000000ll * v;
        N(rcutils_time_point_value_as_seconds_string(&t, b, sizeof b) == RCUTILS_RET_OK && strtoll(b, nullptr, 10) == 86400ll * v, "time as seconds");
        N(rcutils_time_point_value_as_date_string(&t, b, sizeof b) == RCUTILS_RET_OK && strlen(b) == 23 && !strncmp(b, "1970-0", 6), "time as date");
        break;
      }
    case 13: {
        rcutils_sha256_ctx_t c;
        uint8_t d[RCUTILS_SHA256_BLOCK_SIZE];
        rcutils_sha256_init(&c);
        rcutils_sha256_update(&c, (const uint8_t *)"abc", 3);
        rcutils_sha256_final(&c, d);
        N(d[0] == 0xba && d[1] == 0x78 && d[31] == 0xad, "sha256");
        break;
      }
    case 14: {
        int x[6] = {v, 3, 99, v - 7, 0, 50};
        bool was = g_silent;
        g_silent = true;
        N(rcutils_qsort(x, 6, sizeof *x, by_int) == RCUTILS_RET_OK && std::is_sorted(x, x + 6), "qsort");
        g_silent = was;
        break;
      }
    case 15: {
        auto m = rcutils_get_zero_initialized_hash_map();
        N(rcutils_hash_map_init(&m, 2, sizeof(char *), sizeof(int), text_hash, rcutils_hash_map_string_cmp_func, allocp(al)) == RCUTILS_RET_OK, "hash_map_init");
        const char * k[] = {"one", "two", "three", "four"};
        for (int i = 0; i < 4; ++i) {int x = v + i; N(rcutils_hash_map_set(&m, &k[i], &x) == RCUTILS_RET_OK, "hash_map_set");}
        for (int i = 0; i < 4; ++i) {int x = 0; N(rcutils_hash_map_get(&m, &k[i], &x) == RCUTILS_RET_OK && x == v + i, "hash_map_get");}
        N(rcutils_hash_map_fini(&m) == RCUTILS_RET_OK, "hash_map_fini");
        break;
      }
    case 16: N(rcutils_find("a.b.c", '.') == 1 && rcutils_find_last("a.b.c", '.') == 3, "find"); break;
    case 17: {int r = 1; N(rcutils_strcasecmp("AbC", "aBc", &r) == 0 && r == 0, "strcasecmp"); break;}
    case 18: {char b[8]; int r = rcutils_snprintf(b, sizeof b, "%d-%s", v, "longer text"); N(r == (int)vs.size() + 12 && !strncmp(b, (vs + "-longer").c_str(), 7), "snprintf"); break;}
    case 19: {
        rcutils_dir_iter_t * it = rcutils_dir_iter_start("/w/sub", al);
        N(it, "dir_iter_start");
        int n = 0;
        for (const char * e = it->entry_name; e; e = rcutils_dir_iter_next(it) ? it->entry_name : nullptr) {n += e[0] != '.';}
        rcutils_dir_iter_end(it);
        N(n == 2, "dir_iter");
        break;
      }
    case 20: {char b[32]; N(rcutils_get_cwd(b, sizeof b) && !strcmp(b, "/w"), "get_cwd"); N(rcutils_is_directory("/w") && !rcutils_exists("/none") && rcutils_get_file_size("/w/f1") == 110, "file queries"); break;}
    case 21: {char b[64]; errno = ENOENT; rcutils_strerror(b, sizeof b); N(!strcmp(b, strerror(ENOENT)), "strerror"); break;}
    case 22: N(take(rcutils_get_executable_name(al), al) == "some-node", "get_executable_name"); break;
    case 23: {const char * e = "x"; N(!rcutils_get_env("key1", &e) && !strcmp(e, "one"), "get_env"); break;}
    case 24: {
        auto lib = rcutils_get_zero_initialized_shared_library();
        N(rcutils_load_shared_library(&lib, "lib2.so", al) == RCUTILS_RET_OK && rcutils_get_symbol(&lib, "own2") == (void *)(uintptr_t)0xb2, "load_shared_library");
        N(rcutils_unload_shared_library(&lib) == RCUTILS_RET_OK, "unload_shared_library");
        break;
      }
    case 25: {
        auto s = rcutils_get_zero_initialized_string_array();
        N(rcutils_string_array_init(&s, 3, allocp(al)) == RCUTILS_RET_OK, "string_array_init");
        s.data[0] = rcutils_strdup("z", al);
        s.data[1] = rcutils_strdup("m", al);
        N(rcutils_string_array_sort(&s) == RCUTILS_RET_OK && s.data[0] == std::string("m") && !s.data[2], "string_array_sort");
        N(rcutils_string_array_resize(&s, 5) == RCUTILS_RET_OK && s.size == 5 && !s.data[4], "string_array_resize");
        N(rcutils_string_array_fini(&s) == RCUTILS_RET_OK, "string_array_fini");
        break;
      }
    case 26: {uint64_t n = 0; N(rcutils_calculate_directory_size_with_recursion("/w", v % 2, &n, al) == RCUTILS_RET_OK && n == (v % 2 ? 460 : 467), "calculate_directory_size"); break;}
    case 27: {
        auto m = rcutils_get_zero_initialized_hash_map();
        N(rcutils_hash_map_init(&m, 1, sizeof(int64_t), sizeof(int64_t), hm_hash, hm_cmp, allocp(al)) == RCUTILS_RET_OK, "hash_map_init");
        for (int64_t i = 0; i < 4; ++i) {int64_t x = v + i; N(rcutils_hash_map_set(&m, &i, &x) == RCUTILS_RET_OK, "hash_map_set");}
        int64_t one = 1, seen = 0, k = 0, prev = 0, x = 0;
        N(rcutils_hash_map_unset(&m, &one) == RCUTILS_RET_OK, "hash_map_unset");
        for (rcutils_ret_t r = rcutils_hash_map_get_next_key_and_data(&m, nullptr, &k, &x); r == RCUTILS_RET_OK && seen < 100; ) {
          N(x == v + k, "hash_map_get_next_key_and_data");
          seen += 1 << (3 * k);
          prev = k;
          r = rcutils_hash_map_get_next_key_and_data(&m, &prev, &k, &x);
        }
        N(seen == 01101 && rcutils_hash_map_fini(&m) == RCUTILS_RET_OK, "hash_map_get_next_key_and_data");
        break;
      }
    case 28: {
        rcutils_string_map_t m = rcutils_get_zero_initialized_string_map(), m2 = rcutils_get_zero_initialized_string_map();
        N(rcutils_string_map_init(&m, 2, al) == RCUTILS_RET_OK && rcutils_string_map_init(&m2, 3, al) == RCUTILS_RET_OK, "string_map_init");
        N(rcutils_string_map_set(&m, "a", vs.c_str()) == RCUTILS_RET_OK && rcutils_string_map_set(&m, "b", "x") == RCUTILS_RET_OK, "string_map_set");
        N(rcutils_string_map_set(&m2, "b", "y") == RCUTILS_RET_OK && rcutils_string_map_copy(&m, &m2) == RCUTILS_RET_OK && rcutils_string_map_unset(&m2, "b") == RCUTILS_RET_OK, "string_map_copy");
        const char * g = rcutils_string_map_get(&m2, "a"), * k = rcutils_string_map_get_next_key(&m2, nullptr);
        N(g && g == vs && k && !strcmp(k, "a") && !rcutils_string_map_get_next_key(&m2, k), "string_map_get_next_key");
        N(rcutils_string_map_fini(&m) == RCUTILS_RET_OK && rcutils_string_map_fini(&m2) == RCUTILS_RET_OK, "string_map_fini");
        break;
      }
    case 29: {
        auto u = rcutils_get_zero_initialized_uint8_array();
        N(rcutils_uint8_array_init(&u, 2, allocp(al)) == RCUTILS_RET_OK, "uint8_array_init");
        u.buffer[0] = (uint8_t)v;
        N(rcutils_uint8_array_resize(&u, 9) == RCUTILS_RET_OK && u.buffer[0] == (uint8_t)v, "uint8_array_resize");
        N(rcutils_uint8_array_fini(&u) == RCUTILS_RET_OK, "uint8_array_fini");
        break;
      }
    case 30: {
        auto c = rcutils_get_zero_initialized_char_array();
        N(rcutils_char_array_init(&c, 1, allocp(al)) == RCUTILS_RET_OK, "char_array_init");
        auto pr = [&](const char * f, ...) {
            va_list ap;
            va_start(ap, f);
            rcutils_ret_t r = rcutils_char_array_vsprintf(&c, f, ap);
            va_end(ap);
            return r;
          };
        N(pr("%d:%s", v, "printed") == RCUTILS_RET_OK && c.buffer == vs + ":printed", "char_array_vsprintf");
        N(rcutils_char_array_strncat(&c, "abc", 2) == RCUTILS_RET_OK && c.buffer == vs + ":printedab", "char_array_strncat");
        N(rcutils_char_array_fini(&c) == RCUTILS_RET_OK, "char_array_fini");
        break;
      }
    case 31: N(take(rcutils_to_native_path(("d/" + vs + "/e").c_str(), al), al) == "d/" + vs + "/e", "to_native_path"); break;
    case 32: N(take(rcutils_format_string_limit(al, 6, "%s%d", "text", v), al) == ("text" + vs).substr(0, 5), "format_string_limit"); break;
    case 33: {
        if (rcutils_error_is_set()) {break;}                  // there is one error per thread
        rcutils_set_error_state(("own error " + vs).c_str(), "own.c", 5);
        N(rcutils_error_is_set() && "own error " + vs + ", at own.c:5" == rcutils_get_error_string().str, "set_error_state");
        rcutils_reset_error();
        break;
      }
    case 34: case 35: case 36: nested_log(z); break;
    case 37: {
        N(rcutils_logging_set_logger_level("nest.lv", 40) == RCUTILS_RET_OK && rcutils_logging_get_logger_effective_level("nest.lv.child") == 40, "set_logger_level");
        N(!rcutils_logging_logger_is_enabled_for("nest.lv.child", 30) && rcutils_logging_logger_is_enabled_for("nest.lv", 40), "logger_is_enabled_for");
        N(rcutils_logging_set_logger_level("nest.lv", 0) == RCUTILS_RET_OK, "set_logger_level");
        break;
      }
    case 38: {
        auto c = rcutils_get_zero_initialized_char_array();
        N(rcutils_char_array_init(&c, 4, allocp(al)) == RCUTILS_RET_OK, "char_array_init");
        rcutils_log_location_t loc = {"nfn", "nfile", 77};
        rcutils_ret_t r = rcutils_logging_format_message(&loc, 30, "nest.fm", 5, ("formatted " + vs).c_str(), &c);
        std::string s = c.buffer ? c.buffer : "";
        N(r == RCUTILS_RET_OK && (g_fmt ? s.find("formatted " + vs) != s.npos : s == "[WARN] [nest.fm]: formatted " + vs), "format_message");
        N(rcutils_char_array_fini(&c) == RCUTILS_RET_OK, "char_array_fini");
        break;
      }
    case 39: {int s = 0; N(rcutils_logging_severity_level_from_string("warn", al, &s) == RCUTILS_RET_OK && s == 30, "severity_level_from_string"); break;}
    case 40: N(rcutils_logging_initialize() == RCUTILS_RET_OK, "logging_initialize when initialised"); break;
    default: {rcutils_time_point_value_t t = 0; N(rcutils_steady_time_now(&t) == RCUTILS_RET_OK && t == g_clock.mono(), "steady_time_now"); break;}
  }
}

// ---- the output handler of the operations: may pass on to the console, format the message itself, use logging
std::vector<std::string> g_calls;
int g_how;
void handler(const rcutils_log_location_t * l, int sev, const char * name, rcutils_time_point_value_t t, const char * f, va_list * a)
{
  char b[4096];
  va_list c;
  va_copy(c, *a);
  vsnprintf(b, sizeof b, f, c);
  va_end(c);
  std::string text = b;
  if (text.find("nested#") != text.npos) {
    g_nested.push_back(text);
    if (g_chain > 0) {                             // the handler of a message logs another one, and that one's handler again
      --g_chain;
      rcutils_log(nullptr, sev, "chain", "nested#%d in the handler", g_chain);
      probe("nested-chain");
    }
    rcutils_logging_console_output_handler(l, sev, name, t, f, a);
    return;
  }
  std::string rec = std::to_string(sev) + "|" + (name ? name : "(null)") + "|" + std::to_string(t) + "|" + text;
  if (l) {rec += "|" + std::string(l->function_name) + "|" + std::to_string(l->line_number);}
  NoFaults nf;
  bool was = g_handler_phase;
  g_handler_phase = true;
  callback(true);
  if (g_how & 1) {
    va_copy(c, *a);
    rcutils_logging_console_output_handler(l, sev, name, t, f, &c);
    va_end(c);
    callback(true);
  }
  if (g_how & 2) {
    auto o = rcutils_get_zero_initialized_char_array();
    rcutils_allocator_t al = nalloc(0);
    CHECK(rcutils_char_array_init(&o, g_how & 4 ? 2000 : 8, allocp(al)) == RCUTILS_RET_OK, "handler", "char_array_init");
    rcutils_ret_t r = rcutils_logging_format_message(l, sev, name, t, b, &o);
    rec += "|" + std::to_string(r) + "|" + (o.buffer ? o.buffer : "(null)");
    CHECK(rcutils_char_array_fini(&o) == RCUTILS_RET_OK, "handler", "char_array_fini");
    callback(true);
  }
  // the location, name and text are still the caller's
  va_copy(c, *a);
  vsnprintf(b, sizeof b, f, c);
  va_end(c);
  rec += "|" + std::string(name ? name : "") + "|" + b;
  g_handler_phase = was;
  g_calls.push_back(rec);
}
int g_same_site;
}  // namespace
int un_callback(int where, int v)
{
  callback(true);
  if (where == 2 && g_on && g_same_site) {      // the argument of a message that is logged once logs at the same place
    --g_same_site;
    un_once(v + 1000);
    probe("nested-same-site");
  }
  return where == 0 ? v % 3 != 0 : v;
}
namespace {
std::string word(Rng & r)
{
  switch (r.below(4)) {
    case 0: return gen_text(r, 14, "a/b//c.%");
    case 1: return gen_text(r, 4, "ab/");
    case 2: return "key" + std::to_string(r.below(9));
    default: return std::string(r.chance(1, 8) ? 900 + r.below(300) : r.below(60), (char)('a' + r.below(26)));
  }
}
void gen(Rng & r, Plan & p, bool th)
{
  p.cfg["fmt"] = (int64_t)r.below(4);
  p.cfg["period"] = r.pick(std::vector<int64_t>{1, 1, 2, 3, 6});
  p.cfg["order"] = (int64_t)r.below(1000);
  std::vector<int> swarm;
  for (size_t i = 0, k = 1 + r.below(r.chance(1, 4) ? 30 : 6); i < k; ++i) {
    int c = (int)r.below(NOPS);
    if (r.chance(1, 3)) {c = (int)r.pick(std::vector<int>{LOG, LOG, MACRO, FORMAT, LEVEL, QUERY});}
    swarm.push_back(c);
    if (c <= HM_WALK) {for (int x : {HM_SET, HM_SET, HM_SET}) {swarm.push_back(x);}}
    if (c >= SM_SET && c <= SM_RESERVE) {for (int x : {SM_SET, SM_SET}) {swarm.push_back(x);}}
    if (c >= AL_ADD && c <= AL_RM) {swarm.push_back(AL_ADD);}
    if (c >= LOG && c <= RESTART) {swarm.push_back(LOG);}
  }
  unsigned frate = (unsigned)r.pick(std::vector<int>{0, 1, 3});
  for (int i = 0, n = (int)r.range(1, th ? 50 : 20); i < n; ++i) {
    Op o = mkop(0, r.pick(swarm), {(int64_t)r.below(40), (int64_t)r.below(100000), (int64_t)r.next() >> 3, (int64_t)r.below(8)}, {word(r), word(r), word(r)});
    if (o.code == LOG && r.chance(1, 3)) {o.s[0].assign(990 + r.below(300), (char)('a' + r.below(26)));}   // needs more than the buffers on the stack
    if (o.code < PARSE) {gen_faults(r, o, {F_ALLOC}, frate, 10);}
    p.ops.push_back(o);
  }
}
void world(const Plan & p)
{
  g_disk.reset();
  g_disk.order_seed = (uint64_t)p.C("order");
  g_disk.mk("/w", Node::DIR_, 0755, 0);
  for (int i = 0; i <= 3; ++i) {g_disk.mk("/w/f" + std::to_string(i), Node::FILE_, 0644, 100 + 10 * i);}
  g_disk.mk("/w/sub", Node::DIR_, 0755, 0);
  g_disk.mk("/w/sub/deep", Node::FILE_, 0600, 7);
  g_disk.mk("/w/sub/deeper", Node::DIR_, 0755, 0);
  g_disk.cwd = "/w";
  static const char * const f[] = {"[{severity}] [{name}]: {message}", "{time} {date_time_with_ms} {message} {line_number}", "{message}{file_name}:{function_name}", "{time_as_nanoseconds} {name} {message}"};
  g_env.clear();
  g_env["HOME"] = "/home/u";
  g_env["key1"] = "one";
  g_env["RCUTILS_CONSOLE_OUTPUT_FORMAT"] = f[umod(p.C("fmt"), 4)];
  g_env["RCUTILS_LOGGING_USE_STDOUT"] = "1";
  g_fmt = (int)umod(p.C("fmt"), 4);
  set_exe("/usr/bin/some-node");
  g_clock.set(1700000000123456789ll, 1234567890123ll);
  g_clock.tick = 0;
  g_dl.reset();
  for (int t = 0; t < 3; ++t) {
    std::string s = std::to_string(t);
    g_dl.libs.push_back({"lib" + s + ".so", "/usr/lib/lib" + s + ".so", {{"f", (void *)(uintptr_t)(0xa0 + t)}, {"own" + s, (void *)(uintptr_t)(0xb0 + t)}}, 0, false});
  }
}
void work(const Plan & p, bool on, std::vector<std::string> & tr)
{
  g_on = false;
  g_depth = 0;
  g_may_log = g_handler_phase = g_silent = false;
  g_count = 0;
  g_same_site = 0;
  g_period = (uint64_t)std::max<int64_t>(1, p.C("period", 1));
  g_nested.clear();
  g_calls.clear();
  rcutils_allocator_t al = nalloc(0);
  auto hm = rcutils_get_zero_initialized_hash_map();
  rcutils_string_map_t sm = rcutils_get_zero_initialized_string_map(), sm2 = rcutils_get_zero_initialized_string_map();
  auto li = rcutils_get_zero_initialized_array_list();
  auto sa = rcutils_get_zero_initialized_string_array();
  auto ca = rcutils_get_zero_initialized_char_array();
  auto ua = rcutils_get_zero_initialized_uint8_array();
  auto start_logging = [&] {
      CHECK(rcutils_logging_initialize_with_allocator(al) == RCUTILS_RET_OK, "init", "logging");
      rcutils_logging_set_output_handler(handler);
    };
  {
    Oracle q;
    CHECK(rcutils_hash_map_init(&hm, 2, sizeof(int64_t), sizeof(int64_t), hm_hash, hm_cmp, allocp(al)) == RCUTILS_RET_OK, "init", "hash map");
    CHECK(rcutils_string_map_init(&sm, 1, al) == RCUTILS_RET_OK && rcutils_string_map_init(&sm2, 0, al) == RCUTILS_RET_OK, "init", "string map");
    CHECK(rcutils_array_list_init(&li, 1, sizeof(int64_t), allocp(al)) == RCUTILS_RET_OK, "init", "array list");
    CHECK(rcutils_string_array_init(&sa, 2, allocp(al)) == RCUTILS_RET_OK, "init", "string array");
    CHECK(rcutils_char_array_init(&ca, 4, allocp(al)) == RCUTILS_RET_OK && rcutils_uint8_array_init(&ua, 4, allocp(al)) == RCUTILS_RET_OK, "init", "char array");
    ca.buffer[0] = 0;
    ca.buffer_length = 1;
    memset(ua.buffer, 0, 4);
    start_logging();
  }
  for (size_t oi = 0; oi < p.ops.size(); ++oi) {
    const Op & o = p.ops[oi];
    if (o.code < 0 || o.code >= NOPS) {continue;}
    std::string out;
    auto put = [&](const char * f, ...) __attribute__((format(printf, 2, 3))) {
        char b[1600];
        va_list ap;
        va_start(ap, f);
        vsnprintf(b, sizeof b, f, ap);
        va_end(ap);
        out += b;
        out += '|';
      };
    auto str = [&](char * s) {
        if (!s) {put("(null)"); return;}
        put("%zu:%016llx:%.60s", strlen(s), (unsigned long long)hash64(s, strlen(s)), s);
        al.deallocate(s, al.state);
      };
    auto arr = [&](rcutils_ret_t r, rcutils_string_array_t * s) {
        put("%d %zu", r, r ? 0 : s->size);
        if (r) {return;}
        for (size_t i = 0; i < s->size; ++i) {put("%s", s->data[i] ? s->data[i] : "(null)");}
      };
    int64_t k = (int64_t)umod(o.A(0), 40), v = o.A(1) & 0xffffff;
    std::string s0 = o.S(0).c_str(), s1 = o.S(1).c_str(), s2 = o.S(2).c_str();
    const char * a = guarded_str(s0), * b = guarded_str(s1), * c = guarded_str(s2);
    g_z = (uint64_t)o.A(2);
    g_count = 0;
    g_left = 6;
    g_how = (int)o.A(3);
    g_calls.clear();
    g_out.data.clear();
    rcutils_reset_error();
    begin_op(o, names[o.code]);
    g_on = on;
    switch (o.code) {
      case HM_SET: put("%d", rcutils_hash_map_set(&hm, &k, &v)); break;
      case HM_UNSET: put("%d", rcutils_hash_map_unset(&hm, &k)); break;
      case HM_GET: {int64_t g = -1; put("%d %d", rcutils_hash_map_get(&hm, &k, &g), rcutils_hash_map_key_exists(&hm, &k)); put("%lld", (long long)g); break;}
      case HM_WALK: {
          int64_t key = 0, prev = 0, val = 0, n = 0;
          for (rcutils_ret_t r = rcutils_hash_map_get_next_key_and_data(&hm, nullptr, &key, &val); r == RCUTILS_RET_OK && n < 60; ++n) {
            put("%lld=%lld", (long long)key, (long long)val);
            prev = key;
            r = rcutils_hash_map_get_next_key_and_data(&hm, &prev, &key, &val);
          }
          break;
        }
      case SM_SET: put("%d", rcutils_string_map_set(&sm, a, b)); break;
      case SM_UNSET: put("%d", rcutils_string_map_unset(&sm, a)); break;
      case SM_COPY: put("%d", k & 1 ? rcutils_string_map_copy(&sm, &sm2) : rcutils_string_map_copy(&sm2, &sm)); break;
      case SM_RESERVE: put("%d", rcutils_string_map_reserve(&sm, (size_t)k)); break;
      case AL_ADD: put("%d", rcutils_array_list_add(&li, &v)); break;
      case AL_RM: put("%d", rcutils_array_list_remove(&li, (size_t)k % 9)); break;
      case SA_RESIZE: put("%d", rcutils_string_array_resize(&sa, (size_t)k % 9)); break;
      case SPLIT: case SPLIT_LAST: {
          auto s = rcutils_get_zero_initialized_string_array();
          std::string t = s0 + "/" + s1 + "/" + s2;
          arr(o.code == SPLIT ? rcutils_split(t.c_str(), '/', al, &s) : rcutils_split_last(t.c_str(), '/', al, &s), &s);
          if (s.data) {put("%d", rcutils_string_array_fini(&s));}
          break;
        }
      case CA_CAT: put("%d", k & 1 ? rcutils_char_array_strcat(&ca, a) : rcutils_char_array_strncat(&ca, a, (size_t)k)); break;
      case CA_PRINT: {
          auto pr = [&](const char * f, ...) {
              va_list ap;
              va_start(ap, f);
              rcutils_ret_t r = rcutils_char_array_vsprintf(&ca, f, ap);
              va_end(ap);
              return r;
            };
          put("%d", pr("%s-%d-%s", a, (int)k, b));
          break;
        }
      case CA_RESIZE: {
          rcutils_ret_t r = rcutils_char_array_resize(&ca, 1 + (size_t)k * 8);
          if (r == RCUTILS_RET_OK) {ca.buffer[ca.buffer_capacity - 1] = 0;}
          put("%d", r);
          break;
        }
      case UA_RESIZE: {
          size_t had = ua.buffer_capacity;
          put("%d", rcutils_uint8_array_resize(&ua, 1 + (size_t)k));
          for (size_t i = had; ua.buffer && i < ua.buffer_capacity; ++i) {ua.buffer[i] = (uint8_t)i;}
          break;
        }
      case DUP: str(k & 1 ? rcutils_strdup(a, al) : rcutils_strndup(a, (size_t)k, al)); break;
      case FMT: str(k & 1 ? rcutils_format_string(al, "%s/%d/%s", a, (int)v, b) : rcutils_format_string_limit(al, 9, "%d%s", (int)v, a)); break;
      case REPL: str(rcutils_repl_str((s0 + s1 + s0 + s1).c_str(), s1.empty() ? "/" : b, c, allocp(al))); break;
      case JOIN: str(rcutils_join_path(a, b, al)); break;
      case NATIVE: str(rcutils_to_native_path(a, al)); break;
      case EXPAND: str(rcutils_expand_user(("~/" + s0).c_str(), al)); break;
      case EXE: str(rcutils_get_executable_name(al)); break;
      case SORT: {
          int x[24];
          for (int i = 0; i < 24; ++i) {x[i] = (int)(mix((uint64_t)v, (uint64_t)i) % 50);}
          put("%d", rcutils_qsort(x, 24, sizeof *x, by_int));
          for (int i : x) {out += std::to_string(i) + ",";}
          break;
        }
      case DIR: {
          rcutils_dir_iter_t * it = rcutils_dir_iter_start(k & 1 ? "/w" : "/w/sub", al);
          put("%d", it != nullptr);
          std::vector<std::string> l;
          for (const char * e = it ? it->entry_name : nullptr; e; e = rcutils_dir_iter_next(it) ? it->entry_name : nullptr) {l.push_back(e);}
          for (auto & e : l) {put("%s", e.c_str());}
          if (it) {rcutils_dir_iter_end(it);}
          break;
        }
      case DSIZE: {uint64_t n = 0; rcutils_ret_t r = rcutils_calculate_directory_size_with_recursion("/w", (size_t)k % 3, &n, al); put("%d %llu", r, (unsigned long long)(r ? 0 : n)); break;}
      case LIB: {
          auto lib = rcutils_get_zero_initialized_shared_library();
          rcutils_ret_t r = rcutils_load_shared_library(&lib, k % 5 == 4 ? "none.so" : ("lib" + std::to_string(k % 3) + ".so").c_str(), al);
          put("%d", r);
          if (r == RCUTILS_RET_OK) {
            put("%s %p %p", lib.library_path, rcutils_get_symbol(&lib, "f"), rcutils_get_symbol(&lib, "own0"));
            put("%d", rcutils_unload_shared_library(&lib));
          }
          break;
        }
      case PARSE: {
          static const char * lv[] = {"info", "DEBUG", "Fatal", "warn", "nonsense", "UNSET"};
          int l = -9;
          put("%d", rcutils_logging_severity_level_from_string(lv[umod(v, 6)], al, &l));
          put("%d", l);
          break;
        }
      case LOG: {
          rcutils_log_location_t loc = {"fn", "file.cpp", (size_t)k};
          rcutils_log(v & 8 ? nullptr : &loc, 10 * (int)(1 + v % 5), v & 16 ? nullptr : ("a.b." + std::to_string(k % 4)).c_str(), "%s of %d %s", a, (int)v, b);
          break;
        }
      case FORMAT: {
          auto m = rcutils_get_zero_initialized_char_array();
          rcutils_log_location_t loc = {"fn", "file.cpp", (size_t)k};
          g_handler_phase = true;
          rcutils_ret_t r = rcutils_char_array_init(&m, (size_t)k, allocp(al));
          if (r == RCUTILS_RET_OK) {r = rcutils_logging_format_message(&loc, 30, "a.logger", v, a, &m);}
          put("%d %s", r, m.buffer ? m.buffer : "(null)");
          put("%d", rcutils_char_array_fini(&m));
          g_handler_phase = false;
          break;
        }
      case LEVEL: put("%d", rcutils_logging_set_logger_level(("a.b." + std::to_string(k % 4)).substr(0, 1 + (size_t)v % 5).c_str(), 10 * (int)(v % 6))); break;
      case QUERY: {
          std::string n = "a.b." + std::to_string(k % 4);
          put("%d %d", rcutils_logging_get_logger_effective_level(n.c_str()), rcutils_logging_logger_is_enabled_for(n.c_str(), 10 * (int)(v % 6)));
          break;
        }
      case MACRO:
        g_same_site = v % 3 == 0;
        switch (umod(k, 8)) {
          case 0: un_function((int)v); break;
          case 1: un_function_named((int)v, "named.logger"); break;
          case 2: case 3: un_throttle((int)v); break;
          case 4: un_once((int)v); break;
          case 5: g_same_site = 0; un_skipfirst((int)v); break;
          case 6: un_expression((int)v); break;
          default: g_same_site = 0; un_plain((int)v); break;
        }
        g_same_site = 0;
        break;
      case ADVANCE: g_clock.advance((v % 9) * 1000000); break;
      case RESTART: put("%d", rcutils_logging_shutdown()); g_on = false; {Oracle q; start_logging();} break;
      default: break;
    }
    g_on = false;
    if (rcutils_error_is_set()) {put("error %s", rcutils_get_error_string().str);}
    end_op("%016llx", (unsigned long long)hash64(out.data(), out.size()));
    // what it left behind
    Oracle q;
    if (o.code >= LOG && o.code <= MACRO) {
      for (auto & x : g_calls) {out += "call " + x + "\n";}
      std::string left = g_out.data;
      for (size_t at; (at = left.find("nested#")) != left.npos; ) {     // lines of the callbacks
        size_t from = at ? left.rfind('\n', at - 1) : left.npos, to = left.find('\n', at);
        from = from == left.npos ? 0 : from + 1;
        CHECK(to != left.npos, "console", "the line '%.200s' of a callback has no end", left.c_str() + from);
        left.erase(from, to + 1 - from);
      }
      out += left;
      size_t n = 0;
      for (int l = 0; l < 6; ++l) {n = n * 64 + (size_t)rcutils_logging_get_logger_effective_level(std::string("a.b.1").substr(0, (size_t)l).c_str());}
      put("%zu", n);
    } else if (o.code <= HM_WALK) {
      for (int64_t i = 0; i < 40; ++i) {int64_t g = 0; if (rcutils_hash_map_get(&hm, &i, &g) == RCUTILS_RET_OK) {put("%lld=%lld", (long long)i, (long long)g);}}
    } else if (o.code <= SM_RESERVE) {
      for (auto * m : {&sm, &sm2}) {
        int n = 0;
        for (const char * key = rcutils_string_map_get_next_key(m, nullptr); key && n < 100; key = rcutils_string_map_get_next_key(m, key), ++n) {
          put("%s=%s", key, rcutils_string_map_get(m, key));
        }
      }
    } else if (o.code <= AL_RM) {
      size_t n = 0;
      CHECK(rcutils_array_list_get_size(&li, &n) == RCUTILS_RET_OK, "dump", "array list size");
      for (size_t i = 0; i < n; ++i) {int64_t g = 0; CHECK(rcutils_array_list_get(&li, i, &g) == RCUTILS_RET_OK, "dump", "element"); put("%lld", (long long)g);}
    } else if (o.code == SA_RESIZE) {
      put("%zu", sa.size);
    } else if (o.code >= CA_CAT && o.code <= CA_RESIZE) {
      if (!ca.buffer || !ca.buffer_length) {CHECK(rcutils_char_array_strcpy(&ca, "") == RCUTILS_RET_OK, "dump", "char array");}
      put("%zu %016llx", strlen(ca.buffer), (unsigned long long)hash64(ca.buffer, strlen(ca.buffer)));
    } else if (o.code == UA_RESIZE) {
      put("%zu %016llx", ua.buffer_capacity, (unsigned long long)(ua.buffer ? hash64(ua.buffer, ua.buffer_capacity) : 0));
    }
    tr.push_back(std::to_string(oi) + " " + names[o.code] + ": " + out);
    rcutils_reset_error();
  }
  Oracle q;
  int bad = 0;
  bad |= rcutils_hash_map_fini(&hm) != RCUTILS_RET_OK;
  bad |= rcutils_string_map_fini(&sm) != RCUTILS_RET_OK;
  bad |= rcutils_string_map_fini(&sm2) != RCUTILS_RET_OK;
  bad |= rcutils_array_list_fini(&li) != RCUTILS_RET_OK;
  bad |= rcutils_string_array_fini(&sa) != RCUTILS_RET_OK;
  bad |= rcutils_char_array_fini(&ca) != RCUTILS_RET_OK;
  bad |= rcutils_uint8_array_fini(&ua) != RCUTILS_RET_OK;
  bad |= rcutils_logging_shutdown() != RCUTILS_RET_OK;
  CHECK(!bad, "fini", "an object cannot be finalised at the end");
  rcutils_reset_error();
  CHECK(g_disk.open_dirs == 0, "handles", "%d directories left open", g_disk.open_dirs);
  check_no_leaks(on ? "end of the run whose callbacks use the library" : "end of the run with plain callbacks");
}
void exec(const Plan & p)
{
  static std::vector<std::string> plain, nested;
  plain.clear();
  nested.clear();
  world(p);
  run_single(p, [&] {work(p, false, plain);});
  restore_globals();
  world(p);
  run_single(p, [&] {work(p, true, nested);});
  run_single(p, [&] {
    CHECK(plain.size() == nested.size(), "differs", "%zu operations with plain callbacks, %zu with callbacks that use the library", plain.size(), nested.size());
    for (size_t i = 0; i < plain.size(); ++i) {
      const std::string & x = nested[i], & y = plain[i];
      size_t d = 0;
      while (d < x.size() && d < y.size() && x[d] == y[d]) {++d;}
      d = d > 40 ? d - 40 : 0;
      CHECK(x == y, "differs", "operation %.60s: with callbacks that use the library '%.200s', without '%.200s'", x.c_str(), x.c_str() + d, y.c_str() + d);
    }
    finish_run("nested");
  });
}
const Workload W{"C31", names, NOPS, gen, exec};
Reg reg(&W);
}  // namespace
