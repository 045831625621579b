// C23: threads working on objects of their own get what they would get alone.
#include "wl.h"
#include "internal.h"
extern "C" {
#include "rcutils/cmdline_parser.h"
#include "rcutils/env.h"
#include "rcutils/filesystem.h"
#include "rcutils/find.h"
#include "rcutils/format_string.h"
#include "rcutils/process.h"
#include "rcutils/qsort.h"
#include "rcutils/repl_str.h"
#include "rcutils/sha256.h"
#include "rcutils/shared_library.h"
#include "rcutils/snprintf.h"
#include "rcutils/split.h"
#include "rcutils/strcasecmp.h"
#include "rcutils/strdup.h"
#include "rcutils/strerror.h"
#include "rcutils/time.h"
#include "rcutils/types.h"
}
using namespace sim;
namespace {
enum { HM_SET, HM_UNSET, HM_GET, HM_ITER, SM_SET, SM_SETNR, SM_UNSET, SM_GET, SM_ITER, SM_RESERVE, AL_ADD, AL_SET, AL_RM, AL_GET, SA_SPLIT, SA_RESIZE, SA_SORT,
  SA_CMP, CA_STRCPY, CA_STRCAT, CA_NCAT, CA_PRINT, CA_RESIZE, UA_RESIZE, DUP, NDUP, FMT, REPL, JOIN, NATIVE, EXPAND, EXE, SNPRINTF, FINDS, CASECMP, CLI, QSORT,
  T_NS, T_SEC, T_DATE, NOW, STRERR, SHA_UP, SHA_FIN, DI_START, DI_NEXT, DI_END, DSIZE, QUERY, CWD, MKDIR, LIB_LOAD, LIB_GET, LIB_UNLOAD, ERR_SET, ERR_GET, ERR_RESET,
  GETENV, HOME, LEVEL, NOPS };
const char * const names[] = {"hash_map_set", "hash_map_unset", "hash_map_get", "hash_map_iterate", "string_map_set", "string_map_set_no_resize", "string_map_unset",
  "string_map_get", "string_map_iterate", "string_map_reserve", "array_list_add", "array_list_set", "array_list_remove", "array_list_get", "split",
  "string_array_resize", "string_array_sort", "string_array_cmp", "char_array_strcpy", "char_array_strcat", "char_array_strncat", "char_array_vsprintf",
  "char_array_resize", "uint8_array_resize", "strdup", "strndup", "format_string", "repl_str", "join_path", "to_native_path", "expand_user",
  "get_executable_name", "snprintf", "find", "strcasecmp", "cli_get_option", "qsort", "time_as_nanoseconds_string", "time_as_seconds_string", "time_as_date_string",
  "time_now", "strerror", "sha256_update", "sha256_final", "dir_iter_start", "dir_iter_next", "dir_iter_end", "calculate_directory_size", "path_query", "get_cwd",
  "mkdir", "load_shared_library", "get_symbol", "unload_shared_library", "set_error_state", "get_error", "reset_error", "get_env", "get_home_dir",
  "severity_level_from_string"};
static_assert(sizeof names / sizeof *names == NOPS, "names");

std::string word(Rng & r)
{
  if (r.chance(1, 25)) {return gen_long(r, 300, "/.");}
  switch (r.below(5)) {
    case 0: return gen_text(r, 3, "ab");
    case 1: return gen_text(r, 12, "a/b//c.%s");
    case 2: return gen_text(r, 8, "aBc");
    case 3: return std::string(r.below(90), (char)('a' + r.below(26)));
    default: return "key" + std::to_string(r.below(12));
  }
}
void gen(Rng & r, Plan & p, bool th)
{
  int nt = (int)r.pick(std::vector<int>{2, 2, 2, 3});
  p.cfg["threads"] = nt;
  p.cfg["zero_null"] = r.chance(1, 6);
  p.cfg["wall"] = (int64_t)r.below(4000000000ull) * 1000000000ll + (int64_t)r.below(1000000000);
  gen_schedule(r, p, nt);
  // a swarm of calls: the threads of one run concentrate on few of them, so that the same code meets itself
  std::vector<int> swarm;
  size_t k = r.chance(1, 6) ? 40 : r.chance(1, 3) ? 1 : 1 + r.below(6);
  for (size_t i = 0; i < k; ++i) {
    int c = (int)r.below(NOPS);
    swarm.push_back(c);
    if (c >= DI_START && c <= DI_END) {swarm.push_back(DI_START); swarm.push_back(DI_NEXT); swarm.push_back(DI_NEXT);}
    if (c >= LIB_LOAD && c <= LIB_UNLOAD) {swarm.push_back(LIB_LOAD); swarm.push_back(LIB_GET);}
    if (c >= ERR_SET && c <= ERR_RESET) {swarm.push_back(ERR_SET); swarm.push_back(ERR_GET);}
    if (c <= HM_ITER) {swarm.push_back(HM_SET); swarm.push_back(HM_SET);}
    if (c >= SM_SET && c <= SM_RESERVE) {swarm.push_back(SM_SET); swarm.push_back(SM_SET);}
    if (c >= AL_ADD && c <= AL_GET) {swarm.push_back(AL_ADD);}
    if (c >= SA_RESIZE && c <= SA_CMP) {swarm.push_back(SA_SPLIT);}
  }
  unsigned frate = (unsigned)r.pick(std::vector<int>{0, 0, 1, 3});
  int n = (int)r.range(2, th ? 60 : 24);
  for (int i = 0; i < n; ++i) {
    int t = (int)r.below((uint64_t)nt);
    Op o = mkop(t, r.pick(swarm), {(int64_t)r.below(1000), (int64_t)r.next() >> (8 + r.below(50)), (int64_t)r.below(300)}, {word(r), word(r), word(r)});
    if (o.code == REPL && r.chance(3, 4)) {     // something to replace, often many times
      o.s[1] = gen_text(r, 2, "ab/k");
      o.s[0] = r.chance(1, 2) ? gen_text(r, 60, "ab/") : o.s[0] + o.s[1] + o.s[0];
    }
    gen_faults(r, o, {F_ALLOC, F_ALLOC, F_FMT, F_STAT, F_OPENDIR, F_READDIR, F_GETCWD, F_CLOCK, F_DLOPEN, F_DLSYM, F_DLINFO, F_DLCLOSE, F_LOCALTIME, F_MKDIR}, frate, 12);
    if (o.code == SA_SPLIT) {for (auto & f : o.f) {if (f.kind == F_FMT) {f.kind = F_ALLOC;}}}
    p.ops.push_back(o);
  }
  // a failure may be logged, and setting logging up is documented as not thread-safe: runs with faults do that first
  p.cfg["log"] = frate || r.chance(1, 2);
}
void world(const Plan & p)
{
  g_zero_null = p.C("zero_null");
  g_disk.reset();
  g_disk.mk("/w", Node::DIR_, 0755, 0);
  for (int t = 0; t < 3; ++t) {
    std::string d = "/w/t" + std::to_string(t);
    g_disk.mk(d, Node::DIR_, 0755, 0);
    for (int i = 0; i <= 3 + 2 * t; ++i) {g_disk.mk(d + "/f" + std::to_string(i), Node::FILE_, (unsigned)(i & 1 ? 0644 : 0444), 100 + 10 * i + t);}
    g_disk.mk(d + "/sub", Node::DIR_, 0755, 0);
    g_disk.mk(d + "/sub/deep", Node::FILE_, 0600, 7 + t);
    g_disk.mk("/m" + std::to_string(t), Node::DIR_, 0755, 0);
  }
  g_disk.mk("/w/common", Node::FILE_, 0644, 4242);
  g_disk.cwd = "/w";
  g_env.clear();
  g_env["HOME"] = "/home/u";
  g_env["key1"] = "one";
  g_env["key2"] = "";
  g_env["a"] = "value of a";
  set_exe("/usr/bin/some-node");
  g_clock.set(p.C("wall"), 1234567890123ll);
  g_clock.tick = 0;
  g_tz_offset = 3600;
  g_dl.reset();
  for (int t = 0; t < 3; ++t) {
    std::string s = std::to_string(t);
    g_dl.libs.push_back({"lib" + s + ".so", "/usr/lib/lib" + s + ".so", {{"f", (void *)(uintptr_t)(0xa0 + t)}, {"own" + s, (void *)(uintptr_t)(0xb0 + t)}}, 0, false});
  }
}
int cmp_int(const void * a, const void * b)
{
  int32_t x = *(const int32_t *)a, y = *(const int32_t *)b;
  return x < y ? -1 : x > y;
}
// everything one thread does; alone or with others
void work(const Plan & p, int who, std::vector<std::string> & tr)
{
  int id = 1 + who;
  rcutils_allocator_t al = allocator(id);
  rcutils_hash_map_t hm = rcutils_get_zero_initialized_hash_map();
  rcutils_string_map_t sm = rcutils_get_zero_initialized_string_map();
  rcutils_array_list_t li = rcutils_get_zero_initialized_array_list();
  rcutils_string_array_t sa[2] = {rcutils_get_zero_initialized_string_array(), rcutils_get_zero_initialized_string_array()};
  rcutils_char_array_t ca = rcutils_get_zero_initialized_char_array();
  rcutils_uint8_array_t ua = rcutils_get_zero_initialized_uint8_array();
  rcutils_shared_library_t lib = rcutils_get_zero_initialized_shared_library();
  rcutils_dir_iter_t * it = nullptr;
  rcutils_sha256_ctx_t sha;
  {
    NoFaults nf;
    CHECK(rcutils_hash_map_init(&hm, 2, sizeof(int64_t), sizeof(int64_t), [](const void * k) {return (size_t)(*(const int64_t *)k % 7);},
      [](const void * a, const void * b) {int64_t x = *(const int64_t *)a, y = *(const int64_t *)b; return x < y ? -1 : x > y ? 1 : 0;}, allocp(al)) == RCUTILS_RET_OK, "init", "hash map");
    CHECK(rcutils_string_map_init(&sm, 1, al) == RCUTILS_RET_OK, "init", "string map");
    CHECK(rcutils_array_list_init(&li, 1, sizeof(int64_t), allocp(al)) == RCUTILS_RET_OK, "init", "array list");
    CHECK(rcutils_char_array_init(&ca, 4, allocp(al)) == RCUTILS_RET_OK, "init", "char array");
    CHECK(rcutils_uint8_array_init(&ua, 4, allocp(al)) == RCUTILS_RET_OK, "init", "byte array");
    ca.buffer[0] = 0;
    ca.buffer_length = 1;
    memset(ua.buffer, 0, 4);
    rcutils_sha256_init(&sha);
  }
  std::string mydir = "/w/t" + std::to_string(who);
  for (size_t oi = 0; oi < p.ops.size(); ++oi) {
    const Op & o = p.ops[oi];
    if (o.tid != who) {continue;}
    std::string out;
    auto put = [&](const char * f, ...) __attribute__((format(printf, 2, 3))) {
        char b[1400];
        va_list ap;
        va_start(ap, f);
        vsnprintf(b, sizeof b, f, ap);
        va_end(ap);
        out += b;
        out += '|';
      };
    auto str = [&](char * s) {
        if (!s) {put("(null)"); return;}
        put("%zu:%016llx:%.60s", strlen(s), (unsigned long long)hash64(s, strlen(s)), s);
        al.deallocate(s, al.state);
      };
    int64_t k = o.A(0) % 9, v = o.A(1);
    std::string s0 = o.S(0), s1 = o.S(1);
    const char * a = guarded_str(s0), * b = guarded_str(s1);
    begin_op(o, names[o.code]);
    switch (o.code) {
      case HM_SET: put("%d", rcutils_hash_map_set(&hm, &k, &v)); break;
      case HM_UNSET: put("%d", rcutils_hash_map_unset(&hm, &k)); break;
      case HM_GET: {int64_t g = -1; int r = rcutils_hash_map_get(&hm, &k, &g); put("%d %lld %d", r, (long long)g, rcutils_hash_map_key_exists(&hm, &k)); break;}
      case HM_ITER: {
          int64_t key = 0, val = 0, prev = 0;
          int r = rcutils_hash_map_get_next_key_and_data(&hm, nullptr, &key, &val);
          for (int i = 0; r == RCUTILS_RET_OK && i < 40; ++i) {
            put("%lld=%lld", (long long)key, (long long)val);
            prev = key;
            r = rcutils_hash_map_get_next_key_and_data(&hm, &prev, &key, &val);
          }
          size_t n = 99;
          put("%d", r);
          r = rcutils_hash_map_get_size(&hm, &n);
          put("size %zu", n);
          break;
        }
      case SM_SET: put("%d", rcutils_string_map_set(&sm, a, b)); break;
      case SM_SETNR: put("%d", rcutils_string_map_set_no_resize(&sm, a, b)); break;
      case SM_UNSET: put("%d", rcutils_string_map_unset(&sm, a)); break;
      case SM_GET: {const char * g = rcutils_string_map_get(&sm, a); put("%s %d", g ? g : "(null)", rcutils_string_map_key_exists(&sm, a)); break;}
      case SM_ITER: {
          const char * key = rcutils_string_map_get_next_key(&sm, nullptr);
          for (int i = 0; key && i < 40; ++i) {put("%s=%s", key, rcutils_string_map_get(&sm, key)); key = rcutils_string_map_get_next_key(&sm, key);}
          break;
        }
      case SM_RESERVE: {
          size_t c = 0;
          put("%d", rcutils_string_map_reserve(&sm, (size_t)(o.A(0) % 40)));
          put("%d", rcutils_string_map_get_capacity(&sm, &c));
          put("%zu", c);
          break;
        }
      case AL_ADD: put("%d", rcutils_array_list_add(&li, &v)); break;
      case AL_SET: put("%d", rcutils_array_list_set(&li, (size_t)k, &v)); break;
      case AL_RM: put("%d", rcutils_array_list_remove(&li, (size_t)k)); break;
      case AL_GET: {
          int64_t g = -1;
          size_t n = 0;
          int r = rcutils_array_list_get(&li, (size_t)k, &g);
          put("%d %lld %d", r, (long long)g, rcutils_array_list_get_size(&li, &n));
          put("%zu", n);
          break;
        }
      case SA_SPLIT: {
          rcutils_string_array_t & s = sa[o.A(0) & 1];
          {NoFaults nf; if (rcutils_string_array_fini(&s) != RCUTILS_RET_OK) {put("fini failed");}}
          s = rcutils_get_zero_initialized_string_array();
          std::string t = s0 + "/" + s1 + "/" + o.S(2);
          int r = o.A(2) & 1 ? rcutils_split(t.c_str(), '/', al, &s) : rcutils_split_last(t.c_str(), '/', al, &s);
          put("%d", r);
          for (size_t i = 0; r == RCUTILS_RET_OK && i < s.size; ++i) {put("%s", s.data[i]);}
          break;
        }
      case SA_RESIZE: {
          rcutils_string_array_t & s = sa[o.A(0) & 1];
          if (!s.data) {NoFaults nf; put("%d", rcutils_string_array_init(&s, (size_t)(o.A(2) % 5), allocp(al))); break;}
          put("%d %zu", rcutils_string_array_resize(&s, (size_t)(o.A(2) % 9)), s.size);
          for (size_t i = 0; i < s.size; ++i) {put("%s", s.data[i] ? s.data[i] : "(null)");}
          break;
        }
      case SA_SORT: {
          rcutils_string_array_t & s = sa[o.A(0) & 1];
          if (!s.data) {break;}
          put("%d", rcutils_string_array_sort(&s));
          for (size_t i = 0; i < s.size; ++i) {put("%s", s.data[i] ? s.data[i] : "(null)");}
          break;
        }
      case SA_CMP: {
          int c = 77;
          bool full = sa[0].data && sa[1].data;
          for (auto & s : sa) {for (size_t i = 0; full && i < s.size; ++i) {full = s.data[i];}}
          if (full) {put("%d", rcutils_string_array_cmp(&sa[0], &sa[1], &c)); put("%d", (c > 0) - (c < 0));}
          break;
        }
      case CA_STRCPY: put("%d", rcutils_char_array_strcpy(&ca, a)); break;
      case CA_STRCAT: put("%d", rcutils_char_array_strcat(&ca, a)); break;
      case CA_NCAT: put("%d", rcutils_char_array_strncat(&ca, a, (size_t)k)); break;
      case CA_PRINT: {
          auto pr = [&](const char * f, ...) {
              va_list ap;
              va_start(ap, f);
              int r = rcutils_char_array_vsprintf(&ca, f, ap);
              va_end(ap);
              return r;
            };
          put("%d", pr("%s-%d-%s", a, (int)o.A(0), b));
          break;
        }
      case CA_RESIZE: put("%d", rcutils_char_array_resize(&ca, (size_t)(1 + o.A(2)))); break;
      case UA_RESIZE: {
          size_t n0 = ua.buffer_capacity;
          put("%d", rcutils_uint8_array_resize(&ua, (size_t)(1 + o.A(2))));
          for (size_t i = n0; i < ua.buffer_capacity; ++i) {ua.buffer[i] = (uint8_t)(who * 50 + (int)i);}
          put("%zu %016llx", ua.buffer_capacity, (unsigned long long)(ua.buffer ? hash64(ua.buffer, ua.buffer_capacity) : 0));
          break;
        }
      case DUP: str(rcutils_strdup(a, al)); break;
      case NDUP: str(rcutils_strndup(a, (size_t)k, al)); break;
      case FMT: str(o.A(0) & 1 ? rcutils_format_string(al, "%s/%d/%s", a, (int)o.A(2), b) : rcutils_format_string_limit(al, 9, "%d%s", (int)o.A(2), a)); break;
      case REPL: str(rcutils_repl_str(a, s1.empty() ? "/" : b, o.S(2).c_str(), allocp(al))); break;
      case JOIN: str(rcutils_join_path(a, b, al)); break;
      case NATIVE: str(rcutils_to_native_path(a, al)); break;
      case EXPAND: str(rcutils_expand_user(("~/" + s0).c_str(), al)); break;
      case EXE: str(rcutils_get_executable_name(al)); break;
      case SNPRINTF: {
          char buf[64];
          memset(buf, 0, sizeof buf);
          int r = rcutils_snprintf(buf, (size_t)(o.A(2) % 64), "%s+%lld", a, (long long)v);
          put("%d %s", r, o.A(2) % 64 ? buf : "");
          break;
        }
      case FINDS: put("%zu %zu %zu %zu", rcutils_find(a, '/'), rcutils_find_last(a, '/'), rcutils_findn(a, 'b', s0.size()), rcutils_find_lastn(a, 'b', s0.size())); break;
      case CASECMP: {
          int c1 = 7, c2 = 7;
          int r1 = rcutils_strcasecmp(a, b, &c1), r2 = rcutils_strncasecmp(a, b, (size_t)k, &c2);
          put("%d %d %d %d", r1, (c1 > 0) - (c1 < 0), r2, (c2 > 0) - (c2 < 0));
          break;
        }
      case CLI: {
          char * av[4] = {&s0[0], &s1[0], (char *)"--opt", &s0[0]};
          char * g = rcutils_cli_get_option(av, av + 4, o.A(0) & 1 ? "--opt" : b);
          put("%s %d", g ? g : "(null)", rcutils_cli_option_exist(av, av + 4, a));
          break;
        }
      case QSORT: {
          int32_t x[8];
          Rng r((uint64_t)o.A(1));
          for (auto & y : x) {y = (int32_t)r.below(20);}
          put("%d", rcutils_qsort(x, (size_t)(o.A(2) % 9), sizeof x[0], cmp_int));
          for (auto y : x) {put("%d", y);}
          break;
        }
      case T_NS: case T_SEC: case T_DATE: {
          char buf[64];
          memset(buf, 0, sizeof buf);
          rcutils_time_point_value_t t = o.A(2) % 2 ? (v & INT64_MAX) % 4000000000000000000ll :      // any date, any fraction
            (rcutils_time_point_value_t)(o.A(0) * 3999000000000000ll + o.A(2) * 1000000 + (v & 0xfffff));
          size_t len = o.A(0) % 5 ? sizeof buf : (size_t)(o.A(0) % 33);
          int r = o.code == T_NS ? rcutils_time_point_value_as_nanoseconds_string(&t, buf, len) :
            o.code == T_SEC ? rcutils_time_point_value_as_seconds_string(&t, buf, len) : rcutils_time_point_value_as_date_string(&t, buf, len);
          put("%d", r);
          if (r == RCUTILS_RET_OK && len) {buf[sizeof buf - 1] = 0; put("%s", buf);}
          break;
        }
      case NOW: {
          rcutils_time_point_value_t t = -5, u = -5;
          int r = rcutils_system_time_now(&t), q = rcutils_steady_time_now(&u);
          put("%d %lld %d %lld", r, (long long)t, q, (long long)u);
          break;
        }
      case STRERR: {
          char buf[80];
          memset(buf, 0, sizeof buf);
          size_t len = o.A(0) % 3 ? sizeof buf : (size_t)(1 + o.A(0) % 79);
          errno = (int)(o.A(2) % 3 ? o.A(2) % 140 : o.A(2) * 1000 + o.A(0));
          rcutils_strerror(buf, len);
          put("%s", buf);
          break;
        }
      case SHA_UP: {
          std::string m = s0 + std::string((size_t)o.A(2), 'm') + s1;
          rcutils_sha256_update(&sha, (const uint8_t *)m.data(), m.size());
          break;
        }
      case SHA_FIN: {
          uint8_t d[RCUTILS_SHA256_BLOCK_SIZE];
          rcutils_sha256_final(&sha, d);
          put("%016llx", (unsigned long long)hash64(d, sizeof d));
          rcutils_sha256_init(&sha);
          break;
        }
      case DI_START:
        if (!it) {it = rcutils_dir_iter_start(o.A(0) % 6 ? mydir.c_str() : o.A(0) % 4 ? "/w" : a, al);}
        put("%s", it ? it->entry_name : "(none)");
        break;
      case DI_NEXT:
        if (it) {
          bool r = rcutils_dir_iter_next(it);
          put("%d %s", r, r ? it->entry_name : "");
        }
        break;
      case DI_END: if (it) {rcutils_dir_iter_end(it); it = nullptr;} break;
      case DSIZE: {
          uint64_t n = 0;
          int r = o.A(0) & 1 ? rcutils_calculate_directory_size_with_recursion(o.A(0) & 2 ? mydir.c_str() : "/w", (size_t)(o.A(2) % 3), &n, al) :
            rcutils_calculate_directory_size(mydir.c_str(), &n, al);
          put("%d %llu", r, (unsigned long long)n);
          break;
        }
      case QUERY: {
          std::string q = o.A(0) % 4 == 0 ? "/w/common" : o.A(0) % 4 == 1 ? mydir : o.A(0) % 4 == 2 ? mydir + "/f" + std::to_string(o.A(2) % 9) : "/" + s0;
          const char * c = q.c_str();
          put("%d%d%d%d%d%d %zu", rcutils_exists(c), rcutils_is_file(c), rcutils_is_directory(c), rcutils_is_readable(c), rcutils_is_writable(c),
            rcutils_is_readable_and_writable(c), rcutils_get_file_size(c));
          break;
        }
      case CWD: {char buf[64]; memset(buf, 0, sizeof buf); bool r = rcutils_get_cwd(buf, sizeof buf); put("%d %s", r, r ? buf : ""); break;}
      case MKDIR: put("%d", rcutils_mkdir(("/m" + std::to_string(who) + "/" + std::to_string(k) + (o.A(2) & 1 ? "/x" : "")).c_str())); break;
      case LIB_LOAD:
        if (!lib.lib_pointer) {put("%d", rcutils_load_shared_library(&lib, o.A(0) % 7 ? ("lib" + std::to_string(who) + ".so").c_str() : "none.so", al));}
        put("%d %s", rcutils_is_shared_library_loaded(&lib), lib.library_path ? lib.library_path : "(null)");
        break;
      case LIB_GET: {
          std::string s = o.A(0) & 1 ? "f" : "own" + std::to_string(o.A(0) % 3);
          put("%p %d", rcutils_get_symbol(&lib, s.c_str()), rcutils_has_symbol(&lib, s.c_str()));
          break;
        }
      case LIB_UNLOAD: if (lib.lib_pointer) {put("%d", rcutils_unload_shared_library(&lib));} break;
      case ERR_SET:
        rcutils_reset_error();
        rcutils_set_error_state((std::string((size_t)o.A(2) * 3, 'e') + s0).c_str(), ("file-" + s1).c_str(), (size_t)o.A(0));
        break;
      case ERR_GET: break;
      case ERR_RESET: rcutils_reset_error(); break;
      case GETENV: {const char * g = "x"; const char * e = rcutils_get_env(a, &g); put("%s %s", e ? e : "ok", e ? "" : g); break;}
      case HOME: {const char * h = rcutils_get_home_dir(); put("%s", h ? h : "(null)"); break;}
      case LEVEL: {
          static const char * lv[] = {"info", "DEBUG", "Fatal", "warn", "nonsense", "UNSET"};
          int l = -9;
          int r = rcutils_logging_severity_level_from_string(lv[o.A(0) % 6], al, &l);
          put("%d %d", r, r == RCUTILS_RET_OK ? l : -9);
          break;
        }
      default: break;
    }
    int f = fired();
    put("f%d", f);
    end_op("%016llx", (unsigned long long)hash64(out.data(), out.size()));
    {
      Oracle q;
      put("%d %s", rcutils_error_is_set(), rcutils_error_is_set() ? rcutils_get_error_string().str : "");
      if (o.code == ERR_GET && rcutils_error_is_set()) {
        auto e = rcutils_get_error_state();
        put("%s %s %llu", e->message, e->file, (unsigned long long)e->line_number);
      }
      if (o.code >= CA_STRCPY && o.code <= CA_RESIZE) {
        if (o.code == CA_RESIZE && ca.buffer && ca.buffer_length) {ca.buffer[ca.buffer_length - 1] = 0;}
        put("%zu %zu %s", ca.buffer_capacity, ca.buffer_length, ca.buffer && ca.buffer_length && !f ? ca.buffer : "-");
        if (f && !ca.buffer) {
          ca = rcutils_get_zero_initialized_char_array();
          if (rcutils_char_array_init(&ca, 4, allocp(al)) == RCUTILS_RET_OK) {ca.buffer[0] = 0; ca.buffer_length = 1;}
        }
      }
      if (o.code == UA_RESIZE && !ua.buffer) {
        ua = rcutils_get_zero_initialized_uint8_array();
        if (rcutils_uint8_array_init(&ua, 4, allocp(al)) == RCUTILS_RET_OK) {memset(ua.buffer, 0, 4);}
      }
      if (o.code >= ERR_SET && o.code <= ERR_RESET) {} else if (o.A(2) % 3) {rcutils_reset_error();}
      put("blocks %zu", live_blocks(id));
    }
    tr.push_back(std::to_string(oi) + " " + names[o.code] + ": " + out);
  }
  Oracle q;
  if (it) {rcutils_dir_iter_end(it);}
  int bad = 0;
  bad |= lib.lib_pointer && rcutils_unload_shared_library(&lib) != RCUTILS_RET_OK;
  bad |= rcutils_hash_map_fini(&hm) != RCUTILS_RET_OK;
  bad |= rcutils_string_map_fini(&sm) != RCUTILS_RET_OK;
  bad |= rcutils_array_list_fini(&li) != RCUTILS_RET_OK;
  for (auto & s : sa) {bad |= rcutils_string_array_fini(&s) != RCUTILS_RET_OK;}
  bad |= rcutils_char_array_fini(&ca) != RCUTILS_RET_OK;
  bad |= rcutils_uint8_array_fini(&ua) != RCUTILS_RET_OK;
  rcutils_reset_error();
  tr.push_back("end: " + std::to_string(bad) + " " + std::to_string(live_blocks(id)));
}
// an allocation failure makes the library log, so logging has to be up before the threads start
bool faulty(const Plan & p)
{
  for (auto & o : p.ops) {if (!o.f.empty()) {return true;}}
  return false;
}
void exec(const Plan & p)
{
  int nt = (int)p.C("threads", 2);
  if (nt < 1 || nt > 3) {return;}
  std::vector<std::vector<std::string>> together((size_t)nt), alone((size_t)nt);
  auto logging = [&](bool on) {
      run_single(p, [&] {
        Oracle q;
        if (p.C("log") || faulty(p)) {CHECK((on ? rcutils_logging_initialize() : rcutils_logging_shutdown()) == RCUTILS_RET_OK, "init", "logging");}
      });
    };
  world(p);
  logging(true);
  run_threads(p, nt, [&](int tid) {work(p, tid, together[(size_t)tid]);});
  if (switches()) {probe("threads-interleaved");}
  for (int t = 0; t < nt; ++t) {
    logging(false);
    restore_globals();
    world(p);
    logging(true);
    run_single(p, [&] {work(p, t, alone[(size_t)t]);});
  }
  run_single(p, [&] {
    for (int t = 0; t < nt; ++t) {
      auto & x = together[(size_t)t], & y = alone[(size_t)t];
      for (size_t i = 0; i < x.size() && i < y.size(); ++i) {
        size_t d = 0;
        while (d < x[i].size() && d < y[i].size() && x[i][d] == y[i][d]) {++d;}
        d = d > 40 ? d - 40 : 0;
        CHECK(x[i] == y[i], "other-result", "thread %d, operation %.40s: with other threads '%.160s', alone '%.160s'", t, y[i].c_str(), x[i].c_str() + d, y[i].c_str() + d);
      }
      CHECK(x.size() == y.size(), "other-result", "thread %d did %zu operations with others and %zu alone", t, x.size(), y.size());
    }
    finish_run("threads");
  });
}
const Workload W{"C23", names, NOPS, gen, exec};
Reg reg(&W);
}  // namespace
