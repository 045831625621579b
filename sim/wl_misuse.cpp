// C30: misuse. Histories of ordinary calls over live objects of every kind, interleaved with calls the interface refuses:
// missing arguments, unusable allocators, objects that are not set up (or no longer), objects that already are, indices and
// sizes out of range. Every refusal must give the documented answer and leave no trace, also when no memory is to be had.
#include "wl.h"
#include "internal.h"
#include <algorithm>
extern "C" {
#include "rcutils/cmdline_parser.h"
#include "rcutils/env.h"
#include "rcutils/filesystem.h"
#include "rcutils/find.h"
#include "rcutils/format_string.h"
#include "rcutils/process.h"
#include "rcutils/qsort.h"
#include "rcutils/repl_str.h"
#include "rcutils/shared_library.h"
#include "rcutils/snprintf.h"
#include "rcutils/split.h"
#include "rcutils/strcasecmp.h"
#include "rcutils/strdup.h"
#include "rcutils/time.h"
#include "rcutils/types.h"
}
using namespace sim;
namespace {
enum { LIST, MAP, SMAP, SARR, CHARS, BYTES, DIR, LIB, LOG, MISUSE, NOPS };
const char * const names[] = {"array_list", "hash_map", "string_map", "string_array", "char_array", "uint8_array", "dir_iter", "shared_library",
  "logging", "misuse"};
static_assert(sizeof names / sizeof *names == NOPS, "names");
constexpr int N = 2;                       // objects of each kind
enum { M_LIST_INIT, M_LIST_CALL, M_LIST_UNSET, M_LIST_RANGE, M_MAP_INIT, M_MAP_CALL, M_MAP_UNSET, M_MAP_ABSENT, M_SMAP_INIT, M_SMAP_CALL, M_SMAP_UNSET, M_SMAP_FULL,
  M_SARR, M_CHARS, M_BYTES, M_DIR, M_LIB, M_TEXT, M_SPLIT, M_FILES, M_ENV, M_TIME, M_LOG, M_MISC, M_NUM };

void gen(Rng & r, Plan & p, bool th)
{
  p.cfg["zero_null"] = r.chance(1, 6);
  p.cfg["realloc0"] = r.chance(1, 4);
  p.cfg["order"] = (int64_t)r.below(1000);
  int n = (int)r.range(2, th ? 90 : 40);
  std::vector<int> swarm, mis;
  for (int i = 0, k = (int)r.range(1, 6); i < k; ++i) {swarm.push_back((int)r.below(MISUSE));}
  for (int i = 0, k = (int)r.range(1, 8); i < k; ++i) {mis.push_back((int)r.below(M_NUM));}
  unsigned share = (unsigned)r.range(1, 3);
  for (int i = 0; i < n; ++i) {
    bool m = r.chance(share, 4);
    Op o = mkop(0, m ? (int)MISUSE : r.pick(swarm), {m ? (int64_t)(r.chance(1, 3) ? r.below(M_NUM) : (uint64_t)r.pick(mis)) : (int64_t)r.below(100), (int64_t)r.below(N),
      (int64_t)r.below(100), (int64_t)r.below(1000), (int64_t)r.below(6)}, {"k" + std::to_string(r.below(12)), gen_text(r, 9, "ab/.")});
    if (m && r.chance(1, 2)) {
      Fault f;
      f.kind = r.pick(std::vector<int>{F_ALLOC, F_ALLOC, F_ALLOC, F_STAT, F_OPENDIR, F_DLOPEN, F_DLSYM, F_GETCWD, F_CLOCK, F_SETENV, F_MKDIR});
      f.nth = 1;
      f.len = 0;
      o.f.push_back(f);
    }
    p.ops.push_back(o);
  }
}

struct World {
  rcutils_array_list_t list[N];
  rcutils_hash_map_t map[N];
  rcutils_string_map_t smap[N];
  rcutils_string_array_t sarr[N];
  rcutils_char_array_t chars[N];
  rcutils_uint8_array_t bytes[N];
  rcutils_dir_iter_t * dir[N];
  rcutils_shared_library_t lib[N];
  bool slist[N], smapd[N], ssmap[N], ssarr[N], schars[N], sbytes[N], slib[N];    // set up
  std::vector<std::string> loggers;
};
World * W0;
const char kBorrowed[] = "borrowed text";

std::string quoted(const char * s) {return s ? "'" + std::string(s) + "'" : "null";}
std::string hex(const void * p, size_t n)
{
  std::string s;
  for (size_t i = 0; i < n; ++i) {char b[4]; snprintf(b, sizeof b, "%02x", ((const unsigned char *)p)[i]); s += b;}
  return s;
}
// what the objects hold, seen through the interface; in the order of the blocks nothing is said
std::vector<std::string> look()
{
  Oracle o;
  World & w = *W0;
  std::vector<std::string> v;
  for (int i = 0; i < N; ++i) {
    std::string s = "array list " + std::to_string(i) + ":";
    if (w.slist[i]) {
      size_t n = 0;
      CHECK(RCUTILS_RET_OK == rcutils_array_list_get_size(&w.list[i], &n), "object-unusable", "array list %d does not give its size", i);
      for (size_t k = 0; k < n; ++k) {
        int64_t x = 0;
        CHECK(RCUTILS_RET_OK == rcutils_array_list_get(&w.list[i], k, &x), "object-unusable", "array list %d does not give element %zu", i, k);
        s += " " + std::to_string(x);
      }
    } else {s += w.list[i].impl ? " set" : " unset";}
    v.push_back(s);
    s = "hash map " + std::to_string(i) + ":";
    if (w.smapd[i]) {
      size_t n = 0, c = 0;
      CHECK(RCUTILS_RET_OK == rcutils_hash_map_get_size(&w.map[i], &n) && RCUTILS_RET_OK == rcutils_hash_map_get_capacity(&w.map[i], &c),
        "object-unusable", "hash map %d does not give its size and capacity", i);
      s += std::to_string(n) + "/" + std::to_string(c);
      std::vector<std::string> e;
      int64_t k, d;
      rcutils_ret_t r = rcutils_hash_map_get_next_key_and_data(&w.map[i], nullptr, &k, &d);
      while (r == RCUTILS_RET_OK && e.size() <= n) {
        e.push_back(" " + std::to_string(k) + "=" + std::to_string(d));
        r = rcutils_hash_map_get_next_key_and_data(&w.map[i], &k, &k, &d);
      }
      rcutils_reset_error();
      for (auto & x : e) {s += x;}
    } else {s += w.map[i].impl ? " set" : " unset";}
    v.push_back(s);
    s = "string map " + std::to_string(i) + ":";
    if (w.ssmap[i]) {
      size_t n = 0, c = 0;
      CHECK(RCUTILS_RET_OK == rcutils_string_map_get_size(&w.smap[i], &n) && RCUTILS_RET_OK == rcutils_string_map_get_capacity(&w.smap[i], &c),
        "object-unusable", "string map %d does not give its size and capacity", i);
      s += std::to_string(n) + "/" + std::to_string(c);
      const char * k = rcutils_string_map_get_next_key(&w.smap[i], nullptr);
      for (size_t t = 0; k && t <= n; ++t, k = rcutils_string_map_get_next_key(&w.smap[i], k)) {
        s += " " + quoted(k) + "=" + quoted(rcutils_string_map_get(&w.smap[i], k));
      }
    } else {s += w.smap[i].impl ? " set" : " unset";}
    v.push_back(s);
    s = "string array " + std::to_string(i) + ": " + std::to_string(w.sarr[i].size) + (w.sarr[i].data ? "" : " none");
    for (size_t k = 0; w.sarr[i].data && k < w.sarr[i].size; ++k) {s += " " + quoted(w.sarr[i].data[k]);}
    v.push_back(s);
    auto & c = w.chars[i];
    v.push_back("char array " + std::to_string(i) + ": " + std::to_string(c.buffer_length) + "/" + std::to_string(c.buffer_capacity) + (c.owns_buffer ? " own " : " borrowed ") +
      (c.buffer ? "'" + std::string(c.buffer, strnlen(c.buffer, c.buffer_capacity)) + "'" : "none"));
    auto & u = w.bytes[i];
    v.push_back("byte array " + std::to_string(i) + ": " + std::to_string(u.buffer_length) + "/" + std::to_string(u.buffer_capacity) + " " +
      (u.buffer ? hex(u.buffer, u.buffer_length) : "none"));
    v.push_back("directory iterator " + std::to_string(i) + ": " + (w.dir[i] ? quoted(w.dir[i]->entry_name) : "none"));
    v.push_back("library " + std::to_string(i) + ": " + (w.lib[i].lib_pointer ? "loaded " : "not loaded ") + quoted(w.lib[i].library_path));
  }
  std::string s = "logging:";
  if (g_rcutils_logging_initialized) {
    s += " default " + std::to_string(rcutils_logging_get_default_logger_level());
    s += rcutils_logging_get_output_handler() == rcutils_logging_console_output_handler ? " console" : " other handler";
    for (auto & n : w.loggers) {s += " " + n + "=" + std::to_string(rcutils_logging_get_logger_level(n.c_str()));}
    rcutils_reset_error();
  } else {s += " down";}
  v.push_back(s);
  s = "loader: " + std::to_string(g_dl.total_refs()) + " references, " + std::to_string(g_dl.opens) + " loads, " + std::to_string(g_dl.closes) + " unloads";
  v.push_back(s);
  v.push_back("file system: " + g_disk.cwd + " " + g_disk.dump() + " " + std::to_string(g_disk.open_dirs) + " open directories");
  s = "environment:";
  for (auto & e : g_env) {s += " " + e.first + "=" + e.second;}
  v.push_back(s);
  v.push_back("standard output: " + std::to_string(g_out.data.size()) + " characters");
  return v;
}

int rep;                                   // how the misuse was answered
bool told;
std::string what;
void expect(int got, int want, bool msg, const char * call)
{
  rep = got;
  told = rcutils_error_is_set();
  what = call;
  CHECK(got == want, "not-refused", "%s answers %d instead of %d", call, got, want);
  CHECK(!msg || told, "no-reason-given", "%s is refused without an error message", call);
}
template<class T> void expect_null(T * got, bool msg, const char * call)
{
  told = rcutils_error_is_set();
  what = call;
  CHECK(got == nullptr, "not-refused", "%s gives a pointer", call);
  CHECK(!msg || told, "no-reason-given", "%s is refused without an error message", call);
}
#define R(want, call) expect((int)(call), (int)(want), true, #call)
#define Q(want, call) expect((int)(call), (int)(want), false, #call)   // no message promised
#define RN(call) expect_null((call), true, #call)
#define QN(call) expect_null((call), false, #call)
#define BAD RCUTILS_RET_INVALID_ARGUMENT

// an allocator that cannot be used: v 0 nothing in it, 1..4 one function missing
rcutils_allocator_t bad(int64_t v)
{
  rcutils_allocator_t a = allocator(3);
  switch (umod(v, 5)) {
    case 0: a = rcutils_get_zero_initialized_allocator(); break;
    case 1: a.allocate = nullptr; break;
    case 2: a.deallocate = nullptr; break;
    case 3: a.reallocate = nullptr; break;
    default: a.zero_allocate = nullptr; break;
  }
  return a;
}
size_t hash8(const void * k) {return (size_t)*(const int64_t *)k % 5;}
int cmp8(const void * a, const void * b) {int64_t x = *(const int64_t *)a, y = *(const int64_t *)b; return x < y ? -1 : x > y;}

void misuse(const Op & o)
{
  World & w = *W0;
  int i = (int)umod(o.A(1), N);
  int64_t k = (int64_t)umod(o.A(2), 1000), z = (int64_t)umod(o.A(3), 1000);
  rcutils_allocator_t A = allocator(2), B = bad(z);
  const rcutils_allocator_t * Bp = o.A(4) == 0 ? nullptr : &B;
  int64_t x = 77;
  size_t sz = 7777;
  // every struct that is handed over must come back as it was, and so must what is handed over to be filled in
  rcutils_array_list_t l0 = rcutils_get_zero_initialized_array_list();
  rcutils_hash_map_t h0 = rcutils_get_zero_initialized_hash_map();
  rcutils_string_map_t s0 = rcutils_get_zero_initialized_string_map();
  rcutils_string_array_t a0 = rcutils_get_zero_initialized_string_array();
  rcutils_char_array_t c0 = rcutils_get_zero_initialized_char_array();
  rcutils_uint8_array_t u0 = rcutils_get_zero_initialized_uint8_array();
  rcutils_shared_library_t b0 = rcutils_get_zero_initialized_shared_library();
  char buf[40], buf2[40];
  memset(buf, 'P', sizeof buf);
  memcpy(buf2, buf, sizeof buf);
  rcutils_array_list_t * L = w.slist[i] ? &w.list[i] : nullptr;
  rcutils_hash_map_t * H = w.smapd[i] ? &w.map[i] : nullptr;
  rcutils_string_map_t * S = w.ssmap[i] ? &w.smap[i] : nullptr;
  rcutils_array_list_t * LU = !w.slist[i] ? &w.list[i] : &l0;      // not set up, or not any more
  rcutils_hash_map_t * HU = !w.smapd[i] ? &w.map[i] : &h0;
  rcutils_string_map_t * SU = !w.ssmap[i] ? &w.smap[i] : &s0;
  const char * key = guarded_str(o.S(0)), * txt = guarded_str(o.S(1));
  switch (umod(o.A(0), M_NUM)) {
    case M_LIST_INIT:
      switch (umod(k, 4)) {
        case 0: R(BAD, rcutils_array_list_init(nullptr, 4, 8, allocp(A))); break;
        case 1: Q(BAD, rcutils_array_list_init(LU, 4, 8, Bp)); break;
        case 2: R(BAD, rcutils_array_list_init(LU, 0, 8, allocp(A))); break;
        default: R(BAD, rcutils_array_list_init(LU, 4, 0, allocp(A))); break;
      }
      break;
    case M_LIST_CALL:
      switch (umod(k, 10)) {
        case 0: R(BAD, rcutils_array_list_fini(nullptr)); break;
        case 1: R(BAD, rcutils_array_list_add(nullptr, &x)); break;
        case 2: R(BAD, rcutils_array_list_set(nullptr, 0, &x)); break;
        case 3: R(BAD, rcutils_array_list_remove(nullptr, 0)); break;
        case 4: R(BAD, rcutils_array_list_get(nullptr, 0, &x)); break;
        case 5: R(BAD, rcutils_array_list_get_size(nullptr, &sz)); break;
        case 6: if (L) {R(BAD, rcutils_array_list_add(L, nullptr));} break;
        case 7: if (L) {R(BAD, rcutils_array_list_set(L, 0, nullptr));} break;
        case 8: if (L) {R(BAD, rcutils_array_list_get(L, 0, nullptr));} break;
        default: if (L) {R(BAD, rcutils_array_list_get_size(L, nullptr));} break;
      }
      break;
    case M_LIST_UNSET:
      switch (umod(k, 6)) {
        case 0: R(RCUTILS_RET_NOT_INITIALIZED, rcutils_array_list_fini(LU)); break;
        case 1: R(RCUTILS_RET_NOT_INITIALIZED, rcutils_array_list_add(LU, &x)); break;
        case 2: R(RCUTILS_RET_NOT_INITIALIZED, rcutils_array_list_set(LU, 0, &x)); break;
        case 3: R(RCUTILS_RET_NOT_INITIALIZED, rcutils_array_list_remove(LU, 0)); break;
        case 4: R(RCUTILS_RET_NOT_INITIALIZED, rcutils_array_list_get(LU, 0, &x)); break;
        default: R(RCUTILS_RET_NOT_INITIALIZED, rcutils_array_list_get_size(LU, &sz)); break;
      }
      break;
    case M_LIST_RANGE:
      if (L) {
        size_t n = 0;
        {Oracle q; CHECK(RCUTILS_RET_OK == rcutils_array_list_get_size(L, &n), "object-unusable", "array list does not give its size");}
        size_t at = z % 4 == 0 ? n : z % 4 == 1 ? n + 1 + (size_t)z : z % 4 == 2 ? SIZE_MAX - (size_t)(z / 4) % 3 : ((size_t)1 << (8 * (z / 4 % 8))) * 4 + n;
        // element numbers that point back into the list once multiplied by the size of an element and cut off
        if (z % 7 == 3) {at = (SIZE_MAX / 8 + 1) * (1 + (size_t)(z / 7) % 7) + (size_t)(z / 50) % (n + 1);}
        switch (umod(k, 3)) {
          case 0: R(BAD, rcutils_array_list_set(L, at, &x)); break;
          case 1: R(BAD, rcutils_array_list_remove(L, at)); break;
          default: R(BAD, rcutils_array_list_get(L, at, &x)); break;
        }
      }
      break;
    case M_MAP_INIT:
      switch (umod(k, 8)) {
        case 0: R(BAD, rcutils_hash_map_init(nullptr, 4, 8, 8, hash8, cmp8, allocp(A))); break;
        case 1: Q(BAD, rcutils_hash_map_init(HU, 4, 8, 8, hash8, cmp8, Bp)); break;
        case 2: R(BAD, rcutils_hash_map_init(HU, 0, 8, 8, hash8, cmp8, allocp(A))); break;
        case 3: R(BAD, rcutils_hash_map_init(HU, 4, 0, 8, hash8, cmp8, allocp(A))); break;
        case 4: R(BAD, rcutils_hash_map_init(HU, 4, 8, 0, hash8, cmp8, allocp(A))); break;
        case 5: R(BAD, rcutils_hash_map_init(HU, 4, 8, 8, nullptr, cmp8, allocp(A))); break;
        case 6: R(BAD, rcutils_hash_map_init(HU, 4, 8, 8, hash8, nullptr, allocp(A))); break;
        default: if (H) {probe("hash map set up twice"); R(RCUTILS_RET_STRING_MAP_ALREADY_INIT, rcutils_hash_map_init(H, 4, 8, 8, hash8, cmp8, allocp(A)));} break;
      }
      break;
    case M_MAP_CALL:
      switch (umod(k, 17)) {
        case 0: R(BAD, rcutils_hash_map_fini(nullptr)); break;
        case 1: R(BAD, rcutils_hash_map_set(nullptr, &x, &x)); break;
        case 2: R(BAD, rcutils_hash_map_unset(nullptr, &x)); break;
        case 3: Q(false, rcutils_hash_map_key_exists(nullptr, &x)); break;
        case 4: R(BAD, rcutils_hash_map_get(nullptr, &x, &x)); break;
        case 5: R(BAD, rcutils_hash_map_get_size(nullptr, &sz)); break;
        case 6: R(BAD, rcutils_hash_map_get_capacity(nullptr, &sz)); break;
        case 7: R(BAD, rcutils_hash_map_get_next_key_and_data(nullptr, nullptr, &x, &x)); break;
        case 8: {int64_t kk = z % 13; if (H) {R(BAD, rcutils_hash_map_set(H, &kk, nullptr));}} break;
        case 9: if (H) {R(BAD, rcutils_hash_map_set(H, nullptr, &x));} break;
        case 10: if (H) {R(BAD, rcutils_hash_map_unset(H, nullptr));} break;
        case 11: if (H) {Q(false, rcutils_hash_map_key_exists(H, nullptr));} break;
        case 12: {int64_t kk = z % 13; if (H) {R(BAD, rcutils_hash_map_get(H, &kk, nullptr));}} break;
        case 13: if (H) {R(BAD, rcutils_hash_map_get(H, nullptr, &x));} break;
        case 14: if (H) {R(BAD, z % 2 ? rcutils_hash_map_get_size(H, nullptr) : rcutils_hash_map_get_capacity(H, nullptr));} break;
        case 15: if (H) {R(BAD, rcutils_hash_map_get_next_key_and_data(H, nullptr, nullptr, &x));} break;
        default: if (H) {R(BAD, rcutils_hash_map_get_next_key_and_data(H, nullptr, &x, nullptr));} break;
      }
      break;
    case M_MAP_ABSENT:
      if (H) {
        int64_t kk = z % 40;
        bool there;
        {Oracle q; there = rcutils_hash_map_key_exists(H, &kk);}
        if (!there) {
          switch (umod(k, 3)) {
            case 0: Q(RCUTILS_RET_NOT_FOUND, rcutils_hash_map_get(H, &kk, &x)); break;
            case 1: {int64_t d = 77; Q(RCUTILS_RET_NOT_FOUND, rcutils_hash_map_get_next_key_and_data(H, &kk, &x, &d));
                CHECK(d == 77, "argument-changed", "%s stored a value", what.c_str());} break;
            default: Q(RCUTILS_RET_OK, rcutils_hash_map_unset(H, &kk)); break;
          }
        }
      }
      break;
    case M_MAP_UNSET:
      switch (umod(k, 8)) {
        case 0: R(RCUTILS_RET_NOT_INITIALIZED, rcutils_hash_map_fini(HU)); break;
        case 1: R(RCUTILS_RET_NOT_INITIALIZED, rcutils_hash_map_set(HU, &x, &x)); break;
        case 2: R(RCUTILS_RET_NOT_INITIALIZED, rcutils_hash_map_unset(HU, &x)); break;
        case 3: Q(false, rcutils_hash_map_key_exists(HU, &x)); break;
        case 4: R(RCUTILS_RET_NOT_INITIALIZED, rcutils_hash_map_get(HU, &x, &x)); break;
        case 5: R(RCUTILS_RET_NOT_INITIALIZED, rcutils_hash_map_get_size(HU, &sz)); break;
        case 6: R(RCUTILS_RET_NOT_INITIALIZED, rcutils_hash_map_get_capacity(HU, &sz)); break;
        default: R(RCUTILS_RET_NOT_INITIALIZED, rcutils_hash_map_get_next_key_and_data(HU, nullptr, &x, &x)); break;
      }
      break;
    case M_SMAP_INIT:
      switch (umod(k, 3)) {
        case 0: R(BAD, rcutils_string_map_init(nullptr, 4, A)); break;
        case 1: R(BAD, rcutils_string_map_init(SU, (size_t)z % 3, B)); break;
        default: if (S) {R(RCUTILS_RET_STRING_MAP_ALREADY_INIT, rcutils_string_map_init(S, 4, z % 2 ? A : B));} break;
      }
      break;
    case M_SMAP_CALL:
      switch (umod(k, 24)) {
        case 0: R(BAD, rcutils_string_map_fini(nullptr)); break;
        case 1: R(BAD, rcutils_string_map_get_capacity(nullptr, &sz)); break;
        case 2: R(BAD, rcutils_string_map_get_size(nullptr, &sz)); break;
        case 3: R(BAD, rcutils_string_map_reserve(nullptr, 4)); break;
        case 4: R(BAD, rcutils_string_map_clear(nullptr)); break;
        case 5: R(BAD, rcutils_string_map_set(nullptr, key, txt)); break;
        case 6: R(BAD, rcutils_string_map_set_no_resize(nullptr, key, txt)); break;
        case 7: R(BAD, rcutils_string_map_unset(nullptr, key)); break;
        case 8: Q(false, z % 2 ? rcutils_string_map_key_exists(nullptr, key) : rcutils_string_map_key_existsn(nullptr, key, strlen(key))); break;
        case 9: QN(z % 2 ? rcutils_string_map_get(nullptr, key) : rcutils_string_map_getn(nullptr, key, strlen(key))); break;
        case 10: QN(rcutils_string_map_get_next_key(nullptr, z % 2 ? key : nullptr)); break;
        case 11: R(BAD, rcutils_string_map_copy(nullptr, S ? S : &s0)); break;
        case 12: R(BAD, rcutils_string_map_copy(S ? S : &s0, nullptr)); break;
        case 13: if (S) {R(BAD, rcutils_string_map_get_capacity(S, nullptr));} break;
        case 14: if (S) {R(BAD, rcutils_string_map_get_size(S, nullptr));} break;
        case 15: if (S) {R(BAD, rcutils_string_map_set(S, nullptr, txt));} break;
        case 16: if (S) {R(BAD, rcutils_string_map_set(S, key, nullptr));} break;
        case 17: if (S) {R(BAD, rcutils_string_map_set_no_resize(S, nullptr, txt));} break;
        case 18: if (S) {R(BAD, rcutils_string_map_set_no_resize(S, key, nullptr));} break;
        case 19: if (S) {R(BAD, rcutils_string_map_unset(S, nullptr));} break;
        case 20: if (S) {Q(false, rcutils_string_map_key_exists(S, nullptr));} break;
        case 21: if (S) {Q(false, rcutils_string_map_key_existsn(S, nullptr, (size_t)z % 4));} break;
        case 22: if (S) {QN(rcutils_string_map_get(S, nullptr));} break;
        default: if (S) {QN(rcutils_string_map_getn(S, nullptr, (size_t)z % 4));} break;
      }
      break;
    case M_SMAP_UNSET:
      switch (umod(k, 12)) {
        case 0: R(RCUTILS_RET_STRING_MAP_INVALID, rcutils_string_map_get_capacity(SU, &sz)); break;
        case 1: R(RCUTILS_RET_STRING_MAP_INVALID, rcutils_string_map_get_size(SU, &sz)); break;
        case 2: R(RCUTILS_RET_STRING_MAP_INVALID, rcutils_string_map_reserve(SU, (size_t)z % 9)); break;
        case 3: R(RCUTILS_RET_STRING_MAP_INVALID, rcutils_string_map_clear(SU)); break;
        case 4: R(RCUTILS_RET_STRING_MAP_INVALID, rcutils_string_map_set(SU, key, txt)); break;
        case 5: R(RCUTILS_RET_STRING_MAP_INVALID, rcutils_string_map_set_no_resize(SU, key, txt)); break;
        case 6: R(RCUTILS_RET_STRING_MAP_INVALID, rcutils_string_map_unset(SU, key)); break;
        case 7: Q(false, z % 2 ? rcutils_string_map_key_exists(SU, key) : rcutils_string_map_key_existsn(SU, key, strlen(key))); break;
        case 8: QN(z % 2 ? rcutils_string_map_get(SU, key) : rcutils_string_map_getn(SU, key, strlen(key))); break;
        case 9: QN(rcutils_string_map_get_next_key(SU, z % 2 ? key : nullptr)); break;
        case 10: if (S) {R(RCUTILS_RET_STRING_MAP_INVALID, rcutils_string_map_copy(SU, S));} break;
        default: if (S) {R(RCUTILS_RET_STRING_MAP_INVALID, rcutils_string_map_copy(S, SU));} break;
      }
      break;
    case M_SMAP_FULL:
      if (S) {
        size_t n = 0, c = 0;
        bool there;
        {
          Oracle q;
          CHECK(RCUTILS_RET_OK == rcutils_string_map_get_size(S, &n) && RCUTILS_RET_OK == rcutils_string_map_get_capacity(S, &c), "object-unusable", "string map does not give its size");
          there = rcutils_string_map_key_exists(S, key);
        }
        if (!there && k % 2) {R(RCUTILS_RET_STRING_KEY_NOT_FOUND, rcutils_string_map_unset(S, key));}
        else if (!there && k % 4 == 2) {QN(rcutils_string_map_get_next_key(S, key));}
        else if (!there && n == c && !fired()) {probe("string map full"); Q(RCUTILS_RET_NOT_ENOUGH_SPACE, rcutils_string_map_set_no_resize(S, key, txt));}
      }
      break;
    case M_SARR: {
      int res = 4711;
      rcutils_string_array_t none = a0;
      none.size = 2;                       // entries promised, none there
      bool full = w.ssarr[i] && w.sarr[i].size > 0;
      switch (umod(k, 11)) {
        case 0: R(BAD, rcutils_string_array_init(nullptr, 3, allocp(A))); break;
        case 1: R(BAD, rcutils_string_array_init(&a0, 3, nullptr)); break;
        case 2: R(BAD, rcutils_string_array_fini(nullptr)); break;
        case 3: R(BAD, rcutils_string_array_cmp(nullptr, &w.sarr[i], &res)); break;
        case 4: R(BAD, rcutils_string_array_cmp(&w.sarr[i], nullptr, &res)); break;
        case 5: R(BAD, rcutils_string_array_cmp(&w.sarr[i], &w.sarr[0], nullptr)); break;
        case 6: if (full) {R(BAD, z % 2 ? rcutils_string_array_cmp(&w.sarr[i], &none, &res) : rcutils_string_array_cmp(&none, &w.sarr[i], &res));} break;
        case 7: R(BAD, rcutils_string_array_resize(nullptr, (size_t)z % 5)); break;
        case 8: a0.allocator = B; R(BAD, rcutils_string_array_resize(&a0, 1 + (size_t)z % 5)); break;
        case 9: R(BAD, rcutils_string_array_sort(nullptr)); break;
        default: if (full) {                // an array whose allocator cannot be used keeps what it has
            rcutils_string_array_t c = w.sarr[i];
            c.allocator = B;
            if (z % 2) {R(BAD, rcutils_string_array_fini(&c));} else {R(BAD, rcutils_string_array_resize(&c, c.size + (size_t)z % 3 - 1 == c.size ? c.size + 1 : c.size + (size_t)z % 3 - 1));}
            CHECK(c.data == w.sarr[i].data && c.size == w.sarr[i].size, "argument-changed", "%s changed the array", what.c_str());
          }
          break;
      }
      CHECK(res == 4711, "argument-changed", "%s stored a result", what.c_str());
      break;
    }
    case M_CHARS:
      switch (umod(k, 7)) {
        case 0: R(BAD, rcutils_char_array_init(nullptr, 4, allocp(A))); break;
        case 1: R(BAD, rcutils_char_array_init(&c0, (size_t)z % 9, Bp)); break;
        case 2: R(BAD, rcutils_char_array_fini(nullptr)); break;
        case 3: {
            rcutils_ret_t r = z % 3 == 0 ? rcutils_char_array_resize(nullptr, 5) : z % 3 == 1 ? rcutils_char_array_expand_as_needed(nullptr, 5) : rcutils_char_array_memcpy(nullptr, "abc", 3);
            R(true, r == RCUTILS_RET_ERROR || r == BAD);
          }
          break;
        case 4: if (w.schars[i]) {R(BAD, rcutils_char_array_resize(&w.chars[i], 0));} break;
        default:
          if (w.schars[i]) {
            rcutils_char_array_t c = w.chars[i];
            c.allocator = B;
            size_t more = c.buffer_capacity + 1 + (size_t)z % 50;
            rcutils_ret_t r = k % 4 == 0 ? rcutils_char_array_resize(&c, more) : k % 4 == 1 ? rcutils_char_array_expand_as_needed(&c, more) :
              k % 4 == 2 ? rcutils_char_array_strcpy(&c, std::string(more, 'x').c_str()) : c.owns_buffer ? rcutils_char_array_fini(&c) : rcutils_char_array_resize(&c, more);
            R(true, r == RCUTILS_RET_ERROR || r == BAD);
            CHECK(c.buffer == w.chars[i].buffer && c.buffer_length == w.chars[i].buffer_length && c.buffer_capacity == w.chars[i].buffer_capacity &&
              c.owns_buffer == w.chars[i].owns_buffer, "argument-changed", "%s changed the array", what.c_str());
          }
          break;
      }
      break;
    case M_BYTES:
      switch (umod(k, 6)) {
        case 0: R(BAD, rcutils_uint8_array_init(nullptr, 4, allocp(A))); break;
        case 1: Q(BAD, rcutils_uint8_array_init(&u0, (size_t)z % 9, Bp)); break;
        case 2: R(BAD, rcutils_uint8_array_fini(nullptr)); break;
        case 3: R(BAD, rcutils_uint8_array_resize(nullptr, 5)); break;
        case 4: if (w.sbytes[i]) {R(BAD, rcutils_uint8_array_resize(&w.bytes[i], 0));} break;
        default:
          if (w.sbytes[i]) {
            rcutils_uint8_array_t c = w.bytes[i];
            c.allocator = B;
            if (z % 2) {Q(BAD, rcutils_uint8_array_resize(&c, c.buffer_capacity + 1 + (size_t)z % 50));} else {Q(BAD, rcutils_uint8_array_fini(&c));}
            CHECK(c.buffer == w.bytes[i].buffer && c.buffer_length == w.bytes[i].buffer_length && c.buffer_capacity == w.bytes[i].buffer_capacity,
              "argument-changed", "%s changed the array", what.c_str());
          }
          break;
      }
      break;
    case M_DIR:
      switch (umod(k, 5)) {
        case 0: RN(rcutils_dir_iter_start(nullptr, A)); break;
        case 1: RN(rcutils_dir_iter_start("/d", B)); break;
        case 2: R(false, rcutils_dir_iter_next(nullptr)); break;
        case 3: {
            rcutils_dir_iter_t it;
            memset(&it, 0, sizeof it);
            it.allocator = A;
            R(false, rcutils_dir_iter_next(&it));
          }
          break;
        default: rcutils_dir_iter_end(nullptr); break;
      }
      break;
    case M_LIB: {
      rcutils_shared_library_t * lb = &w.lib[i], * un = w.slib[i] ? &b0 : lb;
      switch (umod(k, 13)) {
        case 0: R(BAD, rcutils_load_shared_library(nullptr, "liba.so", A)); break;
        case 1: R(BAD, rcutils_load_shared_library(un, nullptr, A)); break;
        case 2: Q(BAD, rcutils_load_shared_library(un, "liba.so", B)); break;
        case 3: RN(rcutils_get_symbol(nullptr, "fn")); break;
        case 4: RN(rcutils_get_symbol(un, "fn")); break;
        case 5: if (w.slib[i]) {RN(rcutils_get_symbol(lb, nullptr));} break;
        case 6: Q(false, rcutils_has_symbol(nullptr, "fn")); break;
        case 7: Q(false, rcutils_has_symbol(un, "fn")); break;
        case 8: if (w.slib[i]) {Q(false, rcutils_has_symbol(lb, nullptr));} break;
        case 9: R(BAD, rcutils_unload_shared_library(nullptr)); break;
        case 10: R(BAD, rcutils_unload_shared_library(un)); break;
        case 11: R(BAD, z % 2 ? rcutils_get_platform_library_name(nullptr, buf, sizeof buf, false) : rcutils_get_platform_library_name("a", nullptr, 9, z % 3 == 0)); break;
        default:
          if (w.slib[i]) {
            rcutils_shared_library_t c = *lb;
            c.allocator = B;
            Q(BAD, rcutils_unload_shared_library(&c));
            CHECK(c.lib_pointer == lb->lib_pointer && c.library_path == lb->library_path, "argument-changed", "%s changed the library", what.c_str());
          }
          break;
      }
      break;
    }
    case M_TEXT:
      switch (umod(k, 16)) {
        case 0: Q(true, rcutils_find(nullptr, 'a') == SIZE_MAX && rcutils_find_last(nullptr, 'a') == SIZE_MAX); break;
        case 1: Q(true, rcutils_findn(nullptr, 'a', 3) == SIZE_MAX && rcutils_find_lastn(nullptr, 'a', 3) == SIZE_MAX); break;
        case 2: QN(rcutils_format_string_limit(A, 100, nullptr)); break;
        case 3: QN(rcutils_format_string_limit(B, 100, "%s", txt)); break;
        case 4: QN(rcutils_repl_str(o.S(1).c_str(), "a", "bb", Bp)); break;
        case 5: QN(rcutils_strdup(nullptr, A)); break;
        case 6: QN(rcutils_strdup(txt, B)); break;
        case 7: QN(rcutils_strndup(nullptr, (size_t)z % 9, A)); break;
        case 8: QN(rcutils_strndup(txt, (size_t)z % 9, B)); break;
        case 9: {int v = 4711; Q(-1, z % 3 == 0 ? rcutils_strcasecmp(nullptr, "a", &v) : z % 3 == 1 ? rcutils_strcasecmp("a", nullptr, &v) : rcutils_strcasecmp("a", "A", nullptr));
            CHECK(v == 4711, "argument-changed", "%s stored a result", what.c_str());} break;
        case 10: {int v = 4711; Q(-1, z % 3 == 0 ? rcutils_strncasecmp(nullptr, "a", 1, &v) : z % 3 == 1 ? rcutils_strncasecmp("a", nullptr, 1, &v) : rcutils_strncasecmp("a", "A", 1, nullptr));
            CHECK(v == 4711, "argument-changed", "%s stored a result", what.c_str());} break;
        case 11: errno = 0; Q(-1, rcutils_snprintf(buf, sizeof buf, (const char *)nullptr)); CHECK(errno == EINVAL, "no-reason-given", "snprintf without a format leaves errno %d", errno); break;
        case 12: errno = 0; Q(-1, rcutils_snprintf(nullptr, 1 + (size_t)z % 5, "%s", txt)); CHECK(errno == EINVAL, "no-reason-given", "snprintf without a buffer leaves errno %d", errno); break;
        case 13: errno = 0; Q(-1, rcutils_snprintf(buf, 0, "%s", txt)); CHECK(errno == EINVAL, "no-reason-given", "snprintf into no room leaves errno %d", errno); break;
        case 14: {int64_t v[3] = {3, 2, 1}; R(BAD, z % 2 ? rcutils_qsort(v, 3, sizeof v[0], nullptr) : rcutils_qsort(nullptr, 3, sizeof v[0], cmp8));
            CHECK(v[0] == 3 && v[1] == 2 && v[2] == 1, "argument-changed", "%s moved elements", what.c_str());} break;
        default: QN(rcutils_get_executable_name(B)); break;
      }
      break;
    case M_SPLIT:
      switch (umod(k, 3)) {
        case 0: R(BAD, rcutils_split(txt, '/', A, nullptr)); break;
        case 1: QN(rcutils_join_path(z % 2 ? nullptr : "a", z % 2 ? "b" : nullptr, A)); break;
        default: QN(rcutils_join_path("a", "b", B)); break;
      }
      break;
    case M_FILES: {
      uint64_t total = 4711;
      switch (umod(k, 12)) {
        case 0: Q(false, z % 2 ? rcutils_get_cwd(nullptr, 10) : rcutils_get_cwd(buf, 0)); break;
        case 1: QN(rcutils_to_native_path(nullptr, A)); break;
        case 2: QN(rcutils_to_native_path("a/b", B)); break;
        case 3: QN(rcutils_expand_user(nullptr, A)); break;
        case 4: QN(rcutils_expand_user(z % 2 ? "~/x" : "x", B)); break;
        case 5: Q(false, rcutils_mkdir(nullptr)); break;
        case 6: Q(false, rcutils_mkdir("")); break;
        case 7: Q(false, rcutils_mkdir(z % 3 == 0 ? "new" : z % 3 == 1 ? "d/new" : "./new")); break;
        case 8: Q(BAD, z % 2 ? rcutils_calculate_directory_size(nullptr, &total, A) : rcutils_calculate_directory_size_with_recursion(nullptr, 0, &total, A)); break;
        case 9: Q(BAD, z % 2 ? rcutils_calculate_directory_size("/d", nullptr, A) : rcutils_calculate_directory_size_with_recursion("/d", 0, nullptr, A)); break;
        case 10: if (o.f.empty() || o.f[0].kind != F_STAT) {Q(BAD, rcutils_calculate_directory_size("/d", &total, B));} break;
        default: Q(0, z % 2 ? rcutils_get_file_size("/d") : rcutils_get_file_size("/nowhere")); break;
      }
      CHECK(total == 4711, "argument-changed", "%s stored a size", what.c_str());
      break;
    }
    case M_ENV: {
      const char * v = key;
      switch (umod(k, 4)) {
        case 0: R(false, z % 2 ? rcutils_set_env(nullptr, txt) : rcutils_set_env(nullptr, nullptr)); break;
        case 1: Q(true, rcutils_get_env(nullptr, &v) != nullptr); break;
        case 2: Q(true, rcutils_get_env("A", nullptr) != nullptr); break;
        default: R(false, rcutils_set_env(z % 2 ? "" : "A=B", txt)); break;
      }
      CHECK(v == key, "argument-changed", "%s stored a value", what.c_str());
      break;
    }
    case M_TIME:
      switch (umod(k, 5)) {
        case 0: R(BAD, z % 2 ? rcutils_system_time_now(nullptr) : rcutils_steady_time_now(nullptr)); break;
        case 1: R(BAD, z % 2 ? rcutils_time_point_value_as_nanoseconds_string(nullptr, buf, sizeof buf) : rcutils_time_point_value_as_nanoseconds_string(&x, nullptr, 10)); break;
        case 2: R(BAD, z % 2 ? rcutils_time_point_value_as_date_string(nullptr, buf, sizeof buf) : rcutils_time_point_value_as_date_string(&x, nullptr, 10)); break;
        case 3: R(BAD, z % 2 ? rcutils_time_point_value_as_seconds_string(nullptr, buf, sizeof buf) : rcutils_time_point_value_as_seconds_string(&x, nullptr, 10)); break;
        default: {rcutils_time_point_value_t t = 5; rcutils_ret_t r = rcutils_time_point_value_as_nanoseconds_string(&t, buf, 0);
            CHECK(r == RCUTILS_RET_OK && t == 5, "argument-changed", "time_point_value_as_nanoseconds_string without room answers %d", r);} break;
      }
      break;
    case M_LOG: {
      int sev = 4711;
      bool up = g_rcutils_logging_initialized;
      switch (umod(k, 12)) {
        case 0: if (!up) {R(BAD, rcutils_logging_initialize_with_allocator(B));} else {probe("set up again with an allocator that cannot be used"); Q(RCUTILS_RET_OK, rcutils_logging_initialize_with_allocator(B));} break;
        case 1: if (up) {Q(RCUTILS_RET_OK, rcutils_logging_initialize_with_allocator(A));} else {Q(RCUTILS_RET_OK, rcutils_logging_shutdown());} break;
        case 2: R(BAD, rcutils_logging_severity_level_from_string(nullptr, A, &sev)); break;
        case 3: R(BAD, rcutils_logging_severity_level_from_string("WARN", A, nullptr)); break;
        case 4: R(BAD, rcutils_logging_severity_level_from_string("WARN", B, &sev)); break;
        case 5: if (!fired() && o.f.empty()) {Q(RCUTILS_RET_LOGGING_SEVERITY_STRING_INVALID, rcutils_logging_severity_level_from_string(z % 3 ? "WARNX" : "", A, &sev));} break;
        case 6: if (up) {R(BAD, rcutils_logging_set_logger_level(nullptr, 20));} break;
        case 7: if (up) {R(BAD, rcutils_logging_set_logger_level(key, z % 6 == 0 ? -1 : z % 6 == 1 ? 51 : z % 6 == 2 ? 1000000 : z % 6 == 3 ? INT32_MIN : 1 + (int)(z % 9)));} break;
        case 8: if (up) {Q(-1, z % 2 ? rcutils_logging_get_logger_level(nullptr) : rcutils_logging_get_logger_leveln(nullptr, (size_t)z % 7));} break;
        case 9: if (up) {Q(-1, rcutils_logging_get_logger_effective_level(nullptr));} break;
        case 10: if (up && o.f.empty()) {R(BAD, rcutils_logging_set_logger_level("", z % 2 ? -1 : 7));} break;
        default: {
            rcutils_allocator_t a = B;
            Q(false, rcutils_allocator_is_valid(Bp));
            CHECK(memcmp(&a, &B, sizeof a) == 0, "argument-changed", "allocator_is_valid changed the allocator");
          }
          break;
      }
      CHECK(sev == 4711, "argument-changed", "%s stored a severity", what.c_str());
      break;
    }
    default:
      switch (umod(k, 4)) {
        case 0: QN(rcutils_reallocf(nullptr, 8, (rcutils_allocator_t *)Bp)); break;
        case 1: if (w.schars[i] && w.chars[i].owns_buffer && w.chars[i].buffer) {QN(rcutils_reallocf(w.chars[i].buffer, 64, (rcutils_allocator_t *)Bp));} break;
        case 2: {rcutils_shared_library_t c = b0; Q(false, rcutils_is_shared_library_loaded(&c));} break;
        default: {rcutils_allocator_t a = rcutils_get_zero_initialized_allocator(); Q(false, rcutils_allocator_is_valid(&a));} break;
      }
      break;
  }
  CHECK(x == 77 && sz == 7777 && memcmp(buf, buf2, sizeof buf) == 0, "argument-changed", "%s wrote to an argument although it was refused", what.c_str());
  CHECK(l0.impl == nullptr && h0.impl == nullptr && s0.impl == nullptr, "argument-changed", "%s set up an object although it was refused", what.c_str());
  CHECK(a0.data == nullptr && a0.size == 0 && c0.buffer == nullptr && c0.buffer_length == 0 && c0.buffer_capacity == 0 && u0.buffer == nullptr &&
    u0.buffer_length == 0 && u0.buffer_capacity == 0 && b0.lib_pointer == nullptr && b0.library_path == nullptr, "argument-changed",
    "%s changed an object although it was refused", what.c_str());
}

void ordinary(const Op & o)
{
  World & w = *W0;
  int i = (int)umod(o.A(1), N);
  int64_t k = (int64_t)umod(o.A(0), 1000), y = (int64_t)umod(o.A(2), 1000), z = (int64_t)umod(o.A(3), 1000);
  rcutils_allocator_t A = allocator(1 + i);
  const char * key = o.S(0).c_str();
  rcutils_ret_t r = RCUTILS_RET_OK;
  switch (o.code) {
    case LIST: {
      size_t n = 0;
      if (!w.slist[i]) {r = rcutils_array_list_init(&w.list[i], 1 + (size_t)y % 5, 8, allocp(A)); w.slist[i] = true;}
      else if (k % 12 == 0) {r = rcutils_array_list_fini(&w.list[i]); w.slist[i] = false;}
      else {
        r = rcutils_array_list_get_size(&w.list[i], &n);
        if (k % 4 == 0 && n) {r = rcutils_array_list_remove(&w.list[i], (size_t)z % n);} else {r = rcutils_array_list_add(&w.list[i], &z);}
      }
      break;
    }
    case MAP: {
      int64_t kk = z % 13;
      if (!w.smapd[i]) {r = rcutils_hash_map_init(&w.map[i], 1 + (size_t)y % 9, 8, 8, hash8, cmp8, allocp(A)); w.smapd[i] = true;}
      else if (k % 12 == 0) {r = rcutils_hash_map_fini(&w.map[i]); w.smapd[i] = false;}
      else if (k % 4 == 0) {r = rcutils_hash_map_unset(&w.map[i], &kk); if (r == RCUTILS_RET_NOT_FOUND) {r = RCUTILS_RET_OK;}}
      else {r = rcutils_hash_map_set(&w.map[i], &kk, &y);}
      break;
    }
    case SMAP:
      if (!w.ssmap[i]) {r = rcutils_string_map_init(&w.smap[i], (size_t)y % 4, A); w.ssmap[i] = true;}
      else if (k % 12 == 0) {r = rcutils_string_map_fini(&w.smap[i]); w.ssmap[i] = false;}
      else if (k % 12 == 1) {r = rcutils_string_map_clear(&w.smap[i]);}
      else if (k % 4 == 0) {r = rcutils_string_map_unset(&w.smap[i], key); if (r == RCUTILS_RET_STRING_KEY_NOT_FOUND) {r = RCUTILS_RET_OK;}}
      else {r = rcutils_string_map_set(&w.smap[i], key, o.S(1).c_str());}
      break;
    case SARR:
      if (w.ssarr[i]) {
        if (k % 3 == 0 && w.sarr[i].size) {r = rcutils_string_array_resize(&w.sarr[i], (size_t)z % 6); break;}
        r = rcutils_string_array_fini(&w.sarr[i]);
        w.sarr[i] = rcutils_get_zero_initialized_string_array();
        w.ssarr[i] = false;
      } else {
        r = rcutils_split(o.S(1).c_str(), '/', A, &w.sarr[i]);
        w.ssarr[i] = true;
      }
      break;
    case CHARS:
      if (!w.schars[i]) {
        if (k % 4 == 0) {
          char * b = guarded_keep(sizeof kBorrowed);
          memcpy(b, kBorrowed, sizeof kBorrowed);
          w.chars[i] = rcutils_get_zero_initialized_char_array();
          w.chars[i].buffer = b;
          w.chars[i].owns_buffer = false;
          w.chars[i].buffer_length = w.chars[i].buffer_capacity = sizeof kBorrowed;
          w.chars[i].allocator = A;
        } else {r = rcutils_char_array_init(&w.chars[i], (size_t)y % 40, allocp(A));}
        w.schars[i] = true;
      } else if (k % 12 == 0) {r = rcutils_char_array_fini(&w.chars[i]); w.chars[i] = rcutils_get_zero_initialized_char_array(); w.schars[i] = false;}
      else {r = k % 2 ? rcutils_char_array_strcpy(&w.chars[i], o.S(1).c_str()) : rcutils_char_array_resize(&w.chars[i], 1 + (size_t)z % 90);}
      break;
    case BYTES:
      if (!w.sbytes[i]) {r = rcutils_uint8_array_init(&w.bytes[i], 1 + (size_t)y % 20, allocp(A)); w.sbytes[i] = true;}
      else if (k % 6 == 0) {r = rcutils_uint8_array_fini(&w.bytes[i]); w.bytes[i] = rcutils_get_zero_initialized_uint8_array(); w.sbytes[i] = false;}
      else {
        r = rcutils_uint8_array_resize(&w.bytes[i], 1 + (size_t)z % 40);
        w.bytes[i].buffer_length = w.bytes[i].buffer_capacity;
        memset(w.bytes[i].buffer, (int)y, w.bytes[i].buffer_length);
      }
      break;
    case DIR:
      if (!w.dir[i]) {w.dir[i] = rcutils_dir_iter_start(k % 2 ? "/d" : "/d/sub", A); CHECK(w.dir[i], "ordinary-call-fails", "dir_iter_start gives nothing");}
      else if (k % 3 == 0 || !rcutils_dir_iter_next(w.dir[i])) {rcutils_dir_iter_end(w.dir[i]); w.dir[i] = nullptr;}
      break;
    case LIB:
      if (!w.slib[i]) {r = rcutils_load_shared_library(&w.lib[i], k % 2 ? "liba.so" : "libb.so", A); w.slib[i] = true;}
      else {r = rcutils_unload_shared_library(&w.lib[i]); w.slib[i] = false;}
      break;
    default:
      if (!g_rcutils_logging_initialized) {r = rcutils_logging_initialize_with_allocator(A); w.loggers.clear();}
      else if (k % 12 == 0) {r = rcutils_logging_shutdown(); w.loggers.clear();}
      else if (k % 12 == 1) {rcutils_logging_set_default_logger_level(10 * (int)(1 + y % 5));}
      else {
        std::string n = key;
        r = rcutils_logging_set_logger_level(n.c_str(), 10 * (int)(y % 6));
        if (std::find(w.loggers.begin(), w.loggers.end(), n) == w.loggers.end()) {w.loggers.push_back(n);}
      }
      break;
  }
  CHECK(r == RCUTILS_RET_OK, "ordinary-call-fails", "an ordinary call fails with %d although nothing fails around it", r);
}
void body(const Plan & p)
{
  World w;
  W0 = &w;
  for (int i = 0; i < N; ++i) {
    w.list[i] = rcutils_get_zero_initialized_array_list();
    w.map[i] = rcutils_get_zero_initialized_hash_map();
    w.smap[i] = rcutils_get_zero_initialized_string_map();
    w.sarr[i] = rcutils_get_zero_initialized_string_array();
    w.chars[i] = rcutils_get_zero_initialized_char_array();
    w.bytes[i] = rcutils_get_zero_initialized_uint8_array();
    w.dir[i] = nullptr;
    w.lib[i] = rcutils_get_zero_initialized_shared_library();
    w.slist[i] = w.smapd[i] = w.ssmap[i] = w.ssarr[i] = w.schars[i] = w.sbytes[i] = w.slib[i] = false;
  }
  for (auto & o : p.ops) {
    begin_op(o, names[o.code]);
    if (o.code == MISUSE) {
      std::vector<std::string> before = look();
      size_t blocks[8];
      for (int i = 0; i < 8; ++i) {blocks[i] = live_blocks(i);}
      rcutils_reset_error();
      what = "";
      misuse(o);
      for (int i = 0; i < 8; ++i) {
        CHECK(live_blocks(i) == blocks[i], "not-without-effect", "%s is refused but changes the number of blocks of allocator %d from %zu to %zu",
          what.c_str(), i, blocks[i], live_blocks(i));
      }
      rcutils_reset_error();
      std::vector<std::string> after = look();
      CHECK(before.size() == after.size(), "not-without-effect", "%s", what.c_str());
      for (size_t i = 0; i < before.size(); ++i) {
        CHECK(before[i] == after[i], "not-without-effect", "%s is refused but changes '%.700s' to '%.700s'", what.c_str(), before[i].c_str(), after[i].c_str());
      }
      end_op("%s", what.c_str());
    } else {
      ordinary(o);
      rcutils_reset_error();
      end_op();
    }
  }
  Oracle q;
  for (int i = 0; i < N; ++i) {
    if (w.slist[i]) {CHECK(RCUTILS_RET_OK == rcutils_array_list_fini(&w.list[i]), "object-unusable", "array list cannot be finalised");}
    if (w.smapd[i]) {CHECK(RCUTILS_RET_OK == rcutils_hash_map_fini(&w.map[i]), "object-unusable", "hash map cannot be finalised");}
    if (w.ssmap[i]) {CHECK(RCUTILS_RET_OK == rcutils_string_map_fini(&w.smap[i]), "object-unusable", "string map cannot be finalised");}
    if (w.ssarr[i]) {CHECK(RCUTILS_RET_OK == rcutils_string_array_fini(&w.sarr[i]), "object-unusable", "string array cannot be finalised");}
    if (w.schars[i]) {CHECK(RCUTILS_RET_OK == rcutils_char_array_fini(&w.chars[i]), "object-unusable", "char array cannot be finalised");}
    if (w.sbytes[i]) {CHECK(RCUTILS_RET_OK == rcutils_uint8_array_fini(&w.bytes[i]), "object-unusable", "byte array cannot be finalised");}
    if (w.slib[i]) {CHECK(RCUTILS_RET_OK == rcutils_unload_shared_library(&w.lib[i]), "object-unusable", "library cannot be unloaded");}
    rcutils_dir_iter_end(w.dir[i]);
  }
  CHECK(g_disk.open_dirs == 0 && g_dl.total_refs() == 0, "leak", "%d directories and %d libraries are still open at the end", g_disk.open_dirs, g_dl.total_refs());
  finish_run("after the history");
}
void exec(const Plan & p)
{
  g_zero_null = p.C("zero_null");
  g_realloc0_block = p.C("realloc0");
  g_disk.reset();
  g_disk.order_seed = (uint64_t)p.C("order");
  g_disk.mk("/d", Node::DIR_, 0755, 0);
  g_disk.mk("/d/one", Node::FILE_, 0644, 10);
  g_disk.mk("/d/two", Node::FILE_, 0644, 20);
  g_disk.mk("/d/sub", Node::DIR_, 0755, 0);
  g_disk.mk("/d/sub/three", Node::FILE_, 0644, 30);
  g_env["A"] = "a";
  g_env["HOME"] = "/home/user";
  g_dl.reset();
  g_dl.libs.push_back(Lib{"liba.so", "/lib/liba.so", {{"fn", (void *)&cmp8}}});
  g_dl.libs.push_back(Lib{"libb.so", "/lib/libb.so", {{"fn", (void *)&hash8}}});
  run_single(p, [&] {body(p);});
}
const Workload W{"C30", names, NOPS, gen, exec};
Reg reg(&W);
}
