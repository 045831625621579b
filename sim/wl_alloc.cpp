// C08: memory goes back exactly once to the allocator it came from.
#include "wl.h"
extern "C" {
#include "rcutils/allocator.h"
#include "rcutils/filesystem.h"
#include "rcutils/format_string.h"
#include "rcutils/process.h"
#include "rcutils/repl_str.h"
#include "rcutils/shared_library.h"
#include "rcutils/split.h"
#include "rcutils/strdup.h"
#include "rcutils/types/array_list.h"
#include "rcutils/types/char_array.h"
#include "rcutils/types/hash_map.h"
#include "rcutils/types/string_array.h"
#include "rcutils/types/string_map.h"
#include "rcutils/types/uint8_array.h"
}
using namespace sim;
namespace {
enum { CREATE, USE, DESTROY, COPYMAP, ONESHOT, REALLOCF, RAW, DEFAULT, VALID, LOG, RELOG, NOPS };
const char * const names[] = {"create", "use", "destroy", "copy-map", "one-shot", "reallocf", "raw", "default", "is_valid", "log",
  "relog"};
enum { K_NONE, K_HASH, K_SMAP, K_LIST, K_SARR, K_CHAR, K_U8, K_DIR, K_LIB, K_NUM };
const int SLOTS = 4, LOGID = 7;

void gen(Rng & r, Plan & p, bool th)
{
  p.cfg["zero_null"] = r.chance(1, 6);
  p.cfg["realloc0"] = r.chance(1, 4);
  unsigned frate = (unsigned)r.pick(std::vector<int>{0, 1, 2, 4});
  int n = (int)r.range(2, th ? 80 : 32);
  for (int i = 0; i < n; ++i) {
    static const int pick[] = {CREATE, CREATE, CREATE, USE, USE, USE, USE, USE, DESTROY, DESTROY, COPYMAP, ONESHOT, ONESHOT, ONESHOT,
      REALLOCF, REALLOCF, RAW, DEFAULT, DEFAULT, VALID, LOG, RELOG};
    int c = pick[r.below(sizeof pick / sizeof *pick)];
    Op o = mkop(0, c, {(int64_t)r.below(SLOTS), (int64_t)r.below(64), (int64_t)r.below(4), (int64_t)r.below(1000)},
      {r.chance(1, 10) ? gen_long(r, 600, "/.") : gen_text(r, 10, "ab/./x~")});
    if (c == CREATE) {o.a[1] = (int64_t)r.range(1, K_NUM - 1);}
    if (c == REALLOCF && r.chance(1, 4)) {o.a[3] = r.pick(std::vector<int64_t>{0, 0, 1, (int64_t)1 << 40, -1});}
    if (c != VALID && c != LOG && c != RAW) {
      gen_faults(r, o, {F_ALLOC}, frate, 10);
      if (c == DEFAULT && r.chance(1, 6)) {Fault f; f.kind = F_FI; f.nth = 1; o.f.push_back(f);}
    }
    p.ops.push_back(o);
  }
}
struct Slot {
  int kind = K_NONE, id = 0;
  rcutils_hash_map_t h;
  rcutils_string_map_t sm;
  rcutils_array_list_t al;
  rcutils_string_array_t sa;
  rcutils_char_array_t ca;
  rcutils_uint8_array_t ua;
  rcutils_dir_iter_t * di = nullptr;
  rcutils_shared_library_t lib;
};
int kind_of(const Op & o) {return 1 + (int)umod(o.A(1) - 1, K_NUM - 1);}
void nolog(const rcutils_log_location_t *, int, const char *, rcutils_time_point_value_t, const char * f, va_list * a)
{
  char b[256];
  va_list c;
  va_copy(c, *a);
  vsnprintf(b, sizeof b, f, c);
  va_end(c);
}
void exec(const Plan & p)
{
  run_single(p, [&]() {
    g_zero_null = p.C("zero_null");
    g_realloc0_block = p.C("realloc0");
    g_disk.mk("/d", Node::DIR_, 0755, 0);
    g_disk.mk("/d/a", Node::FILE_, 0644, 10);
    g_disk.mk("/d/s", Node::DIR_, 0755, 0);
    g_disk.mk("/d/s/b", Node::FILE_, 0644, 7);
    g_env["HOME"] = "/home/u";
    g_dl.libs.push_back({"libx.so", "/lib/libx.so", {{"f", (void *)0x1234}}, 0, false});
    int logid = LOGID;
    {
      NoFaults nf;
      CHECK(rcutils_logging_initialize_with_allocator(allocator(LOGID)) == RCUTILS_RET_OK, "logging", "cannot start logging");
      rcutils_logging_set_output_handler(nolog);
    }
    Slot slot[SLOTS];
    auto give = [&](int id) {return id ? allocator(id) : rcutils_get_default_allocator();};
    auto destroy = [&](Slot & s) {
        rcutils_ret_t ret = 0;
        switch (s.kind) {
          case K_HASH: ret = rcutils_hash_map_fini(&s.h); break;
          case K_SMAP: ret = rcutils_string_map_fini(&s.sm); break;
          case K_LIST: ret = rcutils_array_list_fini(&s.al); break;
          case K_SARR: ret = rcutils_string_array_fini(&s.sa); break;
          case K_CHAR: ret = rcutils_char_array_fini(&s.ca); break;
          case K_U8: ret = rcutils_uint8_array_fini(&s.ua); break;
          case K_DIR: rcutils_dir_iter_end(s.di); break;
          case K_LIB: ret = rcutils_unload_shared_library(&s.lib); break;
          default: break;
        }
        CHECK(ret == RCUTILS_RET_OK, "destroy", "releasing an object of kind %d failed with %d", s.kind, ret);
        s.kind = K_NONE;
      };
    for (auto & o : p.ops) {
      begin_op(o, names[o.code]);
      rcutils_reset_error();
      Slot & s = slot[umod(o.A(0), SLOTS)];
      int64_t x = o.A(3);
      int id = (int)umod(o.A(2), 4);          // 0 = default heap
      int target = id;                        // the only allocator the call may use
      uint64_t calls[8], live[8], mark = alloc_mark();
      int ret = 0;
      if (o.code == USE || o.code == DESTROY) {target = s.id;}
      if (o.code == CREATE && s.kind != K_NONE) {NoFaults nf; destroy(s);}
      Slot * d = nullptr;
      if (o.code == COPYMAP) {
        for (auto & y : slot) {if (&y != &s && y.kind == K_SMAP) {d = &y;}}
        if (d) {target = d->id;}
      }
      if (o.code == DEFAULT || o.code == RELOG) {target = o.code == DEFAULT ? 0 : -1;}
      if (o.code == LOG) {target = LOGID;}
      for (int i = 0; i < 8; ++i) {calls[i] = alloc_calls(i); live[i] = live_blocks(i);}
      switch (o.code) {
        case CREATE: {
            rcutils_allocator_t a = give(id);
            s.id = id;
            size_t sz = umod(x, 6);
            switch (kind_of(o)) {
              case K_HASH: s.h = rcutils_get_zero_initialized_hash_map();
                ret = rcutils_hash_map_init(&s.h, sz + 1, 4, 8, [](const void * k) {return (size_t)*(const int *)k;},
                    [](const void * l, const void * q) {return memcmp(l, q, 4);}, allocp(a)); break;
              case K_SMAP: s.sm = rcutils_get_zero_initialized_string_map(); ret = rcutils_string_map_init(&s.sm, sz, a); break;
              case K_LIST: s.al = rcutils_get_zero_initialized_array_list(); ret = rcutils_array_list_init(&s.al, sz + 1, 8, allocp(a)); break;
              case K_SARR: s.sa = rcutils_get_zero_initialized_string_array(); ret = rcutils_string_array_init(&s.sa, sz, allocp(a)); break;
              case K_CHAR: s.ca = rcutils_get_zero_initialized_char_array(); ret = rcutils_char_array_init(&s.ca, sz, allocp(a)); break;
              case K_U8: s.ua = rcutils_get_zero_initialized_uint8_array(); ret = rcutils_uint8_array_init(&s.ua, sz, allocp(a)); break;
              case K_DIR: s.di = rcutils_dir_iter_start("/d", a); ret = !s.di; break;
              case K_LIB: s.lib = rcutils_get_zero_initialized_shared_library();
                ret = rcutils_load_shared_library(&s.lib, "libx.so", a); break;
              default: ret = 1; break;
            }
            memset(&a, 0xdd, sizeof a);        // the caller's allocator variable is gone after the call
            if (ret == 0) {s.kind = kind_of(o);} else {
              CHECK(fired(), "spurious-failure", "create %lld failed though nothing failed", (long long)o.A(1));
              CHECK(live_blocks(id) == live[id], "leak", "failed create of kind %lld kept %zu blocks", (long long)o.A(1),
                live_blocks(id) - (size_t)live[id]);
              probe("create-failed");
            }
            break;
          }
        case USE: {
            int k = (int)x;
            double v = (double)x;
            switch (s.kind) {
              case K_HASH: ret = k % 3 ? rcutils_hash_map_set(&s.h, &k, &v) : rcutils_hash_map_unset(&s.h, &k); break;
              case K_SMAP: {
                  std::string key = "k" + std::to_string(k % 12);
                  switch (k % 5) {
                    case 0: ret = rcutils_string_map_unset(&s.sm, key.c_str()); ret = 0; break;
                    case 1: ret = rcutils_string_map_reserve(&s.sm, (size_t)k % 17); break;
                    case 2: if (k % 4 == 0) {ret = rcutils_string_map_clear(&s.sm); break;}  // fall through
                    default: ret = rcutils_string_map_set(&s.sm, guarded_str(key), guarded_str(o.S(0))); break;
                  }
                  break;
                }
              case K_LIST: ret = rcutils_array_list_add(&s.al, &v); break;
              case K_SARR:
                ret = rcutils_string_array_resize(&s.sa, (size_t)k % 7);
                if (ret == 0) {
                  for (size_t i = 0; i < s.sa.size; ++i) {
                    if (!s.sa.data[i]) {NoFaults nf; s.sa.data[i] = rcutils_strdup("entry", s.sa.allocator);}
                  }
                }
                break;
              case K_CHAR:
                switch (k % 3) {
                  case 0: ret = rcutils_char_array_strcat(&s.ca, o.S(0).c_str()); break;
                  case 1: ret = rcutils_char_array_strcpy(&s.ca, o.S(0).c_str()); break;
                  default: ret = rcutils_char_array_resize(&s.ca, (size_t)k % 40 + 1); break;
                }
                break;
              case K_U8: ret = rcutils_uint8_array_resize(&s.ua, (size_t)k % 40 + 1); break;
              case K_DIR: rcutils_dir_iter_next(s.di); break;
              case K_LIB: ret = rcutils_get_symbol(&s.lib, "f") == nullptr; break;
              default: break;
            }
            CHECK(ret == 0 || fired(), "spurious-failure", "use of kind %d failed with %d", s.kind, ret);
            break;
          }
        case DESTROY: destroy(s); break;
        case COPYMAP:
          if (d && s.kind == K_SMAP) {
            ret = rcutils_string_map_copy(&s.sm, &d->sm);
            CHECK(ret == 0 || fired(), "spurious-failure", "copy failed with %d", ret);
          }
          break;
        case ONESHOT: {
            rcutils_allocator_t a = give(id);
            const char * t = o.S(0).c_str();
            char * r = nullptr;
            rcutils_string_array_t sa = rcutils_get_zero_initialized_string_array();
            uint64_t size = 0;
            switch (umod(o.A(1), 13)) {
              case 0: r = rcutils_strdup(t, a); break;
              case 1: r = rcutils_strndup(t, (size_t)x % 12, a); break;
              case 2: r = rcutils_format_string(a, "%s-%d", t, (int)x); break;
              case 3: r = rcutils_repl_str(t, "a", "bcd", allocp(a)); break;
              case 4: r = rcutils_join_path(t, "b", a); break;
              case 5: r = rcutils_to_native_path(t, a); break;
              case 6: r = rcutils_expand_user(t, a); break;
              case 7: r = rcutils_get_executable_name(a); break;
              case 8: ret = rcutils_split(t, '/', a, &sa); break;
              case 9: ret = rcutils_split_last(t, '/', a, &sa); break;
              case 10: ret = rcutils_calculate_directory_size("/d", &size, a); break;
              case 11: ret = rcutils_calculate_directory_size_with_recursion("/d", 0, &size, a); break;
              default: {int sev = 0; ret = rcutils_logging_severity_level_from_string(x & 1 ? "warn" : t, a, &sev); ret = 0; break;}
            }
            if (r) {a.deallocate(r, a.state);}
            if (ret == 0) {ret = rcutils_string_array_fini(&sa); CHECK(ret == 0, "destroy", "cannot release a split result");}
            else {CHECK(fired(), "spurious-failure", "one-shot %lld failed with %d", (long long)o.A(1), ret);}
            CHECK(live_blocks(id) == live[id], "leak", "one-shot %zu changed the outstanding blocks from %zu to %zu", umod(o.A(1), 13),
              (size_t)live[id], live_blocks(id));
            break;
          }
        case REALLOCF: {
            rcutils_allocator_t a = give(id);
            size_t old = umod(o.A(1), 32) , n = (size_t)x;
            char * b = nullptr;
            {NoFaults nf; if (old) {b = (char *)a.allocate(old, a.state);}}
            for (size_t i = 0; b && i < old; ++i) {b[i] = (char)(i * 7 + 1);}
            char * q = (char *)rcutils_reallocf(b, n, allocp(a));
            bool huge = n > (1u << 30);
            if (q) {
              CHECK(!huge, "impossible-request", "reallocf(%zu) gave memory", n);
              size_t sz = 0;
              CHECK(is_live(q, nullptr, &sz) && sz >= n, "reallocf", "reallocf gave a block of %zu bytes for %zu", sz, n);
              for (size_t i = 0; i < old && i < n; ++i) {CHECK(q[i] == (char)(i * 7 + 1), "reallocf", "byte %zu lost", i);}
              CHECK(live_blocks(id) == live[id] + 1, "leak", "reallocf left %zu blocks", live_blocks(id) - (size_t)live[id]);
              a.deallocate(q, a.state);
            } else {
              CHECK(fired() || huge || n == 0, "spurious-failure", "reallocf(%zu) failed though nothing failed", n);
              CHECK(live_blocks(id) == live[id], "reallocf", "failed reallocf kept the old block");
              probe(n == 0 ? "reallocf-zero" : "reallocf-failed");
            }
            break;
          }
        case RAW: {       // invalid allocator: nothing may be touched
            rcutils_allocator_t a = give(id);
            char * b = (char *)a.allocate(8, a.state);
            rcutils_allocator_t bad = a;
            switch (umod(o.A(1), 4)) {
              case 0: bad.allocate = nullptr; break;
              case 1: bad.deallocate = nullptr; break;
              case 2: bad.reallocate = nullptr; break;
              default: bad.zero_allocate = nullptr; break;
            }
            CHECK(rcutils_reallocf(b, 16, x & 1 ? &bad : nullptr) == nullptr, "invalid-argument", "reallocf with an invalid allocator");
            CHECK(is_live(b), "reallocf", "reallocf with an invalid allocator released the block");
            a.deallocate(b, a.state);
            break;
          }
        case DEFAULT: {
            rcutils_allocator_t a = rcutils_get_default_allocator();
            size_t n = (size_t)x;
            char * b = nullptr;
            bool bad = false;
            switch (umod(o.A(1), 6)) {
              case 0: b = (char *)a.allocate(n, a.state); break;
              case 1: case 2:
                b = (char *)a.zero_allocate(n / 8, 8, a.state);
                for (size_t i = 0; b && i < n / 8 * 8; ++i) {CHECK(b[i] == 0, "not-zeroed", "byte %zu of a zeroed block is %d", i, b[i]);}
                if (b && is_live(b)) {size_t sz = 0; is_live(b, nullptr, &sz); CHECK(sz >= n / 8 * 8, "size", "zeroed block too small");}
                n = n / 8 * 8;
                break;
              case 3: b = (char *)a.zero_allocate(SIZE_MAX / 4 + (size_t)x, 8, a.state); bad = true; break;
              case 4: b = (char *)a.allocate((size_t)1 << 50, a.state); bad = true; break;
              default: {
                  char * c;
                  c = (char *)ledger_alloc(HEAP, 9, false);   // as malloc, without a library fault point
                  if (!c) {break;}
                  memcpy(c, "12345678", 9);
                  b = (char *)a.reallocate(c, n, a.state);
                  if (b) {CHECK(memcmp(b, "12345678", std::min<size_t>(n, 9)) == 0, "realloc", "reallocation lost bytes");}
                  else if (n || is_live(c)) {
                    CHECK(is_live(c) && strcmp(c, "12345678") == 0, "realloc", "failed reallocation lost the block");
                    a.deallocate(c, a.state);
                  }
                  break;
                }
            }
            fi_off();
            CHECK(!bad || !b, "impossible-request", "an impossible request of the default allocator succeeded");
            CHECK(b || bad || fired() || n == 0, "spurious-failure", "default allocator failed though nothing failed");
            CHECK(!b || !fired(), "swallowed-failure", "default allocator gave memory although the heap failed");
            if (b) {CHECK(is_live(b), "not-heap", "default allocator gave memory that is not a heap block"); a.deallocate(b, a.state);}
            a.deallocate(nullptr, a.state);
            CHECK(live_blocks(0) == live[0], "leak", "default allocator kept a block");
            break;
          }
        case VALID: {
            rcutils_allocator_t a = give(id);
            CHECK(rcutils_allocator_is_valid(&a), "is_valid", "valid allocator rejected");
            CHECK(!rcutils_allocator_is_valid(nullptr), "is_valid", "NULL accepted");
            unsigned miss = (unsigned)x & 15;
            if (miss & 1) {a.allocate = nullptr;}
            if (miss & 2) {a.deallocate = nullptr;}
            if (miss & 4) {a.reallocate = nullptr;}
            if (miss & 8) {a.zero_allocate = nullptr;}
            if (x & 16) {a.state = nullptr;}
            CHECK(rcutils_allocator_is_valid(&a) == (miss == 0), "is_valid", "allocator with missing functions (%u) judged wrong", miss);
            break;
          }
        case LOG: {
            std::string nm = std::string(x & 1 ? "a" : "a.b") + (x & 2 ? ".c" : "");
            if (x & 4) {ret = rcutils_logging_set_logger_level(nm.c_str(), 10 * (int)umod(o.A(1), 6));}
            rcutils_log(nullptr, RCUTILS_LOG_SEVERITY_ERROR, nm.c_str(), "text %d", (int)x);
            break;
          }
        case RELOG: {     // the logging system moves to another allocator
            NoFaults nf;
            CHECK(rcutils_logging_shutdown() == RCUTILS_RET_OK, "logging", "shutdown failed");
            CHECK(live_blocks(logid) == 0, "leak", "logging shutdown kept %zu blocks", live_blocks(logid));
            CHECK(rcutils_logging_initialize_with_allocator(allocator(LOGID)) == RCUTILS_RET_OK, "logging", "cannot restart logging");
            rcutils_logging_set_output_handler(nolog);
            break;
          }
        default: break;
      }
      end_op("%d", ret);
      for (int i = 0; i < 8; ++i) {
        if (i == target || i == LOGID) {continue;}
        CHECK(alloc_calls(i) == calls[i] && blocks_since(i, mark) == 0, i ? "wrong-allocator-used" : "default-heap",
          "%s (object of kind %d, allocator %d) took memory from allocator %d", names[o.code], s.kind, target, i);
        CHECK(live_blocks(i) == live[i], "wrong-allocator-used", "%s changed the blocks of allocator %d", names[o.code], i);
      }
    }
    {
      NoFaults nf;
      for (auto & s : slot) {destroy(s);}
    }
    finish_run("allocators");
  });
}
const Workload W{"C08", names, NOPS, gen, exec};
Reg reg(&W);
}  // namespace
