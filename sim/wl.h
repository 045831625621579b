// Shared helpers of the workloads.
#pragma once
#include "core.h"
#include <errno.h>
#include <stdio.h>
#include <stdlib.h>
extern "C" {
#include "rcutils/error_handling.h"
#include "rcutils/logging.h"
#include "rcutils/types/rcutils_ret.h"
#include "rcutils/testing/fault_injection.h"
}
namespace sim {
// an allocator to pass by pointer: the caller's struct is gone when the next operation starts
inline rcutils_allocator_t * allocp(const rcutils_allocator_t & a)
{
  auto * p = new (guarded(sizeof a)) rcutils_allocator_t(a);
  seal(p, sizeof *p);
  return p;
}
inline rcutils_allocator_t * allocp(int id) {return allocp(allocator(id));}
// fault-free, unrecorded oracle access to the API
struct Oracle { Quiet q; NoFaults n; };
// a call that is to leave the thread's error state as it is, whether one is set or not
struct ErrorKept
{
  bool set;
  std::string was;
  explicit ErrorKept(bool set_one)
  {
    Oracle o;
    rcutils_reset_error();
    if (set_one) {rcutils_set_error_state("an earlier error", "earlier.c", 7);}
    set = rcutils_error_is_set();
    was = rcutils_get_error_string().str;
  }
  void check(const char * what)
  {
    Oracle o;
    std::string now = rcutils_get_error_string().str;
    CHECK(rcutils_error_is_set() == set && now == was, "error-state", "%s changed the error from '%.80s' to '%.200s'", what, was.c_str(),
      now.c_str());
    rcutils_reset_error();
  }
};
// ends a run on a simulated thread: takes logging down, resets the error, checks the ledgers
inline void finish_run(const char * where)
{
  Oracle o;
  rcutils_ret_t r = rcutils_logging_shutdown();
  (void)r;
  rcutils_reset_error();
  check_no_leaks(where);
}
inline std::string gen_text(Rng & r, size_t maxlen, const char * alphabet)
{
  size_t n = r.below(maxlen + 1), m = strlen(alphabet);
  std::string s;
  for (size_t i = 0; i < n; ++i) {s += alphabet[r.below(m)];}
  return s;
}
// a length near a power of two or a multiple of a hundred, or any
inline size_t edge_len(Rng & r, size_t max)
{
  size_t n;
  switch (r.below(4)) {
    case 0: n = (size_t)r.below(max + 1); break;
    case 1: n = 100 * (size_t)r.range(1, 12) + (size_t)r.below(3) - 1; break;
    default: n = ((size_t)1 << r.range(3, 12)) + (size_t)r.below(5) - 2; break;
  }
  return n > max ? n % (max + 1) : n;
}
// a size just past what 16 bits hold
inline size_t wide_len(Rng & r)
{
  return r.chance(1, 3) ? 65533 + (size_t)r.below(8) : 65536 + (size_t)r.below(2000);
}
// a size in elements that no memory here holds, some of which look small to a computation with fewer bits
inline int64_t huge_len(Rng & r, size_t elem)
{
  switch (r.below(4)) {
    case 0: return (int64_t)(((uint64_t)1 << r.range(32, 60)) + r.below(40));
    case 1: return (int64_t)((((uint64_t)1 << 32) + elem - 1) / elem + ((uint64_t)1 << 30) + r.below(40));
    case 2: return (int64_t)(((uint64_t)r.range(1, 7) << 32) + r.below(3000));
    default: return (int64_t)(SIZE_MAX / elem - 2 + r.below(12));
  }
}
// a long text with few separators
inline std::string gen_long(Rng & r, size_t max, const char * seps)
{
  std::string s;
  size_t n = edge_len(r, max), m = strlen(seps), every = r.chance(1, 2) ? 0 : 8 + r.below(80);
  while (s.size() < n) {s += every && m && s.size() % every == every - 1 ? seps[r.below(m)] : (char)('a' + (s.size() + n) % 26);}
  return s;
}
inline Op mkop(int tid, int code, std::vector<int64_t> a = {}, std::vector<std::string> s = {})
{
  Op o;
  o.tid = tid;
  o.code = code;
  o.a = std::move(a);
  o.s = std::move(s);
  return o;
}
// NUL-terminated copy in a guarded block of exactly that size
inline const char * guarded_str(const std::string & s)
{
  char * b = guarded(s.size() + 1);
  memcpy(b, s.c_str(), s.size() + 1);
  seal(b, s.size() + 1);
  return b;
}
inline size_t umod(int64_t v, size_t n) {return n ? (size_t)((uint64_t)v % n) : 0;}
}
