/* User code with the error handling and fault injection macros of the library. Built like the library: its C library
   calls go to the simulator. */
#include <stdio.h>
#include "rcutils/error_handling.h"
#include "rcutils/macros.h"
#include "rcutils/snprintf.h"
#include "rcutils/testing/fault_injection.h"
#include "user_error.h"

static const char * u_file(void) {return __FILE__;}
static int u_set(const char * m) {RCUTILS_SET_ERROR_MSG(m); return __LINE__;}
static int u_set_fmt(const char * m, int v) {RCUTILS_SET_ERROR_MSG_WITH_FORMAT_STRING("%s [%d]", m, v); return __LINE__;}
/* the same with variables of the caller that have the names a macro could be using itself */
static int u_set_fmt_named(const char * output_msg, int ret) {RCUTILS_SET_ERROR_MSG_WITH_FORMAT_STRING("%s [%d]", output_msg, ret); return __LINE__;}
static int u_append_percent(void) {RCUTILS_SET_ERROR_MSG_AND_APPEND_PREV_ERROR("100%% of %s, 5% done"); return __LINE__;}
static int u_append_named(const char * error_string, int ret)
{
  RCUTILS_SET_ERROR_MSG_WITH_FORMAT_STRING_AND_APPEND_PREV_ERROR("%s %d", error_string, ret); return __LINE__;
}
static void u_stderr_append_named(const char * error_string, int ret)
{
  RCUTILS_SAFE_FWRITE_TO_STDERR_WITH_FORMAT_STRING_AND_APPEND_PREV_ERROR("%s %d", error_string, ret);
}
static int u_append(void) {RCUTILS_SET_ERROR_MSG_AND_APPEND_PREV_ERROR("outer"); return __LINE__;}
static int u_append_fmt(int v) {RCUTILS_SET_ERROR_MSG_WITH_FORMAT_STRING_AND_APPEND_PREV_ERROR("outer %d", v); return __LINE__;}
static void u_stderr_append(int v) {RCUTILS_SAFE_FWRITE_TO_STDERR_WITH_FORMAT_STRING_AND_APPEND_PREV_ERROR("to stderr %d", v);}
static void u_stderr_append_plain(void) {RCUTILS_SAFE_FWRITE_TO_STDERR_AND_APPEND_PREV_ERROR("to stderr");}
static int check_arg(const char * some_argument) {RCUTILS_CHECK_ARGUMENT_FOR_NULL(some_argument, -__LINE__); return 0;}
static int u_check_arg(const char * a) {return check_arg(a);}
static int check_choice(const char * first, const char * second, const char * what) {RCUTILS_CHECK_FOR_NULL_WITH_MSG(first ? first : second, what, return -__LINE__); return 0;}
static int u_check_choice(const char * a, const char * b) {return check_choice(a, b, "neither choice");}

static int point_return(void) {RCUTILS_CAN_RETURN_WITH_ERROR_OF(1); return 0;}
static int point_fail(void) {int r = 0; RCUTILS_CAN_FAIL_WITH({r = 1;}); return r;}
static int point_msg(void) {RCUTILS_CAN_SET_MSG_AND_RETURN_WITH_ERROR_OF(1); return 0;}
/* 1: this fault point failed */
static int u_point(int kind)
{
  char b[8];
  switch (kind) {
    case 0: return point_return();
    case 1: return point_fail();
    case 2: {int r = point_msg(); if (r) {rcutils_reset_error();} return r;}
    case 3: return rcutils_snprintf(b, sizeof b, "%d", 5) < 0;
    default: return _rcutils_fault_injection_maybe_fail() == RCUTILS_FAULT_INJECTION_FAIL_NOW;
  }
}
/* the library's own loop over fault points: result[i] = which of k points failed in iteration i (k: none) */
static int u_test_loop(int k, int * result, int max)
{
  int it = 0;
  RCUTILS_FAULT_INJECTION_TEST({
    int failed = k;
    for (int i = 0; i < k; ++i) {
      if (u_point(i % 5)) {failed = failed == k ? i : -2;}
    }
    if (it < max) {result[it] = failed;}
    ++it;
    if (it > max) {break;}
  });
  return it;
}
static int u_no_injection(int k)
{
  int failed = 0;
  RCUTILS_NO_FAULT_INJECTION({
    for (int i = 0; i < k; ++i) {failed += u_point(i % 5);}
  });
  return failed;
}
const u_error_t u_error = {u_file, u_set, u_set_fmt, u_set_fmt_named, u_append_percent, u_check_choice, u_append_named, u_stderr_append_named, u_append, u_append_fmt, u_stderr_append, u_stderr_append_plain, u_check_arg, u_point, u_test_loop, u_no_injection};
