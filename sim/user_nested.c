// What a user's program may do in the callbacks it hands to rcutils: macro call sites whose filter, time source and
// arguments call back into the workload.
#include "rcutils/logging_macros.h"
#include "rcutils/time.h"
int un_callback(int where, int v);
static int g_v;
static bool un_filter(void) {return un_callback(0, g_v) != 0;}
static rcutils_ret_t un_time(rcutils_time_point_value_t * t) {un_callback(1, g_v); return rcutils_steady_time_now(t);}
void un_function(int v) {g_v = v; RCUTILS_LOG_WARN_FUNCTION(&un_filter, "function %d", v);}
void un_function_named(int v, const char * name) {g_v = v; RCUTILS_LOG_ERROR_FUNCTION_NAMED(&un_filter, name, "function %d %s", v, name);}
void un_throttle(int v) {g_v = v; RCUTILS_LOG_WARN_THROTTLE(un_time, 5, "throttle %d", v);}
void un_once(int v) {RCUTILS_LOG_WARN_ONCE("once %d", un_callback(2, v));}
void un_skipfirst(int v) {RCUTILS_LOG_WARN_SKIPFIRST("skipfirst %d", un_callback(2, v));}
void un_expression(int v) {RCUTILS_LOG_WARN_EXPRESSION(un_callback(0, v), "expression %d", v);}
void un_plain(int v) {RCUTILS_LOG_WARN("plain %d and %d", un_callback(2, v), un_callback(2, v + 1));}
void un_autoinit(const rcutils_allocator_t * a) {if (a) {RCUTILS_LOGGING_AUTOINIT_WITH_ALLOCATOR(*a);} else {RCUTILS_LOGGING_AUTOINIT;}}
