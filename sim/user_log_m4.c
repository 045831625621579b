/* user_log.c as a program built with the minimum severity FATAL. */
#define RCUTILS_LOG_MIN_SEVERITY RCUTILS_LOG_MIN_SEVERITY_FATAL
#define u_log_file u_log_file_m4
#define u_sites u_sites_m4
#define u_num_sites u_num_sites_m4
#define u_first_throttled u_first_throttled_m4
#include "user_log.c"
