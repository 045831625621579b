/* user_log.c as a program built with the minimum severity WARN. */
#define RCUTILS_LOG_MIN_SEVERITY RCUTILS_LOG_MIN_SEVERITY_WARN
#define u_log_file u_log_file_m2
#define u_sites u_sites_m2
#define u_num_sites u_num_sites_m2
#define u_first_throttled u_first_throttled_m2
#include "user_log.c"
