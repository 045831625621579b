/* user_log.c as a program built with the minimum severity INFO. */
#define RCUTILS_LOG_MIN_SEVERITY RCUTILS_LOG_MIN_SEVERITY_INFO
#define u_log_file u_log_file_m1
#define u_sites u_sites_m1
#define u_num_sites u_num_sites_m1
#define u_first_throttled u_first_throttled_m1
#include "user_log.c"
