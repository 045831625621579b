/* user_log.c as C++ code. */
#define u_log_file u_log_file_cxx
#define u_sites u_sites_cxx
#define u_num_sites u_num_sites_cxx
#define u_first_throttled u_first_throttled_cxx
#include "user_log.c"
