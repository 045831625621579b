/* user_error.c as C++ code. */
#define u_error u_error_cxx
#include "user_error.c"
