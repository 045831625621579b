/* User code of the error handling and fault injection macros, as a C and as a C++ program has it. */
#ifndef USER_ERROR_H_
#define USER_ERROR_H_
#ifdef __cplusplus
extern "C" {
#endif
typedef struct
{
  const char * (* file)(void);
  int (* set)(const char * m);
  int (* set_fmt)(const char * m, int v);
  int (* set_fmt_named)(const char * m, int v);
  int (* append_percent)(void);
  int (* check_choice)(const char * a, const char * b);
  int (* append_named)(const char * m, int v);
  void (* stderr_append_named)(const char * m, int v);
  int (* append)(void);
  int (* append_fmt)(int v);
  void (* stderr_append)(int v);
  void (* stderr_append_plain)(void);
  int (* check_arg)(const char * a);
  int (* point)(int kind);
  int (* test_loop)(int k, int * result, int max);
  int (* no_injection)(int k);
} u_error_t;
extern const u_error_t u_error, u_error_cxx;
#ifdef __cplusplus
}
#endif
#endif
