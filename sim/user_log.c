/* User code full of log macros: one function per call site. Built like the library. */
#include "rcutils/logging_macros.h"
#include "rcutils/time.h"
#include "user_log.h"

const char * u_log_file(void) {return __FILE__;}
#define NM u_name(),
#define EX u_cond(),
#define FU &u_cond,
/* conditions that are not a bare call: other values than 0 and 1, operators that bind loosely */
#define EXA u_cond() ? 4 : 0,
#define EXB u_number() > 4,
#define EXC u_cond() ? u_log_file() : NULL,
#define EXD (int64_t)u_cond() << 40,
#define TS5 u_time, 5,
#define TS0 u_time, 0,
#define TSL u_time, 86400000,
#define TST RCUTILS_STEADY_TIME, 2000,
#define UNP(...) __VA_ARGS__
#define CALL(M, ...) M(__VA_ARGS__)
/* form 0: a plain statement */
#define S(id, SEV, SUF, PRE) static int site_##id(bool go) {(void)go; CALL(RCUTILS_LOG_##SEV##SUF, UNP PRE "site " #id " value %d", u_value()); return __LINE__;}
/* form 1: the body of an if without braces, with an else */
#define SI(id, SEV, SUF, PRE) static int site_##id(bool go) {if (go) CALL(RCUTILS_LOG_##SEV##SUF, UNP PRE "site " #id " value %d", u_value()); else u_else(); return __LINE__;}
/* form 2: two call sites of the same macro in one function */
#define S2(id, SEV, SUF, PRE) static int site_##id(bool go) {if (go) {CALL(RCUTILS_LOG_##SEV##SUF, UNP PRE "site " #id " value %d", u_value());} else {CALL(RCUTILS_LOG_##SEV##SUF, UNP PRE "site " #id " other value %d", u_value());} return __LINE__;}
#define ALL(F, p, SEV) \
  F(p##0, SEV, , ()) F(p##1, SEV, _NAMED, (NM)) F(p##2, SEV, _ONCE, ()) F(p##3, SEV, _ONCE_NAMED, (NM)) \
  F(p##4, SEV, _EXPRESSION, (EX)) F(p##4a, SEV, _EXPRESSION, (EXA)) F(p##4b, SEV, _EXPRESSION, (EXB)) \
  F(p##4c, SEV, _EXPRESSION_NAMED, (EXC NM)) F(p##4d, SEV, _EXPRESSION_NAMED, (EXD NM)) \
  F(p##5, SEV, _EXPRESSION_NAMED, (EX NM)) F(p##6, SEV, _FUNCTION, (FU)) F(p##7, SEV, _FUNCTION_NAMED, (FU NM)) \
  F(p##8, SEV, _SKIPFIRST, ()) F(p##9, SEV, _SKIPFIRST_NAMED, (NM))
#define THR(F, p, SEV, TS) \
  F(p##0, SEV, _THROTTLE, (TS)) F(p##1, SEV, _THROTTLE_NAMED, (TS NM)) \
  F(p##2, SEV, _SKIPFIRST_THROTTLE, (TS)) F(p##3, SEV, _SKIPFIRST_THROTTLE_NAMED, (TS NM))
ALL(S, D, DEBUG)
ALL(S, I, INFO)
ALL(S, W, WARN)
ALL(S, E, ERROR)
ALL(S, F, FATAL)
ALL(SI, i, INFO)
ALL(S2, w, WARN)
THR(S, TD, DEBUG, TS5)
THR(S, TI, INFO, TS5)
THR(S, TW, WARN, TS5)
THR(S, TE, ERROR, TS5)
THR(S, TF, FATAL, TS5)
THR(S, ZI, INFO, TS0)
THR(S, LW, WARN, TSL)
THR(SI, ti, INFO, TS5)
THR(S2, tw, WARN, TS5)
THR(S, SI_, INFO, TST)
THR(S, SE, ERROR, TST)
#define R(id, sev, kind, named, steady, form, ms) {"site_" #id, sev, kind, named, steady, form, ms, site_##id}
#define ROWS(p, sev, form) \
  R(p##0, sev, K_PLAIN, 0, 0, form, 0), R(p##1, sev, K_PLAIN, 1, 0, form, 0), R(p##2, sev, K_ONCE, 0, 0, form, 0), R(p##3, sev, K_ONCE, 1, 0, form, 0), \
  R(p##4, sev, K_EXPRESSION, 0, 0, form, 0), \
  R(p##4a, sev, K_EXPRESSION, 0, 0, form, 0), R(p##4b, sev, K_EXPRESSION, 0, 0, form, 0), R(p##4c, sev, K_EXPRESSION, 1, 0, form, 0), \
  R(p##4d, sev, K_EXPRESSION, 1, 0, form, 0), R(p##5, sev, K_EXPRESSION, 1, 0, form, 0), R(p##6, sev, K_FUNCTION, 0, 0, form, 0), \
  R(p##7, sev, K_FUNCTION, 1, 0, form, 0), R(p##8, sev, K_SKIPFIRST, 0, 0, form, 0), R(p##9, sev, K_SKIPFIRST, 1, 0, form, 0)
#define TROWS(p, sev, steady, form, ms) \
  R(p##0, sev, K_THROTTLE, 0, steady, form, ms), R(p##1, sev, K_THROTTLE, 1, steady, form, ms), \
  R(p##2, sev, K_SKIPFIRST_THROTTLE, 0, steady, form, ms), R(p##3, sev, K_SKIPFIRST_THROTTLE, 1, steady, form, ms)
const u_site_t u_sites[] = {
  ROWS(D, 10, 0), ROWS(I, 20, 0), ROWS(W, 30, 0), ROWS(E, 40, 0), ROWS(F, 50, 0), ROWS(i, 20, 1), ROWS(w, 30, 2),
  TROWS(TD, 10, 0, 0, 5), TROWS(TI, 20, 0, 0, 5), TROWS(TW, 30, 0, 0, 5), TROWS(TE, 40, 0, 0, 5), TROWS(TF, 50, 0, 0, 5),
  TROWS(ZI, 20, 0, 0, 0), TROWS(LW, 30, 0, 0, 86400000), TROWS(ti, 20, 0, 1, 5), TROWS(tw, 30, 0, 2, 5),
  TROWS(SI_, 20, 1, 0, 2000), TROWS(SE, 40, 1, 0, 2000)
};
const int u_num_sites = sizeof(u_sites) / sizeof(u_sites[0]);
const int u_first_throttled = 98;
