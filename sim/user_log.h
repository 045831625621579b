#ifndef USER_LOG_H_
#define USER_LOG_H_
#include <stdbool.h>
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
/* supplied by the driver */
int u_value(void);                       /* message argument; counts its evaluations */
bool u_cond(void);                       /* condition; counts its evaluations */
int u_number(void);                      /* 7 where the condition holds, 3 where not */
const char * u_name(void);
int u_time(int64_t * now);               /* time source */
void u_else(void);
/* kinds of condition */
enum { K_PLAIN, K_ONCE, K_EXPRESSION, K_FUNCTION, K_SKIPFIRST, K_THROTTLE, K_SKIPFIRST_THROTTLE };
typedef struct { const char * func; int sev, kind, named, steady, form; int64_t ms; int (* run)(bool go); } u_site_t;
extern const u_site_t u_sites[];
extern const int u_num_sites;
extern const int u_first_throttled;      /* sites from here on are throttled */
const char * u_log_file(void);
#ifdef __cplusplus
}
#endif
#endif
