#ifndef USER_ATOMIC_H_
#define USER_ATOMIC_H_
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
enum { A_LOAD, A_STORE, A_EXCHANGE, A_CAS, A_ADD, A_NOPS };
enum { U_OBJECTS = 8 };
void u_atomic_init(int64_t v);
int64_t u_atomic_narrow(int object, int64_t v);
int u_atomic_has(int object, int op);
int64_t u_atomic(int object, int op, int plain, int64_t a, int64_t * expected);
#ifdef __cplusplus
}
#endif
#endif
