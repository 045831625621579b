/* User code with the atomic helpers of the library. Built like the library: every access to the objects is a switch point. */
#include "rcutils/stdatomic_helper.h"
#include "user_atomic.h"

static atomic_bool o_bool;
static atomic_int_least64_t o_i64;
static atomic_uint_least64_t o_u64;
static atomic_uintptr_t o_ptr;
static atomic_int o_int;
static atomic_uchar o_byte;
static _Atomic(char *) o_text;
static atomic_short o_short;

/* the macros on an object of any type */
#define MACROS(obj, type, add) \
  type r = (type)0; type e = (type)*expected; \
  bool ok; \
  switch (op) { \
    case A_LOAD: rcutils_atomic_load(&obj, r); return (int64_t)r; \
    case A_STORE: rcutils_atomic_store(&obj, (type)a); return 0; \
    case A_EXCHANGE: rcutils_atomic_exchange(&obj, r, (type)a); return (int64_t)r; \
    case A_CAS: rcutils_atomic_compare_exchange_strong(&obj, ok, &e, (type)a); *expected = (int64_t)e; return ok; \
    default: add return 0; \
  }
#define ADD(obj, type) {type d = (type)a; rcutils_atomic_fetch_add(&obj, r, d);} return (int64_t)r;

static int64_t on_int(int op, int64_t a, int64_t * expected) {MACROS(o_int, int, ADD(o_int, int))}
static int64_t on_byte(int op, int64_t a, int64_t * expected) {MACROS(o_byte, unsigned char, ADD(o_byte, unsigned char))}
static int64_t on_short(int op, int64_t a, int64_t * expected) {MACROS(o_short, short, ADD(o_short, short))}
static int64_t on_text(int op, int64_t a, int64_t * expected) {MACROS(o_text, char *, )}
static int64_t on_i64_macro(int op, int64_t a, int64_t * expected) {MACROS(o_i64, int64_t, ADD(o_i64, int64_t))}
static int64_t on_u64_macro(int op, int64_t a, int64_t * expected) {MACROS(o_u64, uint64_t, ADD(o_u64, uint64_t))}
static int64_t on_ptr_macro(int op, int64_t a, int64_t * expected) {MACROS(o_ptr, uintptr_t, ADD(o_ptr, uintptr_t))}
static int64_t on_bool_macro(int op, int64_t a, int64_t * expected) {MACROS(o_bool, bool, )}

void u_atomic_init(int64_t v)
{
  atomic_init(&o_bool, (bool)v);
  atomic_init(&o_i64, v);
  atomic_init(&o_u64, (uint64_t)v);
  atomic_init(&o_ptr, (uintptr_t)v);
  atomic_init(&o_int, (int)v);
  atomic_init(&o_byte, (unsigned char)v);
  atomic_init(&o_text, (char *)v);
  atomic_init(&o_short, (short)v);
}
/* the value as the object of that kind holds it */
int64_t u_atomic_narrow(int object, int64_t v)
{
  switch (object) {
    case 0: return (bool)v;
    case 4: return (int)v;
    case 5: return (unsigned char)v;
    case 7: return (short)v;
    default: return v;
  }
}
int u_atomic_has(int object, int op) {return op == A_ADD ? object != 0 && object != 6 : 1;}
/* plain: through the macros; otherwise through the typed function where there is one */
int64_t u_atomic(int object, int op, int plain, int64_t a, int64_t * expected)
{
  if (!plain) {
    switch (object * 8 + op) {
      case 0 * 8 + A_LOAD: return rcutils_atomic_load_bool(&o_bool);
      case 0 * 8 + A_EXCHANGE: return rcutils_atomic_exchange_bool(&o_bool, (bool)a);
      case 1 * 8 + A_LOAD: return rcutils_atomic_load_int64_t(&o_i64);
      case 1 * 8 + A_EXCHANGE: return rcutils_atomic_exchange_int64_t(&o_i64, a);
      case 2 * 8 + A_LOAD: return (int64_t)rcutils_atomic_load_uint64_t(&o_u64);
      case 2 * 8 + A_EXCHANGE: return (int64_t)rcutils_atomic_exchange_uint64_t(&o_u64, (uint64_t)a);
      case 2 * 8 + A_ADD: return (int64_t)rcutils_atomic_fetch_add_uint64_t(&o_u64, (uint64_t)a);
      case 2 * 8 + A_CAS: {
          uint64_t e = (uint64_t)*expected;
          bool ok = rcutils_atomic_compare_exchange_strong_uint_least64_t(&o_u64, &e, (uint64_t)a);
          *expected = (int64_t)e;
          return ok;
        }
      case 3 * 8 + A_LOAD: return (int64_t)rcutils_atomic_load_uintptr_t(&o_ptr);
      case 3 * 8 + A_EXCHANGE: return (int64_t)rcutils_atomic_exchange_uintptr_t(&o_ptr, (uintptr_t)a);
      default: break;
    }
  }
  switch (object) {
    case 0: return on_bool_macro(op, a, expected);
    case 1: return on_i64_macro(op, a, expected);
    case 2: return on_u64_macro(op, a, expected);
    case 3: return on_ptr_macro(op, a, expected);
    case 4: return on_int(op, a, expected);
    case 5: return on_byte(op, a, expected);
    case 6: return on_text(op, a, expected);
    default: return on_short(op, a, expected);
  }
}
