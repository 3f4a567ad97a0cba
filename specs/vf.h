/* Common helpers of the contract files. */
#include <stddef.h>
#include <stdint.h>
#include <stdbool.h>
#include <stdlib.h>
#include <string.h>
int nondet_int(void); unsigned nondet_unsigned(void); size_t nondet_size_t(void); _Bool nondet_bool(void); char nondet_char(void);
void *nondet_ptr(void);
/* reachability checks: these assertions MUST fail, otherwise the contract is vacuous */
#define VAC(c) __CPROVER_assert(!(c), "VACUITY " #c)
#ifdef BOUNDED
#define LIM(big) ((size_t)(BOUNDED))
#else
#define LIM(big) ((size_t)(big))
#endif
#define IMP(a, b) (!(a) || (b))
#define RET __CPROVER_return_value
/* a postcondition evaluated by the harness right after the call (the frame is checked by the contract) */
#define ENS(c) __CPROVER_assert(c, "ensures " #c)
