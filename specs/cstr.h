/* Contracts of the C library string functions used by the verified text
 * (trusted).  memcpy is instantiated at the arbitrary ghost index G_J, strlen
 * of the opaque text G_name is its ghost length; on literals both are exact. */
#include "vf.h"
extern size_t G_J, G_nameLen; extern const char *G_name;
static void *vf_memcpy(void *dst, const void *src, size_t n) {
    __CPROVER_precondition(__CPROVER_r_ok(src, n) && __CPROVER_w_ok(dst, n), "memcpy regions");
    __CPROVER_precondition(n == 0 || !__CPROVER_same_object(dst, src), "memcpy overlap");
    char c = G_J < n ? ((const char *)src)[G_J] : 0;
    if(n > 0) __CPROVER_havoc_slice(dst, n);
    if(G_J < n) __CPROVER_assume(((char *)dst)[G_J] == c);
    return dst;
}
static int vf_strcmp(const char *a, const char *b) {
    size_t i = 0;
    while(a[i] == b[i] && a[i]) i++;
    return (unsigned char)a[i] - (unsigned char)b[i];
}
static size_t vf_strlen(const char *s) { if(s == G_name) return G_nameLen; size_t n = 0; while(s[n]) n++; return n; }
#define memcpy vf_memcpy
#define strcmp vf_strcmp
#define strlen vf_strlen
