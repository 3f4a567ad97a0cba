/* Contracts of the text arena (src/CharAllocator.c).
 * Representation invariant WF of the current region r:
 *   r.mem is an object of r.capacity bytes, r.size <= r.capacity, the last
 *   block is [r.userPtr, r.userPtr+r.userSize) and ends at r.mem+r.size,
 *   all bytes of r.mem at or behind r.size are zero (pointwise: ghost index G_Z).
 * All blocks handed out earlier lie below r.size or in older regions, so "the
 * new block is [old size, new size) or a region of its own" is disjointness. */
#include "vf.h"
/* memcpy: trusted contract, instantiated at the (arbitrary) ghost index G_J */
extern size_t G_J;
static void *vf_memcpy(void *dst, const void *src, size_t n) {
    __CPROVER_precondition(__CPROVER_r_ok(src, n) && __CPROVER_w_ok(dst, n), "memcpy regions");
    __CPROVER_precondition(n == 0 || !__CPROVER_same_object(dst, src), "memcpy overlap");
    char c = G_J < n ? ((const char *)src)[G_J] : 0;
    if(n > 0) __CPROVER_havoc_slice(dst, n);
    if(G_J < n) __CPROVER_assume(((char *)dst)[G_J] == c);
    return dst;
}
#define memcpy vf_memcpy
#include "gen/src/CharAllocator.c"
#define MAXS (((size_t)1) << 40)
size_t G_J, G_Z, G_L; size_t G_osize, G_ocap, G_ouserSize; struct Region *G_ocur; char *G_omem, *G_ouser; char G_c, G_cl; struct Region *G_onext;

#define WF_REQ \
__CPROVER_requires(__CPROVER_is_fresh(arena, sizeof(*arena))) \
__CPROVER_requires(__CPROVER_is_fresh(arena->current, sizeof(struct Region))) \
__CPROVER_requires(arena->current->capacity <= MAXS && arena->initialSize <= MAXS && size <= MAXS) \
__CPROVER_requires(__CPROVER_is_fresh(arena->current->mem, arena->current->capacity)) \
__CPROVER_requires(arena->current->size <= arena->current->capacity) \
__CPROVER_requires(G_osize == arena->current->size && G_ocap == arena->current->capacity && G_ouserSize == arena->current->userSize) \
__CPROVER_requires(__CPROVER_pointer_equals(G_ocur, arena->current) && __CPROVER_pointer_equals(G_omem, arena->current->mem) && G_onext == arena->current->next)
/* zero behind the fill level, at the two offsets the postconditions look at */
#define ZERO_AT(off) (!((off) >= G_osize && (off) < G_ocap) || G_omem[off] == 0)
#define OLD_KEPT (G_ocur->size == G_osize && G_ocur->capacity == G_ocap && G_ocur->mem == G_omem && G_ocur->next == G_onext)
#define INPLACE (arena->current == G_ocur)
#define OWN (arena->current->capacity <= 8 * MAXS && __CPROVER_rw_ok(arena->current->mem, arena->current->capacity))

#if defined(OB_malloc) || defined(OB_malloc_total)
char *c_malloc(CharArenaAllocator *arena, size_t size)
WF_REQ
__CPROVER_requires(G_ouser == arena->current->userPtr)
__CPROVER_requires(G_J < size && G_Z >= G_osize && G_L < G_osize && ZERO_AT(G_osize + G_J) && ZERO_AT(G_Z) && G_cl == G_omem[G_L])
__CPROVER_assigns(__CPROVER_object_whole(arena), __CPROVER_object_whole(arena->current), __CPROVER_object_whole(arena->current->mem))
/* where the block is */
__CPROVER_ensures(IMP(RET != NULL && INPLACE, RET == G_omem + G_osize && arena->current->size == G_osize + size && arena->current->size <= G_ocap
    && arena->current->capacity == G_ocap && arena->current->mem == G_omem && arena->current->next == G_onext))
__CPROVER_ensures(IMP(RET != NULL && !INPLACE, arena->current->next == G_ocur && OLD_KEPT && RET == arena->current->mem
    && !__CPROVER_same_object(RET, G_omem) && arena->current->size == size && arena->current->size <= arena->current->capacity && OWN))
/* bookkeeping for a later growth */
__CPROVER_ensures(IMP(RET != NULL, arena->current->userPtr == RET && arena->current->userSize == size && arena->initialSize == __CPROVER_old(arena->initialSize)))
/* zeroed, and zero behind */
__CPROVER_ensures(IMP(RET != NULL, RET[G_J] == 0))
__CPROVER_ensures(IMP(RET != NULL && INPLACE && G_Z >= G_osize + size && G_Z < G_ocap, G_omem[G_Z] == 0))
__CPROVER_ensures(IMP(RET != NULL && !INPLACE && G_Z >= size && G_Z < arena->current->capacity, arena->current->mem[G_Z] == 0))
/* older content */
__CPROVER_ensures(G_omem[G_L] == G_cl)
/* out of memory */
__CPROVER_ensures(IMP(RET == NULL, INPLACE && OLD_KEPT && arena->current->userPtr == G_ouser && arena->current->userSize == G_ouserSize))
#ifdef OB_malloc_total
__CPROVER_ensures(RET != NULL)
#endif
;
void harness(void) {
    CharArenaAllocator *a; size_t n = nondet_size_t();
    char *r = CharArenaAllocator_malloc(a, n);
    VAC(r != NULL && __CPROVER_same_object(r, G_omem)); VAC(r != NULL && !__CPROVER_same_object(r, G_omem));
#ifdef OB_malloc
    VAC(r == NULL);
#endif
}
#endif

#if defined(OB_realloc) || defined(OB_realloc_total)
char *c_realloc(CharArenaAllocator *arena, size_t size)
WF_REQ
__CPROVER_requires(G_ouserSize <= G_osize && __CPROVER_pointer_equals(arena->current->userPtr, G_omem + (G_osize - G_ouserSize)))
__CPROVER_requires(__CPROVER_pointer_equals(G_ouser, arena->current->userPtr))
/* G_J: any offset of the grown block, G_L: any offset in front of the block, G_Z: any offset behind the fill level */
__CPROVER_requires(G_J < G_ouserSize + size && G_L < G_osize - G_ouserSize && G_Z >= G_osize)
__CPROVER_requires(ZERO_AT(G_osize - G_ouserSize + G_J) && ZERO_AT(G_Z))
__CPROVER_requires(IMP(G_J < G_ouserSize, G_c == G_omem[G_osize - G_ouserSize + G_J]) && G_cl == G_omem[G_L])
__CPROVER_assigns(__CPROVER_object_whole(arena), __CPROVER_object_whole(arena->current), __CPROVER_object_whole(arena->current->mem))
__CPROVER_ensures(IMP(RET != NULL && INPLACE, RET == G_ouser && arena->current->size == G_osize + size && arena->current->size <= G_ocap
    && arena->current->capacity == G_ocap && arena->current->mem == G_omem && arena->current->next == G_onext))
__CPROVER_ensures(IMP(RET != NULL && !INPLACE, arena->current->next == G_ocur && OLD_KEPT && __CPROVER_same_object(RET, arena->current->mem)
    && !__CPROVER_same_object(RET, G_omem) && arena->current->size <= arena->current->capacity && OWN
    && RET == arena->current->mem + (arena->current->size - (G_ouserSize + size)) && arena->current->size >= G_ouserSize + size))
__CPROVER_ensures(IMP(RET != NULL, arena->current->userPtr == RET && arena->current->userSize == G_ouserSize + size))
/* content */
__CPROVER_ensures(IMP(RET != NULL && G_J < G_ouserSize, RET[G_J] == G_c))
__CPROVER_ensures(IMP(RET != NULL && G_J >= G_ouserSize, RET[G_J] == 0))
__CPROVER_ensures(G_omem[G_L] == G_cl)
__CPROVER_ensures(IMP(RET != NULL && INPLACE && G_Z >= G_osize + size && G_Z < G_ocap, G_omem[G_Z] == 0))
__CPROVER_ensures(IMP(RET != NULL && !INPLACE && G_Z >= arena->current->size && G_Z < arena->current->capacity, arena->current->mem[G_Z] == 0))
__CPROVER_ensures(IMP(RET == NULL, INPLACE && OLD_KEPT && arena->current->userPtr == G_ouser && arena->current->userSize == G_ouserSize))
#ifdef OB_realloc_total
__CPROVER_ensures(RET != NULL)
#endif
;
void harness(void) {
    CharArenaAllocator *a; size_t n = nondet_size_t();
    char *r = CharArenaAllocator_realloc(a, n);
    VAC(r != NULL && __CPROVER_same_object(r, G_omem)); VAC(r != NULL && !__CPROVER_same_object(r, G_omem));
#ifdef OB_realloc
    VAC(r == NULL);
#endif
}
#endif

#ifdef OB_new
CharArenaAllocator *c_new(size_t initialSize)
__CPROVER_requires(initialSize <= MAXS)
__CPROVER_assigns()
__CPROVER_ensures(RET != NULL)
__CPROVER_ensures(__CPROVER_rw_ok(RET, sizeof(*RET)) && RET->initialSize == initialSize && __CPROVER_rw_ok(RET->current, sizeof(struct Region)))
__CPROVER_ensures(RET->current->capacity >= initialSize && RET->current->capacity <= 4 * MAXS && RET->current->size == 0 && RET->current->userSize == 0 && RET->current->next == NULL)
__CPROVER_ensures(__CPROVER_rw_ok(RET->current->mem, RET->current->capacity) && RET->current->userPtr == RET->current->mem)
__CPROVER_ensures(IMP(G_Z < RET->current->capacity, RET->current->mem[G_Z] == 0))
;
void harness(void) { size_t n = nondet_size_t(); G_Z = nondet_size_t(); CharArenaAllocator *a = CharArenaAllocator_new(n); VAC(a != NULL); }
#endif

#ifdef OB_delete
/* bounded stand-in: at most REGIONS regions; leaks are found by the memory-leak check */
#ifndef REGIONS
#define REGIONS 3
#endif
void harness(void) {
    CharArenaAllocator *a = CharArenaAllocator_new(nondet_size_t() % 16);
    for(int i = 0; i < REGIONS - 1; i++) {
        struct Region *r = Region_new(nondet_size_t() % 16);
        if(nondet_bool()) { r->next = a->current; a->current = r; } else { free(r->mem); free(r); }
    }
    CharArenaAllocator_delete(a);
    VAC(1);
}
#endif
