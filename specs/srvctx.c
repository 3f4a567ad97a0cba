/* Contracts of the namespace mapping (backends/open62541/src/ServerContext.c). */
#include "vf.h"
#include <open62541/types.h>
size_t G_I; bool G_oom;
#ifndef VF_OOM
#define VF_OOM 0
#endif
/* realloc: trusted contract, instantiated at the arbitrary element G_I */
static void *vf_realloc(void *p, size_t n) {
    if(nondet_bool() && VF_OOM) { G_oom = true; return NULL; }
    __CPROVER_precondition(p == NULL || __CPROVER_POINTER_OFFSET(p) == 0, "realloc argument"); __CPROVER_precondition(n > 0, "realloc size");
    UA_UInt16 *q = (UA_UInt16 *)malloc(n); __CPROVER_assume(q != NULL);
    if(p && G_I < n / sizeof(UA_UInt16) && G_I < __CPROVER_OBJECT_SIZE(p) / sizeof(UA_UInt16)) q[G_I] = ((UA_UInt16 *)p)[G_I];
    free(p); return q; }
#define realloc vf_realloc
#include "gen/backends/open62541/src/ServerContext.c"
size_t G_n; UA_UInt16 G_v; UA_Server *G_srv; ServerContext *G_c; UA_UInt16 *G_map;
static void mk(void) { G_c = (ServerContext *)malloc(sizeof *G_c); G_n = nondet_size_t(); __CPROVER_assume(G_n <= LIM((size_t)1 << 40)); G_srv = (UA_Server *)nondet_ptr(); G_map = G_n || nondet_bool() ? (UA_UInt16 *)malloc(G_n * sizeof(UA_UInt16)) : NULL;
    G_c->server = G_srv; G_c->namespaceCnt = G_n; G_c->namespaceIdxMapping = G_map; G_I = nondet_size_t(); if(G_I < G_n) G_v = G_map[G_I]; }
#ifdef OB_new
void harness(void) { UA_Server *s = (UA_Server *)nondet_ptr(); ServerContext *c = ServerContext_new(s); ENS(c && ServerContext_getServerObject(c) == s && c->namespaceCnt == 0); ENS(ServerContext_translateToServerIdx(c, 0) == 0); unsigned k = nondet_unsigned(); __CPROVER_assume(k > 0 && k < 65536); ENS(ServerContext_translateToServerIdx(c, (UA_UInt16)k) == 65535); VAC(s); ServerContext_delete(c); }
#endif
#ifdef OB_add
void c_add(ServerContext *serverContext, UA_UInt16 serverIdx)
__CPROVER_requires(serverContext == G_c)
__CPROVER_assigns(__CPROVER_object_whole(G_c), G_oom)
__CPROVER_assigns(G_map != NULL: __CPROVER_object_whole(G_map))
__CPROVER_frees(G_map)
;
void harness(void) { mk(); G_oom = false; UA_UInt16 x = (UA_UInt16)nondet_int(); ServerContext_addNamespaceIdx(G_c, x);
    ENS(G_c->server == G_srv); ENS(G_oom ? G_c->namespaceCnt == G_n && G_c->namespaceIdxMapping == G_map : G_c->namespaceCnt == G_n + 1);
    ENS(IMP(!G_oom, G_c->namespaceIdxMapping[G_n] == x)); ENS(IMP(G_I < G_n, G_c->namespaceIdxMapping[G_I] == G_v));   /* earlier ones never change */
    VAC(G_n == 0 && !G_oom); VAC(G_n > 70000);
#if VF_OOM
    VAC(G_oom);
#endif
}
#endif
#ifdef OB_translate
UA_UInt16 c_translate(const ServerContext *serverContext, UA_UInt16 nodesetIdx)
__CPROVER_requires(serverContext == G_c)
__CPROVER_assigns()
__CPROVER_ensures(IMP(G_c == NULL, RET == 65535))
__CPROVER_ensures(IMP(G_c != NULL && nodesetIdx == 0, RET == 0))
__CPROVER_ensures(IMP(G_c != NULL && nodesetIdx > 0 && nodesetIdx <= G_n && G_I == (size_t)nodesetIdx - 1, RET == G_v))
__CPROVER_ensures(IMP(G_c != NULL && nodesetIdx > G_n, RET == 65535))
;
void harness(void) { mk(); if(nondet_bool()) G_c = NULL; UA_UInt16 k = (UA_UInt16)nondet_int(); UA_UInt16 r = ServerContext_translateToServerIdx(G_c, k); VAC(G_c && k == 65535 && G_n == 65535 && G_I == 65534); VAC(!G_c); VAC(G_c && k > G_n); VAC(G_c && k == 0); VAC(G_c && k == 3 && G_I == 2 && r == 7); }
#endif
#ifdef OB_delete
void harness(void) { mk(); ServerContext_delete(G_c); VAC(G_map != NULL); VAC(G_map == NULL); }
#endif
