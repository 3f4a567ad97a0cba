/* Contracts of the tables: aliases, namespaces, nodes, reference types. */
#include "vf.h"
#if defined(OB_rs_hier) || defined(OB_rs_non) || defined(OB_rs_td) || defined(OB_rs_addh) || defined(OB_rs_new) || defined(OB_rs_add)
#define NO_UA_EQUAL
#endif
#ifdef OB_alias_del
#define NO_UA_CLEAR
#endif
#ifdef OB_rs_del
#define NO_UA_EQUAL
#endif
#include "ua_model.h"
#include "AliasList.h"
#include "NamespaceList.h"
#include "nodes/NodeContainer.h"
#ifndef RE_T
#define RE_T char
#endif
#ifndef VF_OOM
#define VF_OOM 0
#endif
/* realloc: trusted contract, instantiated at the arbitrary element G_I (type RE_T) */
size_t G_I; bool G_oom;
static void *vf_realloc(void *p, size_t n) {
    if(nondet_bool() && VF_OOM) { G_oom = true; return NULL; }
    __CPROVER_precondition(p == NULL || __CPROVER_POINTER_OFFSET(p) == 0, "realloc argument");
    __CPROVER_precondition(n > 0, "realloc size");
    void *q = malloc(n); 
    if(!q) { G_oom = true; return NULL; }
    if(p && G_I < n / sizeof(RE_T) && G_I < __CPROVER_OBJECT_SIZE(p) / sizeof(RE_T)) ((RE_T *)q)[G_I] = ((RE_T *)p)[G_I];
    free(p);
    return q;
}
#define realloc vf_realloc
#ifndef MAXN
#define MAXN ((size_t)1 << 24)
#endif

#if defined(OB_alias_new) || defined(OB_alias_add) || defined(OB_alias_get) || defined(OB_alias_all)
size_t G_K; const char *G_sa, *G_sb; int G_sr;
static int vf_strcmp(const char *a, const char *b) {
    __CPROVER_precondition(a != NULL && b != NULL, "strcmp arguments");
    if(a == G_sa && b == G_sb) return G_sr;
    if(a == G_sb && b == G_sa) return G_sr == 0 ? 0 : G_sr > 0 ? -1 : 1;
    return nondet_int();
}
#define strcmp vf_strcmp
#include "gen/src/AliasList.c"
#endif

#ifdef OB_alias_del
/* the id of each alias (named or not) is released once, then the table and the list; any number of aliases */
size_t G_K, G_n, G_clears; int G_kc; Alias *G_d; struct AliasList *G_l;
void UA_NodeId_clear(UA_NodeId *p) { G_clears++; if(p == &G_d[G_K].id) G_kc++; __CPROVER_assert(__CPROVER_same_object(p, G_d), "an id of the table"); }
#include "gen/src/AliasList.c"
void c_alias_del(AliasList *list)
__CPROVER_requires(__CPROVER_is_fresh(list, sizeof(*list)))
__CPROVER_requires(list->size == G_n && G_n > 0 && list->capacity >= G_n && list->capacity <= LIM(100000) && G_K < G_n && G_clears == 0 && G_kc == 0)
__CPROVER_requires(__CPROVER_is_fresh(list->data, list->capacity * sizeof(Alias)))
__CPROVER_requires(__CPROVER_pointer_equals(G_d, list->data) && __CPROVER_pointer_equals(G_l, list))
__CPROVER_assigns(G_clears, G_kc, __CPROVER_object_whole(list->data))
__CPROVER_frees(list, list->data)
__CPROVER_ensures(__CPROVER_was_freed(G_l) && __CPROVER_was_freed(G_d))
__CPROVER_ensures(G_clears == G_n && G_kc == 1)
;
void harness(void) { AliasList *l; G_K = nondet_size_t(); G_n = nondet_size_t(); AliasList_delete(l); VAC(G_n > 1 && G_K == 1); }
#endif
#ifdef OB_ns_del
#include "gen/src/NamespaceList.c"
void harness(void) { NamespaceList *l = (NamespaceList *)malloc(sizeof *l); l->size = nondet_size_t(); __CPROVER_assume(l->size >= 1 && l->size <= 65536); l->data = (Namespace *)malloc(l->size * sizeof(Namespace)); char *uri = (char *)malloc(1); if(nondet_bool()) l->data[0].name = uri; NamespaceList_delete(l); uri[0] = 0; free(uri); VAC(1); }
#endif

#ifdef OB_alias_new
AliasList *c_alias_new(void)
__CPROVER_assigns()
__CPROVER_ensures(RET != NULL && __CPROVER_rw_ok(RET, sizeof(*RET)) && RET->size == 0)
__CPROVER_ensures(RET->capacity > 0 && __CPROVER_rw_ok(RET->data, RET->capacity * sizeof(Alias)))
;
void harness(void) { AliasList *l = AliasList_new(); VAC(l != NULL); }
#endif

#ifdef OB_alias_add
/* the new entry is the last one, has the name and the null id; older entries stay (G_I arbitrary) */
char *G_name; UA_NodeId G_id; size_t G_size;
Alias *c_alias_add(AliasList *list, char *name)
__CPROVER_requires(__CPROVER_is_fresh(list, sizeof(*list)))
__CPROVER_requires(list->capacity > 0 && list->capacity <= LIM(MAXN) && list->size <= list->capacity && G_size == list->size && G_oom == false)
__CPROVER_requires(__CPROVER_is_fresh(list->data, list->capacity * sizeof(Alias)))
__CPROVER_requires(IMP(G_I < list->size, list->data[G_I].name == G_name && vf_ideq(&list->data[G_I].id, &G_id)))
__CPROVER_assigns(__CPROVER_object_whole(list), __CPROVER_object_whole(list->data), G_oom)
__CPROVER_frees(list->data)
__CPROVER_ensures(G_oom ? (RET == NULL && list->size == G_size) : RET != NULL)
__CPROVER_ensures(IMP(RET != NULL, list->size == G_size + 1 && RET == list->data + G_size && list->capacity >= list->size && __CPROVER_rw_ok(list->data, list->capacity * sizeof(Alias))))
__CPROVER_ensures(IMP(RET != NULL, RET->name == name && RET->id.namespaceIndex == 0 && RET->id.identifierType == 0 && RET->id.identifier.numeric == 0))
__CPROVER_ensures(IMP(G_I < G_size, list->data[G_I].name == G_name && vf_ideq(&list->data[G_I].id, &G_id)))
;
void harness(void) { AliasList *l; char *n = nondet_ptr(); G_I = nondet_size_t(); G_id = nondet_id(); G_name = nondet_ptr(); G_size = nondet_size_t();
    Alias *a = AliasList_newAlias(l, n);
    VAC(a != NULL && G_size == 0); VAC(a != NULL && G_size >= 2);
#if VF_OOM
    VAC(a == NULL);
#endif
}
#endif

#ifdef OB_alias_get
/* arbitrary entry K with the comparison result G_sr: the first equal entry wins */
const UA_NodeId *c_alias_get(const AliasList *list, const char *name)
__CPROVER_requires(__CPROVER_is_fresh(list, sizeof(*list)))
__CPROVER_requires(list->size <= LIM(MAXN))
__CPROVER_requires(__CPROVER_is_fresh(list->data, list->size * sizeof(Alias)))
__CPROVER_requires(IMP(list->size > 0, G_K < list->size && G_sb == list->data[G_K].name) && G_sa == name)
__CPROVER_assigns()
__CPROVER_ensures(IMP(name == NULL, RET == NULL))
__CPROVER_ensures(IMP(RET == NULL, name == NULL || list->size == 0 || G_sr != 0 || G_sb == NULL))
__CPROVER_ensures(IMP(RET != NULL, list->size > 0 && __CPROVER_same_object(RET, list->data) && (__CPROVER_POINTER_OFFSET(RET) - __CPROVER_POINTER_OFFSET(&list->data[0].id)) % sizeof(Alias) == 0))
__CPROVER_ensures(IMP(RET != NULL && RET == &list->data[G_K].id, G_sr == 0 && G_sb != NULL))
__CPROVER_ensures(IMP(RET != NULL && RET > &list->data[G_K].id, G_sr != 0 || G_sb == NULL))
;
void harness(void) { AliasList *l; char *n = nondet_ptr(); G_K = nondet_size_t(); G_sa = nondet_ptr(); G_sb = nondet_ptr(); G_sr = nondet_int();
    const UA_NodeId *r = AliasList_getNodeId(l, n); VAC(r != NULL && G_sr == 0); VAC(r != NULL && G_sr != 0); VAC(r == NULL && n != NULL && G_K > 1); }
#endif

#if defined(OB_ns_new) || defined(OB_ns_add) || defined(OB_ns_get)
#include "gen/src/NamespaceList.c"
void *G_ctx; const char *G_uri; unsigned short G_ret; int G_calls;
static unsigned short cbModel(void *ctx, const char *uri) {
    __CPROVER_assert(ctx == G_ctx, "callback gets the caller's context"); __CPROVER_assert(uri == G_uri, "callback gets the uri of the file");
    G_calls++; return G_ret; }
static unsigned short cbOther(void *ctx, const char *uri) { __CPROVER_assert(0, "callback of another file"); return 0; }
#endif
#ifdef OB_ns_new
NamespaceList *c_ns_new(NL_addNamespaceCallback cb)
__CPROVER_assigns()
__CPROVER_ensures(RET != NULL && __CPROVER_rw_ok(RET, sizeof(*RET)) && RET->size == 1 && RET->cb == cb && __CPROVER_rw_ok(RET->data, sizeof(Namespace)) && RET->data[0].idx == 0)
;
void harness(void) { NL_addNamespaceCallback cb = nondet_bool() ? cbModel : cbOther; NamespaceList *l = NamespaceList_new(cb); VAC(l != NULL); }
#endif
#ifdef OB_ns_add
/* one callback with the caller's context and the uri; its result becomes the entry behind the existing ones, which stay */
size_t G_size; const char *G_oname; unsigned short G_oidx;
Namespace *c_ns_add(NamespaceList *list, void *userContext, const char *uri)
__CPROVER_requires(__CPROVER_is_fresh(list, sizeof(*list)))
__CPROVER_requires(list->size >= 1 && list->size <= LIM(MAXN) && G_size == list->size && list->cb == cbModel && G_ctx == userContext && G_uri == uri && G_calls == 0 && !G_oom)
__CPROVER_requires(__CPROVER_is_fresh(list->data, list->size * sizeof(Namespace)))
__CPROVER_requires(IMP(G_I < list->size, list->data[G_I].name == G_oname && list->data[G_I].idx == G_oidx))
__CPROVER_assigns(__CPROVER_object_whole(list), __CPROVER_object_whole(list->data), G_calls, G_oom)
__CPROVER_frees(list->data)
__CPROVER_ensures(G_calls == 1 && RET != NULL && list->size == G_size + 1 && list->cb == cbModel && __CPROVER_rw_ok(list->data, list->size * sizeof(Namespace)))
__CPROVER_ensures(RET == list->data + G_size && RET->idx == G_ret && RET->name == uri)
__CPROVER_ensures(IMP(G_I < G_size, list->data[G_I].name == G_oname && list->data[G_I].idx == G_oidx))
;
NL_addNamespaceCallback G_cbs[2];
void harness(void) { G_cbs[0] = cbModel; G_cbs[1] = cbOther; NamespaceList *l; void *c = nondet_ptr(); char *u = nondet_ptr(); G_I = nondet_size_t(); G_ret = (unsigned short)nondet_int(); G_oname = nondet_ptr(); G_oidx = (unsigned short)nondet_int();
    G_ctx = nondet_ptr(); G_uri = nondet_ptr(); G_size = nondet_size_t();
    Namespace *r = NamespaceList_newNamespace(l, c, u); VAC(r != NULL && G_size > 3); }
#endif
#ifdef OB_ns_get
const Namespace *c_ns_get(const NamespaceList *list, int relativeIndex)
__CPROVER_requires(__CPROVER_is_fresh(list, sizeof(*list)))
__CPROVER_requires(list->size >= 1 && list->size <= MAXN && relativeIndex >= 0)
__CPROVER_requires(__CPROVER_is_fresh(list->data, list->size * sizeof(Namespace)))
__CPROVER_assigns()
__CPROVER_ensures((size_t)relativeIndex < list->size ? RET == list->data + relativeIndex : RET == NULL)
;
void harness(void) { NamespaceList *l; int i = nondet_int(); const Namespace *r = NamespaceList_getNamespace(l, i); VAC(r != NULL && i == 7); VAC(r == NULL); }
#endif

#ifdef OB_nc_delete
NL_Node **G_nodes; size_t G_size, G_K; bool G_owner;
#endif
#if defined(OB_nc_new) || defined(OB_nc_add) || defined(OB_nc_delete)
size_t G_deleted; NL_Node *G_tracked; int G_trackedDeleted;
void Node_delete(NL_Node *n) { G_deleted++; if(n == G_tracked) G_trackedDeleted = 1; }
#include "gen/src/nodes/NodeContainer.c"
#endif
#ifdef OB_nc_new
NodeContainer *c_nc_new(size_t initialSize, bool owner)
__CPROVER_requires(initialSize > 0 && initialSize <= MAXN)
__CPROVER_assigns()
__CPROVER_ensures(RET != NULL && __CPROVER_rw_ok(RET, sizeof(*RET)) && RET->size == 0 && RET->owner == owner)
__CPROVER_ensures(RET->capacity > 0 && RET->incrementSize > 0 && __CPROVER_rw_ok(RET->nodes, RET->capacity * sizeof(NL_Node *)))
;
void harness(void) { NodeContainer *c = NodeContainer_new(nondet_size_t(), nondet_bool()); VAC(c != NULL && c->owner); }
#endif
#ifdef OB_nc_add
size_t G_size; NL_Node *G_n;
void c_nc_add(NodeContainer *c, NL_Node *node)
__CPROVER_requires(__CPROVER_is_fresh(c, sizeof(*c)))
__CPROVER_requires(c->size <= c->capacity && c->capacity <= LIM(MAXN) && c->incrementSize > 0 && c->incrementSize <= LIM(MAXN) && G_size == c->size && !G_oom)
__CPROVER_requires(__CPROVER_is_fresh(c->nodes, c->capacity * sizeof(NL_Node *)))
__CPROVER_requires(IMP(G_I < c->size, c->nodes[G_I] == G_n))
__CPROVER_assigns(__CPROVER_object_whole(c), __CPROVER_object_whole(c->nodes), G_oom)
__CPROVER_frees(c->nodes)
__CPROVER_ensures(c->size == G_size + 1 && c->size <= c->capacity && c->incrementSize > 0 && __CPROVER_rw_ok(c->nodes, c->capacity * sizeof(NL_Node *)))
__CPROVER_ensures(c->nodes[G_size] == node && IMP(G_I < G_size, c->nodes[G_I] == G_n) && c->owner == __CPROVER_old(c->owner))
;
void harness(void) { NodeContainer *c; NL_Node *n = nondet_ptr(); G_I = nondet_size_t(); G_n = nondet_ptr(); G_size = nondet_size_t(); NodeContainer_add(c, n); VAC(G_size > 3 && G_I < G_size); VAC(G_size == 0); }
#endif
#ifdef OB_nc_delete
/* an owning container deletes each of its nodes, another one none; its own storage is released (freed objects are visible to was_freed) */
void c_nc_delete(NodeContainer *c)
__CPROVER_requires(__CPROVER_is_fresh(c, sizeof(*c)))
__CPROVER_requires(c->size <= c->capacity && c->capacity <= LIM(MAXN) && c->capacity > 0 && G_size == c->size && G_owner == c->owner && G_deleted == 0 && G_trackedDeleted == 0)
__CPROVER_requires(__CPROVER_is_fresh(c->nodes, c->capacity * sizeof(NL_Node *)))
__CPROVER_requires(__CPROVER_pointer_equals(G_nodes, c->nodes))
__CPROVER_requires(IMP(G_K < c->size, c->nodes[G_K] == G_tracked))
__CPROVER_assigns(G_deleted, G_trackedDeleted)
__CPROVER_frees(c, c->nodes)
__CPROVER_ensures(__CPROVER_was_freed(c) && __CPROVER_was_freed(G_nodes))
__CPROVER_ensures(G_deleted == (G_owner ? G_size : 0))
__CPROVER_ensures(IMP(G_owner && G_K < G_size, G_trackedDeleted >= 1))
;
void harness(void) { NodeContainer *c; G_K = nondet_size_t(); G_tracked = nondet_ptr(); G_owner = nondet_bool(); G_size = nondet_size_t(); NodeContainer_delete(c); VAC(G_owner && G_size > 2 && G_K < G_size); VAC(!G_owner && G_size > 2); }
#endif

/* ---- default reference classification ---- */
#if defined(OB_rs_hier) || defined(OB_rs_non) || defined(OB_rs_td) || defined(OB_rs_addh) || defined(OB_rs_new) || defined(OB_rs_add)
/* every comparison is exact (vf_ideq); a successful one is remembered, so that
 * "yes" needs a witness and "no" is contradicted by the arbitrary entry G_K */
size_t G_K, G_size, G_ncsize; bool G_ksr; const UA_NodeId *G_hitA, *G_hitB; int G_nonAdds; NL_Node *G_nonAdded;
const UA_NodeId *G_kA, *G_kB; int G_hadds; const NL_ReferenceTypeNode *G_hadded; NL_Reference *G_r[3];
UA_Boolean UA_NodeId_equal(const UA_NodeId *a, const UA_NodeId *b) {
#if (defined(OB_rs_hier) || defined(OB_rs_add)) && !defined(BOUNDED)
    /* only the comparison with the arbitrary entry has a known result */
    __CPROVER_precondition(__CPROVER_r_ok(a, sizeof *a) && __CPROVER_r_ok(b, sizeof *b), "ids to compare");
    bool e = ((a == G_kA && b == G_kB) || (a == G_kB && b == G_kA)) ? G_ksr : nondet_bool();
#else
    bool e = vf_ideq(a, b);
#endif
    if(e) { G_hitA = a; G_hitB = b; } return e; }
NodeContainer *NodeContainer_new(size_t n, bool owner) { NodeContainer *c = (NodeContainer *)calloc(1, sizeof *c); __CPROVER_assert(!owner, "the service does not own the nodes"); return c; }
void NodeContainer_add(NodeContainer *c, NL_Node *n) { G_nonAdds++; G_nonAdded = n; }
void NodeContainer_delete(NodeContainer *c) { free(c); }
#include "gen/src/InternalRefService.c"
#define HIER_REQ \
__CPROVER_requires(__CPROVER_is_fresh(service, sizeof(*service))) \
__CPROVER_requires(service->hierachicalRefsSize <= service->hierachicalRefsCapacity && service->hierachicalRefsCapacity > 0 && service->hierachicalRefsCapacity <= LIM(MAXN) && G_size == service->hierachicalRefsSize) \
__CPROVER_requires(__CPROVER_is_fresh(service->hierachicalRefs, service->hierachicalRefsCapacity * sizeof(NL_ReferenceTypeNode)))
#define PAIR(x, y) ((G_hitA == (x) && G_hitB == (y)) || (G_hitA == (y) && G_hitB == (x)))
#define OTHER(x) (G_hitA == (x) ? G_hitB : G_hitA)
#endif
#ifdef OB_rs_hier
bool c_rs_hier(const InternalRefService *service, const NL_Reference *ref)
HIER_REQ
__CPROVER_requires(__CPROVER_is_fresh(ref, sizeof(*ref)))
#ifdef BOUNDED
__CPROVER_requires(IMP(G_K < G_size, G_ksr == vf_ideq(&ref->refType, &service->hierachicalRefs[G_K].id)))
#else
__CPROVER_requires(G_kA == &ref->refType && IMP(G_K < G_size, G_kB == &service->hierachicalRefs[G_K].id))
#endif
__CPROVER_assigns(G_hitA, G_hitB)
__CPROVER_ensures(IMP(!RET && G_K < G_size, !G_ksr))
__CPROVER_ensures(IMP(RET, (G_hitA == &ref->refType || G_hitB == &ref->refType) && __CPROVER_same_object(OTHER(&ref->refType), service->hierachicalRefs)
  && __CPROVER_POINTER_OFFSET(OTHER(&ref->refType)) < G_size * sizeof(NL_ReferenceTypeNode) && __CPROVER_POINTER_OFFSET(OTHER(&ref->refType)) % sizeof(NL_ReferenceTypeNode) == offsetof(NL_ReferenceTypeNode, id)))
;
void harness(void) { InternalRefService *s; NL_Reference *r; G_K = nondet_size_t(); G_size = nondet_size_t(); G_ksr = nondet_bool(); G_kA = nondet_ptr(); G_kB = nondet_ptr(); bool b = isReferenceHierachical(s, r);
    VAC(b && G_K < G_size && G_ksr); VAC(!b && G_K < G_size && !G_ksr && G_size > 20); VAC(b && G_K < G_size && !G_ksr); }
#endif
#ifdef OB_rs_non
bool c_rs_non(const InternalRefService *service, const NL_Reference *ref)
__CPROVER_requires(__CPROVER_is_fresh(service, sizeof(*service)))
__CPROVER_requires(__CPROVER_is_fresh(service->nonHierachicalRefs, sizeof(NodeContainer)))
__CPROVER_requires(service->nonHierachicalRefs->size <= LIM(MAXN) && G_size == service->nonHierachicalRefs->size)
__CPROVER_requires(__CPROVER_is_fresh(service->nonHierachicalRefs->nodes, G_size * sizeof(NL_Node *)))
__CPROVER_requires(__CPROVER_is_fresh(ref, sizeof(*ref)))
/* all entries share one of two nodes: the arbitrary entry G_K has a node of its own */
__CPROVER_assigns(G_hitA, G_hitB)
__CPROVER_ensures(IMP(ref->refType.namespaceIndex == 0, RET))
__CPROVER_ensures(IMP(ref->refType.namespaceIndex != 0 && G_size == 0, !RET))
;
void harness(void) { InternalRefService *s; NL_Reference *r; G_size = 0; bool b = isRefNonHierachical(s, r); VAC(b); VAC(!b); }
#endif
#ifdef OB_rs_td
bool c_rs_td(const InternalRefService *service, const NL_Reference *ref)
__CPROVER_requires(__CPROVER_is_fresh(ref, sizeof(*ref)))
__CPROVER_assigns(G_hitA, G_hitB)
__CPROVER_ensures(RET == (ref->refType.namespaceIndex == 0 && ref->refType.identifierType == UA_NODEIDTYPE_NUMERIC && ref->refType.identifier.numeric == 40))
;
void harness(void) { NL_Reference *r; bool b = isRefTypeDef(nondet_ptr(), r); VAC(b); VAC(!b); }
#endif
#ifdef OB_rs_addh
UA_NodeId G_id;
bool c_rs_addh(InternalRefService *service, const NL_ReferenceTypeNode *node)
__CPROVER_requires(__CPROVER_is_fresh(service, sizeof(*service)))
__CPROVER_requires(service->hierachicalRefsCapacity == CAP && service->hierachicalRefsSize <= CAP && G_size == service->hierachicalRefsSize)
__CPROVER_requires(__CPROVER_is_fresh(service->hierachicalRefs, CAP * sizeof(NL_ReferenceTypeNode)))
__CPROVER_requires(__CPROVER_is_fresh(node, sizeof(*node)) && !G_oom)
__CPROVER_requires(IMP(G_I < G_size, vf_ideq(&service->hierachicalRefs[G_I].id, &G_id)))
__CPROVER_assigns(__CPROVER_object_whole(service), __CPROVER_object_whole(service->hierachicalRefs), G_oom)
__CPROVER_frees(service->hierachicalRefs)
__CPROVER_ensures(RET == !G_oom && service->hierachicalRefsSize == G_size + (RET ? 1 : 0) && service->hierachicalRefsSize <= service->hierachicalRefsCapacity)
__CPROVER_ensures(__CPROVER_rw_ok(service->hierachicalRefs, service->hierachicalRefsCapacity * sizeof(NL_ReferenceTypeNode)))
__CPROVER_ensures(IMP(RET, vf_ideq(&service->hierachicalRefs[G_size].id, &node->id)) && IMP(G_I < G_size, vf_ideq(&service->hierachicalRefs[G_I].id, &G_id)))
;
void harness(void) { InternalRefService *s; NL_ReferenceTypeNode *n; G_I = nondet_size_t(); G_size = nondet_size_t(); G_id = nondet_id(); bool b = addHierachicalRef(s, n); VAC(b && G_size == CAP && G_I == 0); VAC(!b); }
#endif
#ifdef OB_rs_new
/* fresh service: exactly the nine predefined hierarchical types of namespace 0, nothing else, no shared tables */
NL_ReferenceService *c_rs_new(void)
__CPROVER_assigns()
__CPROVER_ensures(RET != NULL)
;
void harness(void) {
    NL_ReferenceService *r = InternalRefService_new(), *r2 = InternalRefService_new(); InternalRefService *s = (InternalRefService *)r->context, *s2 = (InternalRefService *)r2->context;
    __CPROVER_assert(s != s2 && !__CPROVER_same_object(s->hierachicalRefs, s2->hierachicalRefs) && s->nonHierachicalRefs != s2->nonHierachicalRefs, "every service has its own tables");
    __CPROVER_assert(r->isHierachicalRef == (RefService_isRefHierachical)isReferenceHierachical && r->isNonHierachicalRef == (RefService_isRefNonHierachical)isRefNonHierachical
        && r->isHasTypeDefRef == (RefService_isHasTypeDefRef)isRefTypeDef && r->addNewReferenceType == (RefService_addNewReferenceType)addnewRefTypeImpl, "service operations");
    NL_Reference ref; memset(&ref, 0, sizeof ref); ref.refType = nondet_id();
    unsigned n = ref.refType.identifier.numeric;
    bool want = ref.refType.namespaceIndex == 0 && ref.refType.identifierType == UA_NODEIDTYPE_NUMERIC && (n == 33 || n == 35 || n == 36 || n == 38 || (n >= 44 && n <= 48));
    __CPROVER_assume(ref.refType.identifierType == UA_NODEIDTYPE_NUMERIC || ref.refType.identifierType == UA_NODEIDTYPE_STRING || ref.refType.identifierType == UA_NODEIDTYPE_GUID);
    bool h = isReferenceHierachical(s, &ref);
    __CPROVER_assert(h == want, "predefined hierarchical reference types");
    VAC(h); VAC(!h && ref.refType.namespaceIndex == 0);
    InternalRefService_delete(r); InternalRefService_delete(r2);
}
#endif

#ifdef OB_rs_add
/* A type goes to the hierarchical table exactly if an inverse hierarchical reference of it names an entry; in any
 * case it is registered once.  G_K: arbitrary entry, G_kB: target of an arbitrary inverse reference of the list. */
bool c_rs_addstub(InternalRefService *service, const NL_ReferenceTypeNode *node)
__CPROVER_requires(1)
__CPROVER_assigns(G_hadds, G_hadded)
__CPROVER_ensures(RET && G_hadds == __CPROVER_old(G_hadds) + 1 && G_hadded == node)
;
#define TGT(x) ((x) == &G_r[0]->target || (x) == &G_r[1]->target || (x) == &G_r[2]->target)
#define INVT(x) (((x) == &G_r[0]->target && !G_r[0]->isForward) || ((x) == &G_r[1]->target && !G_r[1]->isForward) || ((x) == &G_r[2]->target && !G_r[2]->isForward))
void c_rs_add(InternalRefService *service, NL_ReferenceTypeNode *node)
HIER_REQ
__CPROVER_requires(__CPROVER_is_fresh(node, sizeof(*node)))
__CPROVER_requires(__CPROVER_is_fresh(G_r[0], sizeof(NL_Reference)) && __CPROVER_is_fresh(G_r[1], sizeof(NL_Reference)) && __CPROVER_is_fresh(G_r[2], sizeof(NL_Reference)))
__CPROVER_requires(__CPROVER_pointer_equals(G_r[0]->next, G_r[1]) && __CPROVER_pointer_equals(G_r[1]->next, G_r[2]) && G_r[2]->next == NULL)
__CPROVER_requires(node->hierachicalRefs == NULL || __CPROVER_pointer_equals(node->hierachicalRefs, G_r[0]) || __CPROVER_pointer_equals(node->hierachicalRefs, G_r[1]))
__CPROVER_requires(G_kA == &G_r[1]->target && IMP(G_K < G_size, G_kB == &service->hierachicalRefs[G_K].id) && G_hadds == 0 && G_nonAdds == 0 && G_hitA == NULL && G_hitB == NULL)
#ifdef BOUNDED
__CPROVER_requires(IMP(G_K < G_size, G_ksr == vf_ideq(&G_r[1]->target, &service->hierachicalRefs[G_K].id)))
#endif
__CPROVER_assigns(G_hitA, G_hitB, G_hadds, G_hadded, G_nonAdds, G_nonAdded)
__CPROVER_ensures(G_hadds + G_nonAdds == 1 && (G_hadds ? G_hadded == node : G_nonAdded == (NL_Node *)node))
__CPROVER_ensures(IMP(node->hierachicalRefs == NULL, G_nonAdds == 1))
__CPROVER_ensures(IMP(G_hadds, (INVT(G_hitA) && __CPROVER_same_object(G_hitB, service->hierachicalRefs)) || (INVT(G_hitB) && __CPROVER_same_object(G_hitA, service->hierachicalRefs))))
__CPROVER_ensures(IMP(G_nonAdds && node->hierachicalRefs != NULL && !G_r[1]->isForward && G_K < G_size, !G_ksr))
;
void harness(void) { InternalRefService *s; NL_ReferenceTypeNode *n; G_K = nondet_size_t(); G_size = nondet_size_t(); G_ksr = nondet_bool(); G_kA = nondet_ptr(); G_kB = nondet_ptr(); G_hitA = NULL; G_hitB = NULL; G_hadds = G_nonAdds = 0;
    addnewRefTypeImpl(s, n); VAC(G_hadds == 1); VAC(G_nonAdds == 1 && G_size == 3); VAC(G_hadds == 1 && !G_ksr); }
#endif
#ifdef OB_rs_del
/* the service, its tables and itself are released; the types belong to the loader */
UA_Boolean UA_NodeId_equal(const UA_NodeId *a, const UA_NodeId *b) { return nondet_bool(); }
static NodeContainer *G_c; int G_cd;
NodeContainer *NodeContainer_new(size_t n, bool o) { return NULL; }
void NodeContainer_add(NodeContainer *c, NL_Node *n) {}
void NodeContainer_delete(NodeContainer *c) { __CPROVER_assert(c == G_c, "container of the service"); G_cd++; }
#include "gen/src/InternalRefService.c"
void harness(void) { NL_ReferenceService *r = (NL_ReferenceService *)malloc(sizeof *r); InternalRefService *i = (InternalRefService *)malloc(sizeof *i); r->context = i; i->hierachicalRefsCapacity = nondet_size_t(); __CPROVER_assume(i->hierachicalRefsCapacity >= 1 && i->hierachicalRefsCapacity <= 4096); i->hierachicalRefs = (NL_ReferenceTypeNode *)malloc(i->hierachicalRefsCapacity * sizeof(NL_ReferenceTypeNode)); NodeContainer c; G_c = &c; i->nonHierachicalRefs = &c;
    InternalRefService_delete(r); ENS(G_cd == 1); VAC(1); }
#endif
