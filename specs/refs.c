/* Contracts of the reference classification with a server
 * (backends/open62541/src/RefServiceImpl.c). */
#include "vf.h"
#include <open62541/server.h>
#include <NodesetLoader/NodesetLoader.h>
#define NEW(T) ((T *)malloc(sizeof(T)))
UA_DataType UA_TYPES[UA_TYPES_COUNT];
#if defined(OB_contains)
/* a table of any size: entry K is the tracked one */
size_t G_K, G_n; const UA_NodeId *G_ids; bool G_kmatch, G_hit; const UA_NodeId *G_want; int G_r;
#define NO_UA_EQUAL
#endif
#ifdef OB_rcclear
size_t G_K, G_n, G_clears; int G_kc; UA_NodeId *G_ids;
#define NO_UA_CLEAR
#endif
#include "ua_model.h"
#ifdef OB_rcclear
void UA_NodeId_clear(UA_NodeId *p) { G_clears++; if(p == &G_ids[G_K]) G_kc++; __CPROVER_assert(__CPROVER_same_object(p, G_ids), "an id of the table"); }
#endif
#ifdef OB_contains
static bool other(void);
UA_Boolean UA_NodeId_equal(const UA_NodeId *a, const UA_NodeId *b) { const UA_NodeId *e = a == G_want ? b : a; __CPROVER_assert((a == G_want || b == G_want) && __CPROVER_same_object(e, G_ids), "the type is compared with the entries"); size_t k = __CPROVER_POINTER_OFFSET(e) / sizeof(UA_NodeId); __CPROVER_assert(k < G_n && __CPROVER_POINTER_OFFSET(e) % sizeof(UA_NodeId) == 0, "an entry of the table"); bool m = k == G_K ? G_kmatch : nondet_bool(); if(m) G_hit = true; return m; }
#endif
struct vf_server { int x; }; static struct vf_server G_srv; static UA_Server *const SRV = (UA_Server *)(void *)&G_srv;
static UA_NodeId anyid(void) { UA_NodeId i = nondet_id(); __CPROVER_assume(i.identifierType == 0 || i.identifierType == 3 || i.identifierType == 4 || i.identifierType == 5); return i; }
static bool same(UA_NodeId a, UA_NodeId b) { return vf_ideq(&a, &b); }
#ifdef OB_addto
/* a block is grown: it may move, only the tracked entry is copied (the others are the same by symmetry) */
UA_NodeId *G_tab; size_t G_sz, G_K;
static void *vf_realloc(void *p, size_t n) { __CPROVER_assert(p == (void *)G_tab && n >= (G_sz + 1) * sizeof(UA_NodeId), "the table is grown by one entry"); UA_NodeId *q = (UA_NodeId *)malloc(n); if(G_sz) q[G_K] = G_tab[G_K]; free(p); return q; }
#define realloc vf_realloc
#endif
#include "gen/backends/open62541/src/RefServiceImpl.c"

#ifdef OB_contains
bool c_contains(const RefContainer c, const NL_Reference *ref)
__CPROVER_requires(1)
__CPROVER_assigns(G_hit)
;
void harness(void) { G_n = nondet_size_t(); __CPROVER_assume(G_n >= 1 && G_n <= LIM(1u << 20)); RefContainer c; c.size = G_n; c.ids = (UA_NodeId *)malloc(G_n * sizeof(UA_NodeId)); G_ids = c.ids; NL_Reference *r = NEW(NL_Reference); G_want = &r->refType; G_K = nondet_size_t(); __CPROVER_assume(G_K < G_n); G_kmatch = nondet_bool(); G_hit = false;
    bool res = isInContainer(c, r);
    /* true exactly if some entry equals the type: found only after a match, and never missed */
    ENS(res == G_hit); ENS(IMP(G_kmatch, res)); VAC(res && G_K > 1); VAC(!res && G_n > 1); VAC(G_n == 1 && res); }
#endif
#ifdef OB_addto
/* one more entry behind the others, which stay as they are: any number of entries, entry K is the tracked one */
void harness(void) { RefContainer *c = NEW(RefContainer); G_sz = nondet_size_t(); __CPROVER_assume(G_sz <= (1u << 20)); G_K = nondet_size_t(); __CPROVER_assume(G_K < G_sz || G_sz == 0); G_tab = G_sz ? (UA_NodeId *)malloc(G_sz * sizeof(UA_NodeId)) : NULL; c->size = G_sz; c->ids = G_tab; UA_NodeId n = anyid(), o; if(G_sz) o = c->ids[G_K] = anyid();
    addToRefs(c, n); ENS(c->size == G_sz + 1); if(G_sz) ENS(same(c->ids[G_K], o)); ENS(same(c->ids[G_sz], n)); ENS(IMP(n.identifierType == 3, c->ids[G_sz].identifier.string.data == (UA_Byte *)(void *)&G_copies)); ENS(__CPROVER_rw_ok(c->ids, sizeof(UA_NodeId) * c->size)); VAC(n.identifierType == 3 && G_sz > 1000); VAC(n.identifierType == 0 && G_sz == 0); VAC(G_sz == 1); }
#endif
#ifdef OB_addtype
/* classification of an added reference type: tables of 2 entries, at most 3 references */
static UA_NodeId HI[2], TI[2]; int G_h, G_t, G_n; NL_ReferenceTypeNode *G_node; static RefServiceImpl S;
void spec_addTo(RefContainer *c, const UA_NodeId id) { __CPROVER_assert(same(id, G_node->id), "id of the added type"); if(c == &S.hierachicalRefs) G_h++; else if(c == &S.hasTypeDefRefs) G_t++; else if(c == &S.nonHierachicalRefs) G_n++; else __CPROVER_assert(0, "table"); }
void harness(void) { S.hierachicalRefs.ids = HI; S.hierachicalRefs.size = 2; S.hasTypeDefRefs.ids = TI; S.hasTypeDefRefs.size = 2; for(int i = 0; i < 2; i++) { HI[i] = anyid(); TI[i] = anyid(); }
    G_node = NEW(NL_ReferenceTypeNode); G_node->id = anyid(); static NL_Reference R[3]; int k = nondet_int(); __CPROVER_assume(k >= 0 && k <= 3); bool h = false, t = false;
    for(int i = 0; i < 3; i++) { R[i].isForward = nondet_bool(); R[i].target = anyid(); R[i].refType = anyid(); R[i].next = i + 1 < k ? &R[i + 1] : NULL; for(int j = 0; j < 2; j++) if(i < k && !R[i].isForward) { h = h || same(HI[j], R[i].target); t = t || same(TI[j], R[i].target); } }
    G_node->hierachicalRefs = k ? R : NULL; addnewRefType(&S, G_node);
    ENS((G_h > 0) == h); ENS((G_t > 0) == t); ENS((G_n > 0) == !h); VAC(h && t); VAC(!h && !t && k == 3); VAC(k == 0); VAC(!h && t); }
#endif
#ifdef OB_iterate
/* the server's type tree: node 0 is the root, PA[i] < i the supertype of i; each of its 24 shapes with at most 5 types */
#define NT 5
static UA_NodeId ID[NT]; int PA[NT], G_seen[NT], G_br, G_clr, G_fail; static UA_ReferenceDescription RD[NT * NT]; static RefServiceImpl S; unsigned G_off;
UA_BrowseResult UA_Server_browse(UA_Server *s, UA_UInt32 max, const UA_BrowseDescription *bd) { __CPROVER_assert(s == SRV && max == 0 && bd->browseDirection == UA_BROWSEDIRECTION_FORWARD && (bd->nodeClassMask == 0 || bd->nodeClassMask == UA_NODECLASS_REFERENCETYPE) && same(bd->referenceTypeId, UA_NODEID_NUMERIC(0, 45)), "all subtypes are asked for"); UA_BrowseResult r; memset(&r, 0, sizeof r); unsigned k = bd->nodeId.identifier.numeric; __CPROVER_assert(bd->nodeId.namespaceIndex == 3 && k < NT, "type of the tree"); G_br++;
    if((int)k == G_fail) { r.statusCode = 0x80340000; return r; }
    r.references = &RD[k * NT]; for(int i = 1; i < NT; i++) if(PA[i] == (int)k) { RD[k * NT + r.referencesSize].nodeId.nodeId = ID[i]; r.referencesSize++; } return r; }
void UA_BrowseResult_clear(UA_BrowseResult *r) { G_clr++; memset(r, 0, sizeof *r); }
static void fnc(RefServiceImpl *impl, const UA_NodeId id) { __CPROVER_assert(impl == &S && id.namespaceIndex == 3 && id.identifier.numeric < NT, "subtype"); G_seen[id.identifier.numeric]++; }
static void shape(int a, int b, int c) { PA[0] = NT; PA[1] = 0; PA[2] = a; PA[3] = b; PA[4] = c; G_br = G_clr = 0; for(int i = 0; i < NT; i++) { ID[i] = UA_NODEID_NUMERIC(3, (UA_UInt32)i); G_seen[i] = 0; }
    iterate(SRV, &ID[0], fnc, &S); for(int i = 1; i < NT; i++) ENS(G_seen[i] == 1); ENS(G_seen[0] == 0); ENS(G_br == G_clr && G_br == NT); VAC(a == 1 && b == 2 && c == 3); VAC(a + b + c == 0); }
void harness(void) { G_fail = -1; shape(0, 0, 0); shape(0, 0, 1); shape(0, 0, 2); shape(0, 0, 3); shape(0, 1, 0); shape(0, 1, 1); shape(0, 1, 2); shape(0, 1, 3); shape(0, 2, 0); shape(0, 2, 1); shape(0, 2, 2); shape(0, 2, 3);
    shape(1, 0, 0); shape(1, 0, 1); shape(1, 0, 2); shape(1, 0, 3); shape(1, 1, 0); shape(1, 1, 1); shape(1, 1, 2); shape(1, 1, 3); shape(1, 2, 0); shape(1, 2, 1); shape(1, 2, 2); shape(1, 2, 3);
    /* a type whose subtypes cannot be browsed does not stop the others */
    PA[2] = 0; PA[3] = 1; PA[4] = 2; G_fail = 1; G_br = G_clr = 0; for(int i = 0; i < NT; i++) G_seen[i] = 0; iterate(SRV, &ID[0], fnc, &S); ENS(G_seen[1] == 1 && G_seen[2] == 1 && G_seen[3] == 0 && G_seen[4] == 1 && G_br == G_clr); }
#endif
#ifdef OB_rsnew
/* roots of the three families first, then everything the server knows below them; own table each */
int G_adds[3], G_gets[3]; UA_NodeId G_rootOf[3]; static const unsigned ROOT[3] = {33, 32, 40};
static int which(RefContainer *c, RefServiceImpl *s) { return c == &s->hierachicalRefs ? 0 : c == &s->nonHierachicalRefs ? 1 : c == &s->hasTypeDefRefs ? 2 : 3; }
static RefContainer *G_c[3]; bool G_iter; UA_NodeId G_sub[3];
void spec_iterate(UA_Server *s, const UA_NodeId *st, browseFnc f, RefServiceImpl *impl) { __CPROVER_assert(s == SRV, "server"); int k = 3; for(int i = 0; i < 3; i++) if(same(*st, UA_NODEID_NUMERIC(0, ROOT[i]))) k = i; __CPROVER_assert(k < 3, "root"); if(k < 3) { G_gets[k]++; G_iter = true; f(impl, G_sub[k]); G_iter = false; } }
void harness(void) { for(int i = 0; i < 3; i++) G_sub[i] = anyid(); NL_ReferenceService *r = RefServiceImpl_new(SRV); __CPROVER_assume(r != NULL); RefServiceImpl *s = (RefServiceImpl *)r->context; const RefContainer *c[3] = {&s->hierachicalRefs, &s->nonHierachicalRefs, &s->hasTypeDefRefs};
    for(int i = 0; i < 3; i++) { ENS(c[i]->size == 2 && G_gets[i] == 1); bool root = false, sub = false; for(int j = 0; j < 2; j++) { root = root || same(c[i]->ids[j], UA_NODEID_NUMERIC(0, ROOT[i])); sub = sub || same(c[i]->ids[j], G_sub[i]); } ENS(root && sub); }
    NL_Reference q; q.refType = anyid(); q.next = NULL; bool h = same(q.refType, UA_NODEID_NUMERIC(0, 33)) || same(q.refType, G_sub[0]), nh = same(q.refType, UA_NODEID_NUMERIC(0, 32)) || same(q.refType, G_sub[1]), td = same(q.refType, UA_NODEID_NUMERIC(0, 40)) || same(q.refType, G_sub[2]);
    ENS(r->isHierachicalRef(r->context, &q) == h); ENS(r->isNonHierachicalRef(r->context, &q) == nh); ENS(r->isHasTypeDefRef(r->context, &q) == td);
    VAC(h && !nh); VAC(td); VAC(nh && !h); VAC(!h && !nh && !td);
    G_clears = 0; RefServiceImpl_delete(r); ENS(G_clears == 6); }
#endif
#ifdef OB_rcclear
/* each id is released once, then the table; any number of ids */
void c_rcclear(RefContainer *c)
__CPROVER_requires(__CPROVER_is_fresh(c, sizeof(*c)))
__CPROVER_requires(c->size == G_n && G_n > 0 && G_n <= LIM(1u << 20) && G_K < G_n && G_clears == 0 && G_kc == 0)
__CPROVER_requires(__CPROVER_is_fresh(c->ids, G_n * sizeof(UA_NodeId)))
__CPROVER_requires(__CPROVER_pointer_equals(G_ids, c->ids))
__CPROVER_assigns(G_clears, G_kc, __CPROVER_object_whole(c), __CPROVER_object_whole(c->ids))
__CPROVER_frees(c->ids)
__CPROVER_ensures(__CPROVER_was_freed(G_ids))
__CPROVER_ensures(G_clears == G_n && G_kc == 1)
;
void harness(void) { RefContainer *c; G_K = nondet_size_t(); G_n = nondet_size_t(); RefContainer_clear(c); VAC(G_n > 1 && G_K == 1); }
#endif
#ifdef OB_rsdel
/* the three tables, the implementation and the service are released */
RefServiceImpl *G_impl; int G_c[3];
void spec_clear(RefContainer *c) { if(c == &G_impl->hierachicalRefs) G_c[0]++; else if(c == &G_impl->nonHierachicalRefs) G_c[1]++; else if(c == &G_impl->hasTypeDefRefs) G_c[2]++; else __CPROVER_assert(0, "a table of the service"); }
void harness(void) { NL_ReferenceService *r = NEW(NL_ReferenceService); G_impl = NEW(RefServiceImpl); r->context = G_impl; RefServiceImpl_delete(r); ENS(G_c[0] == 1 && G_c[1] == 1 && G_c[2] == 1); VAC(1); }
#endif
