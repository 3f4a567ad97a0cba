/* P24: creation and release of nodes (src/nodes/Node.c, DataTypeNode.c) and of
 * the node set (src/Nodeset.c).  String identifiers own an allocation, so that a
 * missing release is a leak and a repeated one a double free. */
#include "vf.h"
#if defined(OB_dtclear) || defined(OB_field) || defined(OB_refany)
#define NO_UA_CLEAR
#elif !defined(OB_nsnew)
#define UA_OWNED
#endif
#include "ua_model.h"
#include <NodesetLoader/NodesetLoader.h>
#include "Nodeset.h"
#include "AliasList.h"
#include "NamespaceList.h"
#include "Sort.h"
#include "nodes/NodeContainer.h"
#include "nodes/DataTypeNode.h"
#include "nodes/Node.h"
#define NEW(T) ((T *)malloc(sizeof(T)))
UA_NodeId nondet_id(void);
static UA_NodeId owned(void) { UA_NodeId i = nondet_id(); __CPROVER_assume(i.identifierType == UA_NODEIDTYPE_NUMERIC || i.identifierType == UA_NODEIDTYPE_STRING || i.identifierType == UA_NODEIDTYPE_GUID || i.identifierType == UA_NODEIDTYPE_BYTESTRING);
    if(i.identifierType == UA_NODEIDTYPE_STRING || i.identifierType == UA_NODEIDTYPE_BYTESTRING) i.identifier.string.data = (UA_Byte *)malloc(1); return i; }
#define ISSTR(i) ((i).identifierType == UA_NODEIDTYPE_STRING)
#ifdef OB_refany
/* a list of any length: the elements stand in a table in the order of the list (what their links say is assumed element by element); each of them is released once, with both of its ids, before it */
NL_Reference *G_T; size_t G_n, G_i, G_K; int G_ta, G_ty, G_fr; void *G_dt, *G_val;
#define LINK(i) (G_T[i].next == ((i) + 1 < G_n ? &G_T[(i) + 1] : (NL_Reference *)NULL))
void UA_NodeId_clear(UA_NodeId *p) { __CPROVER_assert(p == &G_T[G_i].target || p == &G_T[G_i].refType, "an id of the element"); if(G_i == G_K) { if(p == &G_T[G_i].target) G_ta++; else G_ty++; __CPROVER_assert(!G_fr, "before it is released"); } }
static void vf_free(void *p) { __CPROVER_assert(p == (void *)&G_T[G_i], "the element"); if(G_i == G_K) G_fr++; G_i++; __CPROVER_assume(G_i >= G_n || LINK(G_i)); }
void Value_delete(NL_Value *v) {} 
void DataTypeNode_clear(NL_DataTypeNode *n) {}
#define free vf_free
#include "gen/src/nodes/Node.c"
#undef free
void c_refany(NL_Reference *ref)
__CPROVER_requires(G_n > 0 && G_n <= LIM(1u << 16) && G_K < G_n && G_i == 0 && G_ta == 0 && G_ty == 0 && G_fr == 0)
__CPROVER_requires(__CPROVER_is_fresh(ref, G_n * sizeof(NL_Reference)))
__CPROVER_requires(__CPROVER_pointer_equals(G_T, ref))
__CPROVER_requires(LINK(0))
__CPROVER_assigns(G_i, G_ta, G_ty, G_fr)
__CPROVER_ensures(G_i == G_n && G_ta == 1 && G_ty == 1 && G_fr == 1)
;
void harness(void) { NL_Reference *r; G_n = nondet_size_t(); G_K = nondet_size_t(); deleteRef(r); VAC(G_n > 2 && G_K == 1); VAC(G_n == 1); }
#endif
#if defined(OB_nodedel) || defined(OB_refdel) || defined(OB_nodenew)
NL_Value *G_val; int G_vals, G_dts; NL_Node *G_dt; NL_Reference *G_list[4]; int G_lists[4], G_other;
void Value_delete(NL_Value *v) { if(v) { __CPROVER_assert(v == G_val, "the value of the node"); G_vals++; } }
void DataTypeNode_clear(NL_DataTypeNode *n) { __CPROVER_assert((NL_Node *)n == G_dt, "the data type node"); G_dts++; }
void spec_deleteRef(NL_Reference *r) { if(!r) return; int k = -1; for(int i = 0; i < 4; i++) if(r == G_list[i]) k = i; if(k < 0) G_other++; else G_lists[k]++; }
#include "gen/src/nodes/Node.c"
#endif
#ifdef OB_nodedel
/* every list, id, value and definition of the node is released once, for lists of any length (deleteRef is its own obligation) */
#if CLS == 0
typedef NL_ObjectNode NT;
#elif CLS == 1
typedef NL_ObjectTypeNode NT;
#elif CLS == 2
typedef NL_VariableNode NT;
#elif CLS == 3
typedef NL_DataTypeNode NT;
#elif CLS == 4
typedef NL_MethodNode NT;
#elif CLS == 5
typedef NL_ReferenceTypeNode NT;
#elif CLS == 6
typedef NL_VariableTypeNode NT;
#else
typedef NL_ViewNode NT;
#endif
void harness(void) {
    NT *n = (NT *)calloc(1, sizeof(NT)); NL_Reference L[4]; bool has[4]; bool str = false;
    n->nodeClass = (NL_NodeClass)CLS; n->id = owned(); str = ISSTR(n->id);
    for(int i = 0; i < 4; i++) { has[i] = nondet_bool(); G_list[i] = has[i] ? &L[i] : NULL; }
    n->hierachicalRefs = G_list[0]; n->nonHierachicalRefs = G_list[1]; n->unknownRefs = G_list[2];
#if CLS == 0 || CLS == 2
    n->refToTypeDef = G_list[3];
#else
    has[3] = false;
#endif
#if CLS == 0 || CLS == 2 || CLS == 4 || CLS == 7
    n->parentNodeId = owned(); str = str && ISSTR(n->parentNodeId);
#endif
#if CLS == 2 || CLS == 6
    n->datatype = owned(); str = str && ISSTR(n->datatype);
#endif
#if CLS == 2
    G_val = nondet_bool() ? NEW(NL_Value) : NULL; n->value = G_val;
#endif
#if CLS == 3
    G_dt = (NL_Node *)n;
#endif
    Node_delete(NULL); Node_delete((NL_Node *)n);
    for(int i = 0; i < 4; i++) ENS(G_lists[i] == (has[i] ? 1 : 0));
    ENS(G_other == 0); ENS(G_vals == (G_val ? 1 : 0)); ENS(G_dts == (CLS == 3 ? 1 : 0));
    free(G_val); VAC(has[0] && has[1] && has[2] && str && (has[3] || (CLS != 0 && CLS != 2)) && (G_val || CLS != 2)); }
#endif
#ifdef OB_refdel
void harness(void) { NL_Reference *l = NULL; int n = nondet_int(); __CPROVER_assume(n >= 0 && n <= 3); bool s = true;
    for(int i = 0; i < n; i++) { NL_Reference *r = NEW(NL_Reference); r->isForward = nondet_bool(); r->refType = owned(); r->target = owned(); r->next = l; l = r; s = s && ISSTR(r->refType) && ISSTR(r->target); }
    deleteRef(l); VAC(n == 3 && s); VAC(n == 0); }
#endif
#ifdef OB_nodenew
void harness(void) { static const size_t size[8] = {sizeof(NL_ObjectNode), sizeof(NL_ObjectTypeNode), sizeof(NL_VariableNode), sizeof(NL_DataTypeNode), sizeof(NL_MethodNode), sizeof(NL_ReferenceTypeNode), sizeof(NL_VariableTypeNode), sizeof(NL_ViewNode)};
    int c = nondet_int(); __CPROVER_assume(c >= 0 && c < 8); size_t k = nondet_size_t();
    NL_Node *n = Node_new((NL_NodeClass)c); ENS(n != NULL); ENS(__CPROVER_rw_ok(n, size[c])); if(k < size[c]) ENS(((char *)n)[k] == 0);
    VAC(c == 2 && k == size[2] - 1); VAC(c == 7); free(n); }
#endif
#ifdef OB_dtclear
size_t G_K, G_n, G_clears; int G_kc; NL_DataTypeDefinitionField *G_f; NL_DataTypeDefinition *G_d;
void UA_NodeId_clear(UA_NodeId *p) { G_clears++; if(p == &G_f[G_K].dataType) G_kc++; __CPROVER_assert(__CPROVER_same_object(p, G_f), "an id of the definition"); }
#include "gen/src/nodes/DataTypeNode.c"
/* the type id of each field is released once, then the table and the definition; any number of fields */
void c_dtclear(NL_DataTypeNode *node)
__CPROVER_requires(__CPROVER_is_fresh(node, sizeof(*node)))
__CPROVER_requires(__CPROVER_is_fresh(node->definition, sizeof(NL_DataTypeDefinition)))
__CPROVER_requires(node->definition->fieldCnt == G_n && G_n > 0 && G_n <= LIM(100000) && G_K < G_n && G_clears == 0 && G_kc == 0)
__CPROVER_requires(__CPROVER_is_fresh(node->definition->fields, G_n * sizeof(NL_DataTypeDefinitionField)))
__CPROVER_requires(__CPROVER_pointer_equals(G_f, node->definition->fields) && __CPROVER_pointer_equals(G_d, node->definition))
__CPROVER_assigns(G_clears, G_kc, __CPROVER_object_whole(node), __CPROVER_object_whole(node->definition), __CPROVER_object_whole(node->definition->fields))
__CPROVER_frees(node->definition, node->definition->fields)
__CPROVER_ensures(__CPROVER_was_freed(G_d) && __CPROVER_was_freed(G_f))
__CPROVER_ensures(G_clears == G_n && G_kc == 1)
;
void harness(void) { NL_DataTypeNode *n; G_K = nondet_size_t(); G_n = nondet_size_t(); DataTypeNode_clear(n); VAC(G_n > 3 && G_K == 2); }
#endif
#ifdef OB_dtnone
#include "gen/src/nodes/DataTypeNode.c"
void harness(void) { NL_DataTypeNode *n = (NL_DataTypeNode *)calloc(1, sizeof *n); int m = nondet_int(); if(m == 0) { n->definition = (NL_DataTypeDefinition *)calloc(1, sizeof(NL_DataTypeDefinition)); }
    if(m == 1) { n->definition = (NL_DataTypeDefinition *)calloc(1, sizeof(NL_DataTypeDefinition)); n->definition->fieldCnt = 2; n->definition->fields = (NL_DataTypeDefinitionField *)calloc(2, sizeof(NL_DataTypeDefinitionField)); n->definition->fields[0].dataType = owned(); n->definition->fields[1].dataType = owned(); }
    bool s = m == 1 && ISSTR(n->definition->fields[0].dataType) && ISSTR(n->definition->fields[1].dataType);
    DataTypeNode_clear(n); free(n); VAC(m == 0); VAC(m == 2); VAC(s); }
#endif
#ifdef OB_field
/* P15: a new field is appended, empty; the earlier ones stay, for any number of fields */
size_t G_n, G_K; NL_DataTypeDefinitionField G_fk, *G_tab; bool G_moved;
/* contract of realloc for a table of G_n fields: the arbitrary tracked element K is kept, the rest is arbitrary */
static void *vf_realloc(void *p, size_t n) { __CPROVER_assert(p == (G_n ? (void *)G_tab : NULL) || p == NULL && G_n == 0, "the table of fields"); __CPROVER_assert(n >= (G_n + 1) * sizeof(NL_DataTypeDefinitionField), "room for the new field");
    char *q = (char *)malloc(n); __CPROVER_assume(q != NULL); if(G_K < G_n) ((NL_DataTypeDefinitionField *)q)[G_K] = G_fk; G_moved = true; return q; }
#define realloc vf_realloc
void UA_NodeId_clear(UA_NodeId *p) { (void)p; }
#include "gen/src/nodes/DataTypeNode.c"
void harness(void) { NL_DataTypeDefinition d, d0; G_n = nondet_size_t(); G_K = nondet_size_t(); __CPROVER_assume(G_n < 100000); static NL_DataTypeDefinitionField any; G_tab = &any; d.fields = G_n ? G_tab : NULL; d.fieldCnt = G_n; d0 = d; NL_DataTypeDefinitionField fk; fk.isOptional = nondet_bool(); fk.dataType = owned(); G_fk = fk;
    NL_DataTypeDefinitionField *f = DataTypeNode_addDefinitionField(&d);
    ENS(d.fieldCnt == G_n + 1); ENS(f == d.fields + G_n); ENS(d.isEnum == d0.isEnum && d.isUnion == d0.isUnion && d.isOptionSet == d0.isOptionSet);
    ENS(f->name == NULL && f->valueRank == 0 && f->value == 0 && !f->isOptional && f->dataType.namespaceIndex == 0 && f->dataType.identifierType == UA_NODEIDTYPE_NUMERIC && f->dataType.identifier.numeric == 0);
    if(G_K < G_n) { NL_DataTypeDefinitionField *k = &d.fields[G_K]; ENS(k->name == G_fk.name && k->valueRank == G_fk.valueRank && k->value == G_fk.value && k->isOptional == G_fk.isOptional && vf_ideq(&k->dataType, &G_fk.dataType)); }
    VAC(G_n > 7 && G_K == 3); VAC(G_n == 0); }
#endif
#if defined(OB_nsnew) || defined(OB_cleanup)
enum { O_ARENA, O_ALIAS, O_NAMES, O_SORT, O_CONT, O_N = O_CONT + 10 };
int G_made[O_N], G_gone[O_N], G_nc; bool G_pending, G_bad; struct obj { int x; } G_o[O_N]; NodeContainer G_c[10]; bool G_owner[10]; size_t G_init[10]; NL_addNamespaceCallback G_cb; Nodeset *G_ns;
static void gone(int i, void *p, void *want) { if(p != want) G_bad = true; G_gone[i]++; }
CharArenaAllocator *CharArenaAllocator_new(size_t n) { G_made[O_ARENA]++; return (CharArenaAllocator *)&G_o[O_ARENA]; }
void CharArenaAllocator_delete(struct CharArenaAllocator *a) { gone(O_ARENA, a, &G_o[O_ARENA]); }
AliasList *AliasList_new(void) { G_made[O_ALIAS]++; return (AliasList *)&G_o[O_ALIAS]; }
void AliasList_delete(AliasList *l) { gone(O_ALIAS, l, &G_o[O_ALIAS]); }
NamespaceList *NamespaceList_new(NL_addNamespaceCallback cb) { G_cb = cb; G_made[O_NAMES]++; return (NamespaceList *)&G_o[O_NAMES]; }
void NamespaceList_delete(NamespaceList *l) { gone(O_NAMES, l, &G_o[O_NAMES]); }
SortContext *Sort_init(void) { G_made[O_SORT]++; return (SortContext *)&G_o[O_SORT]; }
void Sort_cleanup(SortContext *s) { if(!G_pending) G_bad = true; gone(O_SORT, s, &G_o[O_SORT]); }
/* nodes which are still in the sort context get an owner before the containers go */
NL_Node G_left; int G_adds; NodeContainer *G_to;
void Sort_forEachPending(SortContext *s, struct Nodeset *ns, Sort_SortedNodeCallback cb) { if(ns != G_ns || (void *)s != (void *)&G_o[O_SORT] || G_pending || G_gone[O_SORT]) G_bad = true; for(int i = 0; i < 10; i++) if(G_gone[O_CONT + i]) G_bad = true;
    G_pending = true; G_left.nodeClass = (NL_NodeClass)nondet_int(); __CPROVER_assume((int)G_left.nodeClass >= 0 && (int)G_left.nodeClass < 8); cb(ns, &G_left); }
NodeContainer *NodeContainer_new(size_t n, bool owner) { if(G_nc >= 10) { G_bad = true; return NULL; } G_init[G_nc] = n; G_owner[G_nc] = owner; return &G_c[G_nc++]; }
void NodeContainer_add(NodeContainer *c, NL_Node *n) { if(n != &G_left) G_bad = true; G_adds++; G_to = c; }
void NodeContainer_delete(NodeContainer *c) { if(!G_pending) G_bad = true; bool f = false; for(int i = 0; i < 10; i++) if(c == &G_c[i]) { G_gone[O_CONT + i]++; f = true; } if(!f) G_bad = true; }
#ifdef OB_nsnew
UA_StatusCode UA_NodeId_parse(UA_NodeId *id, const UA_String s) { return 0; }
UA_NodeId UA_NODEID(const char *s) { UA_NodeId i; return i; }
UA_StatusCode UA_NodeId_print(const UA_NodeId *id, UA_String *o) { return 0; }
void UA_String_clear(UA_String *s) { (void)s; }
#endif
bool Sort_addNode(SortContext *c, struct NL_Node *n) { return nondet_bool(); }
bool Sort_start(SortContext *c, struct Nodeset *n, Sort_SortedNodeCallback cb, struct NodesetLoader_Logger *l) { return nondet_bool(); }
char *CharArenaAllocator_malloc(CharArenaAllocator *a, size_t n) { return NULL; }
Namespace *NamespaceList_newNamespace(NamespaceList *l, void *u, const char *uri) { return NULL; }
const Namespace *NamespaceList_getNamespace(const NamespaceList *l, int i) { return NULL; }
Alias *AliasList_newAlias(AliasList *l, char *n) { return NULL; }
const UA_NodeId *AliasList_getNodeId(const AliasList *l, const char *a) { return NULL; }
NL_DataTypeDefinition *DataTypeDefinition_new(NL_DataTypeNode *n) { return NULL; }
NL_DataTypeDefinitionField *DataTypeNode_addDefinitionField(NL_DataTypeDefinition *d) { return NULL; }
NL_Node *Node_new(NL_NodeClass c) { return NULL; }
void Node_delete(NL_Node *n) { (void)n; }
#include "gen/src/Nodeset.c"
static unsigned short ncb(void *u, const char *s) { return 1; }
#endif
#ifdef OB_nsnew
void harness(void) { NodesetLoader_Logger *lg = (NodesetLoader_Logger *)nondet_ptr(); NL_ReferenceService *rs = (NL_ReferenceService *)nondet_ptr(); NL_addNamespaceCallback cb = nondet_bool() ? ncb : NULL;
    Nodeset *n = Nodeset_new(cb, lg, rs); ENS(n != NULL); ENS(!G_bad && G_nc == 10);
    ENS(n->charArena == (CharArenaAllocator *)&G_o[O_ARENA] && n->aliasList == (AliasList *)&G_o[O_ALIAS] && n->namespaces == (NamespaceList *)&G_o[O_NAMES] && n->sortCtx == (SortContext *)&G_o[O_SORT]);
    ENS(G_made[0] == 1 && G_made[1] == 1 && G_made[2] == 1 && G_made[3] == 1); ENS(G_cb == cb && n->logger == lg && n->refService == rs && n->hasEncodingRefs == NULL);
    int seen[10]; for(int i = 0; i < 10; i++) seen[i] = 0;
    for(int i = 0; i < 10; i++) { NodeContainer *c = i < 8 ? n->nodes[i] : i == 8 ? n->nodesWithUnknownRefs : n->refTypesWithUnknownRefs; for(int k = 0; k < 10; k++) if(c == &G_c[k]) seen[k]++; }
    for(int i = 0; i < 10; i++) { ENS(seen[i] == 1); ENS(G_owner[i]); ENS(G_init[i] > 0); }
    VAC(cb == NULL); VAC(cb != NULL); free(n); }
#endif
#ifdef OB_cleanup
void harness(void) { Nodeset *n = (Nodeset *)calloc(1, sizeof *n); G_ns = n; n->charArena = (CharArenaAllocator *)&G_o[O_ARENA]; n->aliasList = (AliasList *)&G_o[O_ALIAS]; n->namespaces = (NamespaceList *)&G_o[O_NAMES]; n->sortCtx = (SortContext *)&G_o[O_SORT];
    for(int i = 0; i < 8; i++) n->nodes[i] = &G_c[i]; n->nodesWithUnknownRefs = &G_c[8]; n->refTypesWithUnknownRefs = &G_c[9];
    int k = nondet_int(); __CPROVER_assume(k >= 0 && k <= 3); bool s = true; for(int i = 0; i < k; i++) { NL_BiDirectionalReference *b = NEW(NL_BiDirectionalReference); b->source = owned(); b->target = owned(); b->refType = owned(); s = s && ISSTR(b->source) && ISSTR(b->target) && ISSTR(b->refType); b->next = n->hasEncodingRefs; n->hasEncodingRefs = b; }
    Nodeset_cleanup(n);
    ENS(!G_bad && G_pending); for(int i = 0; i < O_N; i++) ENS(G_gone[i] == 1); ENS(G_adds == 1 && G_to == &G_c[G_left.nodeClass]);
    VAC(k == 3 && s); VAC(k == 0); }
#endif
