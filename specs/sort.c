/* Contracts of the topological sort (src/Sort.c). */
#include "vf.h"
#include "ua_model.h"
#include <NodesetLoader/NodesetLoader.h>
/* total order of the library (trusted): here numeric ids of one namespace */
UA_Order UA_NodeId_order(const UA_NodeId *a, const UA_NodeId *b) {
    if(a->namespaceIndex != b->namespaceIndex) return a->namespaceIndex < b->namespaceIndex ? UA_ORDER_LESS : UA_ORDER_MORE;
    if(a->identifierType != b->identifierType) return a->identifierType < b->identifierType ? UA_ORDER_LESS : UA_ORDER_MORE;
    if(a->identifier.numeric != b->identifier.numeric) return a->identifier.numeric < b->identifier.numeric ? UA_ORDER_LESS : UA_ORDER_MORE;
    return UA_ORDER_EQ; }
#include "gen/src/nodes/InstanceNode.c"
#include "gen/src/Sort.c"
static UA_NodeId num(unsigned n) { UA_NodeId i; memset(&i, 0, sizeof i); i.namespaceIndex = 1; i.identifierType = UA_NODEIDTYPE_NUMERIC; i.identifier.numeric = n; return i; }
#define NEW(T) ((T *)malloc(sizeof(T)))
#ifdef OB_relation
/* one more edge from -> to at the front, one more predecessor of to; none for a node with itself */
void harness(void) { UA_NodeId a = nondet_id(), b = nondet_id(); S_Node f, t; f.id = &a; t.id = &b; S_Edge *e0 = (S_Edge *)nondet_ptr(); f.edges = e0; t.edges = NULL; size_t c0 = t.edgeCount = nondet_size_t(), d0 = f.edgeCount = nondet_size_t(); __CPROVER_assume(c0 < (size_t)1 << 60);
    record_relation(&f, &t); bool self = vf_ideq(&a, &b);
    ENS(self ? f.edges == e0 && t.edgeCount == c0 : f.edges != NULL && f.edges->dest == &t && f.edges->next == e0 && t.edgeCount == c0 + 1);
    ENS(f.edgeCount == d0 && t.edges == NULL && f.id == &a && t.id == &b); VAC(self); VAC(!self && c0 > 7); }
#endif
#ifdef OB_zeros
/* a node without predecessors which was not emitted yet is queued at the end, others are not */
void harness(void) { SortContext c; S_Node k, z; UA_NodeId i; k.id = nondet_bool() ? NULL : &i; k.edgeCount = nondet_size_t(); bool empty = nondet_bool(); c.head = empty ? NULL : &z; c.zeros = empty ? (S_Node *)nondet_ptr() : &z; z.qlink = NULL; k.qlink = NULL; c.keyCnt = nondet_size_t(); SortContext c0 = c;
    bool r = scan_zeros(&c, &k); bool q = k.id && k.edgeCount == 0;
    ENS(!r); ENS(c.keyCnt == c0.keyCnt && k.qlink == NULL);
    ENS(IMP(!q, c.head == c0.head && c.zeros == c0.zeros && z.qlink == NULL)); ENS(IMP(q, c.zeros == &k && (empty ? c.head == &k : c.head == &z && z.qlink == &k))); VAC(q && empty); VAC(q && !empty); VAC(!q && k.id); }
#endif
#ifdef OB_search
/* every id has exactly one node, found again after any sequence of insertions (search tree and its rotations) */
#ifndef NID
#define NID 5
#endif
static bool sorted(S_Node *n, int lo, int hi) { if(!n) return true; int v = (int)n->id->identifier.numeric; return lo < v && v < hi && sorted(n->left, lo, v) && sorted(n->right, v, hi); }
static int size(S_Node *n) { return n ? 1 + size(n->left) + size(n->right) : 0; }
void harness(void) { UA_NodeId id[NID]; S_Node *got[NID]; S_Node *root = new_node(NULL);
    for(int i = 0; i < NID; i++) { unsigned v = nondet_unsigned(); __CPROVER_assume(v >= 1 && v <= NID); id[i] = num(v); got[i] = search_node(root, &id[i]); ENS(got[i] != NULL && got[i] != root && vf_ideq(got[i]->id, &id[i])); }
    for(int i = 0; i < NID; i++) for(int j = 0; j < i; j++) ENS((got[i] == got[j]) == vf_ideq(&id[i], &id[j]));
    for(int i = 0; i < NID; i++) ENS(got[i]->edgeCount == 0 && got[i]->edges == NULL && got[i]->data == NULL && got[i]->qlink == NULL);
    int distinct = 0; for(int i = 0; i < NID; i++) { bool seen = false; for(int j = 0; j < i; j++) if(got[i] == got[j]) seen = true; if(!seen) distinct++; }
    ENS(sorted(root->right, 0, NID + 1)); ENS(size(root->right) == distinct);   /* a search tree with exactly the added ids: all are found again */
    VAC(id[0].identifier.numeric == NID && id[1].identifier.numeric == NID - 1 && id[2].identifier.numeric == NID - 2); VAC(id[0].identifier.numeric == 3 && id[1].identifier.numeric == 1 && id[2].identifier.numeric == 2); VAC(got[0] == got[1]); }
#endif
#ifdef OB_addnode
/* adding one node: the relations handed on are exactly those of its hierarchical references; the tree and the edges by their contracts */
#define NR 3
S_Node *G_me, *G_other[NR + 1]; const UA_NodeId *G_ids[NR + 1]; S_Node *G_from[NR + 2], *G_to[NR + 2]; int G_rel, G_lookups;
/* two different ids never share an entry, equal ids do */
S_Node *spec_search(S_Node *root, const UA_NodeId *id) { if(vf_ideq(id, G_me->id)) return G_me; for(int i = 0; i < NR; i++) if(G_ids[i] && vf_ideq(id, G_ids[i])) return G_other[i]; for(int i = 0; i < NR; i++) if(!G_ids[i]) { G_ids[i] = id; return G_other[i]; } __CPROVER_assert(0, "only ids of the node are looked up"); return NULL; }
void spec_relation(S_Node *f, S_Node *t) { if(G_rel < NR + 2) { G_from[G_rel] = f; G_to[G_rel] = t; } G_rel++; }
static UA_NodeId some_id(void) { UA_NodeId i = nondet_id(); __CPROVER_assume(i.identifierType == UA_NODEIDTYPE_NUMERIC || i.identifierType == UA_NODEIDTYPE_STRING || i.identifierType == UA_NODEIDTYPE_GUID || i.identifierType == UA_NODEIDTYPE_BYTESTRING); return i; }
void harness(void) { NL_NodeClass c = (NL_NodeClass)nondet_int(); __CPROVER_assume(c >= 0 && c < NL_NODECLASS_COUNT); bool inst = c == NODECLASS_OBJECT || c == NODECLASS_VARIABLE || c == NODECLASS_METHOD || c == NODECLASS_VIEW;
    NL_VariableNode vn; NL_Node *n = (NL_Node *)&vn; vn.nodeClass = c; vn.id = some_id(); vn.parentNodeId = some_id(); UA_NodeId id0 = vn.id, p0 = vn.parentNodeId;
    NL_Reference ref[NR]; UA_NodeId t0[NR]; bool f0[NR]; int k = nondet_int(); __CPROVER_assume(k >= 0 && k <= NR); for(int i = 0; i < NR; i++) { ref[i].isForward = f0[i] = nondet_bool(); ref[i].target = t0[i] = some_id(); ref[i].refType = some_id(); ref[i].next = i + 1 < k ? &ref[i + 1] : NULL; } n->hierachicalRefs = k ? &ref[0] : NULL;
    /* the entry of the node itself, the entries of other ids; one of them may hold a node which refers to this one */
    S_Node me, ot[NR]; G_me = &me; me.id = &vn.id; bool dup = nondet_bool(); NL_Node old; me.data = dup ? &old : NULL; for(int i = 0; i < NR; i++) { G_other[i] = &ot[i]; G_ids[i] = NULL; ot[i].data = NULL; }
    NL_Node par; NL_Reference pr[2]; par.id = p0; int kp = nondet_int(); __CPROVER_assume(kp >= 0 && kp <= 2); for(int i = 0; i < 2; i++) { pr[i].isForward = nondet_bool(); pr[i].target = nondet_bool() ? id0 : some_id(); pr[i].refType = some_id(); pr[i].next = i + 1 < kp ? &pr[i + 1] : NULL; } par.hierachicalRefs = kp ? &pr[0] : NULL;
    bool known = nondet_bool() && k == 0; if(known) ot[0].data = &par;
    SortContext ctx; ctx.root1 = (S_Node *)nondet_ptr();
    bool r = Sort_addNode(&ctx, n);
    ENS(r == !dup); ENS(vf_ideq(&vn.id, &id0)); ENS(IMP(dup, G_rel == 0 && me.data == &old && n->hierachicalRefs == (k ? &ref[0] : NULL)));
    ENS(IMP(!dup, me.data == n));
    ENS(IMP(!dup && k > 0, G_rel == k && n->hierachicalRefs == &ref[0]));
    for(int i = 0; i < NR; i++) if(!dup && i < k) { S_Node *o = spec_search(NULL, &t0[i]); ENS(f0[i] ? G_from[i] == &me && G_to[i] == o : G_from[i] == o && G_to[i] == &me); ENS(ref[i].isForward == f0[i] && vf_ideq(&ref[i].target, &t0[i])); }
    /* no hierarchical reference: the parent id becomes one, with the type of the parent's own reference to the node if there is one */
    UA_NodeId null = UA_NODEID_NULL; bool gen = !dup && k == 0 && inst && !vf_ideq(&p0, &null);
    ENS(IMP(!dup && k == 0 && !gen, n->hierachicalRefs == NULL)); 
    if(gen) { NL_Reference *h = n->hierachicalRefs; ENS(h && h->next == NULL && vf_ideq(&h->target, &p0)); int m = -1; if(known && !vf_ideq(&p0, &id0)) for(int i = 1; i >= 0; i--) if(i < kp && vf_ideq(&pr[i].target, &id0)) m = i;
        if(!vf_ideq(&p0, &id0)) { if(m >= 0) ENS(h->isForward == !pr[m].isForward && vf_ideq(&h->refType, &pr[m].refType)); else ENS(!h->isForward && h->refType.namespaceIndex == 0 && h->refType.identifierType == UA_NODEIDTYPE_NUMERIC && h->refType.identifier.numeric == 47); } VAC(m == 1); VAC(m < 0); }
    VAC(dup); VAC(!dup && k == 3); VAC(gen); VAC(!dup && k == 2 && f0[0] && !f0[1]); VAC(!dup && k == 0 && !inst); }
#endif
#ifdef OB_sort
/* the sort itself on NN ids with arbitrary relations (adjacency bits), in a tree of any of several shapes; some ids have no node */
#ifndef NN
#define NN 4
#endif
#define BIT(i, j) (1u << ((i) * NN + (j)))
#define NBIT(i, j) ((before & BIT(i, j)) != 0)
NL_Node *G_node[NN]; int G_pos[NN], G_emitted; bool G_bad; int G_logs;
static void cb(struct Nodeset *ns, NL_Node *n) { for(int i = 0; i < NN; i++) if(n == G_node[i]) { if(G_pos[i]) G_bad = true; G_pos[i] = ++G_emitted; return; } G_bad = true; }
static void lg(void *ctx, enum NodesetLoader_LogLevel l, const char *m, ...) { G_logs++; }
void harness(void) { unsigned before = nondet_unsigned(); static S_Node sa, sb, sc, sd, root; static NL_Node na, nb, nc, nd; static UA_NodeId ia, ib, ic, id_; S_Node *s[4] = { &sa, &sb, &sc, &sd }; NL_Node *node[4] = { &na, &nb, &nc, &nd }; UA_NodeId *id[4] = { &ia, &ib, &ic, &id_ }; int have = 0;
    for(int i = 0; i < NN; i++) { *id[i] = num(i + 1); s[i]->id = id[i]; G_node[i] = node[i]; G_pos[i] = 0; s[i]->data = nondet_bool() ? NULL : node[i]; if(s[i]->data) have++; }
    __CPROVER_assume((before & (BIT(0, 0) | BIT(1, 1) | BIT(NN - 2, NN - 2) | BIT(NN - 1, NN - 1))) == 0);
    for(int i = 0; i < NN; i++) for(int j = 0; j < NN; j++) if(NBIT(i, j)) { S_Edge *x = NEW(S_Edge); x->dest = s[j]; x->next = s[i]->edges; s[i]->edges = x; s[j]->edgeCount++; }
    root.right = &sb; sb.left = &sa; sb.right = &sc; if(NN > 3) sc.right = &sd;
    SortContext c; c.head = c.zeros = NULL; c.keyCnt = 0; c.root1 = &root;
    unsigned reach = before; for(int k = 0; k < NN; k++) for(int i = 0; i < NN; i++) for(int j = 0; j < NN; j++) if((reach & BIT(i, k)) && (reach & BIT(k, j))) reach |= BIT(i, j);
    bool cyc = false; for(int i = 0; i < NN; i++) if(reach & BIT(i, i)) cyc = true;
    NodesetLoader_Logger l = { NULL, lg }; bool r = Sort_start(&c, NULL, cb, &l);
    /* a cycle is reported; otherwise every node is emitted exactly once, behind all nodes it depends on */
    ENS(!G_bad); ENS(r == !cyc); ENS(r == (G_logs == 0)); ENS(IMP(r, G_emitted == have)); ENS(IMP(!r, G_emitted <= have));
    for(int i = 0; i < NN; i++) { ENS(IMP(G_pos[i], s[i]->data != NULL && s[i]->id == NULL)); ENS(IMP(s[i]->data && !G_pos[i], s[i]->id != NULL)); for(int j = 0; j < NN; j++) ENS(IMP((reach & BIT(i, j)) && G_pos[j] && s[i]->data, G_pos[i] && G_pos[i] < G_pos[j])); }
    VAC(r && NBIT(0, 1) && NBIT(1, 2)); VAC(cyc && G_emitted == 1); VAC(r && NBIT(2, 0) && NBIT(0, 1) && !s[0]->data); }
#endif
#ifdef OB_pending
int G_n; NL_Node *G_d[3]; int G_c[3];
static void cb(struct Nodeset *ns, NL_Node *n) { for(int i = 0; i < 3; i++) if(n == G_d[i]) G_c[i]++; G_n++; }
/* what was not emitted is delivered once, then everything is released (leaks are checked) */
void harness(void) { SortContext *c = Sort_init(); UA_NodeId id = num(1); S_Node *n[3]; int exp[3]; 
    for(int i = 0; i < 3; i++) { n[i] = new_node(&id); G_d[i] = NEW(NL_Node); if(nondet_bool()) n[i]->id = NULL; n[i]->data = nondet_bool() ? NULL : G_d[i]; exp[i] = n[i]->id && n[i]->data; if(nondet_bool()) { S_Edge *e = NEW(S_Edge); e->next = NULL; e->dest = n[0]; n[i]->edges = e; if(nondet_bool()) { S_Edge *f = NEW(S_Edge); f->next = e; f->dest = n[1]; n[i]->edges = f; } } }
    if(nondet_bool()) { c->root1->right = n[0]; n[0]->left = n[1]; n[0]->right = n[2]; } else { c->root1->right = n[1]; n[1]->left = n[0]; n[0]->right = n[2]; }
    Sort_forEachPending(c, NULL, cb); ENS(G_n == exp[0] + exp[1] + exp[2]); for(int i = 0; i < 3; i++) ENS(G_c[i] == exp[i]);
    Sort_cleanup(c); for(int i = 0; i < 3; i++) free(G_d[i]); VAC(exp[0] && exp[1] && exp[2]); VAC(!exp[0] && exp[2]); }
#endif
