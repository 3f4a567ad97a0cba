/* Contracts of the XML callbacks (src/NodesetLoader.c).
 * The state machine is specified by the tables spec_start/spec_end; the
 * functions it calls are known by their interface only (they record the call). */
#include "cstr.h"
#include <NodesetLoader/NodesetLoader.h>
size_t G_J, G_nameLen; const char *G_name;
/* ---- recorded effects ---- */
enum { E_NONE, E_NEWNODE, E_NEWALIAS, E_DISPLAY, E_DESCR, E_INVERSE, E_VALUENEW, E_DEFINITION, E_FIELD, E_VALSTART, E_EXTNEW, E_EXTSTART, E_NEWREF,
       E_ALIASFIN, E_NSFIN, E_NODEFIN, E_DISPLAYFIN, E_DESCRFIN, E_INVERSEFIN, E_REFFIN, E_VALEND, E_VALDEL, E_EXTEND, E_EXTFIN };
struct ev { int what; const void *p, *q, *r; long n; };
struct ev G_ev[4]; int G_n;
static void rec(int what, const void *p, const void *q, const void *r, long n) { if(G_n < 4) { G_ev[G_n].what = what; G_ev[G_n].p = p; G_ev[G_n].q = q; G_ev[G_n].r = r; G_ev[G_n].n = n; } G_n++; }
#include "Nodeset.h"
#include "nodes/Node.h"
struct Alias; 
Nodeset *G_nodeset; NL_Node *G_newNode; struct Alias *G_newAlias; NL_Value *G_newVal; NL_Reference *G_newRef; void *G_newExt;
static bool nsok(const Nodeset *n) { return n == G_nodeset; }
#define NS(n) __CPROVER_precondition(nsok(n), "the loader's own nodeset")
NL_Node *Nodeset_newNode(Nodeset *n, NL_NodeClass c, int nb, const char **a) { NS(n); rec(E_NEWNODE, a, (void *)(size_t)nb, NULL, c); return G_newNode; }
struct Alias *Nodeset_newAlias(Nodeset *n, int nb, const char **a) { NS(n); rec(E_NEWALIAS, a, (void *)(size_t)nb, NULL, 0); return G_newAlias; }
void Nodeset_setDisplayName(Nodeset *n, NL_Node *node, int nb, const char **a) { NS(n); rec(E_DISPLAY, a, (void *)(size_t)nb, node, 0); }
void Nodeset_setDescription(Nodeset *n, NL_Node *node, int nb, const char **a) { NS(n); rec(E_DESCR, a, (void *)(size_t)nb, node, 0); }
void Nodeset_setInverseName(Nodeset *n, NL_Node *node, int nb, const char **a) { NS(n); rec(E_INVERSE, a, (void *)(size_t)nb, node, 0); }
NL_Value *Value_new(const NL_Node *node) { rec(E_VALUENEW, NULL, NULL, node, 0); return G_newVal; }
void Nodeset_addDataTypeDefinition(Nodeset *n, NL_Node *node, int nb, const char **a) { NS(n); rec(E_DEFINITION, a, (void *)(size_t)nb, node, 0); }
void Nodeset_addDataTypeField(Nodeset *n, NL_Node *node, int nb, const char **a) { NS(n); rec(E_FIELD, a, (void *)(size_t)nb, node, 0); }
NL_Reference *Nodeset_newReference(Nodeset *n, NL_Node *node, int nb, const char **a) { NS(n); rec(E_NEWREF, a, (void *)(size_t)nb, node, 0); return G_newRef; }
char G_copied; bool G_copyOk;
void Value_start(NL_Value *v, const char *name) {
    /* the tree keeps the name: it needs a copy of its own, zero terminated */
    G_copyOk = !__CPROVER_same_object(name, G_name) && __CPROVER_r_ok(name, G_nameLen + 1) && name[G_nameLen] == 0 && IMP(G_J < G_nameLen, name[G_J] == G_name[G_J]);
    rec(E_VALSTART, v, NULL, NULL, 0); }
void Value_end(NL_Value *v, const char *name, const char *text) { rec(E_VALEND, v, name, text, 0); }
void Value_delete(NL_Value *v) { rec(E_VALDEL, v, NULL, NULL, 0); }
void Nodeset_newAliasFinish(Nodeset *n, struct Alias *a, char *t) { NS(n); rec(E_ALIASFIN, a, t, NULL, 0); }
void Nodeset_newNamespaceFinish(Nodeset *n, void *u, char *t) { NS(n); rec(E_NSFIN, u, t, NULL, 0); }
void Nodeset_newNodeFinish(Nodeset *n, NL_Node *node) { NS(n); rec(E_NODEFIN, NULL, NULL, node, 0); }
void Nodeset_DisplayNameFinish(const Nodeset *n, NL_Node *node, char *t) { NS(n); rec(E_DISPLAYFIN, t, NULL, node, 0); }
void Nodeset_DescriptionFinish(const Nodeset *n, NL_Node *node, char *t) { NS(n); rec(E_DESCRFIN, t, NULL, node, 0); }
void Nodeset_InverseNameFinish(const Nodeset *n, NL_Node *node, char *t) { NS(n); rec(E_INVERSEFIN, t, NULL, node, 0); }
void Nodeset_newReferenceFinish(Nodeset *n, NL_Reference *ref, NL_Node *node, char *t) { NS(n); rec(E_REFFIN, ref, t, node, 0); }
void *x_new(void) { rec(E_EXTNEW, NULL, NULL, NULL, 0); return G_newExt; }
void x_start(void *d, const char *name, int nb, const char **a) { rec(E_EXTSTART, d, name, a, nb); }
void x_end(void *d, const char *name, const char *v) { rec(E_EXTEND, d, name, v, 0); }
void x_fin(void *d) { rec(E_EXTFIN, d, NULL, NULL, 0); }
#ifndef OB_onchar
/* contract of the arena as proved in arena.c: a zeroed block of its own */
char *CharArenaAllocator_malloc(CharArenaAllocator *a, size_t size) {
    char *p = (char *)malloc(size); __CPROVER_assume(p != NULL); if(G_J < size) __CPROVER_assume(p[G_J] == 0); if(size) __CPROVER_assume(p[size - 1] == 0); return p; }
char *CharArenaAllocator_realloc(CharArenaAllocator *a, size_t size) { __CPROVER_assert(0, "no text grows at a tag"); return NULL; }
#else
/* contract of the arena as proved in arena.c; the last block is G_blk[0..G_bs), its bytes behind the text are zero (at G_I) */
char *G_blk; size_t G_bs, G_I; CharArenaAllocator *G_arena; int G_allocs;
char *CharArenaAllocator_malloc(CharArenaAllocator *a, size_t size) {
    __CPROVER_precondition(a == G_arena, "the loader's arena"); G_allocs++;
    G_blk = (char *)malloc(size); __CPROVER_assume(G_blk != NULL); G_bs = size; if(G_I < size) __CPROVER_assume(G_blk[G_I] == 0); return G_blk; }
char *CharArenaAllocator_realloc(CharArenaAllocator *a, size_t size) {
    __CPROVER_precondition(a == G_arena, "the loader's arena"); G_allocs++;
    char c = G_I < G_bs ? G_blk[G_I] : 0; bool stay = nondet_bool();
    char *n = (char *)malloc(G_bs + size); __CPROVER_assume(n != NULL);
    if(G_I < G_bs + size) __CPROVER_assume(n[G_I] == c);
    G_blk = n; G_bs += size; return n; }
#endif
#include "gen/src/NodesetLoader.c"

#define NNODE 8
static size_t node_size(int c) { switch(c) { case NODECLASS_OBJECT: return sizeof(NL_ObjectNode); case NODECLASS_OBJECTTYPE: return sizeof(NL_ObjectTypeNode); case NODECLASS_VARIABLE: return sizeof(NL_VariableNode);
    case NODECLASS_DATATYPE: return sizeof(NL_DataTypeNode); case NODECLASS_METHOD: return sizeof(NL_MethodNode); case NODECLASS_REFERENCETYPE: return sizeof(NL_ReferenceTypeNode); case NODECLASS_VARIABLETYPE: return sizeof(NL_VariableTypeNode); default: return sizeof(NL_ViewNode); } }
static NL_Node *some_node(void) { int c = nondet_int(); __CPROVER_assume(c >= 0 && c < 8); NL_Node *n = (NL_Node *)malloc(node_size(c)); __CPROVER_assume(n != NULL); n->nodeClass = (NL_NodeClass)c; return n; }
TParserCtx G_o;      /* the context before the call */
NodesetLoader_ExtensionInterface G_x;
const char **G_attrs; int G_nb; NL_Value *G_oldVal, *G_nodeVal;
static int es(const TParserCtx *c) { return c->state == PARSER_STATE_UNKNOWN ? c->prev_state : c->state; }
static bool has_node(int s) { return !(s == PARSER_STATE_INIT || s == PARSER_STATE_ALIAS || s == PARSER_STATE_NAMESPACEURIS || s == PARSER_STATE_URI); }
/* invariant of the parser context between two callbacks */
static bool wf(const TParserCtx *c) {
    return (int)c->state >= PARSER_STATE_INIT && c->state <= PARSER_STATE_DATATYPE_DEFINITION_FIELD
        && IMP(c->state == PARSER_STATE_UNKNOWN, c->unknown_depth >= 1 && (int)c->prev_state >= PARSER_STATE_INIT && c->prev_state <= PARSER_STATE_DATATYPE_DEFINITION_FIELD && c->prev_state != PARSER_STATE_UNKNOWN
                && c->prev_state != PARSER_STATE_VALUE && c->prev_state != PARSER_STATE_EXTENSION)
        && IMP(c->state != PARSER_STATE_UNKNOWN && c->state != PARSER_STATE_VALUE && c->state != PARSER_STATE_EXTENSION, c->unknown_depth == 0)
        && has_node(es(c)) == (c->node != NULL) && (c->state == PARSER_STATE_VALUE) == (c->val != NULL); }
/* what every callback leaves alone; node, alias, ref, val, extensionData are compared with the expected ones */
static bool frame(const TParserCtx *c) { return c->userContext == G_o.userContext && c->nodeset == G_o.nodeset && c->extIf == G_o.extIf && c->onCharacters == NULL && c->onCharLength == 0 && wf(c); }
static bool evn(int i, int what, const void *p, const void *q, const void *r, long n) { return G_ev[i].what == what && G_ev[i].p == p && G_ev[i].q == q && G_ev[i].r == r && G_ev[i].n == n; }
static bool is(const char *lit) { return vf_strcmp(G_name, lit) == 0; }
#define NB ((void *)(size_t)G_nb)
/* expected result: state, depth, one recorded call, the objects under construction */
struct want { int state; size_t depth; int what; const void *p, *q, *r; long n; NL_Node *node; NL_Value *val; struct Alias *alias; NL_Reference *ref; };
static struct want same(void) { struct want w; w.state = G_o.state; w.depth = G_o.unknown_depth; w.what = E_NONE; w.p = w.q = w.r = NULL; w.n = 0; w.node = G_o.node; w.val = G_o.val; w.alias = G_o.alias; w.ref = G_o.ref; return w; }
static struct want attrs_call(int state, int what, const void *r, long n) { struct want w = same(); w.state = state; w.what = what; w.p = G_attrs; w.q = NB; w.r = r; w.n = n; return w; }
static struct want to(int state) { struct want w = same(); w.state = state; return w; }
static struct want unknown(void) { struct want w = same(); w.state = PARSER_STATE_UNKNOWN; w.depth = 1; return w; }
static struct want newnode(int cls) { struct want w = attrs_call(PARSER_STATE_NODE, E_NEWNODE, NULL, cls); w.node = G_newNode; return w; }
static struct want spec_start(void) {
    struct want w;
    switch(G_o.state) {
    case PARSER_STATE_INIT:
        if(is("UAVariable")) return newnode(NODECLASS_VARIABLE);
        if(is("UAObject")) return newnode(NODECLASS_OBJECT);
        if(is("UAObjectType")) return newnode(NODECLASS_OBJECTTYPE);
        if(is("UADataType")) return newnode(NODECLASS_DATATYPE);
        if(is("UAMethod")) return newnode(NODECLASS_METHOD);
        if(is("UAReferenceType")) return newnode(NODECLASS_REFERENCETYPE);
        if(is("UAVariableType")) return newnode(NODECLASS_VARIABLETYPE);
        if(is("UAView")) return newnode(NODECLASS_VIEW);
        if(is("NamespaceUris")) return to(PARSER_STATE_NAMESPACEURIS);
        if(is("Alias")) { w = attrs_call(PARSER_STATE_ALIAS, E_NEWALIAS, NULL, 0); w.alias = G_newAlias; return w; }
        if(is("UANodeSet") || is("Aliases") || is("Extensions")) return same();
        return unknown();
    case PARSER_STATE_NAMESPACEURIS: return is("Uri") ? to(PARSER_STATE_URI) : unknown();
    case PARSER_STATE_NODE:
        if(is("DisplayName")) return attrs_call(PARSER_STATE_DISPLAYNAME, E_DISPLAY, G_o.node, 0);
        if(is("Description")) return attrs_call(PARSER_STATE_DESCRIPTION, E_DESCR, G_o.node, 0);
        if(is("InverseName")) return attrs_call(PARSER_STATE_INVERSENAME, E_INVERSE, G_o.node, 0);
        if(is("References")) return to(PARSER_STATE_REFERENCES);
        if(is("Extensions")) return to(PARSER_STATE_EXTENSIONS);
        if(is("Definition")) return attrs_call(PARSER_STATE_DATATYPE_DEFINITION, E_DEFINITION, G_o.node, 0);
        if(is("Value")) { w = to(PARSER_STATE_VALUE); w.what = E_VALUENEW; w.r = G_o.node; w.val = G_newVal; return w; }
        return unknown();
    case PARSER_STATE_DATATYPE_DEFINITION: return is("Field") ? attrs_call(PARSER_STATE_DATATYPE_DEFINITION_FIELD, E_FIELD, G_o.node, 0) : unknown();
    case PARSER_STATE_REFERENCES: if(is("Reference")) { w = attrs_call(PARSER_STATE_REFERENCE, E_NEWREF, G_o.node, 0); w.ref = G_newRef; return w; } return unknown();
    case PARSER_STATE_EXTENSIONS: if(is("Extension")) { w = to(PARSER_STATE_EXTENSION); if(G_o.extIf) w.what = E_EXTNEW; return w; } return unknown();
    case PARSER_STATE_VALUE: w = same(); w.depth++; w.what = E_VALSTART; w.p = G_o.val; return w;
    case PARSER_STATE_EXTENSION: w = same(); w.depth++; if(G_o.extIf) { w.what = E_EXTSTART; w.p = G_o.extensionData; w.q = G_name; w.r = G_attrs; w.n = G_nb; } return w;
    case PARSER_STATE_UNKNOWN: w = same(); w.depth++; return w;
    default: return unknown();   /* texts: no element inside is known */
    }
}
static struct want text_call(int state, int what) { struct want w = same(); w.state = state; w.what = what; w.p = G_o.onCharacters; w.r = G_o.node; return w; }
static struct want spec_end(void) {
    struct want w = same();
    switch(G_o.state) {
    case PARSER_STATE_INIT: return w;
    case PARSER_STATE_ALIAS: w.state = PARSER_STATE_INIT; w.what = E_ALIASFIN; w.p = G_o.alias; w.q = G_o.onCharacters; return w;
    case PARSER_STATE_URI: w.state = PARSER_STATE_NAMESPACEURIS; w.what = E_NSFIN; w.p = G_o.userContext; w.q = G_o.onCharacters; return w;
    case PARSER_STATE_NAMESPACEURIS: return to(PARSER_STATE_INIT);
    case PARSER_STATE_NODE: w.state = PARSER_STATE_INIT; w.what = E_NODEFIN; w.r = G_o.node; w.node = NULL; return w;
    case PARSER_STATE_DISPLAYNAME: return text_call(PARSER_STATE_NODE, E_DISPLAYFIN);
    case PARSER_STATE_DESCRIPTION: return text_call(PARSER_STATE_NODE, E_DESCRFIN);
    case PARSER_STATE_INVERSENAME: return text_call(PARSER_STATE_NODE, E_INVERSEFIN);
    case PARSER_STATE_REFERENCE: w.state = PARSER_STATE_REFERENCES; w.what = E_REFFIN; w.p = G_o.ref; w.q = G_o.onCharacters; w.r = G_o.node; return w;
    case PARSER_STATE_VALUE:
        if(G_o.unknown_depth == 0) { w.state = PARSER_STATE_NODE; w.val = NULL;   /* the variable takes the value (and drops an older one), other classes drop it */
            if(G_o.node->nodeClass != NODECLASS_VARIABLE) { w.what = E_VALDEL; w.p = G_o.val; } else if(G_nodeVal) { w.what = E_VALDEL; w.p = G_nodeVal; } return w; }
        w.depth--; w.what = E_VALEND; w.p = G_o.val; w.q = G_name; w.r = G_o.onCharacters; return w;
    case PARSER_STATE_EXTENSION:
        if(G_o.unknown_depth == 0) { w.state = PARSER_STATE_EXTENSIONS; if(G_o.extIf) { w.what = E_EXTFIN; w.p = G_o.extensionData; } return w; }
        w.depth--; if(G_o.extIf) { w.what = E_EXTEND; w.p = G_o.extensionData; w.q = G_name; w.r = G_o.onCharacters; } return w;
    case PARSER_STATE_UNKNOWN: w.depth--; if(w.depth == 0) w.state = G_o.prev_state; return w;
    case PARSER_STATE_DATATYPE_DEFINITION_FIELD: return to(PARSER_STATE_DATATYPE_DEFINITION);
    default: return to(PARSER_STATE_NODE);   /* References, Extensions, Definition */
    }
}
static bool meets(const TParserCtx *c, struct want w) {
#ifdef ONLYTEXT
    /* the text: forgotten at every tag; what is handed on at the end of an element is what was collected for it */
    return c->onCharacters == NULL && c->onCharLength == 0 && IMP(G_n == 1 && w.what != E_NONE && G_ev[0].what == w.what, evn(0, w.what, w.p, w.q, w.r, w.n));
#endif
    int e = es(c);
    return (int)c->state == w.state && c->unknown_depth == w.depth && frame(c) && c->node == w.node && c->val == w.val
        && IMP(e == PARSER_STATE_ALIAS, c->alias == w.alias) && IMP(e == PARSER_STATE_REFERENCE, c->ref == w.ref)
        && IMP(c->state == PARSER_STATE_UNKNOWN, (int)c->prev_state == (G_o.state == PARSER_STATE_UNKNOWN ? (int)G_o.prev_state : (int)G_o.state))
        && IMP(e == PARSER_STATE_EXTENSION && G_o.extIf, c->extensionData == (G_o.state == PARSER_STATE_EXTENSION ? G_o.extensionData : G_newExt))
        && G_n == (w.what != E_NONE) && IMP(w.what != E_NONE, evn(0, w.what, w.p, w.q, w.r, w.n)); }
TParserCtx *G_c;
static void setup(void) {
    G_c = (TParserCtx *)malloc(sizeof *G_c); G_nodeset = (Nodeset *)malloc(sizeof *G_nodeset); __CPROVER_assume(G_c && G_nodeset);
    G_c->nodeset = G_nodeset; G_n = 0; G_J = nondet_size_t(); G_copyOk = true;
    if(nondet_bool()) { G_c->node = some_node(); } else G_c->node = NULL;
    if(nondet_bool()) { G_c->val = (NL_Value *)malloc(sizeof(NL_Value)); __CPROVER_assume(G_c->val); } else G_c->val = NULL;
    G_nodeVal = NULL;
    if(G_c->node && G_c->node->nodeClass == NODECLASS_VARIABLE) { if(nondet_bool()) { G_nodeVal = (NL_Value *)malloc(sizeof(NL_Value)); __CPROVER_assume(G_nodeVal); } ((NL_VariableNode *)G_c->node)->value = G_nodeVal; }
    G_x.newExtension = x_new; G_x.start = x_start; G_x.end = x_end; G_x.finish = x_fin;
    G_c->extIf = nondet_bool() ? &G_x : NULL;
    G_newNode = some_node(); G_newAlias = (struct Alias *)malloc(8); G_newVal = (NL_Value *)malloc(sizeof(NL_Value)); __CPROVER_assume(G_newVal); G_newRef = (NL_Reference *)malloc(sizeof(NL_Reference)); G_newExt = nondet_ptr();
    __CPROVER_assume(wf(G_c) && G_c->unknown_depth < (size_t)-1);
    G_nameLen = nondet_size_t(); __CPROVER_assume(G_nameLen < ((size_t)1 << 30)); char *nm = (char *)malloc(G_nameLen + 1); __CPROVER_assume(nm != NULL); nm[G_nameLen] = 0; if(G_J < G_nameLen) __CPROVER_assume(nm[G_J] != 0); G_name = nm;
    G_attrs = nondet_ptr(); G_nb = nondet_int(); __CPROVER_assume(G_nb >= 0);
    /* the parser reports balanced tags: the tag which ends a value or an extension has its name */
#ifdef OB_end
    __CPROVER_assume(IMP(G_c->unknown_depth == 0 && G_c->state == PARSER_STATE_VALUE, is("Value")));
    __CPROVER_assume(IMP(G_c->unknown_depth == 0 && G_c->state == PARSER_STATE_EXTENSION, is("Extension")));
#endif
    G_o = *G_c;
}
#ifdef OB_start
static bool post_start(const TParserCtx *c) { struct want w = spec_start(); return meets(c, w) && IMP(w.what == E_VALSTART, G_copyOk); }
void c_start(void *ctx, const char *localname, const char *prefix, const char *URI, int nb_namespaces, const char **namespaces, int nb_attributes, int nb_defaulted, const char **attributes)
__CPROVER_requires(ctx == G_c && localname == G_name && nb_attributes == G_nb && attributes == G_attrs)
__CPROVER_assigns(__CPROVER_object_whole(ctx), __CPROVER_object_whole(G_ev), G_n, G_copyOk)
;
void harness(void) { setup(); OnStartElementNs(G_c, G_name, nondet_ptr(), nondet_ptr(), nondet_int(), nondet_ptr(), G_nb, nondet_int(), G_attrs); ENS(post_start(G_c));
    VAC(G_o.state == PARSER_STATE_INIT && G_c->state == PARSER_STATE_NODE && G_ev[0].n == NODECLASS_VIEW); VAC(G_o.state == PARSER_STATE_REFERENCES && G_n == 1); VAC(G_o.state == PARSER_STATE_UNKNOWN && G_o.unknown_depth > 5); VAC(G_o.state == PARSER_STATE_VALUE && G_nameLen > 30 && G_J == 17); VAC(G_c->state == PARSER_STATE_ALIAS); VAC(G_c->state == PARSER_STATE_EXTENSION && G_n == 0); }
#endif
#ifdef OB_end
static bool post_end(const TParserCtx *c) { struct want w = spec_end(); bool ended = G_o.unknown_depth == 0;
    return meets(c, w) && IMP(G_o.state == PARSER_STATE_VALUE && ended && G_o.node->nodeClass == NODECLASS_VARIABLE, ((NL_VariableNode *)G_o.node)->value == G_o.val)
        && IMP(G_o.state == PARSER_STATE_EXTENSION && ended && G_o.extIf, G_o.node->extension == G_o.extensionData); }
void c_end(void *ctx, const char *localname, const char *prefix, const char *URI)
__CPROVER_requires(ctx == G_c && localname == G_name)
__CPROVER_assigns(__CPROVER_object_whole(ctx), __CPROVER_object_whole(G_ev), G_n)
__CPROVER_assigns(G_c->state == PARSER_STATE_EXTENSION && G_c->node != NULL: G_c->node->extension)
__CPROVER_assigns(G_c->state == PARSER_STATE_VALUE && G_c->node != NULL && G_c->node->nodeClass == NODECLASS_VARIABLE: ((NL_VariableNode *)G_c->node)->value)
;
void harness(void) { setup(); OnEndElementNs(G_c, G_name, nondet_ptr(), nondet_ptr()); ENS(post_end(G_c));
    VAC(G_o.state == PARSER_STATE_VALUE && G_c->state == PARSER_STATE_NODE && G_n == 1 && G_o.node->nodeClass == NODECLASS_VARIABLE); VAC(G_o.state == PARSER_STATE_UNKNOWN && G_c->state == PARSER_STATE_REFERENCE); VAC(G_o.state == PARSER_STATE_EXTENSION && G_c->state == PARSER_STATE_EXTENSIONS && G_n == 0); VAC(G_o.state == PARSER_STATE_NODE); VAC(G_o.state == PARSER_STATE_ALIAS); }
#endif
#ifdef OB_onchar
/* text' = text ++ piece, zero terminated; invariant: the block ends behind the text and is zero there */
TParserCtx *G_c; size_t G_ol, G_pl; char G_t, *G_ch; size_t G_obs;
static bool post_char(const TParserCtx *c) {
    return c->onCharacters == G_blk && c->onCharLength == G_ol + G_pl && G_bs > c->onCharLength && __CPROVER_rw_ok(c->onCharacters, G_bs)
        && IMP(G_I < G_ol, c->onCharacters[G_I] == G_t)
        && IMP(G_I >= G_ol && G_I < G_ol + G_pl && G_J == G_I - G_ol, c->onCharacters[G_I] == G_ch[G_J])
        && IMP(G_I >= G_ol + G_pl && G_I < G_bs, c->onCharacters[G_I] == 0); }
static bool keep(const TParserCtx *c) { return c->state == G_o.state && c->prev_state == G_o.prev_state && c->unknown_depth == G_o.unknown_depth && c->node == G_o.node && c->val == G_o.val && c->alias == G_o.alias && c->ref == G_o.ref && c->nodeset == G_o.nodeset && c->userContext == G_o.userContext && c->extIf == G_o.extIf && c->extensionData == G_o.extensionData; }
void c_char(void *ctx, const char *ch, int len)
__CPROVER_requires(ctx == G_c && ch == G_ch && len >= 0 && (size_t)len == G_pl)
__CPROVER_assigns(__CPROVER_object_whole(ctx), G_blk, G_bs, G_allocs)
__CPROVER_assigns(G_blk != NULL: __CPROVER_object_whole(G_blk))
;
void harness(void) {
    G_c = (TParserCtx *)malloc(sizeof *G_c); G_nodeset = (Nodeset *)malloc(sizeof *G_nodeset); __CPROVER_assume(G_c && G_nodeset); G_c->nodeset = G_nodeset; G_arena = G_nodeset->charArena; G_allocs = 0;
    G_J = nondet_size_t(); G_I = nondet_size_t(); G_ol = nondet_size_t(); G_pl = nondet_size_t(); G_bs = nondet_size_t();
    __CPROVER_assume(G_pl < 0x7fffffff && G_ol < G_bs && G_bs < ((size_t)1 << 40));
    if(nondet_bool()) { G_blk = (char *)malloc(G_bs); __CPROVER_assume(G_blk != NULL); if(G_I < G_bs) { G_t = G_blk[G_I]; __CPROVER_assume(G_I < G_ol || G_t == 0); } } else { G_blk = NULL; G_ol = G_bs = 0; G_t = 0; }
    G_c->onCharacters = G_blk; G_c->onCharLength = G_ol;
    G_ch = (char *)malloc(G_pl); __CPROVER_assume(G_ch != NULL);
    if(G_I >= G_ol) __CPROVER_assume(G_J == G_I - G_ol); else __CPROVER_assume(G_J >= G_pl);
    G_o = *G_c; bool first = G_blk == NULL;
    OnCharacters(G_c, G_ch, (int)G_pl); ENS(post_char(G_c) && keep(G_c));
    VAC(first && G_pl > 100 && G_I < G_pl); VAC(!first && G_ol > 1000 && G_pl > 1000 && G_I > G_ol && G_I < G_ol + G_pl); VAC(!first && G_I < G_ol); VAC(!first && G_I == G_ol + G_pl); VAC(G_pl == 0); }
#endif
