/* Contracts of the value tree (src/Value.c): the state machine which turns the
 * element events of a <Value> into a tree, its nodes, its text and its
 * destruction. */
#include "vf.h"
#include <NodesetLoader/NodesetLoader.h>
size_t G_I; const char *G_name, *G_cname; int G_cmp;
/* strcmp, strncmp: exact against a literal (the literal ends the loop); the comparison of two texts of the file has an arbitrary but fixed result */
static int vf_strcmp(const char *a, const char *b) {
    if((a == G_name && b == G_cname) || (b == G_name && a == G_cname)) { if(a == b) return 0; return a == G_name ? G_cmp : -G_cmp; }
    size_t i = 0; while(a[i] == b[i] && a[i]) i++;
    return (unsigned char)a[i] - (unsigned char)b[i]; }
static int vf_strncmp(const char *a, const char *b, size_t n) {
    for(size_t i = 0; i < n; i++) { if(a[i] != b[i]) return (unsigned char)a[i] - (unsigned char)b[i]; if(!a[i]) return 0; }
    return 0; }
/* realloc of a pointer table: trusted contract, instantiated at the arbitrary element G_I */
static void *vf_realloc(void *p, size_t n) {
    __CPROVER_precondition(p == NULL || __CPROVER_POINTER_OFFSET(p) == 0, "realloc argument"); __CPROVER_precondition(n > 0, "realloc size");
    void **q = (void **)malloc(n);
    if(p && G_I < n / sizeof(void *) && G_I < __CPROVER_OBJECT_SIZE(p) / sizeof(void *)) q[G_I] = ((void **)p)[G_I];
    free(p); return q; }
#define strcmp vf_strcmp
#define strncmp vf_strncmp
#define realloc vf_realloc
#include <ctype.h>
#undef isspace
static int vf_isspace(int c) { __CPROVER_precondition(c >= -1 && c <= 255, "isspace argument"); return c == ' ' || (c >= '\t' && c <= '\r'); }
#define isspace vf_isspace
#ifdef OB_white
/* the tested characters are those of the text, one after the other; G_seen: one of them is not white space */
char *G_text; size_t G_i, G_len; bool G_seen;
static int spec_isspace(int c) { __CPROVER_precondition(!G_seen && c == (unsigned char)G_text[G_i], "the next character is tested"); G_i++; if(!vf_isspace(c)) G_seen = true; return vf_isspace(c); }
#undef isspace
#define isspace spec_isspace
#endif
#ifdef OB_cclear
/* structural induction, step: each member is released once, then the table, whatever the number of members; the members are different (a node has one parent) */
size_t G_K, G_n, G_clears; int G_kc; NL_Data **G_m; NL_Data *G_child;
void spec_child(NL_Data *d) { __CPROVER_assume(G_clears == G_K || d != G_child); G_clears++; if(d == G_child) G_kc++; }
#endif
#include "gen/src/Value.c"
int G_cleared; NL_Data *G_clearedData;
void spec_clear(NL_Data *d) { G_cleared++; G_clearedData = d; }
#define ISWS(c) ((c) == ' ' || ((c) >= '\t' && (c) <= '\r'))
const char *G_wsin, *G_wsret; int G_ws;
const char *spec_ws(const char *v) { G_wsin = v; G_ws++; return G_wsret; }
/* ---- an arbitrary value in an arbitrary reachable state ---- */
NL_Value *val; NL_Value v0; ParserState s0; NL_Data *R, *C, *P, c0; size_t n; NL_Data *mI; char *nm, *cn;
#define NEW(T) ((T *)malloc(sizeof(T)))
static char *text(void) { size_t l = nondet_size_t(); __CPROVER_assume(l < LIM((size_t)1 << 40)); char *t = (char *)malloc(l + 1); t[l] = 0; return t; }
static void mk(void) {
    nm = text(); G_name = nm; cn = nondet_bool() ? nm : text(); G_cname = cn; G_cmp = nondet_int();
    val = NEW(NL_Value); val->ctx = NEW(NL_ParserCtx); s0 = val->ctx->state = (ParserState)nondet_int(); __CPROVER_assume(s0 >= PARSERSTATE_INIT && s0 <= PARSERSTATE_FINISHED);
    val->isArray = nondet_bool(); val->isExtensionObject = nondet_bool(); val->type = (const char *)nondet_ptr();
    P = NEW(NL_Data); NL_Data *gp = NEW(NL_Data); P->parent = nondet_bool() ? NULL : gp; P->type = DATATYPE_COMPLEX;
    C = NULL; n = 0;
    R = nondet_bool() ? NULL : P;
    if(nondet_bool()) { C = NEW(NL_Data); C->name = cn; C->parent = nondet_bool() ? NULL : P;
        if(nondet_bool()) { C->type = DATATYPE_PRIMITIVE; C->val.complexData.membersSize = 0; C->val.complexData.members = NULL; }   /* a leaf without text yet */
        else { C->type = DATATYPE_COMPLEX; n = nondet_size_t(); __CPROVER_assume(n <= LIM((size_t)1 << 40)); C->val.complexData.membersSize = n; C->val.complexData.members = n ? (NL_Data **)malloc(n * sizeof(NL_Data *)) : NULL;
            G_I = nondet_size_t(); if(G_I < n) mI = C->val.complexData.members[G_I]; }
        if(!C->parent) R = C; else if(!R) R = P; }
    /* inside data there is a current element; the one of a list of extension objects is below the list */
    __CPROVER_assume(IMP(s0 == PARSERSTATE_DATA && val->isExtensionObject && val->isArray, C && C->parent));
    val->data = R; val->ctx->currentData = C; if(C) c0 = *C;
    v0 = *val; G_cleared = 0; G_ws = 0;
}
#define ST val->ctx->state
static bool same(void) { return val->data == v0.data && val->ctx->currentData == C && G_cleared == 0 && val->isArray == v0.isArray && (!C || (C->type == c0.type && C->name == c0.name && C->parent == c0.parent && C->val.complexData.membersSize == c0.val.complexData.membersSize && C->val.complexData.members == c0.val.complexData.members)); }
static bool root(NL_DataType t, bool arr) { NL_Data *d = val->data; return d && d == val->ctx->currentData && d != v0.data && d != C && val->isArray == arr && d->type == t && d->name == nm && d->parent == NULL && d->val.complexData.membersSize == 0 && d->val.complexData.members == NULL
    && (v0.data ? G_cleared == 1 && G_clearedData == v0.data : G_cleared == 0 || G_clearedData == NULL); }
static bool child(void) { NL_Data *d = val->ctx->currentData; return d && d != C && val->data == v0.data && val->isArray == v0.isArray && G_cleared == 0 && d->parent == C && d->name == nm && d->type == DATATYPE_PRIMITIVE && d->val.complexData.membersSize == 0 && d->val.complexData.members == NULL
    && C->type == DATATYPE_COMPLEX && C->name == c0.name && C->parent == c0.parent && C->val.complexData.membersSize == n + 1 && C->val.complexData.members[n] == d && (!(G_I < n) || C->val.complexData.members[G_I] == mI); }
static bool is(const char *lit) { return vf_strcmp(nm, lit) == 0; }
static bool inv(void) { NL_Data *c = val->ctx->currentData; return val->ctx == v0.ctx && IMP(ST == PARSERSTATE_DATA, c != NULL) && IMP(ST == PARSERSTATE_DATA && val->isExtensionObject && val->isArray, c->parent != NULL); }
#ifdef OB_start
void harness(void) { mk();
    __CPROVER_assume(IMP(s0 == PARSERSTATE_LISTOF, C != NULL));
    Value_start(val, nm);
    bool ext = is("ExtensionObject"), list = vf_strncmp(nm, "ListOf", 6) == 0, tid = is("TypeId"), body = is("Body");
    const char *ty = v0.type; bool isext = v0.isExtensionObject; ParserState s = s0; int eff = 0; NL_DataType dt = DATATYPE_PRIMITIVE; bool arr = false;
    if(s0 == PARSERSTATE_INIT) {
        if(list) { s = PARSERSTATE_LISTOF; isext = false; eff = 1; dt = DATATYPE_COMPLEX; arr = true; }
        else if(ext) { s = PARSERSTATE_EXTENSIONOBJECT; isext = true; }
        else { s = PARSERSTATE_DATA; isext = false; ty = nm; eff = 1; } }
    else if(s0 == PARSERSTATE_LISTOF) { if(ext) { s = PARSERSTATE_EXTENSIONOBJECT; isext = true; } else { s = PARSERSTATE_DATA; ty = nm; eff = 2; } }
    else if(s0 == PARSERSTATE_EXTENSIONOBJECT) { if(tid) s = PARSERSTATE_EXTENSIONOBJECT_TYPEID; else if(body) s = PARSERSTATE_EXTENSIONOBJECT_BODY; }
    else if(s0 == PARSERSTATE_EXTENSIONOBJECT_BODY) { s = PARSERSTATE_DATA; eff = C ? 2 : 1; dt = DATATYPE_COMPLEX; }
    else if(s0 == PARSERSTATE_DATA) eff = C ? 2 : 1;
    ENS(ST == s); ENS(val->isExtensionObject == isext); ENS(val->type == ty);
    ENS(IMP(eff == 0, same())); ENS(IMP(eff == 1, root(dt, arr))); ENS(IMP(eff == 2, child())); ENS(inv());
    VAC(s0 == PARSERSTATE_INIT && list && v0.data); VAC(s0 == PARSERSTATE_INIT && ext); VAC(s0 == PARSERSTATE_INIT && !list && !ext); VAC(s0 == PARSERSTATE_LISTOF && ext); VAC(s0 == PARSERSTATE_LISTOF && !ext && n > 5);
    VAC(tid && s0 == PARSERSTATE_EXTENSIONOBJECT); VAC(body && s0 == PARSERSTATE_EXTENSIONOBJECT); VAC(eff == 1 && s0 == PARSERSTATE_EXTENSIONOBJECT_BODY); VAC(eff == 2 && s0 == PARSERSTATE_EXTENSIONOBJECT_BODY); VAC(s0 == PARSERSTATE_DATA && c0.type == DATATYPE_PRIMITIVE && C); VAC(s0 == PARSERSTATE_DATA && n > 1); VAC(s0 == PARSERSTATE_FINISHED); VAC(s0 == PARSERSTATE_EXTENSIONOBJECT_TYPEID); }
#endif
#ifdef OB_end
void harness(void) { mk();
    __CPROVER_assume(IMP(s0 == PARSERSTATE_DATA, C != NULL));
    char *v = nondet_bool() ? NULL : text(); G_wsret = nondet_bool() ? NULL : v;
    Value_end(val, nm, v);
    bool eq = C && vf_strcmp(nm, cn) == 0;
    const char *ty = v0.type; ParserState s = s0; NL_Data *c = C; bool leaf = false;
    if(s0 == PARSERSTATE_INIT) s = PARSERSTATE_FINISHED;
    else if(s0 == PARSERSTATE_EXTENSIONOBJECT_TYPEID) { if(is("Identifier")) ty = v; if(is("TypeId")) s = PARSERSTATE_EXTENSIONOBJECT; }
    else if(s0 == PARSERSTATE_EXTENSIONOBJECT) { if(is("ExtensionObject")) s = PARSERSTATE_INIT; }
    else if(s0 == PARSERSTATE_EXTENSIONOBJECT_BODY) s = PARSERSTATE_EXTENSIONOBJECT;
    else if(s0 == PARSERSTATE_DATA && eq) { leaf = c0.type == DATATYPE_PRIMITIVE; c = c0.parent;
        if(!v0.isExtensionObject) { if(!c) s = PARSERSTATE_INIT; }
        else if(v0.isArray ? c->parent == NULL : c == NULL) s = PARSERSTATE_EXTENSIONOBJECT_BODY; }
    ENS(ST == s); ENS(val->type == ty); ENS(val->ctx->currentData == c); ENS(val->isArray == v0.isArray && val->isExtensionObject == v0.isExtensionObject && val->data == v0.data && G_cleared == 0);
    ENS(IMP(C, C->type == c0.type && C->name == c0.name && C->parent == c0.parent));
    ENS(IMP(C && !leaf, C->val.complexData.membersSize == c0.val.complexData.membersSize && C->val.complexData.members == c0.val.complexData.members && IMP(G_I < n, C->val.complexData.members[G_I] == mI)));
    ENS(IMP(leaf, C->val.primitiveData.value == G_wsret && G_ws == 1 && G_wsin == v)); ENS(inv());
    VAC(s0 == PARSERSTATE_DATA && eq && leaf && v); VAC(s0 == PARSERSTATE_DATA && eq && !leaf); VAC(s0 == PARSERSTATE_DATA && !eq); VAC(s == PARSERSTATE_INIT && s0 == PARSERSTATE_DATA); VAC(s == PARSERSTATE_EXTENSIONOBJECT_BODY && s0 == PARSERSTATE_DATA && v0.isArray); VAC(s == PARSERSTATE_EXTENSIONOBJECT_BODY && s0 == PARSERSTATE_DATA && !v0.isArray);
    VAC(ty != v0.type); VAC(s0 == PARSERSTATE_EXTENSIONOBJECT_TYPEID && is("TypeId")); VAC(s0 == PARSERSTATE_EXTENSIONOBJECT && s == PARSERSTATE_INIT); VAC(s0 == PARSERSTATE_INIT); VAC(s0 == PARSERSTATE_FINISHED); }
#endif
#ifdef OB_new
void harness(void) { NL_Value *v = Value_new((NL_Node *)nondet_ptr()); ENS(v && v->ctx && v->ctx->state == PARSERSTATE_INIT && !v->ctx->currentData && !v->data && !v->type && !v->isArray && !v->isExtensionObject); VAC(v); Value_delete(v); }
#endif
#ifdef OB_wsb
void harness(void) { char t[17]; t[16] = 0; bool all = true; for(int i = 0; i < 16 && t[i]; i++) if(!ISWS(t[i])) all = false;
    const char *r = isOnlyWhitespace(t); ENS(r == (all ? NULL : t)); ENS(isOnlyWhitespace(NULL) == NULL); VAC(all && t[0] == '\n' && t[1] == ' ' && t[5]); VAC(!all && t[5] && ISWS(t[0])); VAC(!t[0]); }
#endif
#ifdef OB_white
const char *c_white(const char *value)
__CPROVER_requires(value == G_text && G_i == 0 && !G_seen)
__CPROVER_assigns(G_i, G_seen)
;
void harness(void) { size_t len = nondet_size_t(); __CPROVER_assume(len <= LIM((size_t)1 << 40)); G_len = len; G_text = (char *)malloc(len + 1); G_text[len] = 0; G_i = 0; G_seen = false;
    const char *r = isOnlyWhitespace(G_text); ENS(r == (G_seen ? G_text : NULL)); ENS(IMP(!G_seen, G_text[G_i] == 0)); ENS(G_i <= len); VAC(G_seen && G_i > 2); VAC(!G_seen && G_i == len && len > 3); VAC(len == 0); }
#endif
#ifdef OB_cclear
void c_cclear(NL_Data *data)
__CPROVER_requires(__CPROVER_is_fresh(data, sizeof(*data)))
__CPROVER_requires(data->type == DATATYPE_COMPLEX && data->val.complexData.membersSize == G_n && G_n > 0 && G_n <= LIM(1u << 20) && G_K < G_n && G_clears == 0 && G_kc == 0)
__CPROVER_requires(__CPROVER_is_fresh(data->val.complexData.members, G_n * sizeof(NL_Data *)))
__CPROVER_requires(__CPROVER_pointer_equals(G_m, data->val.complexData.members))
__CPROVER_requires(__CPROVER_is_fresh(data->val.complexData.members[G_K], sizeof(NL_Data)))
__CPROVER_requires(__CPROVER_pointer_equals(G_child, data->val.complexData.members[G_K]))
__CPROVER_assigns(G_clears, G_kc, __CPROVER_object_whole(data), __CPROVER_object_whole(data->val.complexData.members))
__CPROVER_frees(data->val.complexData.members)
__CPROVER_ensures(__CPROVER_was_freed(G_m))
__CPROVER_ensures(G_clears == G_n && G_kc == 1)
;
void harness(void) { NL_Data *d; G_K = nondet_size_t(); G_n = nondet_size_t(); ComplexData_clear(d); VAC(G_n > 1 && G_K == 1); }
#endif
#ifdef OB_dclear
/* structural induction, the node: a leaf is released itself, an element with its members (released by one call for it, before it); nothing for no node; the text and the name are not released */
NL_Data *G_d; int G_cc;
void spec_cclear(NL_Data *d) { ENS(d == G_d && d->type == DATATYPE_COMPLEX && d->val.complexData.members == (NL_Data **)G_d->parent); G_cc++; free(d->val.complexData.members); }
void harness(void) { char *t = text(); bool leaf = nondet_bool(); G_d = NEW(NL_Data); G_d->name = t; G_d->type = leaf ? DATATYPE_PRIMITIVE : DATATYPE_COMPLEX;
    if(leaf) G_d->val.primitiveData.value = nondet_bool() ? t : NULL; else { G_d->val.complexData.members = (NL_Data **)malloc(8); G_d->parent = (NL_Data *)G_d->val.complexData.members; }
    Data_clear(NULL); ENS(G_cc == 0); Data_clear(G_d); ENS(G_cc == (leaf ? 0 : 1)); t[0] = 0; free(t); VAC(leaf); VAC(!leaf); }
#endif
#ifdef OB_clear
/* every node and every table of a tree is released exactly once (double frees and leaks are checked); texts and names stay */
static NL_Data *tree(int depth, char *t) { NL_Data *d = NEW(NL_Data); d->type = nondet_bool() || depth == 0 ? DATATYPE_PRIMITIVE : DATATYPE_COMPLEX; d->name = t; d->val.complexData.membersSize = 0; d->val.complexData.members = NULL;
    if(d->type == DATATYPE_PRIMITIVE) d->val.primitiveData.value = t;
    else { size_t k = nondet_size_t(); __CPROVER_assume(k <= 2); d->val.complexData.membersSize = k; d->val.complexData.members = k ? (NL_Data **)malloc(k * sizeof(NL_Data *)) : NULL; for(size_t i = 0; i < k; i++) { d->val.complexData.members[i] = tree(depth - 1, t); d->val.complexData.members[i]->parent = d; } }
    return d; }
void harness(void) { char *t = text(); NL_Data *d = tree(DEPTH, t); bool x = d->type == DATATYPE_COMPLEX && d->val.complexData.membersSize == 2 && d->val.complexData.members[1]->type == DATATYPE_COMPLEX && d->val.complexData.members[1]->val.complexData.membersSize == 2; bool y = d->type == DATATYPE_PRIMITIVE;
    Data_clear(d); Data_clear(NULL); t[0] = 0; VAC(x); VAC(y); free(t); }
#endif
#ifdef OB_delete
void harness(void) { val = NEW(NL_Value); val->ctx = NEW(NL_ParserCtx); val->data = nondet_bool() ? NULL : NEW(NL_Data); R = val->data; Value_delete(val); ENS(R ? G_cleared == 1 && G_clearedData == R : G_cleared == 0 || G_clearedData == NULL); free(R); VAC(R); VAC(!R); }
#endif
