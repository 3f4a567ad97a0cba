/* Contracts of the import into a server (backends/open62541/src/import.c).
 * The server is a recorder: every operation it is asked for is compared with
 * the node it belongs to.  Texts are represented by their length, their first
 * five characters and the number they stand for, so they may have any length. */
#include "vf.h"
#include <open62541/server.h>
#include <NodesetLoader/NodesetLoader.h>
#define NEW(T) ((T *)malloc(sizeof(T)))
UA_DataType UA_TYPES[UA_TYPES_COUNT];
#include "ua_model.h"
const UA_ExpandedNodeId UA_EXPANDEDNODEID_NULL;
const UA_ObjectAttributes UA_ObjectAttributes_default; const UA_VariableAttributes UA_VariableAttributes_default; const UA_MethodAttributes UA_MethodAttributes_default; const UA_ObjectTypeAttributes UA_ObjectTypeAttributes_default;
const UA_VariableTypeAttributes UA_VariableTypeAttributes_default; const UA_ReferenceTypeAttributes UA_ReferenceTypeAttributes_default; const UA_DataTypeAttributes UA_DataTypeAttributes_default; const UA_ViewAttributes UA_ViewAttributes_default;
const char *NL_NODECLASS_NAME[8] = {"0", "1", "2", "3", "4", "5", "6", "7"};
int nondet_int2(void); double nondet_double(void); UA_LocalizedText nondet_lt(void);
static UA_NodeId anyid(void) { UA_NodeId i = nondet_id(); __CPROVER_assume(i.identifierType == 0 || i.identifierType == 3 || i.identifierType == 4 || i.identifierType == 5); return i; }
#ifndef REALTEXT
/* ---- texts ---- */
#define NTOK 12
#define TL 6
char TB[NTOK * TL]; size_t V_len[NTOK]; int V_int[NTOK]; double V_dbl[NTOK]; int G_ntok;
static bool istok(const char *s) { return __CPROVER_same_object(s, TB); }
static int tokof(const char *s) { return (int)(__CPROVER_POINTER_OFFSET(s) / TL); }
static char *tok(void) { int k = G_ntok++; char *t = TB + k * TL; size_t l = 0; for(int j = 0; j < TL - 1; j++) { t[j] = nondet_char(); } t[TL - 1] = 0; while(t[l]) l++;
    V_len[k] = nondet_size_t(); __CPROVER_assume(l < TL - 1 ? V_len[k] == l : V_len[k] >= l); V_int[k] = nondet_int(); V_dbl[k] = nondet_double(); return t; }
static char *opttok(void) { return nondet_bool() ? NULL : tok(); }
size_t strlen(const char *s) { if(istok(s)) { __CPROVER_assert(__CPROVER_POINTER_OFFSET(s) % TL == 0, "start of a text"); return V_len[tokof(s)]; } size_t n = 0; while(s[n]) n++; return n; }
static int num(const char *s) { __CPROVER_assert(istok(s) && __CPROVER_POINTER_OFFSET(s) % TL == 0, "text of a number"); return V_int[tokof(s)]; }
int atoi(const char *s) { return num(s); }
long atol(const char *s) { return num(s); }
long strtol(const char *s, char **e, int b) { __CPROVER_assert(b == 10 || b == 0, "base"); if(e) *e = (char *)s + 1; return num(s); }
unsigned long strtoul(const char *s, char **e, int b) { __CPROVER_assert(b == 10 || b == 0, "base"); if(e) *e = (char *)s + 1; return (unsigned long)(long)num(s); }
double atof(const char *s) { __CPROVER_assert(istok(s), "text of a number"); return V_dbl[tokof(s)]; }
double strtod(const char *s, char **e) { if(e) *e = (char *)s + 1; return atof(s); }
static bool isTrue(const char *t) { return (t[0] == '1' && t[1] == 0) || (t[0] == 't' && t[1] == 'r' && t[2] == 'u' && t[3] == 'e' && t[4] == 0); }
static bool txt(UA_String s, const char *t) { return t ? s.data == (UA_Byte *)t && s.length == V_len[tokof(t)] : s.length == 0; }
static bool sameid(const UA_NodeId *a, const UA_NodeId *b) { return vf_ideq(a, b); }
#endif
/* ---- the server ---- */
struct vf_server { int x; }; static struct vf_server G_srv; static UA_Server *const SRV = (UA_Server *)(void *)&G_srv; struct ServerContext { int x; }; static struct ServerContext G_sctx;
UA_Server *ServerContext_getServerObject(const struct ServerContext *c) { __CPROVER_assert(c == &G_sctx, "server context"); return SRV; }
typedef struct { int op; UA_NodeId id, parent, ref, td; UA_QualifiedName qn; void *ext; UA_LocalizedText dn, de; UA_Byte en; bool nl, ex, uex, abs, sym, hist; UA_LocalizedText inv; UA_NodeId dt; int rank; UA_Byte al, ual; double msi; size_t nd; size_t vlen; void *vdata; const UA_DataType *vtype; bool hasDims; UA_UInt32 d0, dk; const void *dp; } Rec;
Rec G_r; int G_calls; UA_StatusCode G_status; size_t G_K;
#ifdef OB_all
static void vf_hook(int op, const UA_NodeId *id);
#define HOOK(op, id) vf_hook(op, &id)
#else
#define HOOK(op, id) (void)0
#endif
#define COMMON(OP) __CPROVER_assert(s == SRV, "server"); __CPROVER_assert(!o, "no id is wanted"); G_calls++; G_r.op = OP; G_r.id = id; G_r.parent = p; G_r.ref = r; G_r.qn = q; G_r.ext = ctx; HOOK(OP, id)
static void dims(size_t n, const UA_UInt32 *d) { G_r.nd = n; G_r.dp = d; G_r.hasDims = d != NULL; if(n > 0) { __CPROVER_assert(d != NULL, "dimensions"); G_r.d0 = d[0]; if(G_K < n) G_r.dk = d[G_K]; } }
UA_StatusCode UA_Server_addNode_begin(UA_Server *s, const UA_NodeClass c, const UA_NodeId id, const UA_NodeId p, const UA_NodeId r, const UA_QualifiedName q, const UA_NodeId td, const void *attr, const UA_DataType *t, void *ctx, UA_NodeId *o) { COMMON((int)c); G_r.td = td;
    if(c == UA_NODECLASS_OBJECT) { const UA_ObjectAttributes *a = (const UA_ObjectAttributes *)attr; __CPROVER_assert(t == &UA_TYPES[UA_TYPES_OBJECTATTRIBUTES], "attribute type"); G_r.dn = a->displayName; G_r.de = a->description; G_r.en = a->eventNotifier; }
    else if(c == UA_NODECLASS_VARIABLE) { const UA_VariableAttributes *a = (const UA_VariableAttributes *)attr; __CPROVER_assert(t == &UA_TYPES[UA_TYPES_VARIABLEATTRIBUTES], "attribute type"); G_r.dn = a->displayName; G_r.de = a->description; G_r.dt = a->dataType; G_r.rank = a->valueRank; G_r.al = a->accessLevel; G_r.ual = a->userAccessLevel; G_r.hist = a->historizing; G_r.msi = a->minimumSamplingInterval;
        dims(a->arrayDimensionsSize, a->arrayDimensions); G_r.vtype = a->value.type; G_r.vdata = a->value.data; G_r.vlen = a->value.arrayLength; }
    else if(c == UA_NODECLASS_VARIABLETYPE) { const UA_VariableTypeAttributes *a = (const UA_VariableTypeAttributes *)attr; __CPROVER_assert(t == &UA_TYPES[UA_TYPES_VARIABLETYPEATTRIBUTES], "attribute type"); G_r.dn = a->displayName; G_r.de = a->description; G_r.dt = a->dataType; G_r.rank = a->valueRank; G_r.abs = a->isAbstract; dims(a->arrayDimensionsSize, a->arrayDimensions); }
    else __CPROVER_assert(0, "class of the node");
    return G_status; }
UA_StatusCode UA_Server_addViewNode(UA_Server *s, const UA_NodeId id, const UA_NodeId p, const UA_NodeId r, const UA_QualifiedName q, const UA_ViewAttributes a, void *ctx, UA_NodeId *o) { COMMON(UA_NODECLASS_VIEW); G_r.dn = a.displayName; G_r.de = a.description; G_r.en = a.eventNotifier; G_r.nl = a.containsNoLoops; return G_status; }
UA_StatusCode UA_Server_addObjectTypeNode(UA_Server *s, const UA_NodeId id, const UA_NodeId p, const UA_NodeId r, const UA_QualifiedName q, const UA_ObjectTypeAttributes a, void *ctx, UA_NodeId *o) { COMMON(UA_NODECLASS_OBJECTTYPE); G_r.dn = a.displayName; G_r.de = a.description; G_r.abs = a.isAbstract; return G_status; }
UA_StatusCode UA_Server_addReferenceTypeNode(UA_Server *s, const UA_NodeId id, const UA_NodeId p, const UA_NodeId r, const UA_QualifiedName q, const UA_ReferenceTypeAttributes a, void *ctx, UA_NodeId *o) { COMMON(UA_NODECLASS_REFERENCETYPE); G_r.dn = a.displayName; G_r.de = a.description; G_r.sym = a.symmetric; G_r.inv = a.inverseName; return G_status; }
UA_StatusCode UA_Server_addDataTypeNode(UA_Server *s, const UA_NodeId id, const UA_NodeId p, const UA_NodeId r, const UA_QualifiedName q, const UA_DataTypeAttributes a, void *ctx, UA_NodeId *o) { COMMON(UA_NODECLASS_DATATYPE); G_r.dn = a.displayName; G_r.de = a.description; G_r.abs = a.isAbstract; return G_status; }
UA_StatusCode UA_Server_addMethodNode(UA_Server *s, const UA_NodeId id, const UA_NodeId p, const UA_NodeId r, const UA_QualifiedName q, const UA_MethodAttributes a, UA_MethodCallback m, size_t in, const UA_Argument *ia, size_t on, const UA_Argument *oa, void *ctx, UA_NodeId *o) { COMMON(UA_NODECLASS_METHOD); __CPROVER_assert(in == 0 && on == 0, "no arguments"); G_r.dn = a.displayName; G_r.de = a.description; G_r.ex = a.executable; G_r.uex = a.userExecutable; return G_status; }
/* ---- values ---- */
const UA_DataType *G_builtin, *G_custom, *G_parentType; UA_NodeId G_dt, G_pid; UA_DataType T_b, T_c, T_p; static UA_DataTypeArray *G_types; UA_ServerConfig G_cfg; int G_vcalls, G_vclears, G_pcalls, G_vdel; const NL_Value *G_val; void *G_mem;
UA_ServerConfig *UA_Server_getConfig(UA_Server *s) { __CPROVER_assert(s == SRV, "server"); return &G_cfg; }
const UA_DataType *UA_findDataType(const UA_NodeId *id) { if(vf_ideq(id, &G_dt)) return G_builtin; __CPROVER_assert(G_pcalls && vf_ideq(id, &G_pid), "type that is looked up"); return G_parentType; }
const UA_DataType *NodesetLoader_getCustomDataType(struct UA_Server *s, const UA_NodeId *id) { __CPROVER_assert(s == SRV && vf_ideq(id, &G_dt), "custom type that is looked up"); return G_custom; }
UA_NodeId spec_parentType(UA_Server *s, const UA_NodeId id) { __CPROVER_assert(s == SRV && vf_ideq(&id, &G_dt), "type whose parent is looked up"); G_pcalls++; return G_pid; }
void UA_Variant_setScalar(UA_Variant *v, void *p, const UA_DataType *t) { memset(v, 0, sizeof *v); v->type = t; v->data = p; }
void UA_Variant_setArray(UA_Variant *v, void *a, size_t n, const UA_DataType *t) { memset(v, 0, sizeof *v); v->type = t; v->data = a; v->arrayLength = n; }
void UA_Variant_clear(UA_Variant *v) { G_vclears++; if(v->data) free(v->data); memset(v, 0, sizeof *v); }
UA_UInt32 *UA_UInt32_new(void) { UA_UInt32 *p = (UA_UInt32 *)calloc(1, sizeof *p); return p; }
#ifdef OB_dimsany
size_t G_N, G_len, G_c, G_last, G_size; int G_num, G_end; char *G_T; UA_UInt32 *G_d, **G_dp;
size_t strlen(const char *s) { __CPROVER_assert(s == G_T, "the text"); return G_len; }
static size_t piece(const char *s) { __CPROVER_assert(__CPROVER_same_object(s, G_T), "in the text"); size_t o = __CPROVER_POINTER_OFFSET(s); __CPROVER_assert(o == (G_c ? G_last + 1 : 0), "start of the next piece"); return G_c; }
int atoi(const char *s) { return piece(s) == G_K ? G_num : nondet_int(); }
char *vf_strchr(const char *s, int c) { __CPROVER_assert(c == ',', "separator"); size_t k = piece(s); __CPROVER_assert(!G_end, "not beyond the end"); if(k + 1 == G_N) { G_end = 1; return NULL; } size_t o = nondet_size_t(); __CPROVER_assume(o < G_len && o >= __CPROVER_POINTER_OFFSET(s)); G_last = o; G_c++; return G_T + o; }
void *vf_malloc(size_t n) { __CPROVER_assert(n > 0 && n <= G_N * sizeof(UA_UInt32), "size of the table"); G_size = n; return G_d; }
void *vf_realloc(void *p, size_t n) { __CPROVER_assert(p == G_d && G_size > 0 && n >= G_size && n <= G_N * sizeof(UA_UInt32), "table which grows"); G_size = n; return G_d; }
#define strchr vf_strchr
#define malloc vf_malloc
#define realloc vf_realloc
#endif
#include "gen/backends/open62541/src/Value.h"
const UA_DataType *G_usedType;
RawData *RawData_new(RawData *old) { __CPROVER_assert(!old, "first block"); return (RawData *)calloc(1, sizeof(RawData)); }
void RawData_delete(RawData *d) { G_vdel++; if(d) free(d); }
void Value_getData(RawData *out, const NL_Value *v, const UA_DataType *t, const UA_DataType *custom, const struct ServerContext *c) { __CPROVER_assert(c == &G_sctx && v == G_val && custom == G_types->types, "conversion of the node's value"); G_vcalls++; G_usedType = t; out->mem = G_mem; }
#include "gen/backends/open62541/src/import.c"
#include "gen/src/nodes/InstanceNode.c"
static NL_Reference *G_inv;
NL_Reference *spec_inv(const NL_Node *n) { return G_inv; }
size_t G_dn, G_dimcalls; UA_UInt32 G_d0, G_dk; const char *G_dtxt;
size_t spec_dims(const char *s, UA_UInt32 **d) { __CPROVER_assert(s == G_dtxt, "text of the dimensions"); if(s[0] == 0) return 0; G_dimcalls++; *d = (UA_UInt32 *)malloc(G_dn * sizeof(UA_UInt32)); (*d)[0] = G_d0; if(G_K < G_dn) (*d)[G_K] = G_dk; return G_dn; }
/* a refused node is kept for later: NodeContainer_add is verified in lists.c */
NodeContainer *G_problems; NL_Node *G_kept; int G_keeps;
#ifndef REALCONT
void NodeContainer_add(NodeContainer *c, NL_Node *n) { __CPROVER_assert(c && c == G_problems, "list of refused nodes"); G_keeps++; G_kept = n; }
#endif
#ifdef OB_addnode
static const int OPS[8] = {UA_NODECLASS_OBJECT, UA_NODECLASS_OBJECTTYPE, UA_NODECLASS_VARIABLE, UA_NODECLASS_DATATYPE, UA_NODECLASS_METHOD, UA_NODECLASS_REFERENCETYPE, UA_NODECLASS_VARIABLETYPE, UA_NODECLASS_VIEW};
#if CLS == 0
typedef NL_ObjectNode T;
#elif CLS == 1
typedef NL_ObjectTypeNode T;
#elif CLS == 2
typedef NL_VariableNode T;
#elif CLS == 3
typedef NL_DataTypeNode T;
#elif CLS == 4
typedef NL_MethodNode T;
#elif CLS == 5
typedef NL_ReferenceTypeNode T;
#elif CLS == 6
typedef NL_VariableTypeNode T;
#else
typedef NL_ViewNode T;
#endif
void harness(void) {
    T *n = NEW(T); n->nodeClass = CLS; n->id = anyid(); n->browseName.name = tok(); n->displayName.locale = opttok(); n->displayName.text = opttok(); n->description.locale = opttok(); n->description.text = opttok(); n->extension = nondet_ptr(); n->hierachicalRefs = n->nonHierachicalRefs = n->unknownRefs = NULL;
    NL_Reference inv; inv.isForward = false; inv.next = NULL; inv.refType = anyid(); inv.target = anyid(); G_inv = nondet_bool() ? NULL : &inv;
#if CLS == 0 || CLS == 2 || CLS == 4 || CLS == 7
    n->parentNodeId = anyid(); bool useParent = !(n->parentNodeId.namespaceIndex == 0 && n->parentNodeId.identifierType == 0 && n->parentNodeId.identifier.numeric == 0); UA_NodeId par = n->parentNodeId;
#else
    bool useParent = false; UA_NodeId par = UA_NODEID_NULL;
#endif
    UA_NodeId expParent = useParent ? par : G_inv ? inv.target : UA_NODEID_NULL, expRef = G_inv ? inv.refType : UA_NODEID_NULL;
#if CLS == 0 || CLS == 2
    NL_Reference tdr; tdr.target = anyid(); tdr.refType = anyid(); tdr.next = NULL; bool hasTd = nondet_bool(); n->refToTypeDef = hasTd ? &tdr : NULL; UA_NodeId expTd = hasTd ? tdr.target : UA_NODEID_NULL;
#endif
#if CLS == 0 || CLS == 7
    n->eventNotifier = tok(); int en = V_int[tokof(n->eventNotifier)]; __CPROVER_assume(en >= 0 && en <= 255);
#endif
#if CLS == 7
    n->containsNoLoops = tok();
#endif
#if CLS == 1 || CLS == 3 || CLS == 6
    n->isAbstract = tok();
#endif
#if CLS == 4
    n->executable = tok(); n->userExecutable = tok();
#endif
#if CLS == 5
    n->symmetric = tok(); n->inverseName.locale = opttok(); n->inverseName.text = opttok();
#endif
#if CLS == 2 || CLS == 6
    n->datatype = G_dt = anyid(); n->valueRank = tok(); int rank = V_int[tokof(n->valueRank)]; n->arrayDimensions = tok(); G_dtxt = n->arrayDimensions; bool empty = n->arrayDimensions[0] == 0; G_dn = nondet_size_t(); __CPROVER_assume(G_dn >= 1 && G_dn < 1000000); G_d0 = nondet_unsigned(); G_dk = nondet_unsigned(); G_K = nondet_size_t(); __CPROVER_assume(G_K >= 1);
#endif
#if CLS == 2
    n->accessLevel = tok(); n->userAccessLevel = tok(); int al = V_int[tokof(n->accessLevel)], ual = V_int[tokof(n->userAccessLevel)]; __CPROVER_assume(al >= 0 && al <= 255 && ual >= 0 && ual <= 255); n->historizing = tok(); n->minimumSamplingInterval = tok();
    UA_DataTypeArray types = {NULL, 0, nondet_bool() ? NULL : &T_c, false}; G_types = &types; G_cfg.customDataTypes = &types; G_builtin = nondet_bool() ? NULL : &T_b; G_custom = nondet_bool() ? NULL : &T_c; G_parentType = nondet_bool() ? NULL : &T_p; G_pid = anyid(); __CPROVER_assume(!vf_ideq(&G_pid, &G_dt));
    /* the tree of a value is a list exactly if the value is an array (P13) */
    NL_Value v; NL_Data d; bool hasVal = nondet_bool(), hasData = nondet_bool(); d.type = nondet_bool() ? DATATYPE_COMPLEX : DATATYPE_PRIMITIVE; d.val.complexData.membersSize = nondet_size_t(); d.val.complexData.members = NULL; v.isArray = hasData && d.type == DATATYPE_COMPLEX && nondet_bool(); v.data = hasData ? &d : NULL; G_val = &v; n->value = hasVal ? &v : NULL;
    size_t cnt = d.val.complexData.membersSize; __CPROVER_assume(cnt <= 0xffffffffu); const UA_DataType *expType = G_builtin ? G_builtin : G_custom ? G_custom : G_parentType; G_mem = nondet_bool() ? NULL : malloc(1); bool conv = hasVal && hasData;
    if(!conv && G_mem) { free(G_mem); G_mem = NULL; }
#endif
    T o = *n; G_status = nondet_unsigned(); AddNodeContext c; NodeContainer cont; G_problems = nondet_bool() ? NULL : &cont; c.problemNodes = G_problems; c.serverContext = &G_sctx;
    addNodeImpl(&c, (NL_Node *)n);
    bool bad = (G_status >> 30) >= 2;
#ifdef ONLYDIMS
#if CLS == 2
    /* dimensions: those of the file, else the length of an array value, else 0 for rank 1 */
    ENS(IMP(!empty, G_r.nd == G_dn && G_r.d0 == G_d0 && IMP(G_K < G_dn, G_r.dk == G_dk)));
    ENS(IMP(empty && rank == 1, G_r.nd == 1 && G_r.d0 == 0));
    ENS(IMP(empty && rank != 1 && hasVal && v.isArray, G_r.nd == 1 && G_r.d0 == (UA_UInt32)cnt));
    ENS(IMP(empty && rank != 1 && !(hasVal && v.isArray), G_r.nd == 0));
    VAC(empty && rank == 1 && hasVal && v.isArray); VAC(empty && rank == 2 && hasVal && v.isArray && cnt > 3); VAC(!empty && G_dn > 1000); VAC(empty && rank == -1 && !hasVal);
#else
    ENS(IMP(rank >= 0 && empty, G_r.nd == 1 && G_r.d0 == 0)); ENS(IMP(rank >= 0 && !empty, G_r.nd == G_dn && G_r.d0 == G_d0 && IMP(G_K < G_dn, G_r.dk == G_dk))); ENS(IMP(rank < 0 && empty, G_r.nd == 0));
    VAC(rank >= 0 && empty); VAC(rank == 3 && G_dn > 1000); VAC(rank < 0);
#endif
    ENS(G_calls == 1);
#elif defined(ONLYVAL)
#else
    ENS(G_calls == 1 && G_r.op == OPS[CLS]);
    ENS(vf_ideq(&G_r.id, &o.id)); ENS(vf_ideq(&G_r.parent, &expParent)); ENS(vf_ideq(&G_r.ref, &expRef));
    ENS(G_r.qn.namespaceIndex == o.browseName.nsIdx && txt(G_r.qn.name, o.browseName.name));
    ENS(txt(G_r.dn.text, o.displayName.text) && txt(G_r.dn.locale, o.displayName.locale)); ENS(txt(G_r.de.text, o.description.text) && txt(G_r.de.locale, o.description.locale)); ENS(G_r.ext == o.extension);
    ENS(IMP(bad && G_problems, G_keeps == 1 && G_kept == (NL_Node *)n)); ENS(IMP(!bad, G_keeps == 0));
    VAC(bad && G_problems); VAC(!bad && G_inv && !useParent); VAC(!bad && !G_inv && !useParent); VAC(V_len[0] > 100);
#if CLS == 0 || CLS == 2
    ENS(vf_ideq(&G_r.td, &expTd)); VAC(hasTd && useParent); VAC(!hasTd);
#endif
#if CLS == 0 || CLS == 7
    ENS(G_r.en == (UA_Byte)en); VAC(en == 255);
#endif
#if CLS == 7
    ENS(G_r.nl == isTrue(o.containsNoLoops)); VAC(G_r.nl);
#endif
#if CLS == 1 || CLS == 3 || CLS == 6
    ENS(G_r.abs == isTrue(o.isAbstract)); VAC(G_r.abs); VAC(!G_r.abs);
#endif
#if CLS == 4
    ENS(G_r.ex == isTrue(o.executable) && G_r.uex == isTrue(o.userExecutable)); VAC(G_r.ex && !G_r.uex); VAC(!G_r.ex && G_r.uex);
#endif
#if CLS == 5
    ENS(G_r.sym == isTrue(o.symmetric)); ENS(txt(G_r.inv.text, o.inverseName.text) && txt(G_r.inv.locale, o.inverseName.locale)); VAC(G_r.sym);
#endif
#if CLS == 2 || CLS == 6
    ENS(vf_ideq(&G_r.dt, &o.datatype)); ENS(G_r.rank == rank);
#endif
#if CLS == 2
    ENS(G_r.al == al && G_r.ual == ual); ENS(G_r.hist == isTrue(o.historizing)); ENS(G_r.msi == V_dbl[tokof(o.minimumSamplingInterval)] || V_dbl[tokof(o.minimumSamplingInterval)] != V_dbl[tokof(o.minimumSamplingInterval)]);
#endif
#endif
#if CLS == 2 && !defined(ONLYDIMS)
    /* the value is converted once, with the type of the variable, and offered as it was converted */
    ENS(G_vcalls == conv); ENS(IMP(conv, G_usedType == expType)); ENS(IMP(!conv, G_r.vdata == NULL && G_r.vtype == NULL && G_r.vlen == 0));
    ENS(IMP(conv && v.isArray && (G_mem || cnt == 0), G_r.vdata == G_mem && G_r.vtype == expType && G_r.vlen == cnt)); ENS(IMP(conv && v.isArray && !G_mem, G_r.vlen == 0 && G_r.vdata == NULL)); VAC(conv && v.isArray && !G_mem && cnt == 4); ENS(IMP(conv && !v.isArray, G_r.vdata == G_mem && G_r.vlen == 0 && IMP(G_mem, G_r.vtype == expType)));
    VAC(conv && v.isArray && expType == &T_c); VAC(conv && !v.isArray && expType == &T_p && G_mem); 
#endif
    free(n);
}
#endif
static UA_NodeId smallid(void) { UA_NodeId i; memset(&i, 0, sizeof i); i.namespaceIndex = (UA_UInt16)nondet_unsigned(); i.identifierType = UA_NODEIDTYPE_NUMERIC; i.identifier.numeric = nondet_unsigned(); return i; }
static bool same(UA_NodeId a, UA_NodeId b) { return vf_ideq(&a, &b); }
/* a list of at most 3 references */
static NL_Reference R[6]; static NL_Reference *list(int at, int *n) { *n = nondet_int(); __CPROVER_assume(*n >= 0 && *n <= 3); for(int i = 0; i < 3; i++) { R[at + i].isForward = nondet_bool(); R[at + i].refType = anyid(); R[at + i].target = anyid(); R[at + i].next = i + 1 < *n ? &R[at + i + 1] : NULL; } return *n ? &R[at] : NULL; }
#ifdef OB_inverse
void harness(void) { NL_Node *n = NEW(NL_Node); int k; n->hierachicalRefs = list(0, &k); n->nodeClass = NODECLASS_OBJECTTYPE; NL_Reference *e = NULL; for(int i = 2; i >= 0; i--) if(i < k && !R[i].isForward) e = &R[i];
    UA_NodeId ref, p = getParentId(n, &ref);
    ENS(same(p, e ? e->target : UA_NODEID_NULL) && same(ref, e ? e->refType : UA_NODEID_NULL)); VAC(e == &R[2]); VAC(k == 3 && !e); VAC(k == 0); VAC(e == &R[0] && k == 3); }
#endif
#ifdef OB_dimsany
/* any number of dimensions: G_c commas were met so far, the last one at G_last; after the last comma of the text there is none (G_end).  The number at the start of a piece stands for any value; the K-th one is tracked.  The table grows in place (trusted: realloc keeps what it held). */
size_t c_dims(const char *s, UA_UInt32 **dims)
__CPROVER_requires(G_len > 0 && G_len <= LIM(1u << 20) && G_N > 0 && G_N <= G_len && G_K < G_N && G_c == 0 && !G_end && G_size == 0)
__CPROVER_requires(__CPROVER_is_fresh(s, G_len + 1))
__CPROVER_requires(__CPROVER_pointer_equals(G_T, (char *)s))
__CPROVER_requires(__CPROVER_is_fresh(dims, sizeof(*dims)))
__CPROVER_requires(__CPROVER_pointer_equals(G_dp, dims))
__CPROVER_requires(__CPROVER_is_fresh(G_d, G_N * sizeof(UA_UInt32)))
__CPROVER_assigns(*dims, G_c, G_last, G_end, G_size, __CPROVER_object_whole(G_d))
__CPROVER_ensures(__CPROVER_return_value == G_N && G_c + 1 == G_N && G_size == G_N * sizeof(UA_UInt32))
__CPROVER_ensures(*dims == G_d)
__CPROVER_ensures((*dims)[G_K] == (UA_UInt32)G_num)
;
void harness(void) { const char *s; UA_UInt32 **dims; G_K = nondet_size_t(); G_N = nondet_size_t(); G_len = nondet_size_t(); G_num = nondet_int(); getArrayDimensions(s, dims); VAC(G_N > 2 && G_K == 1); VAC(G_N == 1); }
#endif
#ifdef OB_dims
/* a list of at most 6 numbers: each number is one character of the text and stands for any value */
#define MN 6
static char D[2 * MN]; int DV[MN]; size_t G_m; int G_other;
static int dnum(const char *s) { __CPROVER_assert(__CPROVER_same_object(s, D) && __CPROVER_POINTER_OFFSET(s) % 2 == 0 && __CPROVER_POINTER_OFFSET(s) < 2 * G_m, "start of a number"); return DV[__CPROVER_POINTER_OFFSET(s) / 2]; }
int atoi(const char *s) { return dnum(s); }
long atol(const char *s) { return dnum(s); }
long strtol(const char *s, char **e, int b) { if(e) *e = (char *)s + 1; return dnum(s); }
unsigned long strtoul(const char *s, char **e, int b) { if(e) *e = (char *)s + 1; return (unsigned)dnum(s); }
void harness(void) { size_t n = nondet_size_t(); __CPROVER_assume(n <= MN); G_m = n; for(size_t i = 0; i < n; i++) { D[2 * i] = '1'; if(i + 1 < n) D[2 * i + 1] = ','; DV[i] = nondet_int(); }
    UA_UInt32 *d = NULL; size_t r = getArrayDimensions(D, &d);
    ENS(r == n); if(r == n) for(size_t i = 0; i < n; i++) ENS(d[i] == (UA_UInt32)DV[i]); ENS(IMP(n == 0, !d)); VAC(n == 5); VAC(n == 1 && DV[0] > 1000000); VAC(n == 0); if(d) free(d); }
#endif
#ifdef OB_known
void harness(void) { UA_NodeId i = anyid(); bool r = isKnownParent(i); ENS(r == (i.namespaceIndex == 0 && i.identifierType == 0 && (i.identifier.numeric <= 29 || i.identifier.numeric == 12755))); VAC(r && i.identifier.numeric == 12755); VAC(r && i.identifier.numeric == 0); VAC(!r); }
#endif
#ifdef OB_ptype
/* chain of supertypes known to the server: C[0] -> C[1] -> ... ; the last one has no, several or a failing answer, or is a known parent */
UA_NodeId C[4]; int G_links, G_end, G_browsed, G_cleared; static UA_ReferenceDescription RD[2];
UA_BrowseResult UA_Server_browse(UA_Server *s, UA_UInt32 max, const UA_BrowseDescription *bd) { __CPROVER_assert(s == SRV && bd->browseDirection == UA_BROWSEDIRECTION_INVERSE && (max == 0 || max >= 2), "browse"); UA_BrowseResult r; memset(&r, 0, sizeof r); int k = G_browsed++;
    __CPROVER_assert(k <= G_links && same(bd->nodeId, C[k]), "type whose supertype is asked for");
    if(k < G_links) { r.referencesSize = 1; RD[0].nodeId.nodeId = C[k + 1]; r.references = RD; } else if(G_end == 1) { r.referencesSize = 2; r.references = RD; RD[0].nodeId.nodeId = C[0]; } else if(G_end == 2) r.statusCode = 0x80340000; return r; }
void UA_BrowseResult_clear(UA_BrowseResult *r) { G_cleared++; memset(r, 0, sizeof *r); }
static bool known(UA_NodeId i) { return i.namespaceIndex == 0 && i.identifierType == 0 && (i.identifier.numeric <= 29 || i.identifier.numeric == 12755); }
void harness(void) { G_links = nondet_int(); __CPROVER_assume(G_links >= 0 && G_links <= 3); G_end = nondet_int(); for(int i = 0; i < 4; i++) C[i] = anyid(); int hit = -1; for(int i = 3; i >= 0; i--) if(i <= G_links && known(C[i])) hit = i;
    UA_NodeId r = getParentType(SRV, C[0]);
    /* the first known type of the chain, the null id if the chain ends before */
    ENS(same(r, hit >= 0 ? C[hit] : UA_NODEID_NULL)); ENS(G_browsed == G_cleared); VAC(hit == 3); VAC(hit == 0); VAC(hit < 0 && G_links == 2 && G_end == 1); VAC(hit < 0 && G_end == 2); }
#endif
#ifdef OB_link
/* the first entry for the data type becomes an encoding reference of it */
static NL_BiDirectionalReference B[3]; int G_added; NL_DataTypeNode *G_node; DataTypeImporter *const IMPORTER = (DataTypeImporter *)(void *)&G_calls; UA_NodeId G_par; NL_Reference *G_old; int G_hit;
UA_NodeId spec_ptype(UA_Server *s, const UA_NodeId id) { __CPROVER_assert(s == SRV && same(id, G_node->id), "supertype of the node"); return G_par; }
void DataTypeImporter_addCustomDataType(DataTypeImporter *i, const NL_DataTypeNode *n, const UA_NodeId p) { G_added++; __CPROVER_assert(i == IMPORTER && n == G_node && same(p, G_par), "type that is added");
    NL_Reference *f = n->nonHierachicalRefs; if(G_hit < 0) __CPROVER_assert(f == G_old, "no new reference"); else { __CPROVER_assert(f && f != G_old && f->isForward && same(f->refType, B[G_hit].refType) && same(f->target, B[G_hit].target) && f->next == G_old, "encoding reference first"); } }
void harness(void) { int n = nondet_int(); __CPROVER_assume(n >= 0 && n <= 3); G_node = NEW(NL_DataTypeNode); G_node->id = anyid(); G_node->nodeClass = NODECLASS_DATATYPE; G_par = anyid(); int k; G_node->nonHierachicalRefs = G_old = list(0, &k); G_hit = -1;
    for(int i = 0; i < 3; i++) { B[i].source = anyid(); B[i].target = smallid(); B[i].refType = smallid(); B[i].next = i + 1 < n ? &B[i + 1] : NULL; } for(int i = 2; i >= 0; i--) if(i < n && same(B[i].source, G_node->id)) G_hit = i;
    struct DataTypeImportCtx c; c.importer = IMPORTER; c.server = SRV; c.hasEncodingRef = n ? B : NULL; addDataType(&c, (NL_Node *)G_node); ENS(G_added == 1); VAC(G_hit == 2); VAC(G_hit == 0 && n == 3); VAC(G_hit < 0 && n == 3); VAC(n == 0); VAC(k == 2 && G_hit >= 0); }
#endif
#ifdef OB_refs
/* every reference of the node is offered once, whatever the server answers */
int G_seen[6], G_offers; NL_Node *G_n; int G_n1, G_n2;
UA_StatusCode UA_Server_addReference(UA_Server *s, const UA_NodeId src, const UA_NodeId type, const UA_ExpandedNodeId t, UA_Boolean fwd) { __CPROVER_assert(s == SRV && same(src, G_n->id) && t.serverIndex == 0 && t.namespaceUri.length == 0, "source of the reference"); G_offers++;
    for(int i = 0; i < 6; i++) if((i < 3 ? i < G_n1 : i - 3 < G_n2) && t.nodeId.namespaceIndex == i) { G_seen[i]++; __CPROVER_assert(same(type, R[i].refType) && same(t.nodeId, R[i].target) && fwd == R[i].isForward, "reference as in the file"); }
    return nondet_unsigned(); }
void harness(void) { G_n = NEW(NL_Node); G_n->id = anyid(); G_n->nonHierachicalRefs = list(0, &G_n1); G_n->hierachicalRefs = list(3, &G_n2); G_n->unknownRefs = NULL; for(int i = 0; i < 6; i++) { R[i].target.namespaceIndex = (UA_UInt16)i; }
    addNonHierachicalRefs(SRV, G_n); ENS(G_offers == G_n1 + G_n2); for(int i = 0; i < 6; i++) ENS(IMP(i < 3 ? i < G_n1 : i - 3 < G_n2, G_seen[i] == 1)); VAC(G_n1 == 3 && G_n2 == 3); VAC(G_n1 == 0 && G_n2 == 0); VAC(G_n1 == 0 && G_n2 == 2); }
#endif
#if defined(OB_retry)
#ifndef NN
#define NN 3
#endif
/* the containers: verified in lists.c */
static NL_Node *CN[11 * NN]; static NodeContainer CC[11]; bool G_live[11]; int G_cc;
NodeContainer *NodeContainer_new(size_t n, bool owner) { __CPROVER_assert(G_cc < 11 && n > 0 && !owner, "container of refused nodes"); int k = G_cc++; CC[k].nodes = &CN[k * NN]; CC[k].size = 0; CC[k].owner = owner; CC[k].capacity = CC[k].incrementSize = n; G_live[k] = true; return &CC[k]; }
void NodeContainer_add(NodeContainer *c, NL_Node *n) { __CPROVER_assert(G_live[c - CC] && c->size < NN, "container of refused nodes"); c->nodes[c->size] = n; c->size++; }
void NodeContainer_delete(NodeContainer *c) { __CPROVER_assert(G_live[c - CC], "deleted once"); G_live[c - CC] = false; c->size = 0; }
static NL_Node ND[NN]; int P[NN], NP[NN], G_pn, G_npn, G_cur, G_rounds, G_logs; bool G_badlog;
static void finishRound(void) { if(G_cur == G_pn && G_pn > 0) { for(int i = 0; i < NN; i++) if(i < G_npn) P[i] = NP[i]; G_pn = G_npn; G_npn = 0; G_cur = 0; G_rounds++; } }
void spec_try(AddNodeContext *c, NL_Node *n) { __CPROVER_assert(c->serverContext == &G_sctx && c->problemNodes != NULL, "context"); __CPROVER_assert(G_rounds < 9, "at most nine rounds"); __CPROVER_assert(G_cur < G_pn && n == &ND[P[G_cur]], "node that was refused before, in order");
    if(G_cur < G_pn) { if(nondet_bool()) { NP[G_npn++] = P[G_cur]; NodeContainer_add(c->problemNodes, n); } G_cur++; } finishRound(); }
static void lg(void *c, enum NodesetLoader_LogLevel l, const char *m, ...) { if(c != (void *)ND || l != NODESETLOADER_LOGLEVEL_DEBUG) G_badlog = true; G_logs++; }
void harness(void) { NodeContainer *b = NodeContainer_new(100, false); int n = NN; G_pn = n; for(int i = 0; i < NN; i++) if(i < n) { P[i] = i; NodeContainer_add(b, &ND[i]); } NodesetLoader_Logger l = {ND, lg};
    size_t r = secondChanceAddNodes(&G_sctx, &b, &l);
    ENS(G_cur == 0); ENS(G_pn == 0 || G_rounds == 9); ENS(r == (size_t)(n - G_pn)); ENS(b->size == (size_t)G_pn); for(int i = 0; i < NN; i++) ENS(IMP(i < G_pn, b->nodes[i] == &ND[P[i]]));
    ENS(!G_badlog); VAC(G_rounds == 9 && G_pn == NN); VAC(G_rounds == 9 && G_pn == 0 && n == NN); VAC(G_rounds == NN); int live = 0; for(int i = 0; i < 11; i++) live += G_live[i]; ENS(live == 1 && G_live[b - CC]); }
#endif
#ifdef OB_nsadd
UA_UInt16 G_idx; int G_srvNs, G_ctxNs; const char *G_uri;
UA_UInt16 UA_Server_addNamespace(UA_Server *s, const char *u) { __CPROVER_assert(s == SRV && u == G_uri && !G_ctxNs, "registered at the server"); G_srvNs++; return G_idx; }
void ServerContext_addNamespaceIdx(struct ServerContext *c, UA_UInt16 i) { __CPROVER_assert(c == &G_sctx && i == G_idx && G_srvNs, "kept for the values"); G_ctxNs++; }
void harness(void) { G_idx = (UA_UInt16)nondet_unsigned(); G_uri = TB; unsigned short r = NodesetLoader_BackendOpen62541_addNamespace(&G_sctx, TB); ENS(r == G_idx && G_srvNs == 1 && G_ctxNs == 1); VAC(r == 65535); VAC(r == 0); }
#endif
#ifdef OB_log
const char *G_msg; int G_logs, G_x; UA_LogLevel G_exp; static UA_Logger LG; static int LC;
static void sl(void *c, UA_LogLevel l, UA_LogCategory cat, const char *m, va_list a) { __CPROVER_assert(c == &LC && l == G_exp && m == G_msg, "message, level and context"); int x = va_arg(a, int); __CPROVER_assert(x == G_x, "arguments"); G_logs++; }
void harness(void) { LG.log = sl; LG.context = &LC; G_msg = TB; G_x = nondet_int(); int l = nondet_int(); __CPROVER_assume(l >= 0 && l <= 2); G_exp = l == NODESETLOADER_LOGLEVEL_DEBUG ? UA_LOGLEVEL_DEBUG : l == NODESETLOADER_LOGLEVEL_WARNING ? UA_LOGLEVEL_WARNING : UA_LOGLEVEL_ERROR;
    logToOpen(&LG, (enum NodesetLoader_LogLevel)l, TB, G_x); ENS(G_logs == 1); VAC(l == NODESETLOADER_LOGLEVEL_DEBUG); VAC(l == NODESETLOADER_LOGLEVEL_WARNING); VAC(l == NODESETLOADER_LOGLEVEL_ERROR); }
#endif

#ifdef OB_all
#ifndef NN
#define NN 8
#endif
/* one node of each class (or none of one of them); every answer of the server */
static const int ORD[8] = {5, 3, 1, 6, 0, 4, 2, 7}; static const int OPC[8] = {UA_NODECLASS_OBJECT, UA_NODECLASS_OBJECTTYPE, UA_NODECLASS_VARIABLE, UA_NODECLASS_DATATYPE, UA_NODECLASS_METHOD, UA_NODECLASS_REFERENCETYPE, UA_NODECLASS_VARIABLETYPE, UA_NODECLASS_VIEW};
static NL_ObjectNode n0; static NL_ObjectTypeNode n1; static NL_VariableNode n2; static NL_DataTypeNode n3; static NL_MethodNode n4; static NL_ReferenceTypeNode n5; static NL_VariableTypeNode n6; static NL_ViewNode n7; static NL_Node *const NODE[8] = {(NL_Node *)&n0, (NL_Node *)&n1, (NL_Node *)&n2, (NL_Node *)&n3, (NL_Node *)&n4, (NL_Node *)&n5, (NL_Node *)&n6, (NL_Node *)&n7};
static NL_Reference HR[8], OR[8]; int G_offered[8], G_typed, G_refusedN, G_seconds, G_imp, G_init, G_del, G_hrefs[8], G_orefs[8], G_warn, G_absent; NL_Node *RF[8]; bool G_secondOk; NodesetLoader *const LD = (NodesetLoader *)(void *)&G_typed;
static int at(NL_NodeClass c) { for(int i = 0; i < 8; i++) if(ORD[i] == (int)c) return i; return 8; }
static void vf_hook(int op, const UA_NodeId *id) { int c = (int)id->identifier.numeric; __CPROVER_assert(c >= 0 && c < 8 && op == OPC[c], "operation of the class"); if(c < 0 || c >= 8) return;
    for(int i = 0; i < 8; i++) { int k = ORD[i]; if(at((NL_NodeClass)c) > i) __CPROVER_assert(k == G_absent || G_offered[k] == 1, "classes before this one are complete"); if(at((NL_NodeClass)c) < i) __CPROVER_assert(!G_offered[k], "classes behind this one come later"); }
    if(c == 2) __CPROVER_assert(G_del == 1, "the custom types are ready before the first value");
    G_offered[c]++; G_status = nondet_unsigned(); if((G_status >> 30) >= 2 && G_refusedN < 8) RF[G_refusedN++] = NODE[c]; }
size_t NodesetLoader_forEachNode(NodesetLoader *l, NL_NodeClass c, void *ctx, NodesetLoader_forEachNode_Func fn) { __CPROVER_assert(l == LD && (int)c >= 0 && (int)c < 8, "iteration"); if((int)c == G_absent) return 0; fn(ctx, NODE[c]); return 1; }
const NL_BiDirectionalReference *NodesetLoader_getBidirectionalRefs(const NodesetLoader *l) { __CPROVER_assert(l == LD, "loader"); return NULL; }
DataTypeImporter *DataTypeImporter_new(struct UA_Server *s) { __CPROVER_assert(s == SRV && !G_imp && (G_offered[3] == 1 || G_absent == 3), "types after their nodes"); G_imp++; return (DataTypeImporter *)(void *)&G_imp; }
void DataTypeImporter_addCustomDataType(DataTypeImporter *i, const NL_DataTypeNode *n, const UA_NodeId p) { __CPROVER_assert(G_imp == 1 && !G_init && n == &n3, "type of a data type node"); G_typed++; }
void DataTypeImporter_initMembers(DataTypeImporter *i) { __CPROVER_assert(G_imp && !G_del && G_typed == (G_absent != 3), "members after all types"); G_init++; }
void DataTypeImporter_delete(DataTypeImporter *i) { __CPROVER_assert(G_init == 1, "members before"); G_del++; }
static NodeContainer CC[2]; static NL_Node *CN[16]; bool G_live[2]; int G_cc;
NodeContainer *NodeContainer_new(size_t n, bool owner) { __CPROVER_assert(G_cc < 2 && n > 0 && !owner, "container of refused nodes"); int k = G_cc++; CC[k].nodes = &CN[k * 8]; CC[k].size = 0; CC[k].owner = owner; CC[k].capacity = CC[k].incrementSize = n; G_live[k] = true; return &CC[k]; }
void NodeContainer_add(NodeContainer *c, NL_Node *n) { __CPROVER_assert(G_live[c - CC] && c->size < 8, "container of refused nodes"); c->nodes[c->size] = n; c->size++; }
void NodeContainer_delete(NodeContainer *c) { __CPROVER_assert(G_live[c - CC], "deleted once"); G_live[c - CC] = false; c->size = 0; }
static void allOffered(void) { for(int i = 0; i < 8; i++) __CPROVER_assert(G_offered[i] == (i != G_absent), "every node is offered once"); }
size_t spec_second(struct ServerContext *sc, NodeContainer **b, const NodesetLoader_Logger *l) { allOffered(); __CPROVER_assert(sc == &G_sctx && (*b)->size == (size_t)G_refusedN, "exactly the refused nodes"); for(int i = 0; i < 8; i++) if(i < G_refusedN) __CPROVER_assert((*b)->nodes[i] == RF[i], "exactly the refused nodes"); G_seconds++;
    NodeContainer_delete(*b); *b = NodeContainer_new(1, false); return nondet_size_t(); }
UA_StatusCode UA_Server_addReference(UA_Server *s, const UA_NodeId src, const UA_NodeId type, const UA_ExpandedNodeId t, UA_Boolean fwd) { __CPROVER_assert(s == SRV && (!G_refusedN || G_seconds == 1), "references after the nodes"); allOffered(); unsigned c = src.identifier.numeric; __CPROVER_assert(c < 8, "source"); if(type.identifier.numeric == 100 + c) G_hrefs[c]++; else if(type.identifier.numeric == 200 + c) G_orefs[c]++; else __CPROVER_assert(0, "type of the reference"); return nondet_unsigned(); }
static void lg(void *c, enum NodesetLoader_LogLevel l, const char *m, ...) { if(l == NODESETLOADER_LOGLEVEL_WARNING) G_warn++; }
void harness(void) { G_absent = nondet_int(); __CPROVER_assume(G_absent >= 0 && G_absent <= 8);
    for(int i = 0; i < 8; i++) { NL_Node *n = NODE[i]; n->nodeClass = (NL_NodeClass)i; n->id = UA_NODEID_NUMERIC(1, (UA_UInt32)i); n->browseName.name = TB; n->hierachicalRefs = &HR[i]; n->nonHierachicalRefs = &OR[i]; HR[i].refType = UA_NODEID_NUMERIC(0, 100 + (UA_UInt32)i); OR[i].refType = UA_NODEID_NUMERIC(0, 200 + (UA_UInt32)i); HR[i].isForward = nondet_bool(); OR[i].isForward = nondet_bool(); }
    n0.eventNotifier = n7.eventNotifier = n7.containsNoLoops = n1.isAbstract = n3.isAbstract = n6.isAbstract = n4.executable = n4.userExecutable = n5.symmetric = n2.accessLevel = n2.userAccessLevel = n2.historizing = n2.minimumSamplingInterval = n2.valueRank = n2.arrayDimensions = n6.valueRank = n6.arrayDimensions = TB; V_int[0] = -1;
    G_dtxt = TB; G_dt = n3.id; NodesetLoader_Logger l = {NULL, lg};
    addNodes(LD, &G_sctx, &l);
    allOffered(); ENS(G_seconds == (G_refusedN > 0)); ENS(G_del == 1); for(int i = 0; i < 8; i++) ENS(G_hrefs[i] == (i != G_absent) && G_orefs[i] == (i != G_absent)); ENS(IMP(G_refusedN > 0, G_warn > 0)); ENS(!G_live[0] && !G_live[1]);
    VAC(G_refusedN == 8); VAC(G_refusedN == 0 && G_absent == 8); VAC(G_absent == 3 && G_refusedN == 4); }
#endif
#ifdef OB_load
/* ---- the whole import of one file ---- */
bool G_impOk, G_sortOk; int G_st, G_ctxs, G_ctxd, G_rsn, G_rsd, G_ln, G_ld, G_adds, G_imports, G_sorts, G_err; NL_ReferenceService *G_rs; NodesetLoader_Logger *G_lgr; const char *G_path; NodesetLoader_ExtensionInterface *G_ext; NodesetLoader *const LD = (NodesetLoader *)(void *)&G_st; static int LC; static UA_Logger LG;
struct ServerContext *ServerContext_new(struct UA_Server *s) { __CPROVER_assert(s == SRV, "server"); G_ctxs++; return &G_sctx; }
void ServerContext_delete(struct ServerContext *c) { __CPROVER_assert(c == &G_sctx && G_ctxs == 1, "context"); G_ctxd++; }
NL_ReferenceService *RefServiceImpl_new(struct UA_Server *s) { __CPROVER_assert(s == SRV, "server"); G_rsn++; return G_rs; }
void RefServiceImpl_delete(NL_ReferenceService *r) { __CPROVER_assert(r == G_rs, "reference service"); G_rsd++; }
UA_UInt16 UA_Server_addNamespace(UA_Server *s, const char *u) { __CPROVER_assert(s == SRV && u == TB, "registered at the server"); return 9; }
int G_nsidx; void ServerContext_addNamespaceIdx(struct ServerContext *c, UA_UInt16 i) { __CPROVER_assert(c == &G_sctx && i == 9, "kept for the values"); G_nsidx++; }
NodesetLoader *NodesetLoader_new(NodesetLoader_Logger *l, struct NL_ReferenceService *r) { __CPROVER_assert(l && r == G_rs && !G_rsd, "service of the server"); G_lgr = l; G_ln++; return LD; }
bool NodesetLoader_importFile(NodesetLoader *l, const NL_FileContext *c) { __CPROVER_assert(l == LD && !G_ld && !G_ctxd && !G_rsd && c && c->file == G_path && c->extensionHandling == G_ext && c->addNamespace, "file"); __CPROVER_assert(c->addNamespace(c->userContext, TB) == 9 && G_nsidx == 1, "namespaces go to the server"); G_imports++; return G_impOk; }
bool NodesetLoader_sort(NodesetLoader *l) { __CPROVER_assert(l == LD && !G_ld && !G_rsd && G_imports, "sorted after the import"); G_sorts++; return G_sortOk; }
void NodesetLoader_delete(NodesetLoader *l) { __CPROVER_assert(l == LD, "loader"); G_lgr->context = G_lgr->context; G_ld++; }
void spec_addNodes(NodesetLoader *l, struct ServerContext *c, NodesetLoader_Logger *lg) { __CPROVER_assert(l == LD && c == &G_sctx && !G_ld && !G_ctxd && G_imports && G_sorts && G_impOk && G_sortOk && lg == G_lgr, "nodes are added after a successful import"); G_adds++; }
static void sl(void *c, UA_LogLevel l, UA_LogCategory cat, const char *m, va_list a) { __CPROVER_assert(c == &LC, "logger of the server"); if(l == UA_LOGLEVEL_ERROR) G_err++; }
void harness(void) { G_impOk = nondet_bool(); G_sortOk = nondet_bool(); LG.log = sl; LG.context = &LC; G_cfg.logging = &LG; G_rs = NEW(NL_ReferenceService); G_ext = (NodesetLoader_ExtensionInterface *)nondet_ptr(); bool hasS = nondet_bool(), hasP = nondet_bool(); G_path = hasP ? TB : NULL;
    bool r = NodesetLoader_loadFile(hasS ? SRV : NULL, G_path, G_ext); bool ok = hasS && hasP;
    ENS(r == (ok && G_impOk && G_sortOk)); ENS(G_adds == r); ENS(G_ctxs == ok && G_ctxd == ok && G_rsn == ok && G_rsd == ok && G_ln == ok && G_ld == ok); ENS(G_imports == ok); ENS(IMP(ok && !r, G_err >= 1)); ENS(IMP(r, G_err == 0));
    VAC(r); VAC(ok && !G_impOk); VAC(ok && G_impOk && !G_sortOk); VAC(!hasS); VAC(hasS && !hasP); free(G_rs); }
#endif
