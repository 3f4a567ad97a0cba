/* Contracts of src/Nodeset.c (and src/nodes/Node.c).  The tables it uses are
 * known by the contracts proved in lists.c; texts are opaque objects whose
 * first 15 characters are arbitrary (no literal it compares with is longer). */
#include "vf.h"
static int vf_strcmp(const char *a, const char *b) {
    __CPROVER_precondition(a != NULL && b != NULL, "strcmp arguments");
    size_t i = 0; while(a[i] == b[i] && a[i]) i++; return (unsigned char)a[i] - (unsigned char)b[i]; }
#define strcmp vf_strcmp
#define strlen(s) ((size_t)1)      /* length of a text handed to UA_NodeId_parse: not looked at by the model */
#include "ua_model.h"
#undef strlen
#include <NodesetLoader/NodesetLoader.h>
#include "Nodeset.h"
#include "AliasList.h"
#include "NamespaceList.h"
#include "Sort.h"
#include "nodes/NodeContainer.h"
#include "nodes/DataTypeNode.h"
#include "nodes/Node.h"
/* ---- texts ---- */
enum { A_NODEID, A_BROWSENAME, A_PARENT, A_DATATYPE, A_VALUERANK, A_ARRAYDIM, A_HISTORIZING, A_SAMPLING, A_EVENT, A_ABSTRACT, A_REFTYPE, A_FORWARD, A_SYMMETRIC, A_ALIAS, A_NOLOOPS,
       A_EXEC, A_USEREXEC, A_ACCESS, A_USERACCESS, A_ISUNION, A_OPTIONSET, A_NAME, A_VALUE, A_OPTIONAL, A_LOCALE, NATTR, T_TARGET = NATTR, T_ELEM, NTEXT };
struct txt { char c[16]; } G_T[NTEXT]; bool G_has[NATTR];
static const char *const G_an[NATTR] = { "NodeId", "BrowseName", "ParentNodeId", "DataType", "ValueRank", "ArrayDimensions", "Historizing", "MinimumSamplingInterval", "EventNotifier", "IsAbstract", "ReferenceType", "IsForward",
    "Symmetric", "Alias", "ContainsNoLoops", "Executable", "UserExecutable", "AccessLevel", "UserAccessLevel", "IsUnion", "IsOptionSet", "Name", "Value", "IsOptional", "Locale" };
static const char *const G_def[NATTR] = { NULL, NULL, NULL, "i=24", "-1", "", "false", "-1", "0", "false", NULL, "true", "false", NULL, "false", "true", "true", "1", "1", "false", "false", NULL, NULL, "false", NULL };
Nodeset *G_ns; const char **G_attrs; int G_nb;
static int text_no(const char *s) { for(int i = 0; i < NTEXT; i++) if(s == G_T[i].c) return i; return -1; }
/* node ids: what the parser of the library answers for text t (arbitrary), "i=<n>" for literals */
UA_NodeId G_parsed[NTEXT]; bool G_valid[NTEXT];
unsigned short __CPROVER_uninterpreted_nsmap(int); int G_nns;
static unsigned lit_num(const char *s) { /* literals of at most two digits */
    if(s[0] < '0' || s[0] > '9') return 0; unsigned a = (unsigned)(s[0] - '0'); if(s[1] < '0' || s[1] > '9') return a;
    __CPROVER_precondition(s[2] < '0' || s[2] > '9', "literal number of two digits"); return a * 10 + (unsigned)(s[1] - '0'); }
static UA_NodeId lit_id(const char *s) { __CPROVER_precondition(s[0] == 'i' && s[1] == '=', "literal id"); return UA_NODEID_NUMERIC(0, lit_num(s + 2)); }
UA_StatusCode UA_NodeId_parse(UA_NodeId *id, const UA_String str) {
    int t = text_no((const char *)str.data);
    if(t < 0) { *id = lit_id((const char *)str.data); return 0; }
    if(!G_valid[t]) { memset(id, 0, sizeof *id); return UA_STATUSCODE_BADDECODINGERROR; }
    *id = G_parsed[t]; return 0; }
UA_NodeId UA_NODEID(const char *s) { return lit_id(s); }
UA_StatusCode UA_NodeId_print(const UA_NodeId *id, UA_String *o) { o->length = 0; o->data = NULL; return 0; }
void UA_String_clear(UA_String *s) { s->length = 0; s->data = NULL; }
static Namespace G_nsEntry;
struct NamespaceList { int dummy; } G_nsl;
/* contract of NamespaceList_getNamespace as proved in lists.c */
const Namespace *NamespaceList_getNamespace(const NamespaceList *l, int i) {
    __CPROVER_precondition(l == (const NamespaceList *)&G_nsl, "the file's namespace table"); if(i < 0 || i >= G_nns) return NULL; G_nsEntry.idx = __CPROVER_uninterpreted_nsmap(i); return &G_nsEntry; }
/* spec: namespace index of the caller */
static unsigned short spec_ns(unsigned short i) { return i == 0 ? 0 : (int)i < G_nns ? __CPROVER_uninterpreted_nsmap(i) : i; }
static UA_NodeId spec_id(const char *s) {
    UA_NodeId id; memset(&id, 0, sizeof id);
    if(!s) return id;
    int t = text_no(s); if(t < 0) return lit_id(s);
    if(!G_valid[t]) return id;
    id = G_parsed[t]; id.namespaceIndex = spec_ns(id.namespaceIndex); return id; }
/* aliases: text t is (or is not) an alias for an arbitrary id */
bool G_isAlias[NTEXT]; UA_NodeId G_aliasId[NTEXT];
struct AliasList { int dummy; } G_al;
const UA_NodeId *AliasList_getNodeId(const AliasList *l, const char *a) {
    __CPROVER_precondition(l == (const AliasList *)&G_al, "the file's alias table"); if(!a) return NULL; int t = text_no(a); if(t < 0 || !G_isAlias[t]) return NULL; return &G_aliasId[t]; }
static UA_NodeId spec_alias(const char *s) { if(s) { int t = text_no(s); if(t >= 0 && G_isAlias[t]) return G_aliasId[t]; } return spec_id(s); }
/* the value of attribute i by the file, or its default */
static bool is_attr(int i, const char *got) { if(G_has[i]) return got == G_T[i].c; if(!G_def[i]) return got == NULL; return got != NULL && vf_strcmp(got, G_def[i]) == 0; }
static const char *attr_text(int i) { return G_has[i] ? G_T[i].c : G_def[i]; }
static bool same_id(const UA_NodeId *got, UA_NodeId want) { return vf_ideq(got, &want); }
static bool null_id(const UA_NodeId *i) { return i->namespaceIndex == 0 && i->identifierType == UA_NODEIDTYPE_NUMERIC && i->identifier.numeric == 0; }
static UA_NodeId some_id(void) { UA_NodeId i = nondet_id(); __CPROVER_assume(i.identifierType == UA_NODEIDTYPE_NUMERIC || i.identifierType == UA_NODEIDTYPE_STRING || i.identifierType == UA_NODEIDTYPE_GUID || i.identifierType == UA_NODEIDTYPE_BYTESTRING); return i; }
/* browse names */
size_t G_bnColon; bool G_bnHas; int G_bnNum; char *G_bn;
static char *vf_strchr(const char *s, int c) { __CPROVER_precondition(s == G_bn && c == ':', "browse name"); return G_bnHas ? (char *)s + G_bnColon : NULL; }
static int vf_atoi(const char *s) {
    if(s == G_bn) return G_bnNum;
    int t = text_no(s); if(t >= 0) { return *(int *)(G_T[t].c + 8); } /* any number */
    if(s[0] == '-') return -(int)lit_num(s + 1); return (int)lit_num(s); }
#ifdef OB_foreach
size_t G_K, G_size, G_calls; NL_Node *G_atK, *G_nodeK, **G_nodes;
#endif
#define strchr vf_strchr
#define atoi vf_atoi
#define strlen(s) ((size_t)1)
#if defined(OB_newnode) || defined(OB_nodenew) || defined(OB_nodedel)
#include "gen/src/nodes/Node.c"
#undef PARSERSTATE_H
#endif
#include "gen/src/Nodeset.c"
#undef strlen
/* ---- attribute lookup by contract (proved/bounded: OB_gav) ---- */
static char *spec_gav(const NodeAttribute *attr) { for(int i = 0; i < NATTR; i++) if(vf_strcmp(attr->name, G_an[i]) == 0 && G_has[i]) return G_T[i].c; return attr->defaultValue; }
/* the contract of getAttributeValue: callers are checked against it, not against its body */
char *spec_getAttributeValue(Nodeset *nodeset, const NodeAttribute *attr, const char **attributes, int nb_attributes) {
    __CPROVER_precondition(nodeset == G_ns && attributes == G_attrs && nb_attributes == G_nb, "attribute table of this element"); return spec_gav(attr); }
static void setup(void) {
    G_T[A_FORWARD].c[15] = G_T[A_ISUNION].c[15] = G_T[A_OPTIONSET].c[15] = G_T[A_OPTIONAL].c[15] = G_T[T_ELEM].c[15] = 0;
    G_ns = (Nodeset *)malloc(sizeof *G_ns); __CPROVER_assume(G_ns != NULL); G_ns->namespaces = (struct NamespaceList *)&G_nsl; G_ns->aliasList = (struct AliasList *)&G_al;
    G_attrs = nondet_ptr(); G_nb = nondet_int(); G_nns = nondet_int(); __CPROVER_assume(G_nns >= 1);
    G_bn = G_T[A_BROWSENAME].c; __CPROVER_assume(G_bnColon < 15 && G_bnNum >= 0 && G_bnNum <= 65535);
    if(G_bnHas) { __CPROVER_assume(G_bn[G_bnColon] == ':'); }
}
#ifdef OB_translate
UA_NodeId G_in;
UA_NodeId c_translate(const NamespaceList *namespaces, UA_NodeId id)
__CPROVER_requires(namespaces == (const NamespaceList *)&G_nsl && 1)
__CPROVER_assigns(G_nsEntry)
__CPROVER_ensures(RET.identifierType == id.identifierType)
__CPROVER_ensures(IMP(id.identifierType == UA_NODEIDTYPE_NUMERIC, RET.identifier.numeric == id.identifier.numeric))
__CPROVER_ensures(IMP(id.identifierType == UA_NODEIDTYPE_STRING, RET.identifier.string.length == id.identifier.string.length && RET.identifier.string.data == id.identifier.string.data))
;
void harness(void) { setup(); G_in = some_id(); UA_NodeId r = translateNodeId((NamespaceList *)&G_nsl, G_in); ENS(r.namespaceIndex == spec_ns(G_in.namespaceIndex)); VAC(G_in.namespaceIndex > 0 && r.namespaceIndex != G_in.namespaceIndex); VAC(G_in.namespaceIndex == 0); VAC((int)G_in.namespaceIndex >= G_nns); }
#endif
#ifdef OB_extractid
static bool post_id(UA_NodeId got, const char *s) { UA_NodeId w = spec_id(s); return vf_ideq(&got, &w); }
UA_NodeId c_extractid(const NamespaceList *namespaces, char *s)
__CPROVER_requires(namespaces == (const NamespaceList *)&G_nsl)
__CPROVER_assigns(G_nsEntry)
;
void harness(void) { setup(); char *s = nondet_bool() ? NULL : G_T[T_ELEM].c; UA_NodeId r = extractNodedId((NamespaceList *)&G_nsl, s); ENS(post_id(r, s)); VAC(s && !G_valid[T_ELEM]); VAC(s && r.namespaceIndex != G_parsed[T_ELEM].namespaceIndex && r.identifierType == UA_NODEIDTYPE_STRING); VAC(!s); }
#endif
#ifdef OB_browsename
NL_BrowseName c_browsename(const NamespaceList *namespaces, char *s)
__CPROVER_requires(namespaces == (const NamespaceList *)&G_nsl && (s == NULL || s == G_bn))
__CPROVER_assigns(G_nsEntry)
__CPROVER_ensures(IMP(s == NULL, RET.name == NULL && RET.nsIdx == 0))
__CPROVER_ensures(IMP(s != NULL && !G_bnHas, RET.name == s && RET.nsIdx == 0))
__CPROVER_ensures(IMP(s != NULL && G_bnHas, RET.name == s + G_bnColon + 1))
;
void harness(void) { setup(); char *s = nondet_bool() ? NULL : G_bn; NL_BrowseName r = extractBrowseName((NamespaceList *)&G_nsl, s); ENS(IMP(s != NULL && G_bnHas, r.nsIdx == spec_ns((unsigned short)G_bnNum))); VAC(s && G_bnHas && r.nsIdx != G_bnNum); VAC(s && !G_bnHas); VAC(!s); }
#endif
#ifdef OB_alias2id
static bool post_alias(UA_NodeId got, const char *s) { UA_NodeId w = spec_alias(s); return vf_ideq(&got, &w); }
UA_NodeId c_alias2id(const Nodeset *nodeset, char *name)
__CPROVER_requires(nodeset == G_ns)
__CPROVER_assigns(G_nsEntry, G_copies)
/* an independent copy: string identifiers get storage of their own */
__CPROVER_ensures(IMP(name != NULL && G_isAlias[T_ELEM] && (RET.identifierType == UA_NODEIDTYPE_STRING || RET.identifierType == UA_NODEIDTYPE_BYTESTRING), RET.identifier.string.data == (UA_Byte *)(void *)&G_copies && G_copies == 1))
;
void harness(void) { setup(); G_copies = 0; __CPROVER_assume(G_aliasId[T_ELEM].identifier.string.data != (UA_Byte *)(void *)&G_copies); char *s = nondet_bool() ? NULL : G_T[T_ELEM].c; UA_NodeId r = alias2Id(G_ns, s); ENS(post_alias(r, s)); VAC(s && G_isAlias[T_ELEM] && r.identifierType == UA_NODEIDTYPE_STRING); VAC(s && !G_isAlias[T_ELEM] && G_valid[T_ELEM]); VAC(!s); }
#endif
#ifdef OB_newnode
void Value_delete(NL_Value *v) { }
int G_cls;
static bool common0(const NL_Node *n) { return n->displayName.locale == NULL && n->displayName.text == NULL && n->description.locale == NULL && n->description.text == NULL && n->hierachicalRefs == NULL && n->nonHierachicalRefs == NULL && n->unknownRefs == NULL && n->extension == NULL; }
static bool post_newnode(const NL_Node *n) {
    if(!n || !common0(n) || (int)n->nodeClass != G_cls) return false;
    if(!same_id(&n->id, spec_id(attr_text(A_NODEID)))) return false;
    if(!(G_has[A_BROWSENAME] ? (G_bnHas ? n->browseName.name == G_bn + G_bnColon + 1 && n->browseName.nsIdx == spec_ns((unsigned short)G_bnNum) : n->browseName.name == G_bn && n->browseName.nsIdx == 0) : n->browseName.name == NULL && n->browseName.nsIdx == 0)) return false;
    UA_NodeId parent = spec_id(attr_text(A_PARENT)), dt = spec_alias(attr_text(A_DATATYPE));
    switch(G_cls) {
    case NODECLASS_OBJECT: { const NL_ObjectNode *o = (const NL_ObjectNode *)n; return same_id(&o->parentNodeId, parent) && is_attr(A_EVENT, o->eventNotifier) && o->refToTypeDef == NULL; }
    case NODECLASS_OBJECTTYPE: return is_attr(A_ABSTRACT, ((const NL_ObjectTypeNode *)n)->isAbstract);
    case NODECLASS_VARIABLE: { const NL_VariableNode *v = (const NL_VariableNode *)n; return same_id(&v->parentNodeId, parent) && same_id(&v->datatype, dt) && is_attr(A_VALUERANK, v->valueRank) && is_attr(A_SAMPLING, v->minimumSamplingInterval)
        && is_attr(A_ARRAYDIM, v->arrayDimensions) && is_attr(A_ACCESS, v->accessLevel) && is_attr(A_USERACCESS, v->userAccessLevel) && is_attr(A_HISTORIZING, v->historizing) && v->value == NULL && v->refToTypeDef == NULL; }
    case NODECLASS_VARIABLETYPE: { const NL_VariableTypeNode *v = (const NL_VariableTypeNode *)n; return same_id(&v->datatype, dt) && is_attr(A_VALUERANK, v->valueRank) && is_attr(A_ARRAYDIM, v->arrayDimensions) && is_attr(A_ABSTRACT, v->isAbstract); }
    case NODECLASS_DATATYPE: return is_attr(A_ABSTRACT, ((const NL_DataTypeNode *)n)->isAbstract) && ((const NL_DataTypeNode *)n)->definition == NULL;
    case NODECLASS_METHOD: { const NL_MethodNode *m = (const NL_MethodNode *)n; return same_id(&m->parentNodeId, parent) && is_attr(A_EXEC, m->executable) && is_attr(A_USEREXEC, m->userExecutable); }
    case NODECLASS_REFERENCETYPE: { const NL_ReferenceTypeNode *t = (const NL_ReferenceTypeNode *)n; return is_attr(A_SYMMETRIC, t->symmetric) && t->inverseName.locale == NULL && t->inverseName.text == NULL; }
    default: { const NL_ViewNode *v = (const NL_ViewNode *)n; return same_id(&v->parentNodeId, parent) && is_attr(A_NOLOOPS, v->containsNoLoops) && is_attr(A_EVENT, v->eventNotifier); }
    } }
NL_Node *c_newnode(Nodeset *nodeset, NL_NodeClass nodeClass, int nb_attributes, const char **attributes)
__CPROVER_requires(nodeset == G_ns && (int)nodeClass == G_cls && nb_attributes == G_nb && attributes == G_attrs)
__CPROVER_assigns(G_nsEntry, G_copies)
;
void harness(void) { setup(); G_cls = nondet_int(); __CPROVER_assume(G_cls >= CLS_LO && G_cls <= CLS_HI); __CPROVER_assume(G_nns < 65536); NL_Node *n = Nodeset_newNode(G_ns, (NL_NodeClass)G_cls, G_nb, G_attrs); ENS(post_newnode(n));
    VAC(G_cls == CLS_LO && G_has[A_NODEID] && !G_has[A_PARENT]); VAC(G_cls == CLS_HI && !G_has[A_ABSTRACT] && G_has[A_DATATYPE]); }
#endif
#ifdef OB_nodenew
static size_t class_size(int c) { switch(c) { case NODECLASS_OBJECT: return sizeof(NL_ObjectNode); case NODECLASS_OBJECTTYPE: return sizeof(NL_ObjectTypeNode); case NODECLASS_VARIABLE: return sizeof(NL_VariableNode);
    case NODECLASS_DATATYPE: return sizeof(NL_DataTypeNode); case NODECLASS_METHOD: return sizeof(NL_MethodNode); case NODECLASS_REFERENCETYPE: return sizeof(NL_ReferenceTypeNode); case NODECLASS_VARIABLETYPE: return sizeof(NL_VariableTypeNode); default: return sizeof(NL_ViewNode); } }
#endif
/* ---- localized texts ---- */
#if defined(OB_dn) || defined(OB_de) || defined(OB_in) || defined(OB_dnf) || defined(OB_def) || defined(OB_inf)
NL_ReferenceTypeNode *G_r; NL_ReferenceTypeNode G_ro;
static bool lt_same(NL_LocalizedText a, NL_LocalizedText b) { return a.locale == b.locale && a.text == b.text; }
enum { L_DN, L_DE, L_IN }; 
/* exactly the locale (or text) of one of the three texts changes */
static bool post_lt(int which, bool locale, const char *text) {
    NL_LocalizedText w[3] = { G_ro.displayName, G_ro.description, G_ro.inverseName };
    bool applies = which != L_IN || G_ro.nodeClass == NODECLASS_REFERENCETYPE;
    if(applies) { if(locale) w[which].locale = (char *)attr_text(A_LOCALE); else w[which].text = (char *)text; }
    return lt_same(G_r->displayName, w[0]) && lt_same(G_r->description, w[1]) && IMP(G_ro.nodeClass == NODECLASS_REFERENCETYPE, lt_same(G_r->inverseName, w[2])) && G_r->nodeClass == G_ro.nodeClass
        && same_id(&G_r->id, G_ro.id) && G_r->browseName.name == G_ro.browseName.name && G_r->extension == G_ro.extension && G_r->hierachicalRefs == G_ro.hierachicalRefs && G_r->nonHierachicalRefs == G_ro.nonHierachicalRefs && G_r->unknownRefs == G_ro.unknownRefs; }
#define LT_START(cn) void cn(Nodeset *nodeset, NL_Node *node, int attributeSize, const char **attributes) \
__CPROVER_requires(nodeset == G_ns && node == (NL_Node *)G_r && attributeSize == G_nb && attributes == G_attrs) __CPROVER_assigns(__CPROVER_object_whole(node))
#define LT_FIN(cn) void cn(const Nodeset *nodeset, NL_Node *node, char *text) __CPROVER_requires(nodeset == G_ns && node == (NL_Node *)G_r && text == G_T[T_ELEM].c) __CPROVER_assigns(__CPROVER_object_whole(node))
LT_START(c_dn);
LT_START(c_de);
LT_START(c_in);
LT_FIN(c_dnf);
LT_FIN(c_def);
LT_FIN(c_inf);
void harness(void) { setup(); int c = nondet_int(); __CPROVER_assume(c == NODECLASS_REFERENCETYPE || c == NODECLASS_OBJECTTYPE);
    /* a node of another class is smaller: nothing behind it may be written */
    G_r = (NL_ReferenceTypeNode *)malloc(c == NODECLASS_REFERENCETYPE ? sizeof(NL_ReferenceTypeNode) : sizeof(NL_ObjectTypeNode)); __CPROVER_assume(G_r != NULL); G_r->nodeClass = (NL_NodeClass)c;
    *(NL_ObjectTypeNode *)&G_ro = *(NL_ObjectTypeNode *)G_r; if(c == NODECLASS_REFERENCETYPE) G_ro = *G_r; __CPROVER_assume(same_id(&G_ro.id, G_r->id)); G_ro.nodeClass = (NL_NodeClass)c;
#if defined(OB_dn)
    Nodeset_setDisplayName(G_ns, (NL_Node *)G_r, G_nb, G_attrs); ENS(post_lt(L_DN, true, NULL));
#elif defined(OB_de)
    Nodeset_setDescription(G_ns, (NL_Node *)G_r, G_nb, G_attrs); ENS(post_lt(L_DE, true, NULL));
#elif defined(OB_in)
    Nodeset_setInverseName(G_ns, (NL_Node *)G_r, G_nb, G_attrs); ENS(post_lt(L_IN, true, NULL));
#elif defined(OB_dnf)
    Nodeset_DisplayNameFinish(G_ns, (NL_Node *)G_r, G_T[T_ELEM].c); ENS(post_lt(L_DN, false, G_T[T_ELEM].c));
#elif defined(OB_def)
    Nodeset_DescriptionFinish(G_ns, (NL_Node *)G_r, G_T[T_ELEM].c); ENS(post_lt(L_DE, false, G_T[T_ELEM].c));
#else
    Nodeset_InverseNameFinish(G_ns, (NL_Node *)G_r, G_T[T_ELEM].c); ENS(post_lt(L_IN, false, G_T[T_ELEM].c));
#endif
    VAC(c == NODECLASS_REFERENCETYPE && G_has[A_LOCALE]); VAC(c != NODECLASS_REFERENCETYPE); }
#endif
/* ---- references ---- */
#if defined(OB_newref) || defined(OB_reffin) || defined(OB_lookup) || defined(OB_nodefin) || defined(OB_lookuptypes) || defined(OB_sort)
NL_ReferenceService G_rs; bool G_td, G_hier, G_non; NL_Reference *G_lastRef; bool G_refOk; int G_cls; NL_Node *G_n; void *G_ctx;
static bool seen(void *c, const NL_Reference *r) { G_lastRef = (NL_Reference *)r; G_refOk = G_refOk && c == G_ctx && same_id(&r->refType, spec_alias(attr_text(A_REFTYPE))); return true; }
#endif
#ifdef OB_newref
static bool svc_td(void *c, const NL_Reference *r) { seen(c, r); return G_td; }
static bool svc_h(void *c, const NL_Reference *r) { seen(c, r); return G_hier; }
static bool svc_n(void *c, const NL_Reference *r) { seen(c, r); return G_non; }
static void svc_add(void *c, const NL_ReferenceTypeNode *n) { __CPROVER_assert(0, "no type is added here"); }
NL_Reference *G_oh, *G_on, *G_ou, *G_ot;
static NL_Reference **td_of(NL_Node *n) { return n->nodeClass == NODECLASS_VARIABLE ? &((NL_VariableNode *)n)->refToTypeDef : n->nodeClass == NODECLASS_OBJECT ? &((NL_ObjectNode *)n)->refToTypeDef : NULL; }
static bool post_newref(NL_Reference *r) {
    if(!r || !G_refOk) return false;
    bool inst = G_cls == NODECLASS_VARIABLE || G_cls == NODECLASS_OBJECT;
    int l = inst && G_td ? 0 : G_hier ? 1 : G_non ? 2 : 3;      /* type definition, hierarchical, non-hierarchical, unknown */
    NL_Reference **t = td_of(G_n);
    bool fwd = vf_strcmp(attr_text(A_FORWARD), "true") == 0 || vf_strcmp(attr_text(A_FORWARD), "1") == 0;
    return r->isForward == fwd && same_id(&r->refType, spec_alias(attr_text(A_REFTYPE))) && null_id(&r->target)
        && (l == 0 ? *t == r && r->next == G_ot : IMP(t != NULL, *t == G_ot))
        && (l == 1 ? G_n->hierachicalRefs == r && r->next == G_oh : G_n->hierachicalRefs == G_oh)
        && (l == 2 ? G_n->nonHierachicalRefs == r && r->next == G_on : G_n->nonHierachicalRefs == G_on)
        && (l == 3 ? G_n->unknownRefs == r && r->next == G_ou : G_n->unknownRefs == G_ou) && (int)G_n->nodeClass == G_cls; }
NL_Reference *c_newref(Nodeset *nodeset, NL_Node *node, int attributeSize, const char **attributes)
__CPROVER_requires(nodeset == G_ns && node == G_n && attributeSize == G_nb && attributes == G_attrs)
__CPROVER_assigns(__CPROVER_object_whole(node), G_nsEntry, G_copies, G_lastRef, G_refOk)
;
void harness(void) { setup(); G_cls = nondet_int(); __CPROVER_assume(G_cls >= 0 && G_cls < 8); __CPROVER_assume(G_nns < 65536);
    G_n = (NL_Node *)malloc(G_cls == NODECLASS_VARIABLE ? sizeof(NL_VariableNode) : G_cls == NODECLASS_OBJECT ? sizeof(NL_ObjectNode) : sizeof(NL_Node)); __CPROVER_assume(G_n != NULL); G_n->nodeClass = (NL_NodeClass)G_cls;
    G_oh = G_n->hierachicalRefs; G_on = G_n->nonHierachicalRefs; G_ou = G_n->unknownRefs; if(td_of(G_n)) G_ot = *td_of(G_n);
    G_ctx = nondet_ptr(); G_rs.context = G_ctx; G_rs.isHasTypeDefRef = svc_td; G_rs.isHierachicalRef = svc_h; G_rs.isNonHierachicalRef = svc_n; G_rs.addNewReferenceType = svc_add; G_ns->refService = &G_rs; G_refOk = true;
    NL_Reference *r = Nodeset_newReference(G_ns, G_n, G_nb, G_attrs); ENS(post_newref(r));
    VAC(G_cls == NODECLASS_VARIABLE && G_td); VAC(G_cls == NODECLASS_METHOD && G_td && !G_hier && G_non); VAC(!G_td && !G_hier && !G_non && G_cls == NODECLASS_OBJECT); VAC(G_hier && G_non && !G_td && G_has[A_FORWARD] && !r->isForward); }
#endif
#ifdef OB_reffin
NL_Reference *G_ref; NL_Reference G_refo; NL_BiDirectionalReference *G_bo; bool G_bnDefault;
static bool post_reffin(void) {
    UA_NodeId want = spec_alias(G_T[T_TARGET].c), enc = UA_NODEID_NUMERIC(0, 38);
    if(!(same_id(&G_ref->target, want) && same_id(&G_ref->refType, G_refo.refType) && G_ref->isForward == G_refo.isForward && G_ref->next == G_refo.next)) return false;
    bool entry = vf_ideq(&G_refo.refType, &enc) && !G_refo.isForward && G_n->browseName.name != NULL && vf_strcmp(G_n->browseName.name, "Default Binary") == 0;
    NL_BiDirectionalReference *b = G_ns->hasEncodingRefs;
    if(!entry) return b == G_bo;
    return b != G_bo && b != NULL && b->next == G_bo && same_id(&b->source, want) && same_id(&b->target, G_n->id) && vf_ideq(&b->refType, &enc)
        /* copies of its own */
        && IMP(b->source.identifierType == UA_NODEIDTYPE_STRING, b->source.identifier.string.data == (UA_Byte *)(void *)&G_copies) && IMP(b->target.identifierType == UA_NODEIDTYPE_STRING, b->target.identifier.string.data == (UA_Byte *)(void *)&G_copies); }
void c_reffin(Nodeset *nodeset, NL_Reference *ref, NL_Node *node, char *targetId)
__CPROVER_requires(nodeset == G_ns && ref == G_ref && node == G_n && targetId == G_T[T_TARGET].c)
__CPROVER_assigns(__CPROVER_object_whole(ref), nodeset->hasEncodingRefs, G_nsEntry, G_copies, G_clears)
;
void harness(void) { setup(); __CPROVER_assume(G_nns < 65536); G_ref = (NL_Reference *)malloc(sizeof *G_ref); G_n = (NL_Node *)malloc(sizeof *G_n); __CPROVER_assume(G_ref && G_n);
    G_ref->refType = some_id(); G_ref->target = some_id(); G_n->id = some_id(); G_refo = *G_ref; G_n->browseName.name = nondet_bool() ? NULL : G_T[T_ELEM].c; G_bo = nondet_bool() ? NULL : (NL_BiDirectionalReference *)malloc(sizeof *G_bo); G_ns->hasEncodingRefs = G_bo;
    Nodeset_newReferenceFinish(G_ns, G_ref, G_n, G_T[T_TARGET].c); ENS(post_reffin()); VAC(G_ns->hasEncodingRefs != G_bo); VAC(G_n->browseName.name == NULL); VAC(G_refo.refType.identifier.numeric == 38 && G_refo.isForward); }
#endif
/* ---- finishing nodes ---- */
#ifdef OB_nodefin
bool G_dup; int G_sorted, G_added, G_deleted, G_logged, G_regs; NodeContainer *G_into; struct SortContext *G_sc; NodesetLoader_Logger G_lg;
bool Sort_addNode(SortContext *c, NL_Node *n) { __CPROVER_precondition(c == G_sc && n == G_n, "node to sort"); G_sorted = 1; return !G_dup; }
void Node_delete(NL_Node *n) { __CPROVER_precondition(n == G_n && !G_deleted, "node to release"); G_deleted = 1; }
void NodeContainer_add(NodeContainer *c, NL_Node *n) { __CPROVER_precondition(n == G_n && !G_added, "node to keep"); G_added = 1; G_into = c; }
static void svc_add(void *c, const NL_ReferenceTypeNode *n) { __CPROVER_assert(c == G_ctx && (NL_Node *)n == G_n && !G_regs && G_sorted && !G_deleted, "registered type"); G_regs = 1; }
static void svc_log(void *c, enum NodesetLoader_LogLevel l, const char *m, ...) { __CPROVER_assert(l == NODESETLOADER_LOGLEVEL_ERROR, "log level"); G_logged = 1; }
static bool post_nodefin(void) {
    bool rt = G_cls == NODECLASS_REFERENCETYPE;
    if(G_n->unknownRefs) return !G_sorted && !G_deleted && !G_regs && G_added && G_into == (rt ? G_ns->refTypesWithUnknownRefs : G_ns->nodesWithUnknownRefs);
    if(G_dup) return G_sorted && G_deleted && !G_added && !G_regs && IMP(G_ns->logger != NULL, G_logged);
    return G_sorted && !G_deleted && !G_added && G_regs == rt; }
void c_nodefin(Nodeset *nodeset, NL_Node *node)
__CPROVER_requires(nodeset == G_ns && node == G_n)
__CPROVER_assigns(G_sorted, G_added, G_deleted, G_logged, G_regs, G_into)
;
void harness(void) { setup(); G_n = (NL_Node *)malloc(sizeof *G_n); __CPROVER_assume(G_n != NULL); G_cls = nondet_int(); __CPROVER_assume(G_cls >= 0 && G_cls < 8); G_n->nodeClass = (NL_NodeClass)G_cls; G_ns->sortCtx = G_sc;
    G_ns->refTypesWithUnknownRefs = (NodeContainer *)malloc(1); G_ns->nodesWithUnknownRefs = (NodeContainer *)malloc(1); G_lg.log = svc_log; G_ns->logger = nondet_bool() ? &G_lg : NULL; G_ctx = nondet_ptr(); G_rs.context = G_ctx; G_rs.addNewReferenceType = svc_add; G_ns->refService = &G_rs;
    G_sorted = G_added = G_deleted = G_logged = G_regs = 0; G_into = NULL;
    Nodeset_newNodeFinish(G_ns, G_n); ENS(post_nodefin()); VAC(G_regs); VAC(G_deleted && G_ns->logger); VAC(G_added && G_cls == NODECLASS_REFERENCETYPE); VAC(G_added && G_cls == NODECLASS_VIEW); }
#endif
/* ---- deferred references: lists of up to NREF references, every answer of the service ---- */
#ifdef OB_lookup
#define NREF 4
NL_Reference *G_r[NREF]; int G_ans[NREF]; /* 0 unknown, 1 hierarchical, 2 non-hierarchical, 3 both (hierarchical wins) */ int G_len; NL_Reference *G_h0, *G_n0; NL_Reference G_save[NREF];
static int ref_no(const NL_Reference *r) { for(int i = 0; i < NREF; i++) if(r == G_r[i]) return i; __CPROVER_assert(0, "a reference of the node"); return 0; }
static bool svc_h(void *c, const NL_Reference *r) { __CPROVER_assert(c == G_ctx, "context"); return G_ans[ref_no(r)] & 1; }
static bool svc_n(void *c, const NL_Reference *r) { __CPROVER_assert(c == G_ctx, "context"); return G_ans[ref_no(r)] & 2; }
static int count(NL_Reference *l, NL_Reference *end, NL_Reference *r, bool *bad) { int n = 0, k = 0; while(l != end && k <= NREF) { if(!l) { *bad = true; return -1; } if(l == r) n++; l = l->next; k++; } if(k > NREF) *bad = true; return n; }
static bool post_lookup(bool ok) {
    bool all = true, bad = false; int stop = -1;
    for(int i = 0; i < NREF; i++) if(i < G_len && G_ans[i] == 0) { all = false; }
    if(ok != all) return false;
    for(int i = 0; i < NREF; i++) if(i < G_len) {
        int h = count(G_n->hierachicalRefs, G_h0, G_r[i], &bad), n = count(G_n->nonHierachicalRefs, G_n0, G_r[i], &bad), u = count(G_n->unknownRefs, NULL, G_r[i], &bad);
        if(bad || h + n + u != 1) return false;                 /* each one exactly once */
        if(h && !(G_ans[i] & 1)) return false;
        if(n && G_ans[i] != 2) return false;
        if(ok && u) return false;
        if(!(same_id(&G_r[i]->refType, G_save[i].refType) && same_id(&G_r[i]->target, G_save[i].target) && G_r[i]->isForward == G_save[i].isForward)) return false; }
    return true; }
bool c_lookup(Nodeset *nodeset, NL_Node *node)
__CPROVER_requires(nodeset == G_ns && node == G_n)
__CPROVER_assigns(__CPROVER_object_whole(node), G_r[0]->next, G_r[1]->next, G_r[2]->next, G_r[3]->next)
;
void harness(void) { setup(); G_n = (NL_Node *)malloc(sizeof *G_n); G_len = nondet_int(); __CPROVER_assume(G_n != NULL && G_len >= 0 && G_len <= NREF);
    for(int i = 0; i < NREF; i++) { G_r[i] = (NL_Reference *)malloc(sizeof(NL_Reference)); __CPROVER_assume(G_r[i] && G_ans[i] >= 0 && G_ans[i] < 4); G_save[i] = *G_r[i]; }
    for(int i = 0; i < NREF; i++) G_r[i]->next = i + 1 < G_len ? G_r[i + 1] : NULL;
    G_n->unknownRefs = G_len ? G_r[0] : NULL; G_h0 = G_n->hierachicalRefs = nondet_bool() ? NULL : (NL_Reference *)malloc(sizeof(NL_Reference)); G_n0 = G_n->nonHierachicalRefs = nondet_bool() ? NULL : (NL_Reference *)malloc(sizeof(NL_Reference));
    G_ctx = nondet_ptr(); G_rs.context = G_ctx; G_rs.isHierachicalRef = svc_h; G_rs.isNonHierachicalRef = svc_n; G_ns->refService = &G_rs;
    bool ok = lookupUnknownReferences(G_ns, G_n); ENS(post_lookup(ok)); VAC(ok && G_len == NREF && G_ans[0] == 1 && G_ans[3] == 2); VAC(!ok && G_len == 3 && G_ans[0] == 1); VAC(ok && G_len == 0); }
#endif
/* ---- Nodeset_sort: deferred reference types until a fixed point, then deferred nodes, then the sort.
 * Type i becomes resolvable once the types in G_need[i] are registered; at most NT types and NN nodes. ---- */
#ifdef OB_sort
#define NT 3
#define NN 2
NL_Node *G_t[NT], *G_d[NN]; int G_need[NT], G_dneed[NN], G_nt, G_nd; bool G_fin[NT], G_dfin[NN], G_started, G_sres, G_logged; NodeContainer G_rc, G_nc; NodesetLoader_Logger G_lg; struct SortContext *G_sc; bool G_bad;
static int reg(void) { int m = 0; for(int i = 0; i < NT; i++) if(i < G_nt && G_fin[i]) m |= 1 << i; return m; }
bool spec_lookup(Nodeset *ns, NL_Node *n) {
    if(ns != G_ns) G_bad = true;
    for(int i = 0; i < NT; i++) if(i < G_nt && n == G_t[i]) { if(G_fin[i]) G_bad = true; return (G_need[i] & ~reg()) == 0; }
    for(int i = 0; i < NN; i++) if(i < G_nd && n == G_d[i]) { if(G_dfin[i]) G_bad = true; return (G_dneed[i] & ~reg()) == 0; }
    G_bad = true; return false; }
void spec_finish(Nodeset *ns, NL_Node *n) {
    if(ns != G_ns || G_started) G_bad = true;
    for(int i = 0; i < NT; i++) if(i < G_nt && n == G_t[i]) { if(G_fin[i] || (G_need[i] & ~reg())) G_bad = true; G_fin[i] = true; return; }
    for(int i = 0; i < NN; i++) if(i < G_nd && n == G_d[i]) { if(G_dfin[i] || (G_dneed[i] & ~reg())) G_bad = true; G_dfin[i] = true; return; }
    G_bad = true; }
bool Sort_start(SortContext *c, struct Nodeset *ns, Sort_SortedNodeCallback cb, NodesetLoader_Logger *l) { if(c != G_sc || ns != G_ns || cb != Nodeset_addNode || l != &G_lg || G_started) G_bad = true; G_started = true; return G_sres; }
static void svc_log(void *c, enum NodesetLoader_LogLevel l, const char *m, ...) { if(l != NODESETLOADER_LOGLEVEL_ERROR) G_bad = true; G_logged = true; }
static bool post_sort(bool r) {
    /* the types which can be resolved at all */
    int m = 0; for(int k = 0; k < NT; k++) for(int i = 0; i < NT; i++) if(i < G_nt && (G_need[i] & ~m) == 0) m |= 1 << i;
    bool all = true; for(int i = 0; i < NT; i++) if(i < G_nt && !(m >> i & 1)) all = false;
    bool dall = all; for(int i = 0; i < NN; i++) if(i < G_nd && (G_dneed[i] & ~m)) dall = false;
    if(G_bad) return false;
    if(!dall) return !r && !G_started && G_logged;
    for(int i = 0; i < NT; i++) if(i < G_nt && !G_fin[i]) return false;
    for(int i = 0; i < NN; i++) if(i < G_nd && !G_dfin[i]) return false;
    return G_started && r == G_sres; }
/* each deferred node is owned by exactly one side afterwards: in the container, or handed on and removed */
static bool owned_once(void) {
    for(int i = 0; i < NT; i++) if(i < G_nt && (G_rc.nodes[i] == G_t[i]) == G_fin[i]) return false;
    for(int i = 0; i < NN; i++) if(i < G_nd && (G_nc.nodes[i] == G_d[i]) == G_dfin[i]) return false;
    return true; }
bool c_sort(Nodeset *nodeset)
__CPROVER_requires(nodeset == G_ns)
__CPROVER_assigns(G_bad, __CPROVER_object_whole(G_fin), __CPROVER_object_whole(G_dfin), G_started, G_logged, __CPROVER_object_whole(G_rc.nodes), __CPROVER_object_whole(G_nc.nodes))
;
void harness(void) { G_sres = nondet_bool(); __CPROVER_havoc_object(G_need); __CPROVER_havoc_object(G_dneed); setup(); G_nt = nondet_int(); G_nd = nondet_int(); __CPROVER_assume(G_nt >= 0 && G_nt <= NT && G_nd >= 0 && G_nd <= NN);
    G_rc.nodes = (NL_Node **)malloc(NT * sizeof(NL_Node *)); G_nc.nodes = (NL_Node **)malloc(NN * sizeof(NL_Node *)); __CPROVER_assume(G_rc.nodes && G_nc.nodes); G_rc.size = (size_t)G_nt; G_nc.size = (size_t)G_nd;
    for(int i = 0; i < NT; i++) { G_t[i] = (NL_Node *)malloc(sizeof(NL_Node)); __CPROVER_assume(G_t[i] && G_need[i] >= 0 && G_need[i] < (1 << (NT + 1))); G_rc.nodes[i] = G_t[i]; G_fin[i] = false; }
    for(int i = 0; i < NN; i++) { G_d[i] = (NL_Node *)malloc(sizeof(NL_Node)); __CPROVER_assume(G_d[i] && G_dneed[i] >= 0 && G_dneed[i] < (1 << (NT + 1))); G_nc.nodes[i] = G_d[i]; G_dfin[i] = false; }
    G_ns->refTypesWithUnknownRefs = &G_rc; G_ns->nodesWithUnknownRefs = &G_nc; G_ns->sortCtx = G_sc; G_lg.log = svc_log; G_ns->logger = &G_lg; G_bad = G_started = G_logged = false;
    bool r = Nodeset_sort(G_ns); ENS(post_sort(r)); ENS(owned_once()); VAC(r && G_nt == 3 && G_need[0] == 2 && G_need[1] == 4); VAC(!r && !G_started && G_need[0] == 8); VAC(!r && G_started); VAC(r && G_nt == 0 && G_nd == 2); }
#endif
/* ---- iteration ---- */
#ifdef OB_foreach
struct NodeContainer *G_c; void *G_uctx;
static void cb(void *ctx, NL_Node *n) { __CPROVER_assert(ctx == G_uctx, "the caller's context"); if(G_calls == G_K) { G_atK = n; } G_calls++; }
static bool post_each(size_t r) { return r == G_c->size && G_calls == G_size && IMP(G_K < G_size, G_atK == G_c->nodes[G_K]); }
size_t c_foreach(Nodeset *nodeset, NL_NodeClass nodeClass, void *context, NodesetLoader_forEachNode_Func fn)
__CPROVER_requires(nodeset == G_ns && (int)nodeClass >= 0 && (int)nodeClass < 8 && context == G_uctx && fn == cb)
__CPROVER_assigns(G_calls, G_atK)
;
void harness(void) { setup(); int cls = nondet_int(); __CPROVER_assume(cls >= 0 && cls < 8); G_c = (NodeContainer *)malloc(sizeof *G_c); G_size = nondet_size_t(); __CPROVER_assume(G_c && G_size <= LIM((size_t)1 << 24));
    G_nodes = (NL_Node **)malloc(G_size * sizeof(NL_Node *)); __CPROVER_assume(G_nodes != NULL); G_c->nodes = G_nodes; G_c->size = G_size; G_ns->nodes[cls] = G_c; G_calls = 0; G_atK = NULL; G_K = nondet_size_t(); G_uctx = nondet_ptr(); if(G_K < G_size) G_nodeK = G_nodes[G_K];
    size_t r = Nodeset_forEachNode(G_ns, (NL_NodeClass)cls, G_uctx, cb); ENS(post_each(r)); VAC(G_size > 2 && G_K == 1); VAC(G_size == 0); }
#endif
/* ---- definitions ---- */
#if defined(OB_adddef) || defined(OB_addfield)
NL_DataTypeNode *G_dt; NL_DataTypeDefinition *G_defn, *G_newDef; NL_DataTypeDefinitionField *G_fld; NL_DataTypeDefinition G_defo; int G_clears2, G_news, G_addf; bool G_nomem; NL_DataTypeNode G_dto;
void DataTypeNode_clear(NL_DataTypeNode *n) { __CPROVER_precondition(n == G_dt && !G_news, "definition to release"); G_clears2 = 1; }
NL_DataTypeDefinition *DataTypeDefinition_new(NL_DataTypeNode *n) { __CPROVER_precondition(n == G_dt, "node of the definition"); G_news = 1; n->definition = G_nomem ? NULL : G_newDef; return n->definition; }
NL_DataTypeDefinitionField *DataTypeNode_addDefinitionField(NL_DataTypeDefinition *d) { __CPROVER_precondition(d == G_defn && !G_addf, "definition of the field"); G_addf = 1; return G_fld; }
static bool truth(int i) { return vf_strcmp(attr_text(i), "true") == 0 || vf_strcmp(attr_text(i), "1") == 0; }
static void dtsetup(void) { setup(); int c = nondet_int(); __CPROVER_assume(c >= 0 && c < 8); __CPROVER_assume(G_nns < 65536);
    G_dt = (NL_DataTypeNode *)malloc(c == NODECLASS_DATATYPE ? sizeof(NL_DataTypeNode) : sizeof(NL_Node)); __CPROVER_assume(G_dt != NULL); G_dt->nodeClass = (NL_NodeClass)c;
    G_newDef = (NL_DataTypeDefinition *)calloc(1, sizeof *G_newDef); G_fld = (NL_DataTypeDefinitionField *)calloc(1, sizeof *G_fld); G_defn = nondet_bool() ? NULL : (NL_DataTypeDefinition *)malloc(sizeof *G_defn); __CPROVER_assume(G_newDef && G_fld);
    if(G_defn) { __CPROVER_assume(!(G_defn->isOptionSet && G_defn->isEnum)); G_defo = *G_defn; } if(c == NODECLASS_DATATYPE) G_dt->definition = G_defn; G_clears2 = G_news = G_addf = 0; }
#endif
#ifdef OB_adddef
static bool post_adddef(void) {
    if(G_dt->nodeClass != NODECLASS_DATATYPE) return !G_clears2 && !G_news;
    if(G_defn && !G_clears2) return false;                      /* a repeated definition replaces the former one */
    if(!G_news) return false;
    if(G_nomem) return G_dt->definition == NULL;
    return G_dt->definition == G_newDef && G_newDef->isUnion == truth(A_ISUNION) && G_newDef->isOptionSet == truth(A_OPTIONSET) && !G_newDef->isEnum && G_newDef->fieldCnt == 0 && G_newDef->fields == NULL; }
void c_adddef(Nodeset *nodeset, NL_Node *node, int attributeSize, const char **attributes)
__CPROVER_requires(nodeset == G_ns && node == (NL_Node *)G_dt && attributeSize == G_nb && attributes == G_attrs)
__CPROVER_assigns(__CPROVER_object_whole(node), __CPROVER_object_whole(G_newDef), G_clears2, G_news)
;
void harness(void) { dtsetup(); Nodeset_addDataTypeDefinition(G_ns, (NL_Node *)G_dt, G_nb, G_attrs); ENS(post_adddef()); VAC(G_news && G_newDef->isUnion && !G_newDef->isOptionSet); VAC(!G_news); VAC(G_news && G_defn); VAC(G_news && G_has[A_OPTIONSET] && G_newDef->isOptionSet); }
#endif
#ifdef OB_addfield
static bool post_addfield(void) {
    if(G_dt->nodeClass != NODECLASS_DATATYPE) return !G_addf;
    if(!G_defn) return !G_addf && G_dt->definition == NULL;
    if(G_dt->definition != G_defn || G_defn->isUnion != G_defo.isUnion || G_defn->isOptionSet != G_defo.isOptionSet || G_defn->fields != G_defo.fields || G_defn->fieldCnt != G_defo.fieldCnt) return false;
    if(G_defo.isOptionSet) return !G_addf && !G_defn->isEnum;
    if(!G_addf || !is_attr(A_NAME, G_fld->name)) return false;
    if(G_has[A_VALUE]) return G_defn->isEnum && G_fld->value == vf_atoi(G_T[A_VALUE].c) && null_id(&G_fld->dataType) && !G_fld->isOptional;
    return G_defn->isEnum == G_defo.isEnum && G_fld->value == 0 && same_id(&G_fld->dataType, spec_alias(attr_text(A_DATATYPE))) && G_fld->valueRank == (G_has[A_VALUERANK] ? vf_atoi(G_T[A_VALUERANK].c) : -1) && G_fld->isOptional == truth(A_OPTIONAL); }
void c_addfield(Nodeset *nodeset, NL_Node *node, int attributeSize, const char **attributes)
__CPROVER_requires(nodeset == G_ns && node == (NL_Node *)G_dt && attributeSize == G_nb && attributes == G_attrs)
__CPROVER_assigns(__CPROVER_object_whole(G_fld), G_addf, G_nsEntry, G_copies)
__CPROVER_assigns(G_defn != NULL: __CPROVER_object_whole(G_defn))
;
void harness(void) { dtsetup(); Nodeset_addDataTypeField(G_ns, (NL_Node *)G_dt, G_nb, G_attrs); ENS(post_addfield()); VAC(G_addf && G_has[A_VALUE] && G_fld->value == -7); VAC(G_addf && !G_has[A_VALUE] && G_fld->isOptional); VAC(!G_addf && G_defn); VAC(G_addf && G_defo.isEnum && !G_has[A_VALUE]); }
#endif
/* ---- namespaces and aliases ---- */
#ifdef OB_aliasnew
Alias *G_newA; char *G_gotName; int G_made;
Alias *AliasList_newAlias(AliasList *l, char *name) { __CPROVER_precondition(l == (AliasList *)&G_al, "the file's alias table"); G_gotName = name; G_made = 1; return G_newA; }
Alias *c_aliasnew(Nodeset *nodeset, int attributeSize, const char **attributes)
__CPROVER_requires(nodeset == G_ns && attributeSize == G_nb && attributes == G_attrs)
__CPROVER_assigns(G_gotName, G_made)
__CPROVER_ensures(RET == G_newA && G_made == 1)
;
void harness(void) { setup(); G_made = 0; G_newA = nondet_ptr(); Nodeset_newAlias(G_ns, G_nb, G_attrs); ENS(is_attr(A_ALIAS, G_gotName)); VAC(G_gotName == NULL); VAC(G_gotName != NULL); }
#endif
#ifdef OB_aliasfin
Alias *G_a; Alias G_ao;
void c_aliasfin(Nodeset *nodeset, Alias *alias, char *idString)
__CPROVER_requires(nodeset == G_ns && alias == G_a)
__CPROVER_assigns(G_nsEntry)
__CPROVER_assigns(alias != NULL: __CPROVER_object_whole(alias))
;
void harness(void) { setup(); G_a = nondet_bool() ? NULL : (Alias *)malloc(sizeof *G_a); if(G_a) G_ao = *G_a; char *s = nondet_bool() ? NULL : G_T[T_ELEM].c; Nodeset_newAliasFinish(G_ns, G_a, s);
    ENS(IMP(G_a != NULL, G_a->name == G_ao.name && same_id(&G_a->id, spec_id(s)))); VAC(G_a == NULL); VAC(G_a && s && G_valid[T_ELEM] && G_a->id.namespaceIndex != G_parsed[T_ELEM].namespaceIndex); }
#endif
#ifdef OB_nsfin
void *G_u; char *G_uri; int G_regs;
Namespace *NamespaceList_newNamespace(NamespaceList *l, void *u, const char *uri) { __CPROVER_assert(l == (NamespaceList *)&G_nsl && u == G_u && uri == G_uri && !G_regs, "uri of the file"); G_regs = 1; return NULL; }
void c_nsfin(Nodeset *nodeset, void *userContext, char *namespaceUri)
__CPROVER_requires(nodeset == G_ns)
__CPROVER_assigns(G_regs)
__CPROVER_ensures(G_regs == 1)
;
void harness(void) { setup(); G_regs = 0; G_u = nondet_ptr(); G_uri = nondet_ptr(); Nodeset_newNamespaceFinish(G_ns, G_u, G_uri); VAC(G_regs); }
#endif
#ifdef OB_startfile
/* every file starts with tables of its own; nothing changes if there is no memory for them */
NamespaceList *G_nl; AliasList *G_ali; int G_dl, G_da, G_dln, G_dan; NL_addNamespaceCallback G_cbk; NamespaceList *G_oldl; AliasList *G_olda;
AliasList *AliasList_new(void) { return G_ali; }
NamespaceList *NamespaceList_new(NL_addNamespaceCallback cb) { __CPROVER_assert(cb == G_cbk, "callback of this file"); return G_nl; }
void AliasList_delete(AliasList *l) { if(l == G_olda && !G_da) G_da = 1; else if(l == G_ali && !G_dan) G_dan = 1; else __CPROVER_assert(0, "alias table released once"); }
void NamespaceList_delete(NamespaceList *l) { if(l == G_oldl && !G_dl) G_dl = 1; else if(l == G_nl && !G_dln) G_dln = 1; else __CPROVER_assert(0, "namespace table released once"); }
static bool post_startfile(bool r) {
    if(G_ali && G_nl) return r && G_ns->aliasList == G_ali && G_ns->namespaces == G_nl && G_da && G_dl && !G_dan && !G_dln;
    return !r && G_ns->aliasList == G_olda && G_ns->namespaces == G_oldl && !G_da && !G_dl && G_dan == (G_ali != NULL) && G_dln == (G_nl != NULL); }
bool c_startfile(Nodeset *nodeset, NL_addNamespaceCallback nsCallback)
__CPROVER_requires(nodeset == G_ns && nsCallback == G_cbk)
__CPROVER_assigns(__CPROVER_object_whole(nodeset), G_dl, G_da, G_dln, G_dan)
;
static unsigned short some_cb(void *u, const char *uri) { return 0; }
void harness(void) { setup(); G_oldl = (NamespaceList *)&G_nsl; G_olda = (AliasList *)&G_al; G_nl = nondet_bool() ? NULL : (NamespaceList *)malloc(1); G_ali = nondet_bool() ? NULL : (AliasList *)malloc(1); G_cbk = some_cb; G_dl = G_da = G_dln = G_dan = 0;
    bool r = Nodeset_startFile(G_ns, G_cbk); ENS(post_startfile(r)); VAC(r); VAC(!r && G_dan); VAC(!r && G_dln); }
#endif
