/* Contracts of the custom data types (backends/open62541/src/DataTypeImporter.c,
 * padding.h, customDataType.c): layout, kinds, members, lookup. */
#include "vf.h"
#include <open62541/types.h>
#define NEW(T) ((T *)malloc(sizeof(T)))
UA_DataType UA_TYPES[UA_TYPES_COUNT];
#include "ua_model.h"
#ifndef MAXM
#define MAXM 4
#endif
/* namespace 0 types known to the library: an arbitrary set */
UA_NodeId G_fdid; bool G_fdknown; size_t G_finds; static bool vf_same(const UA_NodeId *a, const UA_NodeId *b);
const UA_DataType *UA_findDataType(const UA_NodeId *id) { G_finds++; __CPROVER_assert(vf_same(id, &G_fdid), "id that is looked up"); return G_fdknown ? &UA_TYPES[7] : NULL; }
static bool vf_same(const UA_NodeId *a, const UA_NodeId *b) { return vf_ideq(a, b); }
size_t G_bi, G_calls, G_I, G_seen; int G_best, G_aI; const UA_DataTypeMember *G_mb;
#include "gen/backends/open62541/src/DataTypeImporter.c"
#include "gen/backends/open62541/src/customDataType.c"
UA_ServerConfig cfg; UA_ServerConfig *UA_Server_getConfig(UA_Server *s) { return &cfg; }
static char *text(void) { size_t l = nondet_size_t(); __CPROVER_assume(l <= 2); char *t = (char *)malloc(l + 1); __CPROVER_assume(l == 0 || t[0]); __CPROVER_assume(l < 2 || t[1]); t[l] = 0; return t; }
static bool truth(const char *s) { return (s[0] == '1' && !s[1]) || (s[0] == 't' && s[1] == 'r' && s[2] == 'u' && s[3] == 'e' && !s[4]); }   /* xs:boolean */
static UA_NodeId anyid(void) { UA_NodeId i = nondet_id(); __CPROVER_assume(i.identifierType == 0 || i.identifierType == 3 || i.identifierType == 4 || i.identifierType == 5); return i; }
#define UP(x, a) (((x) + (a) - 1) / (a) * (a))
#ifdef OB_padding
void harness(void) { unsigned s = nondet_unsigned(); __CPROVER_assume(s <= 6); int a = 1 << s, o = nondet_int(); __CPROVER_assume(o >= 0);
    UA_Byte r = getPadding(a, o); ENS(r < a); ENS((((unsigned)o + r) & (unsigned)(a - 1)) == 0); VAC(r == 7); VAC(r == 0 && a == 8 && o > 0); }
#endif
int G_ma; const UA_DataType *G_mat; int spec_members(const UA_DataType *t, const UA_DataTypeArray *c) { G_mat = t; return G_ma; }
int G_al; const UA_DataType *G_alt; int spec_align(const UA_DataType *t, const UA_DataTypeArray *c) { G_alt = t; return G_al; }
#ifdef OB_align
#define K(k, T) case UA_DATATYPEKIND_##k: e = (int)_Alignof(T); break;
void harness(void) { UA_DataType *t = NEW(UA_DataType); UA_DataTypeMember m; t->members = nondet_bool() ? &m : NULL; unsigned s = nondet_unsigned(); __CPROVER_assume(s <= 3); G_ma = 1 << s;
    unsigned kind = t->typeKind; __CPROVER_assume(kind <= 29 && kind != UA_DATATYPEKIND_DECIMAL); int e = 0;
    switch(kind) { K(BOOLEAN, UA_Boolean) K(SBYTE, UA_SByte) K(BYTE, UA_Byte) K(INT16, UA_Int16) K(UINT16, UA_UInt16) K(INT32, UA_Int32) K(UINT32, UA_UInt32) K(INT64, UA_Int64) K(UINT64, UA_UInt64) K(FLOAT, UA_Float) K(DOUBLE, UA_Double)
      K(STRING, UA_String) K(DATETIME, UA_DateTime) K(GUID, UA_Guid) K(BYTESTRING, UA_ByteString) K(XMLELEMENT, UA_XmlElement) K(NODEID, UA_NodeId) K(EXPANDEDNODEID, UA_ExpandedNodeId) K(STATUSCODE, UA_StatusCode) K(QUALIFIEDNAME, UA_QualifiedName)
      K(LOCALIZEDTEXT, UA_LocalizedText) K(EXTENSIONOBJECT, UA_ExtensionObject) K(DATAVALUE, UA_DataValue) K(VARIANT, UA_Variant) K(DIAGNOSTICINFO, UA_DiagnosticInfo) K(ENUM, UA_Int32)
      case UA_DATATYPEKIND_STRUCTURE: case UA_DATATYPEKIND_OPTSTRUCT: e = t->members ? G_ma : (int)_Alignof(void *); break;
      case UA_DATATYPEKIND_UNION: e = G_ma > 4 ? G_ma : 4; break; }
    int r = getAlignment(t, NULL); ENS(r == e); ENS(IMP(kind >= 27 && t->members, G_mat == t)); VAC(kind == UA_DATATYPEKIND_UNION && r == 4); VAC(kind == UA_DATATYPEKIND_STRUCTURE && r == 2); VAC(r == 1); }
#endif
#ifdef OB_malign
void harness(void) { UA_DataTypeMember *m = NEW(UA_DataTypeMember); UA_DataType *t = NEW(UA_DataType); m->memberType = t; G_al = nondet_int(); G_alt = NULL; __CPROVER_assume(G_al >= 1 && G_al <= 16);
    int r = getMemberAlignment(m, NULL); bool ptr = m->isArray || m->isOptional; ENS(r == (ptr ? 8 : G_al)); ENS(IMP(!ptr, G_alt == t)); VAC(m->isArray); VAC(m->isOptional && !m->isArray); VAC(!ptr); }
#endif
/* the alignment of the members is the largest one, 1 if there is none: any number of members */
int spec_memberAlign(const UA_DataTypeMember *m, const UA_DataTypeArray *c) { __CPROVER_assert(m == G_mb + G_calls, "members in order"); size_t k = G_calls++; int r = k == G_I ? G_aI : nondet_int(); __CPROVER_assume(r >= 1 && r <= 16); if(r > G_best) G_best = r; return r; }
#ifdef OB_malmax
const UA_DataType *G_t;
int c_malmax(const UA_DataType *type, const UA_DataTypeArray *customTypes)
__CPROVER_requires(type == G_t)
__CPROVER_assigns(G_calls, G_best)
;
void harness(void) { UA_DataType *t = NEW(UA_DataType); G_t = t; size_t n = t->membersSize; t->members = n ? (UA_DataTypeMember *)malloc(n * sizeof(UA_DataTypeMember)) : NULL; G_mb = t->members; G_I = nondet_size_t(); G_aI = nondet_int(); __CPROVER_assume(G_aI >= 1 && G_aI <= 16); G_calls = 0; G_best = 1;
    int r = getMembersAlignment(t, NULL); ENS(r == G_best && G_calls == n); ENS(IMP(G_I < n, r >= G_aI)); VAC(n == 255 && r == 16); VAC(n == 0); }
#endif
#ifdef OB_layoutany
/* members of any size and alignment.  Each step of the layout is checked against the step before it: the size so far which a member is aligned to is the one of the member before, its padding and its size.  Padding and alignments are those of getPadding and getMemberAlignment (contracts of their own). */
static UA_DataTypeMember M[MAXM]; static UA_DataType TK[MAXM]; UA_DataType *G_self; bool G_pf, G_in; int G_selfAl, G_mal, G_al1, G_cur, G_end, G_pads, G_last; size_t G_n, G_i; static UA_Byte P[MAXM];
static int msize(size_t i) { return M[i].isArray ? 16 : M[i].isOptional ? 8 : (int)TK[i].memSize; }
int spec_self(const UA_DataType *t, const UA_DataTypeArray *c) { ENS(t == G_self); return G_selfAl; }
int spec_mal(const UA_DataType *t, const UA_DataTypeArray *c) { ENS(t == G_self && UNI); return G_mal; }
int spec_al1(const UA_DataTypeMember *m, const UA_DataTypeArray *c) { ENS(!UNI && !G_in && G_i < G_n && m == &M[G_i]); G_in = true; G_al1 = nondet_int(); __CPROVER_assume(G_al1 >= 1); return G_al1; }
UA_Byte spec_pad(int align, int off) { unsigned pad = nondet_unsigned(); __CPROVER_assume(pad <= 7); if(UNI && G_pads == 0) { ENS(align == G_mal && off == 4); G_pads++; G_cur = 4 + (int)pad; return (UA_Byte)pad; }
    if(G_in) { G_in = false; ENS(align == G_al1 && off == G_cur); P[G_i] = (UA_Byte)pad; G_cur = off + (int)pad + msize(G_i); G_i++; return (UA_Byte)pad; }
    ENS(align == G_selfAl && G_end < 0); G_last = off; G_end = off + (int)pad; return (UA_Byte)pad; }
void harness(void) { UA_DataType *t = NEW(UA_DataType); G_self = t; G_n = t->membersSize; __CPROVER_assume(G_n <= MAXM); t->members = M; t->typeKind = UNI ? UA_DATATYPEKIND_UNION : UA_DATATYPEKIND_OPTSTRUCT - (unsigned)nondet_bool(); t->pointerFree = true; G_pf = true; G_selfAl = nondet_int(); G_mal = nondet_int(); G_end = -1; bool hit = false;
    for(size_t i = 0; i < MAXM; i++) { M[i].memberType = &TK[i]; M[i].isArray = nondet_bool(); M[i].isOptional = nondet_bool(); unsigned z = nondet_unsigned(); __CPROVER_assume(z <= 65535); TK[i].memSize = z; TK[i].pointerFree = nondet_bool(); if(i < G_n && (M[i].isArray || M[i].isOptional || !TK[i].pointerFree)) G_pf = false; }
    setPaddingMemsize(t, NULL);
    ENS(G_end >= 0 && t->memSize == (G_end <= 65535 ? G_end : 0)); ENS(t->pointerFree == G_pf && t->members == M && t->membersSize == G_n); if(!UNI) ENS(G_i == G_n && G_last == G_cur); else ENS(G_pads == 1);
    for(size_t i = 0; i < MAXM; i++) if(i < G_n) { ENS(M[i].memberType == &TK[i]); if(UNI) { ENS(M[i].padding == G_cur && G_last >= G_cur + msize(i)); if(G_last == G_cur + msize(i)) hit = true; } else ENS(M[i].padding == P[i]); }
    if(UNI) ENS(hit || (G_n == 0 && G_last == 0)); VAC(G_n == MAXM); VAC(G_end == 65535); VAC(G_end == 65536); VAC(G_n == 0); }
#endif
#if defined(OB_layout)
UA_DataType T[MAXM]; int A[MAXM]; UA_DataType *G_self; int G_selfAl;
int spec_al2(const UA_DataType *t, const UA_DataTypeArray *c) { if(t == G_self) return G_selfAl; for(int i = 0; i < MAXM; i++) if(t == &T[i]) return A[i]; __CPROVER_assert(0, "alignment of a member type"); return 1; }
void harness(void) {
    static UA_DataTypeMember M[MAXM]; UA_DataType *t = NEW(UA_DataType); G_self = t; size_t n = nondet_size_t(); __CPROVER_assume(n <= MAXM); t->membersSize = (UA_UInt32)n; t->members = M; t->memSize = 0;
    bool un = nondet_bool(); t->typeKind = un ? UA_DATATYPEKIND_UNION : nondet_bool() ? UA_DATATYPEKIND_STRUCTURE : UA_DATATYPEKIND_OPTSTRUCT; t->pointerFree = true; bool pf = true; int big = 1; int S[MAXM], AL[MAXM];
    for(size_t i = 0; i < n; i++) { unsigned s = nondet_unsigned(); __CPROVER_assume(s <= 3); A[i] = 1 << s; unsigned sz = nondet_unsigned(); __CPROVER_assume(sz <= 65535 && sz >= 1 && sz % (unsigned)A[i] == 0); T[i].memSize = sz; T[i].pointerFree = nondet_bool(); size_t k = nondet_size_t(); __CPROVER_assume(k <= i); M[i].memberType = &T[k];
        M[i].isArray = nondet_bool(); M[i].isOptional = nondet_bool(); M[i].padding = 0;
        S[i] = M[i].isArray ? 16 : M[i].isOptional ? 8 : (int)T[k].memSize; AL[i] = M[i].isArray || M[i].isOptional ? 8 : A[k]; if(AL[i] > big) big = AL[i]; if(M[i].isArray || M[i].isOptional || !T[k].pointerFree) pf = false; }
    if(un && big < 4) big = 4; G_selfAl = big;
    int mbig = 1; for(size_t i = 0; i < n; i++) if(AL[i] > mbig) mbig = AL[i];
    setPaddingMemsize(t, NULL);
    int off = 0, mx = un ? (n ? 0 : 0) : 0;
    for(size_t i = 0; i < n; i++) { int at; if(un) { at = UP(4, mbig); ENS(M[i].padding == at); if(at + S[i] > mx) mx = at + S[i]; } else { at = UP(off, AL[i]); ENS(M[i].padding == at - off); off = at + S[i]; } }
    int tot = UP(un ? mx : off, big); ENS(t->memSize == (tot <= 65535 ? tot : 0)); VAC(!un && tot == 65536); VAC(un && n == 1 && tot == 65528); VAC(tot == 65535); ENS(t->pointerFree == pf); ENS(t->membersSize == n);
    VAC(un && n == MAXM && mbig == 8); VAC(!un && n == MAXM && M[1].padding == 7 && M[2].isArray && M[3].isOptional); VAC(un && mbig == 2); VAC(pf && n == 3); VAC(n == 0); }
#endif
#ifdef OB_layoutnone
void harness(void) { UA_DataType *t = NEW(UA_DataType); t->members = NULL; UA_DataType o = *t; setPaddingMemsize(t, NULL); ENS(t->memSize == o.memSize && t->pointerFree == o.pointerFree && t->membersSize == o.membersSize && !t->members && t->typeKind == o.typeKind); VAC(1); }
#endif
#ifdef OB_ready
/* every member type either has a size (T[0]) or none yet (T[1]) */
void harness(void) { UA_DataType *t = NEW(UA_DataType); static UA_DataTypeMember M[MAXM]; static UA_DataType T[2]; size_t n = nondet_size_t(); __CPROVER_assume(n <= MAXM); t->membersSize = (UA_UInt32)n; t->members = M; bool all = true; T[0].memSize = (UA_UInt16)nondet_unsigned(); __CPROVER_assume(T[0].memSize); T[1].memSize = 0;
    for(size_t i = 0; i < MAXM; i++) { bool a = nondet_bool(), o = nondet_bool(), known = nondet_bool(), z = nondet_bool(); M[i].isArray = a; M[i].isOptional = o; M[i].memberType = !known ? NULL : z ? &T[1] : &T[0]; if(i < n && (!known || (z && !a && !o))) all = false; }
    bool c = t->typeKind == 27 || t->typeKind == 28 || t->typeKind == 29; ENS(readyForMemsizeCalc(t, NULL) == (!c || all)); VAC(c && all && n == MAXM); VAC(c && !all && n == MAXM); VAC(!c && !all); }
#endif
#ifdef OB_calc
/* a type is laid out exactly once, as soon as the sizes of its member types are known; types with an unknown member stay without */
static UA_DataType TY[4]; size_t G_first; int G_done[4]; size_t G_ord; bool need0[16]; bool unk[4];
#define need(i, k) need0[4 * (i) + (k)]
bool spec_ready(const UA_DataType *t, const UA_DataType *c) { size_t i = (size_t)(t - TY); if(unk[i]) return false; for(size_t k = 0; k < 4; k++) if(need(i, k) && !TY[k].memSize) return false; return true; }
void spec_set(UA_DataType *t, const UA_DataTypeArray *c) { size_t i = (size_t)(t - TY); __CPROVER_assert(i < 4 && i >= G_first && spec_ready(t, TY) && t->memSize == 0, "laid out when ready"); G_done[i]++; t->memSize = 8; }
void harness(void) { size_t n = NT; G_first = FIRST; DataTypeImporter *im = NEW(DataTypeImporter); im->types = (UA_DataTypeArray *)malloc(sizeof(UA_DataTypeArray)); im->types->types = TY; *(size_t *)(uintptr_t)&im->types->typesSize = n; im->firstNewDataType = G_first; UA_UInt16 old[4];
    for(size_t i = 0; i < 4; i++) { unk[i] = nondet_bool(); TY[i].memSize = nondet_bool() ? 16 : 0; old[i] = TY[i].memSize; for(size_t k = 0; k < 4; k++) need(i, k) = k < n && k != i && nondet_bool(); G_done[i] = 0; }
    calcMemSize(im);
    for(size_t i = 0; i < n; i++) { bool r = i >= G_first && old[i] == 0; ENS(G_done[i] == (r && TY[i].memSize == 8)); ENS(IMP(r && spec_ready(&TY[i], TY), TY[i].memSize == 8)); ENS(IMP(!r, TY[i].memSize == old[i])); }
    VAC(need(FIRST, FIRST + 1) && TY[FIRST].memSize == 8 && old[FIRST + 1] == 0); VAC(TY[NT - 1].memSize == 0 && !unk[NT - 1]); }
#endif
const UA_DataType *G_ct; UA_NodeId G_ctid; const UA_DataTypeArray *G_cta; int G_cc;
const UA_DataType *spec_findCustom(const UA_NodeId *id, const UA_DataTypeArray *a) { G_cc++; G_ctid = *id; G_cta = a; return G_ct; }
static const NL_DataTypeNode *importerNodes[2];
#ifdef OB_getdt
void harness(void) { UA_NodeId id = anyid(); UA_DataTypeArray *a = (UA_DataTypeArray *)nondet_ptr(); UA_DataType *c = NEW(UA_DataType); G_ct = nondet_bool() ? c : NULL; c->typeId = anyid();
    G_fdid = id; G_fdknown = id.namespaceIndex == 0 && nondet_bool();
    DataTypeImporter *im = NEW(DataTypeImporter); static NL_DataTypeNode N0, N1; im->nodes = importerNodes; importerNodes[0] = &N0; importerNodes[1] = &N1; im->nodesSize = nondet_size_t(); __CPROVER_assume(im->nodesSize <= 2); N0.id = anyid(); N1.id = anyid(); N0.isAbstract = nondet_bool() ? "true" : nondet_bool() ? "1" : text(); N1.isAbstract = nondet_bool() ? "true" : nondet_bool() ? "1" : text(); bool use = nondet_bool(); G_cc = 0;
    const UA_DataType *r = getDataType(&id, a, use ? im : NULL); bool isknown = G_fdknown;
    bool abs = use && G_ct && ((im->nodesSize > 0 && vf_ideq(&N0.id, &c->typeId) && truth(N0.isAbstract)) || (im->nodesSize > 1 && vf_ideq(&N1.id, &c->typeId) && truth(N1.isAbstract)));
    ENS(r == (isknown ? &UA_TYPES[7] : id.namespaceIndex == 0 || abs ? &UA_TYPES[UA_TYPES_VARIANT] : G_ct)); ENS(IMP(!isknown && id.namespaceIndex, G_cc == 1 && vf_ideq(&G_ctid, &id) && G_cta == a));
    VAC(isknown); VAC(!isknown && id.namespaceIndex == 0); VAC(abs); VAC(!abs && use && G_ct == r && r); VAC(!r); }
#endif
/* ---- members ---- */
static NL_DataTypeDefinitionField F[MAXM]; static NL_DataTypeDefinition D; static UA_DataType ANS[MAXM];
const UA_DataTypeArray *G_tarr; const DataTypeImporter *G_im; bool G_wantIm; size_t G_dts; UA_NodeId G_parentId; const UA_DataType *G_parentType; bool G_askedParent;
const UA_DataType *spec_getdt(const UA_NodeId *id, const UA_DataTypeArray *c, const DataTypeImporter *im) {
    __CPROVER_assert(c == G_tarr, "types of the importer");
#ifdef OB_inherit
    if(!G_askedParent && !G_dts && !im) { G_askedParent = true; __CPROVER_assert(vf_ideq(id, &G_parentId), "id of the parent"); return G_parentType; }
#endif
    __CPROVER_assert(G_dts < MAXM && vf_ideq(id, &F[G_dts].dataType) && im == (G_wantIm ? G_im : NULL), "type of the field"); return &ANS[G_dts++]; }
static void mkfields(size_t n) { D.fields = F; D.fieldCnt = n; D.isUnion = nondet_bool(); D.isEnum = nondet_bool(); D.isOptionSet = nondet_bool(); for(size_t i = 0; i < n; i++) { F[i].name = nondet_bool() ? text() : NULL; F[i].dataType = anyid(); F[i].valueRank = nondet_int(); F[i].isOptional = nondet_bool(); F[i].value = nondet_int(); } G_dts = 0; }
static bool copyof(const char *a, const char *b) { size_t i = 0; if(!b) return a && !a[0]; if(a == b) return false; while(b[i]) { if(a[i] != b[i]) return false; i++; } return a[i] == 0 && __CPROVER_OBJECT_SIZE(a) == i + 1; }
#ifdef OB_members
void harness(void) { NL_DataTypeNode *nd = NEW(NL_DataTypeNode); UA_DataType *t = NEW(UA_DataType); UA_DataType o = *t; size_t n = NF; mkfields(n); nd->definition = nondet_bool() ? &D : NULL; G_tarr = (UA_DataTypeArray *)nondet_ptr(); G_wantIm = false;
    addDataTypeMembers(G_tarr, t, nd); bool opt = false;
    if(!nd->definition) { ENS(t->membersSize == 0 && !t->members && t->memSize == 8 && t->typeKind == o.typeKind && t->pointerFree == o.pointerFree); }
    else { ENS(t->membersSize == n && __CPROVER_OBJECT_SIZE(t->members) == n * sizeof(UA_DataTypeMember) && G_dts == n); for(size_t i = 0; i < n; i++) { UA_DataTypeMember *m = t->members + i; ENS(m->isArray == (F[i].valueRank >= 0)); ENS(m->isOptional == F[i].isOptional); ENS(m->memberType == &ANS[i]); ENS(m->padding == 0); ENS(copyof(m->memberName, F[i].name)); opt = opt || F[i].isOptional; }
      ENS(t->typeKind == (opt ? UA_DATATYPEKIND_OPTSTRUCT : o.typeKind) && t->pointerFree == (opt ? 0 : o.pointerFree)); }
    ENS(vf_ideq(&t->typeId, &o.typeId) && t->typeName == o.typeName);
    VAC(nd->definition && opt == (NF > 0)); VAC(nd->definition && !opt && IMP(NF, F[NF - 1].name && F[NF - 1].name[0] && F[NF - 1].name[1])); VAC(!nd->definition); VAC(nd->definition && !F[0].name); }
#endif
#ifdef OB_inherit
void harness(void) { NL_DataTypeNode *nd = NEW(NL_DataTypeNode); UA_DataType *t = NEW(UA_DataType), *p = NEW(UA_DataType); size_t n = NO, pn = PN; mkfields(n); nd->definition = NO || nondet_bool() ? &D : NULL; DataTypeImporter *im = NEW(DataTypeImporter); im->types = NEW(UA_DataTypeArray); G_tarr = im->types; G_im = im; G_wantIm = true; G_askedParent = false;
    NL_Reference r0, r1; r0.isForward = nondet_bool(); r1.isForward = nondet_bool(); r0.target = anyid(); r1.target = anyid(); size_t nr = nondet_size_t(); __CPROVER_assume(nr <= 2); r0.next = nr > 1 ? &r1 : NULL; r1.next = NULL; nd->hierachicalRefs = nr ? &r0 : NULL;
    G_parentId = nr && !r0.isForward ? r0.target : nr > 1 && !r1.isForward ? r1.target : UA_NODEID_NULL;
    UA_DataTypeMember *om = (UA_DataTypeMember *)malloc(2 * sizeof(UA_DataTypeMember)), sm[2]; sm[0] = om[0]; sm[1] = om[1]; if(!nd->definition) om = NULL; t->members = om; t->membersSize = (UA_UInt32)n; UA_DataType ot = *t;
    static UA_DataTypeMember PM[2]; for(int i = 0; i < 2; i++) { PM[i].memberName = text(); PM[i].memberType = (UA_DataType *)nondet_ptr(); PM[i].isArray = nondet_bool(); PM[i].isOptional = nondet_bool(); PM[i].padding = 0; } p->members = PN ? PM : NULL; p->membersSize = PN; G_parentType = PN || nondet_bool() ? p : NULL;
    bool base = G_parentId.namespaceIndex == 0 && G_parentId.identifierType == 0 && G_parentId.identifier.numeric == 22;
    __CPROVER_assume(nd->definition || (!base && G_parentType)); /* otherwise only NULL + 0 is computed */
    setDataTypeMembersTypeIndex(im, t, nd); bool inh = !base && G_parentType && p->members && PN + NO <= 255; size_t off = inh ? p->membersSize : 0;
    ENS(G_dts == n); ENS(G_askedParent == !base); ENS(t->membersSize == off + n); ENS(inh || t->members == om); ENS(t->memSize == (inh ? 0 : ot.memSize)); bool opt = inh && p->typeKind == UA_DATATYPEKIND_OPTSTRUCT; ENS(t->typeKind == (opt ? UA_DATATYPEKIND_OPTSTRUCT : ot.typeKind) && t->pointerFree == (opt ? 0 : ot.pointerFree));
    for(size_t i = 0; i < 2; i++) { if(i < off) { UA_DataTypeMember *m = t->members + i; ENS(copyof(m->memberName, PM[i].memberName)); ENS(m->memberType == PM[i].memberType && m->isArray == PM[i].isArray && m->isOptional == PM[i].isOptional); }
      if(i < n) { UA_DataTypeMember *m = t->members + off + i; ENS(m->memberName == sm[i].memberName && m->isArray == sm[i].isArray && m->isOptional == sm[i].isOptional && m->memberType == &ANS[i]); } }
    VAC(base); VAC(NO > 0 || !nd->definition); VAC(inh == (PN > 0 && PN + NO <= 255) && !base && G_parentType); VAC(nr == 2 && r0.isForward && !base && !r1.isForward); VAC(nr == 0); VAC(!base && IMP(PN > 0 && PN + NO <= 255, opt)); }
#endif
#ifdef OB_initmembers
static UA_DataType TY[3]; const NL_DataTypeNode *NN[3]; DataTypeImporter *im; int G_idx[3], G_calc; size_t G_first;
void spec_idx(DataTypeImporter *i, UA_DataType *t, const NL_DataTypeNode *n) { size_t k = (size_t)(t - TY); __CPROVER_assert(i == im && k < 3 && k >= G_first && n == NN[k - G_first] && !G_calc, "type and its node"); G_idx[k]++; }
void spec_calc(DataTypeImporter *i) { G_calc++; }
void harness(void) { size_t n = nondet_size_t(); G_first = nondet_size_t(); __CPROVER_assume(n <= 3 && G_first <= n); im = NEW(DataTypeImporter); im->types = NEW(UA_DataTypeArray); im->types->types = TY; *(size_t *)(uintptr_t)&im->types->typesSize = n; im->firstNewDataType = G_first; im->nodes = NN; im->nodesSize = n - G_first; for(int i = 0; i < 3; i++) { NN[i] = (NL_DataTypeNode *)nondet_ptr(); unsigned k = nondet_unsigned(); __CPROVER_assume(k <= 30); TY[i].typeKind = k; G_idx[i] = 0; } G_calc = 0;
    DataTypeImporter_initMembers(im);
    ENS(G_calc == 1); for(size_t i = 0; i < n; i++) ENS(G_idx[i] == (i >= G_first && TY[i].typeKind >= 27 && TY[i].typeKind <= 29)); VAC(n == 3 && G_first == 1 && G_idx[2]); VAC(n == 3 && !G_idx[2]); VAC(n == G_first); }
#endif
/* ---- kinds ---- */
int G_mem; const NL_DataTypeNode *G_memn; UA_DataType *G_memt; UA_DataTypeKind G_memk; void spec_members2(const UA_DataTypeArray *c, UA_DataType *t, const NL_DataTypeNode *n) { __CPROVER_assert(c == G_tarr, "types"); G_mem++; G_memn = n; G_memt = t; G_memk = (UA_DataTypeKind)t->typeKind; __CPROVER_assert(t->pointerFree, "pointer free until a member says otherwise"); }
UA_NodeId G_enc; UA_NodeId spec_enc(const NL_DataTypeNode *n) { return G_enc; }
#ifdef OB_addtype
static UA_DataType POOL[NT + 1];
void harness(void) { NL_DataTypeNode *nd = NEW(NL_DataTypeNode); D.isUnion = nondet_bool(); nd->definition = nondet_bool() ? &D : NULL; nd->id = anyid(); nd->browseName.name = nondet_bool() ? text() : NULL; UA_NodeId parent = anyid(); G_enc = anyid(); G_mem = 0;
    DataTypeImporter *im = NEW(DataTypeImporter); im->types = NEW(UA_DataTypeArray); G_tarr = im->types; bool fresh = NT == 0; size_t n = NT; im->types->types = fresh ? NULL : (UA_DataType *)POOL; *(size_t *)(uintptr_t)&im->types->typesSize = n; size_t k = NT ? 3 : 0; im->nodesSize = k; im->nodes = k ? (const NL_DataTypeNode **)malloc(k * sizeof(void *)) : NULL; const NL_DataTypeNode *o[3]; for(size_t i = 0; i < k; i++) { o[i] = im->nodes[i] = (NL_DataTypeNode *)nondet_ptr(); }
    G_fdid = parent; G_fdknown = parent.namespaceIndex == 0 && nondet_bool(); for(int i = 7; i < 24; i += 16) { UA_TYPES[i].typeKind = nondet_unsigned() & 31; UA_TYPES[i].memSize = (UA_UInt16)nondet_unsigned(); UA_TYPES[i].pointerFree = nondet_bool(); UA_TYPES[i].overlayable = nondet_bool(); UA_TYPES[i].binaryEncodingId = anyid(); }
    if(!fresh && n < 1001) { POOL[n].memSize = 77; POOL[n].membersSize = 3; POOL[n].members = (UA_DataTypeMember *)POOL; }
    DataTypeImporter_addCustomDataType(im, nd, parent);
    if(n >= 1000) { ENS(im->types->typesSize == n && im->nodesSize == k && im->types->types == POOL); }
    else { ENS(im->types->typesSize == n + 1 && im->nodesSize == k + 1 && im->nodes[k] == nd); for(size_t i = 0; i < k; i++) ENS(im->nodes[i] == o[i]);
      ENS(fresh ? im->types->types && __CPROVER_OBJECT_SIZE(im->types->types) == 1000 * sizeof(UA_DataType) : im->types->types == POOL); const UA_DataType *t = im->types->types + n;
      ENS(vf_ideq(&t->typeId, &nd->id)); ENS(nd->browseName.name ? copyof(t->typeName, nd->browseName.name) : !t->typeName);
      bool p0 = parent.namespaceIndex == 0 && parent.identifierType == 0; size_t num = parent.identifier.numeric;
      if(p0 && num == 29) { ENS(t->typeKind == UA_DATATYPEKIND_ENUM && t->memSize == 4 && t->pointerFree && t->membersSize == 0 && !t->members && G_mem == 0 && vf_ideq(&t->binaryEncodingId, &UA_NODEID_NULL)); }
      else if(p0 && (num == 22 || num == 12755)) { UA_DataTypeKind kd = nd->definition && D.isUnion ? UA_DATATYPEKIND_UNION : UA_DATATYPEKIND_STRUCTURE; ENS(t->typeKind == kd && vf_ideq(&t->binaryEncodingId, &G_enc) && t->pointerFree && !t->overlayable); ENS(num == 22 ? G_mem == 1 && G_memn == nd && G_memt == t && G_memk == kd : G_mem == 0); ENS(t->memSize == 0 && t->membersSize == 0 && !t->members); }
      else { const UA_DataType *b = G_fdknown ? &UA_TYPES[7] : &UA_TYPES[UA_TYPES_VARIANT]; ENS(t->typeKind == b->typeKind && t->memSize == b->memSize && t->pointerFree == b->pointerFree && t->overlayable == b->overlayable && vf_ideq(&t->binaryEncodingId, &b->binaryEncodingId) && t->membersSize == 0 && !t->members && G_mem == 0); }
      #if NT < 1000
 VAC(p0 && num == 29); VAC(p0 && num == 22 && fresh == (NT == 0)); VAC(p0 && num == 12755); VAC(p0 && num == 7 && G_fdknown); VAC(!p0);
#endif
 }
    VAC(1); }
#endif
#ifdef OB_encid
void harness(void) { NL_DataTypeNode *nd = NEW(NL_DataTypeNode); static NL_Reference R[3]; size_t n = nondet_size_t(); __CPROVER_assume(n <= 3); for(size_t i = 0; i < 3; i++) { R[i].refType = anyid(); R[i].target = anyid(); R[i].next = i + 1 < n ? &R[i + 1] : NULL; } nd->nonHierachicalRefs = n ? R : NULL;
    UA_NodeId e = UA_NODEID_NULL; bool f = false; for(size_t i = 0; i < n && !f; i++) if(R[i].refType.namespaceIndex == 0 && R[i].refType.identifierType == 0 && R[i].refType.identifier.numeric == 38) { e = R[i].target; f = true; }
    UA_NodeId r = getBinaryEncodingId(nd); ENS(r.namespaceIndex == e.namespaceIndex && vf_ideq(&r, &e)); VAC(f && n == 3); VAC(!f && n == 3); VAC(n == 0); }
#endif
#ifdef OB_findb
void harness(void) { static UA_DataType X[4]; UA_DataTypeArray *a[3]; size_t na = nondet_size_t(), n[3]; __CPROVER_assume(na <= 2); for(int i = 0; i < 2; i++) a[i] = NEW(UA_DataTypeArray); for(int i = 0; i < 4; i++) X[i].typeId = anyid(); UA_NodeId id = anyid(); const UA_DataType *e = NULL;
    for(size_t i = 0; i < 2; i++) { n[i] = nondet_size_t(); __CPROVER_assume(n[i] <= 2); bool none = nondet_bool(); *(size_t *)(uintptr_t)&a[i]->typesSize = n[i]; a[i]->types = none ? NULL : X + 2 * i; *(const UA_DataTypeArray **)(uintptr_t)&a[i]->next = i + 1 < na ? a[i + 1] : NULL; if(i < na && !none) for(size_t k = 0; k < n[i]; k++) if(!e && vf_ideq(&X[2 * i + k].typeId, &id)) e = &X[2 * i + k]; }
    cfg.customDataTypes = na ? a[0] : NULL; G_finds = 0; ENS(findCustomDataType(&id, cfg.customDataTypes) == e); ENS(NodesetLoader_getCustomDataType((UA_Server *)nondet_ptr(), &id) == e);
    VAC(e == &X[3]); VAC(e == &X[0]); VAC(!e && na == 2 && n[0] == 2 && n[1] == 2); VAC(e == &X[2] && !a[0]->types); }
#endif
#ifdef OB_dnew
void harness(void) { UA_DataTypeArray *a = NEW(UA_DataTypeArray); UA_DataTypeArray o = *a; cfg.customDataTypes = nondet_bool() ? a : NULL; bool had = cfg.customDataTypes != NULL; size_t n = a->typesSize;
    DataTypeImporter *im = DataTypeImporter_new((UA_Server *)nondet_ptr()); ENS(im && im->nodesSize == 0 && !im->nodes && im->types == cfg.customDataTypes);
    ENS(had ? cfg.customDataTypes == a && im->firstNewDataType == n && a->typesSize == n && a->types == o.types && a->next == o.next : im->types && im->types != a && im->firstNewDataType == 0 && im->types->typesSize == 0 && !im->types->types && !im->types->next && im->types->cleanup);
    VAC(had && n > 5); VAC(!had); im->nodes = nondet_bool() ? (const NL_DataTypeNode **)malloc(8) : NULL; if(!had) free(im->types); free(a); DataTypeImporter_delete(im); }
#endif
#ifdef OB_getcustom
/* the types of the server are searched for the id */
const UA_DataType *G_res; const UA_NodeId *G_wid; int G_looks;
const UA_DataType *spec_find(const UA_NodeId *id, const UA_DataTypeArray *t) { ENS(id == G_wid && t == cfg.customDataTypes); G_looks++; return G_res; }
void harness(void) { UA_NodeId i = nondet_id(); G_wid = &i; G_res = nondet_bool() ? NULL : NEW(UA_DataType); cfg.customDataTypes = nondet_bool() ? NULL : NEW(UA_DataTypeArray);
    const UA_DataType *r = NodesetLoader_getCustomDataType((UA_Server *)nondet_ptr(), &i); ENS(r == G_res && G_looks == 1); VAC(r); VAC(!r); }
#endif
#ifdef OB_typecleanup
/* each array, type, member, id and name is released once (double frees and leaks are checked) */
static UA_NodeId own_id(void) { UA_NodeId i = nondet_id(); __CPROVER_assume(i.identifierType == UA_NODEIDTYPE_NUMERIC || i.identifierType == UA_NODEIDTYPE_STRING || i.identifierType == UA_NODEIDTYPE_BYTESTRING); if(i.identifierType != UA_NODEIDTYPE_NUMERIC) i.identifier.string.data = (UA_Byte *)malloc(1); return i; }
#ifndef NT
#define NT 1
#endif
#ifndef NM
#define NM 2
#endif
void harness(void) { UA_DataTypeArray *a = NEW(UA_DataTypeArray), *b = NEW(UA_DataTypeArray); bool two = nondet_bool();
    *(const UA_DataTypeArray **)(uintptr_t)&a->next = two ? b : NULL; *(const UA_DataTypeArray **)(uintptr_t)&b->next = NULL; *(size_t *)(uintptr_t)&b->typesSize = 0; b->types = NULL; *(size_t *)(uintptr_t)&a->typesSize = NT;
    UA_DataType *t = (UA_DataType *)malloc(NT * sizeof(UA_DataType)); a->types = t;
    for(size_t i = 0; i < NT; i++) { t[i].typeName = (char *)malloc(1); t[i].typeId = own_id(); t[i].binaryEncodingId = own_id(); const bool has = true; t[i].membersSize = has ? NM : 0; UA_DataTypeMember *m = has ? (UA_DataTypeMember *)malloc((NM + 1) * sizeof(UA_DataTypeMember)) : NULL; t[i].members = m; for(size_t j = 0; has && j < NM; j++) m[j].memberName = (char *)malloc(1); }
    if(!two) free(b); VAC(two); VAC(t[NT - 1].binaryEncodingId.identifierType == UA_NODEIDTYPE_STRING);
    NodesetLoader_cleanupCustomDataTypes(a); NodesetLoader_cleanupCustomDataTypes(NULL); }
#endif
