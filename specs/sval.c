/* Contracts of the value conversion (backends/open62541/src/Value.c).
 * A number written in a text is an arbitrary mathematical integer V (|V| < 2^64);
 * the C library conversions are trusted contracts over V: exact inside the range
 * of their result type, anything outside. */
#include "vf.h"
#include <stdio.h>
#include <stdarg.h>
#include <limits.h>
#include <open62541/types.h>
#define NEW(T) ((T *)malloc(sizeof(T)))
UA_DataType UA_TYPES[UA_TYPES_COUNT];
#include "ua_model.h"
#include <NodesetLoader/NodesetLoader.h>
const char *G_text; bool G_neg; uint64_t G_abs; double G_dbl; long nondet_long(void); unsigned long nondet_ulong(void); double nondet_double(void); long long nondet_ll(void);
static bool fits(int bits, bool sign) { if(sign) return G_abs < ((uint64_t)1 << (bits - 1)) || (G_neg && G_abs == (uint64_t)1 << (bits - 1)); return (!G_neg || G_abs == 0) && (bits == 64 || G_abs < (uint64_t)1 << bits); }
#define VU (G_neg ? (uint64_t)0 - G_abs : G_abs)
static void chk(const char *s) { __CPROVER_precondition(s == G_text && s != NULL, "text that is converted"); }
static int vf_atoi(const char *s) { chk(s); return fits(32, true) ? (int)(int64_t)VU : nondet_int(); }
static long vf_strtol(const char *s, char **e, int b) { chk(s); __CPROVER_precondition(b == 10, "decimal"); if(e) *e = (char *)(uintptr_t)s; return fits(64, true) ? (long)VU : G_neg ? LONG_MIN : LONG_MAX; }
static unsigned long vf_strtoul(const char *s, char **e, int b) { chk(s); __CPROVER_precondition(b == 10, "decimal"); if(e) *e = (char *)(uintptr_t)s; return VU; }
static double vf_atof(const char *s) { chk(s); return G_dbl; }
static long vf_atol(const char *s) { return vf_strtol(s, NULL, 10); }
static double vf_strtod(const char *s, char **e) { return vf_atof(s); }
/* texts are opaque: length and the byte at the arbitrary position G_I */
size_t G_len, G_I; const void *G_cpd; char G_cI;
static size_t vf_strlen(const char *s) { chk(s); return G_len; }
static void *vf_memcpy(void *d, const void *s, size_t n) { if(s == (const void *)G_text && n > 0) { __CPROVER_precondition(n <= G_len + 1 && __CPROVER_w_ok(d, n), "memcpy"); if(G_I < n) ((char *)d)[G_I] = G_cI; } else __CPROVER_assert(n == 0, "copy of another text"); return d; }
/* calloc: trusted contract, zero at the arbitrary position */
#define atoi vf_atoi
#define atol vf_atol
#define atoll vf_atol
#define strtol vf_strtol
#define strtoll vf_strtol
#define strtoul vf_strtoul
#define strtoull vf_strtoul
#define atof vf_atof
#define strtod vf_strtod
#ifdef OB_scalar
#define strlen vf_strlen
#define memcpy vf_memcpy
#endif
#ifdef OB_datetime
static int vf_sscanf(const char *s, const char *fmt, ...);
#define sscanf vf_sscanf
#endif
#ifdef OB_nodeid
#define strlen vf_strlen
#endif
size_t G_calls; NL_Data **G_mem; size_t G_n;
struct ServerContext; typedef struct ServerContext ServerContext0; const void *G_ctx; UA_UInt16 G_trin, G_trout; int G_trs;
#include "gen/backends/open62541/src/Value.h"
RawData *rd;
#include "gen/backends/open62541/src/Value.c"
UA_UInt16 ServerContext_translateToServerIdx(const ServerContext *c, UA_UInt16 i) { __CPROVER_assert(c == G_ctx, "mapping context"); G_trin = i; G_trs++; return G_trout; }
static UA_NodeId anyid(void) { UA_NodeId i = nondet_id(); __CPROVER_assume(i.identifierType == 0 || i.identifierType == 3 || i.identifierType == 4 || i.identifierType == 5); return i; }
UA_NodeId G_pid; UA_StatusCode G_pst; int G_parses; UA_String G_pstr;
UA_StatusCode UA_NodeId_parse(UA_NodeId *id, const UA_String s) { G_parses++; G_pstr = s; *id = G_pst ? UA_NODEID_NULL : G_pid; return G_pst; }
UA_Guid G_guid; const char *G_gt; UA_Guid UA_GUID(const char *t) { G_gt = t; return G_guid; }
unsigned char *G_bp; int G_bl, G_bcalls; unsigned char *spec_unbase64(const char *a, int len, int *f) { __CPROVER_assert(a == G_text && len == (int)strlen(a), "text that is decoded"); G_bcalls++; *f = G_bp ? G_bl : 0; return G_bp; }
/* a converted value of SZ bytes at an arbitrary aligned place of a zeroed memory block; the bytes around it must stay */
#define BLK 160
#if defined(OB_struct) || defined(OB_union)
#define OFF 8
#else
#define OFF ((nondet_bool() ? 0 : 40) + (nondet_bool() ? 0 : 8))
#endif
uint64_t G_blk[BLK / 8]; size_t off, G_w;
static void mkraw(void) { for(int i = 0; i < BLK / 8; i++) G_blk[i] = 0; rd = NEW(RawData); rd->mem = G_blk; off = OFF; rd->offset = off; rd->next = NULL; G_w = nondet_size_t(); __CPROVER_assume(G_w < BLK); G_text = (const char *)malloc(1); G_ctx = malloc(1); G_trs = G_parses = G_bcalls = 0; }
#define AT(T) (*(T *)(void *)((char *)G_blk + off))
#define AROUND(sz) IMP(G_w < off || G_w >= off + (sz), ((unsigned char *)G_blk)[G_w] == 0)
#ifdef OB_scalar
#define IS(k, T, bits, sg) case UA_DATATYPEKIND_##k: if(has) ENS(IMP(fits(bits, sg), AT(T) == (T)VU)); break;
static const char T_true[] = "true", T_true2[] = "true ", T_false[] = "false", T_empty[] = "", T_True[] = "True", T_one[] = "1", T_one2[] = "10";
void harness(void) { mkraw(); unsigned kind = KIND; UA_DataType *t = NEW(UA_DataType); t->typeKind = kind; unsigned sz = kind <= 2 ? 1 : kind <= 4 ? 2 : kind <= 6 || kind == 9 ? 4 : kind == 11 ? sizeof(UA_String) : 8; t->memSize = sz;
    G_neg = nondet_bool(); G_abs = nondet_ulong(); G_dbl = nondet_double(); G_len = nondet_size_t(); __CPROVER_assume(G_len < LIM((size_t)1 << 40)); G_I = nondet_size_t(); G_cI = nondet_char(); bool has = nondet_bool(); int b = nondet_int(); if(kind == 0) G_text = b == 0 ? T_true : b == 1 ? T_true2 : b == 2 ? T_false : b == 3 ? T_empty : b == 4 ? T_one : b == 5 ? T_one2 : T_True;
    NL_Data *v = NEW(NL_Data); v->type = DATATYPE_PRIMITIVE; v->val.primitiveData.value = has ? G_text : NULL;
    setScalar(v, t, rd, NULL, (ServerContext *)(uintptr_t)G_ctx); ENS(AROUND(sz)); ENS(rd->mem == G_blk && rd->next == NULL);
    if(!has) ENS(IMP(G_w < BLK, ((unsigned char *)G_blk)[G_w] == 0));
    switch(kind) { case UA_DATATYPEKIND_BOOLEAN: if(has) ENS(AT(UA_Boolean) == (b == 0 || b == 4)); break;
      IS(SBYTE, UA_SByte, 8, true) IS(BYTE, UA_Byte, 8, false) IS(INT16, UA_Int16, 16, true) IS(UINT16, UA_UInt16, 16, false) IS(INT32, UA_Int32, 32, true) IS(UINT32, UA_UInt32, 32, false) IS(INT64, UA_Int64, 64, true) IS(UINT64, UA_UInt64, 64, false)
      case UA_DATATYPEKIND_FLOAT: if(has) { float e = (float)G_dbl; ENS(AT(float) == e || (e != e && AT(float) != AT(float))); } break;
      case UA_DATATYPEKIND_DOUBLE: if(has) ENS(AT(double) == G_dbl || (G_dbl != G_dbl && AT(double) != AT(double))); break;
      case UA_DATATYPEKIND_STRING: if(has) { UA_String s = AT(UA_String); ENS(s.length == G_len); ENS(s.length == 0 || (s.data != (const UA_Byte *)G_text && __CPROVER_OBJECT_SIZE(s.data) >= s.length)); ENS(IMP(G_I < G_len, s.data[G_I] == (UA_Byte)G_cI)); } break; }
    VAC(has && (kind == 11 ? G_len > 5 && off == 48 : kind == 0 ? b == 4 : kind == 8 ? G_abs > (uint64_t)1 << 63 && !G_neg : kind == 1 ? G_neg && G_abs == 128 : kind == 7 ? G_neg && G_abs == (uint64_t)1 << 63 : kind == 9 || kind == 10 ? G_dbl > 1.5 : G_abs == 255)); VAC(!has); }
static void none(void) { __CPROVER_assert(0, "a complex conversion"); }
void spec_st(const NL_Data *value, const UA_DataType *type, RawData *data, const UA_DataType *customTypes, const ServerContext *serverContext) { none(); }
#endif
#ifdef OB_shape
#define NONE __CPROVER_assert(0, "no conversion")
void spec_p(RawData *data, const char *value, UA_DataTypeKind kind, size_t memSize) { NONE; }
void spec_vd(const NL_Data *value, RawData *data) { NONE; }
void spec_vdc(const NL_Data *value, RawData *data, const ServerContext *c) { NONE; }
void spec_st(const NL_Data *value, const UA_DataType *type, RawData *data, const UA_DataType *customTypes, const ServerContext *serverContext) { __CPROVER_assert(0, "a complex conversion"); }
/* a value which does not have the shape of its type leaves the converted value alone */
void harness(void) { mkraw(); UA_DataType *t = NEW(UA_DataType); unsigned k = nondet_unsigned(); __CPROVER_assume(k <= 30); t->typeKind = k; bool prim = k < 12 || k == UA_DATATYPEKIND_DATETIME || k == UA_DATATYPEKIND_BYTESTRING || k == UA_DATATYPEKIND_ENUM; NL_Data *v = NEW(NL_Data); bool unsup = k == UA_DATATYPEKIND_XMLELEMENT || k == 17 || k == 21 || k == 22 || k == 23 || k == 24 || k == 25 || k == 28 || k == 30;
    v->type = prim ? DATATYPE_COMPLEX : DATATYPE_PRIMITIVE; if(unsup && nondet_bool()) v->type = DATATYPE_COMPLEX; setScalar(v, t, rd, NULL, NULL); ENS(AROUND(0)); ENS(rd->mem == G_blk); VAC(prim && k == 12); VAC(k == 28 && v->type == DATATYPE_COMPLEX); VAC(k == 27); }
#endif
/* ---- members by name ---- */
NL_Data *G_m1, *G_m2; const char *G_n1, *G_n2; const NL_Data *G_val; int G_looks;
NL_Data *spec_lookup(const NL_Data *v, const char *name) { G_looks++; __CPROVER_assert(v == G_val, "value that is searched"); if(!strcmp(name, G_n1)) return G_m1; if(!strcmp(name, G_n2)) return G_m2; __CPROVER_assert(0, "name of a member"); return NULL; }
int G_sets; static const char *T_b = "b";
static NL_Data *leaf(const char *t) { if(nondet_bool()) return NULL; NL_Data *d = NEW(NL_Data); d->type = nondet_bool() ? DATATYPE_PRIMITIVE : DATATYPE_COMPLEX; if(d->type == DATATYPE_PRIMITIVE) d->val.primitiveData.value = nondet_bool() ? NULL : t; return d; }
static const char *txt(NL_Data *d) { return d && d->type == DATATYPE_PRIMITIVE ? d->val.primitiveData.value : NULL; }
static bool streq(UA_String s, const char *t) { if(!t) return s.length == 0 && s.data == NULL; size_t i = 0; for(; t[i]; i++) if(i >= s.length || s.data[i] != (UA_Byte)t[i]) return false; return i == s.length && (const char *)s.data != t; }
#ifdef OB_qname
void harness(void) { mkraw(); UA_DataType *t = NEW(UA_DataType); t->typeKind = UA_DATATYPEKIND_QUALIFIEDNAME; t->memSize = sizeof(UA_QualifiedName); NL_Data *v = NEW(NL_Data); v->type = DATATYPE_COMPLEX; G_val = v; G_n1 = "NamespaceIndex"; G_n2 = "Name"; G_m1 = leaf(G_text); G_m2 = leaf("xy"); G_neg = false; G_abs = nondet_unsigned() & 0xffff; G_trout = (UA_UInt16)nondet_int();
    setScalar(v, t, rd, NULL, (ServerContext *)(uintptr_t)G_ctx); UA_QualifiedName q = AT(UA_QualifiedName); ENS(G_trs == 1 && G_trin == (txt(G_m1) ? G_abs : 0)); ENS(q.namespaceIndex == G_trout); ENS(streq(q.name, txt(G_m2))); ENS(AROUND(sizeof q)); VAC(txt(G_m1) && txt(G_m2)); VAC(!G_m1 && txt(G_m2)); VAC(!txt(G_m2)); }
#endif
#ifdef OB_ltext
void harness(void) { mkraw(); UA_DataType *t = NEW(UA_DataType); t->typeKind = UA_DATATYPEKIND_LOCALIZEDTEXT; t->memSize = sizeof(UA_LocalizedText); NL_Data *v = NEW(NL_Data); v->type = DATATYPE_COMPLEX; G_val = v; G_n1 = "Locale"; G_n2 = "Text"; G_m1 = leaf("de"); G_m2 = leaf("xyz");
    setScalar(v, t, rd, NULL, NULL); UA_LocalizedText q = AT(UA_LocalizedText); ENS(streq(q.locale, txt(G_m1))); ENS(streq(q.text, txt(G_m2))); ENS(AROUND(sizeof q)); VAC(txt(G_m1) && txt(G_m2)); VAC(!G_m1 && txt(G_m2)); VAC(!txt(G_m2)); }
#endif
/* complex values with a text in their first member */
static NL_Data *firstText(const char **t) { NL_Data *v = NEW(NL_Data); v->type = DATATYPE_COMPLEX; size_t n = nondet_size_t(); __CPROVER_assume(n <= 2); v->val.complexData.membersSize = n; static NL_Data *M[2]; NL_Data *a = leaf(G_text); __CPROVER_assume(a); M[0] = a; M[1] = a; v->val.complexData.members = n ? M : NULL; *t = n ? txt(a) : NULL; return v; }
#ifdef OB_nodeid
void harness(void) { mkraw(); G_len = nondet_size_t(); UA_DataType *t = NEW(UA_DataType); t->typeKind = UA_DATATYPEKIND_NODEID; t->memSize = sizeof(UA_NodeId); const char *x; NL_Data *v = firstText(&x); G_pid = anyid(); G_pst = nondet_bool() ? 0 : UA_STATUSCODE_BADDECODINGERROR; G_trout = (UA_UInt16)nondet_int();
    setScalar(v, t, rd, NULL, (ServerContext *)(uintptr_t)G_ctx); UA_NodeId q = AT(UA_NodeId); UA_NodeId e = x && !G_pst ? G_pid : UA_NODEID_NULL; UA_UInt16 ns = e.namespaceIndex; e.namespaceIndex = G_trout; ENS(G_trs == 1 && G_trin == ns); ENS(q.namespaceIndex == e.namespaceIndex && vf_ideq(&q, &e)); ENS(x ? G_parses == 1 && G_pstr.data == (UA_Byte *)(uintptr_t)G_text && G_pstr.length == G_len : G_parses == 0); ENS(AROUND(sizeof q)); VAC(x && !G_pst); VAC(!x); VAC(x && G_pst); }
#endif
#ifdef OB_guid
void harness(void) { mkraw(); UA_DataType *t = NEW(UA_DataType); t->typeKind = UA_DATATYPEKIND_GUID; t->memSize = sizeof(UA_Guid); const char *x; NL_Data *v = firstText(&x); G_gt = NULL; setScalar(v, t, rd, NULL, NULL); UA_Guid g = AT(UA_Guid); int k = nondet_int(); __CPROVER_assume(k >= 0 && k < 8); ENS(G_gt == x); ENS(x ? g.data1 == G_guid.data1 && g.data2 == G_guid.data2 && g.data3 == G_guid.data3 && g.data4[k] == G_guid.data4[k] : g.data1 == 0 && g.data2 == 0 && g.data3 == 0 && g.data4[k] == 0); ENS(AROUND(sizeof g)); VAC(x); VAC(!x); }
#endif
#ifdef OB_status
void harness(void) { mkraw(); UA_DataType *t = NEW(UA_DataType); UA_TYPES[UA_TYPES_UINT32].memSize = 4; t->typeKind = UA_DATATYPEKIND_STATUSCODE; t->memSize = 4; const char *x; NL_Data *v = firstText(&x); G_neg = false; G_abs = nondet_unsigned(); if(v->val.complexData.membersSize != 1) x = NULL; setScalar(v, t, rd, NULL, NULL); ENS(AT(UA_StatusCode) == (x ? G_abs : 0)); ENS(AROUND(4)); VAC(x && G_abs > 0x80000000u); VAC(!x); }
#endif
#ifdef OB_bytes
void harness(void) { mkraw(); UA_DataType *t = NEW(UA_DataType); t->typeKind = UA_DATATYPEKIND_BYTESTRING; t->memSize = sizeof(UA_ByteString); NL_Data *v = NEW(NL_Data); v->type = DATATYPE_PRIMITIVE; bool has = nondet_bool(); G_text = "QUJD"; v->val.primitiveData.value = has ? G_text : NULL; G_bp = nondet_bool() ? NULL : (unsigned char *)malloc(3); G_bl = nondet_int(); __CPROVER_assume(G_bl >= 0);
    setScalar(v, t, rd, NULL, NULL); UA_ByteString s = AT(UA_ByteString); ENS(has ? G_bcalls == 1 && s.data == G_bp && s.length == (G_bp ? (size_t)G_bl : 0) : s.data == NULL && s.length == 0); ENS(AROUND(sizeof s)); VAC(has && G_bp && G_bl > 2); VAC(!has); VAC(has && !G_bp); }
#endif
const char *G_ein, *G_eout; const char *spec_enum(const char *s) { G_ein = s; return s ? G_eout : NULL; }
#ifdef OB_enum
void harness(void) { mkraw(); UA_TYPES[UA_TYPES_INT32].memSize = 4; UA_DataType *t = NEW(UA_DataType); t->typeKind = UA_DATATYPEKIND_ENUM; t->memSize = 4; NL_Data *v = NEW(NL_Data); v->type = DATATYPE_PRIMITIVE; bool has = nondet_bool(); const char *w = (const char *)malloc(1); v->val.primitiveData.value = has ? w : NULL; G_eout = G_text; G_neg = nondet_bool(); G_abs = nondet_ulong(); __CPROVER_assume(fits(32, true)); G_ein = NULL;
    setScalar(v, t, rd, NULL, NULL); ENS(AT(UA_Int32) == (has ? (UA_Int32)VU : 0)); ENS(G_ein == (has ? w : NULL)); ENS(AROUND(4)); VAC(has && G_neg); VAC(!has); }
#endif
#ifdef OB_enumpos
void harness(void) { char s[9]; s[8] = 0; const char *r = getEnumValuePos(s), *e = s; for(int i = 0; i < 8 && s[i]; i++) if(s[i] == '_') e = s + i + 1; ENS(r == e); ENS(getEnumValuePos(NULL) == NULL); VAC(e == s + 5); VAC(e == s && s[3]); }
#endif
#ifdef OB_datetime
/* sscanf: interpreted for the fields year, month, day, hour, minute, second of an ISO 8601 date */
int G_f[6]; UA_DateTimeStruct G_dts; UA_DateTime G_dtr; int G_scans;
static int vf_sscanf(const char *s, const char *fmt, ...) { va_list va; va_start(va, fmt); __CPROVER_assert(s == G_text, "text of the date"); G_scans++; int f = 0; static const char sep[] = "--T::Z";
    for(size_t i = 0; fmt[i]; i++) { if(fmt[i] != '%') { if(f == 0 || f > 6 || fmt[i] != sep[f - 1]) break; continue; }
      if(f >= 6) break; i++; bool w = fmt[i] == '0'; while(fmt[i] >= '0' && fmt[i] <= '9') i++; bool h = false, l = false; if(fmt[i] == 'h') { h = true; i++; } else if(fmt[i] == 'l') { l = true; i++; }
      int x = G_f[f]; if(fmt[i] == 'i' && f > 0) x = nondet_int(); else __CPROVER_assert(fmt[i] == 'd' || fmt[i] == 'u' || fmt[i] == 'i', "number conversion"); f++;
      if(h) *va_arg(va, short *) = (short)x; else if(l) *va_arg(va, long *) = x; else *va_arg(va, int *) = x; }
    va_end(va); return f; }
UA_DateTime UA_DateTime_fromStruct(UA_DateTimeStruct d) { G_dts = d; return G_dtr; }
void harness(void) { mkraw(); UA_DataType *t = NEW(UA_DataType); t->typeKind = UA_DATATYPEKIND_DATETIME; t->memSize = 8; NL_Data *v = NEW(NL_Data); v->type = DATATYPE_PRIMITIVE; bool has = nondet_bool(); v->val.primitiveData.value = has ? G_text : NULL; for(int i = 0; i < 6; i++) { G_f[i] = nondet_int(); __CPROVER_assume(G_f[i] >= 0 && G_f[i] <= (i ? 60 : 9999)); } G_dtr = nondet_ll(); G_scans = 0;
    setScalar(v, t, rd, NULL, NULL); ENS(AT(UA_DateTime) == (has ? G_dtr : 0)); ENS(IMP(has, G_dts.year == G_f[0] && G_dts.month == G_f[1] && G_dts.day == G_f[2] && G_dts.hour == G_f[3] && G_dts.min == G_f[4] && G_dts.sec == G_f[5] && G_dts.milliSec == 0 && G_dts.microSec == 0 && G_dts.nanoSec == 0)); ENS(AROUND(8)); VAC(has && G_f[0] == 1999); VAC(!has); }
#endif
#ifdef OB_lookup
void harness(void) { static NL_Data D0, D1, D2; static NL_Data *M[3] = {&D0, &D1, &D2}; static char n0[3], n1[3], n2[3], w[3]; n0[0] = nondet_char(); n0[1] = nondet_char(); n1[0] = nondet_char(); n1[1] = nondet_char(); n2[0] = nondet_char(); n2[1] = nondet_char(); w[0] = nondet_char(); w[1] = nondet_char(); n0[2] = n1[2] = n2[2] = w[2] = 0; D0.name = n0; D1.name = n1; D2.name = n2; NL_Data *v = NEW(NL_Data); v->type = DATATYPE_COMPLEX; size_t n = nondet_size_t(); __CPROVER_assume(n <= 3); v->val.complexData.membersSize = n; v->val.complexData.members = n ? M : NULL;
    NL_Data *e = n > 0 && !strcmp(n0, w) ? &D0 : n > 1 && !strcmp(n1, w) ? &D1 : n > 2 && !strcmp(n2, w) ? &D2 : NULL; ENS(lookupMember(v, w) == e); VAC(e == &D2); VAC(e == &D0 && n == 3); VAC(!e && n == 3); }
#endif
#ifdef OB_membertext
void harness(void) { const char *x; mkraw(); NL_Data *v = firstText(&x); size_t i = nondet_size_t(); bool p = nondet_bool(); if(p) v->type = DATATYPE_PRIMITIVE; size_t n = v->val.complexData.membersSize; ENS(getMembersSize(v) == (p ? 0 : n)); const char *r = getMemberText(v, i); ENS(r == (p || i >= n ? NULL : x)); VAC(i == 1 && x && !p); VAC(p && n > 1); VAC(i >= n && n == 2); }
#endif
/* ---- arrays, structures, unions: which member is converted where ---- */
const UA_DataType *G_ty; const UA_DataType *G_cust; void *G_base;
static void args(const UA_DataType *cust, const ServerContext *sc) { __CPROVER_assert(cust == G_cust && (const void *)sc == G_ctx, "context of the conversion"); }
#if defined(OB_array)
void spec_elem(const NL_Data *v, const UA_DataType *t, RawData *d, const UA_DataType *cust, const ServerContext *sc) { args(cust, sc); __CPROVER_assert(G_calls < G_n && v == G_mem[G_calls] && t == G_ty && d == rd && d->offset == G_calls * t->memSize && d->mem == G_base, "element k at k times the element size"); G_calls++; d->offset = nondet_size_t(); }
const NL_Data *G_v;
void c_array(const NL_Data *value, const UA_DataType *type, RawData *data, const UA_DataType *customTypes, const ServerContext *serverContext)
__CPROVER_requires(value == G_v && type == G_ty && data == rd && customTypes == G_cust && (const void *)serverContext == G_ctx)
__CPROVER_assigns(rd->offset, G_calls)
;
void harness(void) { NL_Data *v = NEW(NL_Data); G_v = v; v->type = nondet_bool() ? DATATYPE_COMPLEX : DATATYPE_PRIMITIVE; G_n = nondet_size_t(); __CPROVER_assume(G_n < LIM((size_t)1 << 40)); v->val.complexData.membersSize = G_n; G_mem = v->val.complexData.members = (NL_Data **)malloc((G_n ? G_n : 1) * sizeof(NL_Data *)); if(v->type == DATATYPE_PRIMITIVE) G_n = 0; UA_DataType *t = NEW(UA_DataType); G_ty = t; rd = NEW(RawData); rd->offset = nondet_size_t(); rd->mem = G_base = malloc(1); G_ctx = malloc(1); G_cust = NEW(UA_DataType); G_calls = 0;
    setArray(v, t, rd, G_cust, (ServerContext *)(uintptr_t)G_ctx); ENS(G_calls == G_n); VAC(G_n > 4); VAC(v->type == DATATYPE_PRIMITIVE); VAC(G_n == 0 && v->type == DATATYPE_COMPLEX); }
#endif
#if defined(OB_struct) || defined(OB_union)
#define NM 3
static NL_Data MD[NM]; static UA_DataType MT[NM]; static UA_DataTypeMember MM[NM]; size_t pos[NM]; bool present[NM]; int G_done[NM]; int G_news; static RawData RW[NM]; int G_nraw; static char NAME[2 * NM];
static bool isMem(const void *p) { return p == (void *)&MD[0] || p == (void *)&MD[1] || p == (void *)&MD[2]; }
NL_Data *spec_look3(const NL_Data *v, const char *name) { __CPROVER_assert(v == G_val, "value that is searched"); for(int i = 0; i < NM; i++) if(name == NAME + 2 * i) return present[i] ? &MD[i] : NULL; __CPROVER_assert(0, "name of a member"); return NULL; }
void spec_scal(const NL_Data *v, const UA_DataType *t, RawData *d, const UA_DataType *cust, const ServerContext *sc) { args(cust, sc); int ok = 0; for(int i = 0; i < NM; i++) if(v == &MD[i]) { __CPROVER_assert(!MM[i].isArray && t == MM[i].memberType && d == rd && d->mem == G_base && d->offset == pos[i], "member is converted at its place"); G_done[i]++; ok = 1; } __CPROVER_assert(ok, "member of the value"); d->offset = nondet_size_t(); }
RawData *spec_rawnew(RawData *old) { __CPROVER_assert(old == rd && G_nraw < NM, "raw data chain"); RawData *r = &RW[G_nraw++]; r->mem = NULL; r->offset = 0; r->next = NULL; return r; }
void *G_amem[NM];
void spec_arr(const NL_Data *v, const UA_DataType *t, RawData *d, const UA_DataType *cust, const ServerContext *sc) { args(cust, sc); int ok = 0; for(int i = 0; i < NM; i++) if(v == &MD[i]) { size_t n = MD[i].type == DATATYPE_COMPLEX ? MD[i].val.complexData.membersSize : 0; __CPROVER_assert(MM[i].isArray && t == MM[i].memberType && d == &RW[G_nraw - 1] && d->mem && __CPROVER_OBJECT_SIZE(d->mem) >= n * t->memSize, "array member in memory of its own"); G_done[i]++; G_amem[i] = d->mem; ok = 1; } __CPROVER_assert(ok, "member of the value"); d->offset = nondet_size_t(); }
static NL_Data *mk(bool un) { mkraw(); G_base = rd->mem; G_cust = NEW(UA_DataType); NL_Data *v = NEW(NL_Data); G_val = v; v->type = DATATYPE_COMPLEX; size_t p = off; G_nraw = 0;
    for(int i = 0; i < NM; i++) { MT[i].memSize = nondet_bool() ? 8 : nondet_bool() ? 24 : 2; MM[i].memberName = NAME + 2 * i; MM[i].memberType = &MT[i]; MM[i].isArray = nondet_bool(); if(MM[i].isArray && nondet_bool()) MT[i].memSize = 0; /* layout unknown */ MM[i].isOptional = 0; MM[i].padding = MT[i].memSize == 2 && !MM[i].isArray ? 2 : un ? 8 : p % 8 ? 8 - p % 8 : 0; present[i] = nondet_bool(); G_done[i] = 0; MD[i].type = nondet_bool() ? DATATYPE_COMPLEX : DATATYPE_PRIMITIVE; if(MD[i].type == DATATYPE_COMPLEX) { size_t n = nondet_size_t(); __CPROVER_assume(n <= 1000); MD[i].val.complexData.membersSize = n; }
      pos[i] = (un ? off : p) + MM[i].padding; p = pos[i] + (MM[i].isArray ? 16 : MT[i].memSize); }
    G_ty = NEW(UA_DataType); ((UA_DataType *)(uintptr_t)G_ty)->members = MM; return v; }
static size_t msz(int i) { return MD[i].type == DATATYPE_COMPLEX ? MD[i].val.complexData.membersSize : 0; }
#define ARR(i) (*(size_t *)(void *)((char *)G_blk + pos[i]) == msz(i) && *(void **)(void *)((char *)G_blk + pos[i] + 8) == G_amem[i])
#endif
#ifdef OB_struct
void harness(void) { NL_Data *v = mk(false); size_t n = NN; ((UA_DataType *)(uintptr_t)G_ty)->membersSize = (UA_UInt32)n;
    setStructure(v, G_ty, rd, G_cust, (ServerContext *)(uintptr_t)G_ctx);
    bool inarr = false; for(size_t i = 0; i < NM; i++) { bool conv = i < n && present[i] && MT[i].memSize; ENS(G_done[i] == conv); if(conv && MM[i].isArray) { ENS(ARR(i)); if(G_w >= pos[i] && G_w < pos[i] + 16) inarr = true; } } ENS(inarr || ((unsigned char *)G_blk)[G_w] == 0);
    VAC(!present[0] && present[1] && present[2] && MM[1].isArray && msz(1) == 7 && MT[1].memSize == 24); VAC(present[0] && MT[0].memSize == 0 && msz(0) == 2); VAC(MM[0].isArray && !present[0] && present[1]); VAC(MT[0].memSize == 2 && present[1] && MT[1].memSize == 24 && !MM[0].isArray); }
#endif
#ifdef OB_union
const char *G_sw; const char *spec_mtext(const NL_Data *v, size_t i) { __CPROVER_assert(v == G_val && i == 0, "switch field"); return G_sw; }
void harness(void) { NL_Data *v = mk(true); size_t n = nondet_size_t(); __CPROVER_assume(n <= NM); ((UA_DataType *)(uintptr_t)G_ty)->membersSize = (UA_UInt32)n; ((UA_DataType *)(uintptr_t)G_ty)->memSize = 40; G_sw = nondet_bool() ? NULL : G_text; G_neg = nondet_bool(); G_abs = nondet_ulong(); __CPROVER_assume(fits(32, true)); size_t mn = nondet_size_t(); __CPROVER_assume(mn <= 2); v->val.complexData.membersSize = mn; static NL_Data *VM[2]; static NL_Data SD; int sw = G_sw ? (int)VU : 0; bool sel = sw >= 1 && sw <= (int)n && mn >= 2, known = sel && MT[sw - 1].memSize; VM[0] = &SD; VM[1] = sel ? &MD[sw - 1] : &SD; v->val.complexData.members = mn ? VM : NULL;
    setUnion(v, G_ty, rd, G_cust, (ServerContext *)(uintptr_t)G_ctx); bool inarr = false;
    for(int i = 0; i < NM; i++) { bool me = known && i == sw - 1; ENS(G_done[i] == me); if(me && MM[i].isArray) { ENS(ARR(i)); inarr = G_w >= pos[i] && G_w < pos[i] + 16; } }
    ENS(AT(UA_UInt32) == (known ? (UA_UInt32)sw : 0)); VAC(sel && !known && msz(sw - 1) == 3); ENS(inarr || (G_w >= off && G_w < off + 4) || ((unsigned char *)G_blk)[G_w] == 0);
    VAC(known && sw == 3 && MM[2].isArray && msz(2) == 5); VAC(sel && sw == 1); VAC(sw == (int)n && mn == 1 && n); VAC(sw > (int)n && mn == 2); VAC(sw == 0); VAC(sw < 0 && mn == 2); }
#endif
#ifdef OB_getdata
RawData *out; NL_Data *vd; int G_k; size_t G_need;
static void go(const NL_Data *v, const UA_DataType *t, RawData *d, const UA_DataType *cust, const ServerContext *sc, int k) { args(cust, sc); __CPROVER_assert(v == vd && t == G_ty && d == out && d->offset == 0 && d->mem && __CPROVER_OBJECT_SIZE(d->mem) >= G_need && d->next == NULL, "converted into memory of the right size"); __CPROVER_assert(G_w >= G_need || ((char *)d->mem)[G_w] == 0, "zeroed"); G_k = k; G_calls++; }
void spec_s(const NL_Data *v, const UA_DataType *t, RawData *d, const UA_DataType *cust, const ServerContext *sc) { go(v, t, d, cust, sc, 1); }
void spec_a(const NL_Data *v, const UA_DataType *t, RawData *d, const UA_DataType *cust, const ServerContext *sc) { go(v, t, d, cust, sc, 2); }
void harness(void) { NL_Value *v = NEW(NL_Value); v->isArray = nondet_bool(); vd = v->data = NEW(NL_Data); vd->type = v->isArray ? DATATYPE_COMPLEX : vd->type; size_t n = vd->val.complexData.membersSize; __CPROVER_assume(n < 1000); UA_DataType *t = NEW(UA_DataType); bool has = nondet_bool(); G_ty = t; out = RawData_new(NULL); ENS(out->mem == NULL && out->offset == 0 && out->next == NULL); G_ctx = malloc(1); G_cust = NEW(UA_DataType); G_calls = 0; size_t s = t->memSize; G_need = v->isArray ? n * s : s; G_w = nondet_size_t();
    Value_getData(out, v, has ? t : NULL, G_cust, (ServerContext *)(uintptr_t)G_ctx); bool conv = has && s && !(v->isArray && n == 0); ENS(G_calls == (size_t)conv); ENS(IMP(conv, G_k == (v->isArray ? 2 : 1))); ENS(IMP(!conv, out->mem == NULL)); VAC(conv && v->isArray && n > 2); VAC(conv && !v->isArray); VAC(!has); VAC(has && !s); VAC(has && s && !conv); }
#endif
#ifdef OB_raw
void harness(void) { RawData *a = RawData_new(NULL), *b = RawData_new(a), *c = RawData_new(nondet_bool() ? a : b); ENS(a && b && c && a->next == b && b->next == c && c->next == NULL && !a->mem && !b->mem && !c->mem && a->offset == 0 && c->offset == 0); char *m = (char *)malloc(1); b->mem = m; RawData_delete(a); m[0] = 0; free(m); RawData_delete(NULL); VAC(1); }
#endif
