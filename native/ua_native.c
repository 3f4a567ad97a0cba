#include "ua_native.h"
#include <NodesetLoader/dataTypes.h>
#include <ctype.h>
const UA_NodeId UA_NODEID_NULL = {0, UA_NODEIDTYPE_NUMERIC, {0}};
const UA_ExpandedNodeId UA_EXPANDEDNODEID_NULL;
const UA_ObjectAttributes UA_ObjectAttributes_default;
const UA_VariableAttributes UA_VariableAttributes_default = {.valueRank = -2, .accessLevel = 1, .userAccessLevel = 1};
const UA_MethodAttributes UA_MethodAttributes_default = {.executable = true, .userExecutable = true};
const UA_ObjectTypeAttributes UA_ObjectTypeAttributes_default;
const UA_VariableTypeAttributes UA_VariableTypeAttributes_default = {.valueRank = -2};
const UA_ReferenceTypeAttributes UA_ReferenceTypeAttributes_default;
const UA_DataTypeAttributes UA_DataTypeAttributes_default;
const UA_ViewAttributes UA_ViewAttributes_default;
#define N0(n) {0, UA_NODEIDTYPE_NUMERIC, {n}}
#define T(nm, n, ty, k, pf) {nm, N0(n), N0(0), sizeof(ty), k, pf, 0, 0, NULL}
UA_DataType UA_TYPES[UA_TYPES_COUNT] = {
    T("Boolean", 1, UA_Boolean, 0, 1), T("SByte", 2, UA_SByte, 1, 1), T("Byte", 3, UA_Byte, 2, 1),
    T("Int16", 4, UA_Int16, 3, 1), T("UInt16", 5, UA_UInt16, 4, 1), T("Int32", 6, UA_Int32, 5, 1),
    T("UInt32", 7, UA_UInt32, 6, 1), T("Int64", 8, UA_Int64, 7, 1), T("UInt64", 9, UA_UInt64, 8, 1),
    T("Float", 10, UA_Float, 9, 1), T("Double", 11, UA_Double, 10, 1), T("String", 12, UA_String, 11, 0),
    T("DateTime", 13, UA_DateTime, 12, 1), T("Guid", 14, UA_Guid, 13, 1), T("ByteString", 15, UA_ByteString, 14, 0),
    T("XmlElement", 16, UA_XmlElement, 15, 0), T("NodeId", 17, UA_NodeId, 16, 0),
    T("ExpandedNodeId", 18, UA_ExpandedNodeId, 17, 0), T("StatusCode", 19, UA_StatusCode, 18, 1),
    T("QualifiedName", 20, UA_QualifiedName, 19, 0), T("LocalizedText", 21, UA_LocalizedText, 20, 0),
    T("ExtensionObject", 22, UA_ExtensionObject, 21, 0), T("DataValue", 23, UA_DataValue, 22, 0),
    T("Variant", 24, UA_Variant, 23, 0), T("DiagnosticInfo", 25, UA_DiagnosticInfo, 24, 0),
    [UA_TYPES_OBJECTATTRIBUTES] = T("ObjectAttributes", 352, UA_ObjectAttributes, 27, 0),
    [UA_TYPES_VARIABLEATTRIBUTES] = T("VariableAttributes", 355, UA_VariableAttributes, 27, 0),
    [UA_TYPES_VARIABLETYPEATTRIBUTES] = T("VariableTypeAttributes", 364, UA_VariableTypeAttributes, 27, 0),
};
static char *dupn(const UA_Byte *d, size_t n) { char *r = (char *)calloc(n + 1, 1); if(n) memcpy(r, d, n); return r; }
static char *dups(const UA_String *s) { return s->data ? dupn(s->data, s->length) : NULL; }

static int hexv(char c) { return isdigit((unsigned char)c) ? c - '0' : (tolower((unsigned char)c) - 'a' + 10); }
static UA_Boolean parseGuid(const char *p, size_t n, UA_Guid *g) {
    if(n != 36) return false;
    UA_Byte b[16]; size_t k = 0;
    for(size_t i = 0; i < 36;) {
        if(i == 8 || i == 13 || i == 18 || i == 23) { if(p[i] != '-') return false; i++; continue; }
        if(!isxdigit((unsigned char)p[i]) || !isxdigit((unsigned char)p[i + 1])) return false;
        b[k++] = (UA_Byte)(hexv(p[i]) * 16 + hexv(p[i + 1])); i += 2;
    }
    g->data1 = ((UA_UInt32)b[0] << 24) | ((UA_UInt32)b[1] << 16) | ((UA_UInt32)b[2] << 8) | b[3];
    g->data2 = (UA_UInt16)(b[4] << 8 | b[5]); g->data3 = (UA_UInt16)(b[6] << 8 | b[7]);
    memcpy(g->data4, b + 8, 8);
    return true;
}
UA_StatusCode UA_NodeId_parse(UA_NodeId *id, const UA_String str) {
    memset(id, 0, sizeof(*id));
    const char *p = (const char *)str.data; size_t n = str.length;
    UA_UInt32 ns = 0;
    if(n >= 3 && !strncmp(p, "ns=", 3)) {
        size_t i = 3;
        while(i < n && isdigit((unsigned char)p[i])) { ns = ns * 10 + (UA_UInt32)(p[i] - '0'); if(ns > 65535) return UA_STATUSCODE_BADDECODINGERROR; i++; }
        if(i == 3 || i >= n || p[i] != ';') return UA_STATUSCODE_BADDECODINGERROR;
        p += i + 1; n -= i + 1;
    }
    if(n < 2 || p[1] != '=') return UA_STATUSCODE_BADDECODINGERROR;
    char k = p[0]; p += 2; n -= 2;
    if(k == 'i') {
        uint64_t v = 0;
        if(n == 0) return UA_STATUSCODE_BADDECODINGERROR;
        for(size_t i = 0; i < n; i++) {
            if(!isdigit((unsigned char)p[i])) return UA_STATUSCODE_BADDECODINGERROR;
            v = v * 10 + (uint64_t)(p[i] - '0'); if(v > 0xFFFFFFFFull) return UA_STATUSCODE_BADDECODINGERROR;
        }
        id->identifierType = UA_NODEIDTYPE_NUMERIC; id->identifier.numeric = (UA_UInt32)v;
    } else if(k == 's' || k == 'b') {
        id->identifierType = k == 's' ? UA_NODEIDTYPE_STRING : UA_NODEIDTYPE_BYTESTRING;
        id->identifier.string.length = n; id->identifier.string.data = (UA_Byte *)dupn((const UA_Byte *)p, n);
    } else if(k == 'g') {
        if(!parseGuid(p, n, &id->identifier.guid)) { memset(id, 0, sizeof(*id)); return UA_STATUSCODE_BADDECODINGERROR; }
        id->identifierType = UA_NODEIDTYPE_GUID;
    } else return UA_STATUSCODE_BADDECODINGERROR;
    id->namespaceIndex = (UA_UInt16)ns;
    return UA_STATUSCODE_GOOD;
}
UA_NodeId UA_NODEID(const char *chars) { UA_NodeId id; UA_NodeId_parse(&id, UA_STRING((char *)(uintptr_t)chars)); return id; }
UA_Guid UA_GUID(const char *chars) {
    UA_Guid g; memset(&g, 0, sizeof g);
    if(!parseGuid(chars, strlen(chars), &g)) memset(&g, 0, sizeof g);
    return g;
}
UA_StatusCode UA_NodeId_print(const UA_NodeId *id, UA_String *out) {
    char b[600];
    int n = id->namespaceIndex ? snprintf(b, sizeof b, "ns=%u;", id->namespaceIndex) : 0;
    if(id->identifierType == UA_NODEIDTYPE_NUMERIC) n += snprintf(b + n, sizeof b - (size_t)n, "i=%u", id->identifier.numeric);
    else if(id->identifierType == UA_NODEIDTYPE_GUID) n += snprintf(b + n, sizeof b - (size_t)n, "g=%08x", id->identifier.guid.data1);
    else n += snprintf(b + n, sizeof b - (size_t)n, "s=%.*s", (int)(id->identifier.string.length > 500 ? 500 : id->identifier.string.length), (const char *)id->identifier.string.data);
    out->length = (size_t)n; out->data = (UA_Byte *)dupn((UA_Byte *)b, (size_t)n);
    return 0;
}
UA_Order UA_NodeId_order(const UA_NodeId *a, const UA_NodeId *b) {
    if(a->namespaceIndex != b->namespaceIndex) return a->namespaceIndex < b->namespaceIndex ? UA_ORDER_LESS : UA_ORDER_MORE;
    if(a->identifierType != b->identifierType) return a->identifierType < b->identifierType ? UA_ORDER_LESS : UA_ORDER_MORE;
    int r;
    switch(a->identifierType) {
    case UA_NODEIDTYPE_NUMERIC:
        if(a->identifier.numeric == b->identifier.numeric) return UA_ORDER_EQ;
        return a->identifier.numeric < b->identifier.numeric ? UA_ORDER_LESS : UA_ORDER_MORE;
    case UA_NODEIDTYPE_GUID: r = memcmp(&a->identifier.guid, &b->identifier.guid, sizeof(UA_Guid)); break;
    default:
        if(a->identifier.string.length != b->identifier.string.length)
            return a->identifier.string.length < b->identifier.string.length ? UA_ORDER_LESS : UA_ORDER_MORE;
        r = a->identifier.string.length ? memcmp(a->identifier.string.data, b->identifier.string.data, a->identifier.string.length) : 0;
    }
    return r == 0 ? UA_ORDER_EQ : r < 0 ? UA_ORDER_LESS : UA_ORDER_MORE;
}
UA_Boolean UA_NodeId_equal(const UA_NodeId *a, const UA_NodeId *b) { return UA_NodeId_order(a, b) == UA_ORDER_EQ; }
void UA_NodeId_clear(UA_NodeId *p) {
    if(p->identifierType == UA_NODEIDTYPE_STRING || p->identifierType == UA_NODEIDTYPE_BYTESTRING) free(p->identifier.string.data);
    memset(p, 0, sizeof *p);
}
UA_StatusCode UA_NodeId_copy(const UA_NodeId *src, UA_NodeId *dst) {
    *dst = *src;
    if(src->identifierType == UA_NODEIDTYPE_STRING || src->identifierType == UA_NODEIDTYPE_BYTESTRING)
        dst->identifier.string.data = (UA_Byte *)dupn(src->identifier.string.data, src->identifier.string.length);
    return 0;
}
void UA_String_clear(UA_String *s) { free(s->data); s->data = NULL; s->length = 0; }
UA_UInt32 *UA_UInt32_new(void) { return (UA_UInt32 *)calloc(1, sizeof(UA_UInt32)); }
UA_DateTime UA_DateTime_fromStruct(UA_DateTimeStruct t) {
    int64_t y = t.year, m = t.month, d = t.day;   /* days from civil */
    y -= m <= 2; int64_t era = (y >= 0 ? y : y - 399) / 400; int64_t yoe = y - era * 400;
    int64_t doy = (153 * (m + (m > 2 ? -3 : 9)) + 2) / 5 + d - 1; int64_t doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
    int64_t days = era * 146097 + doe - 719468;
    int64_t sec = days * 86400 + t.hour * 3600 + t.min * 60 + t.sec;
    return (sec + 11644473600LL) * 10000000LL + t.milliSec * 10000LL + t.microSec * 10LL + t.nanoSec / 100;
}
const UA_DataType *UA_findDataType(const UA_NodeId *id) {
    for(size_t i = 0; i < UA_TYPES_COUNT; i++)
        if(UA_TYPES[i].typeName && UA_NodeId_equal(&UA_TYPES[i].typeId, id)) return &UA_TYPES[i];
    return NULL;
}
void UA_Variant_setScalar(UA_Variant *v, void *p, const UA_DataType *t) { memset(v, 0, sizeof *v); v->type = t; v->data = p; }
void UA_Variant_setArray(UA_Variant *v, void *a, size_t n, const UA_DataType *t) {
    memset(v, 0, sizeof *v); v->type = t; v->data = a; v->arrayLength = n; if(n == 0 && !a) v->data = (void *)0x1; }
static void clearTyped(void *p, const UA_DataType *t) {
    if(!t) return;
    switch((UA_DataTypeKind)t->typeKind) {
    case UA_DATATYPEKIND_STRING: case UA_DATATYPEKIND_BYTESTRING: case UA_DATATYPEKIND_XMLELEMENT: UA_String_clear((UA_String *)p); break;
    case UA_DATATYPEKIND_NODEID: UA_NodeId_clear((UA_NodeId *)p); break;
    case UA_DATATYPEKIND_QUALIFIEDNAME: UA_String_clear(&((UA_QualifiedName *)p)->name); break;
    case UA_DATATYPEKIND_LOCALIZEDTEXT: UA_String_clear(&((UA_LocalizedText *)p)->locale); UA_String_clear(&((UA_LocalizedText *)p)->text); break;
    case UA_DATATYPEKIND_STRUCTURE: {
        uintptr_t q = (uintptr_t)p;
        for(UA_UInt32 i = 0; i < t->membersSize; i++) {
            const UA_DataTypeMember *m = &t->members[i]; q += m->padding;
            if(m->isArray) {
                size_t n = *(size_t *)q; void *a = *(void **)(q + sizeof(size_t));
                for(size_t k = 0; a && k < n; k++) clearTyped((char *)a + k * m->memberType->memSize, m->memberType);
                free(a); q += sizeof(size_t) + sizeof(void *);
            } else { clearTyped((void *)q, m->memberType); q += m->memberType->memSize; }
        }
        break; }
    case UA_DATATYPEKIND_UNION: {
        UA_UInt32 sw; memcpy(&sw, p, sizeof sw);
        if(sw > 0 && sw <= t->membersSize) { const UA_DataTypeMember *m = &t->members[sw - 1]; char *q = (char *)p + m->padding;
            if(m->isArray) { size_t n = *(size_t *)q; void *a = *(void **)(q + sizeof(size_t));
                for(size_t k = 0; a && k < n; k++) clearTyped((char *)a + k * m->memberType->memSize, m->memberType);
                free(a); }
            else clearTyped(q, m->memberType); }
        break; }
    default: break;
    }
}
void UA_Variant_clear(UA_Variant *v) {
    if(v->data && v->data != (void *)0x1) {
        size_t n = v->arrayLength ? v->arrayLength : 1;
        for(size_t i = 0; v->type && i < n; i++) clearTyped((char *)v->data + i * v->type->memSize, v->type);
        free(v->data);
    }
    memset(v, 0, sizeof *v);
}
/* ---- recording server ---- */
static void srvLog(void *ctx, UA_LogLevel l, UA_LogCategory c, const char *msg, va_list a) {
    UA_Server *s = (UA_Server *)ctx; char b[2048]; vsnprintf(b, sizeof b, msg, a);
    if(s->logSize < 4096) { s->logLevel[s->logSize] = l; s->logs[s->logSize++] = dupn((UA_Byte *)b, strlen(b)); }
}
static UA_UInt32 idHash(const UA_NodeId *id) {
    UA_UInt32 h = id->namespaceIndex * 31u + (UA_UInt32)id->identifierType;
    if(id->identifierType == UA_NODEIDTYPE_NUMERIC) return h * 2654435761u + id->identifier.numeric;
    if(id->identifierType == UA_NODEIDTYPE_GUID) return h + id->identifier.guid.data1;
    for(size_t i = 0; i < id->identifier.string.length; i++) h = h * 131u + id->identifier.string.data[i];
    return h;
}
static UA_UInt32 refHash(const UA_NodeId *a, const UA_NodeId *t, const UA_NodeId *b, UA_Boolean f) {
    return (idHash(a) * 7u + idHash(t) * 13u + idHash(b) * 101u + f) % 65536u; }
void Srv_addGraph(UA_Server *s, UA_NodeId src, UA_NodeId type, UA_NodeId dst, UA_Boolean fwd) {
    if(!fwd) { UA_NodeId t = src; src = dst; dst = t; fwd = true; }
    UA_UInt32 h = refHash(&src, &type, &dst, fwd);
    for(UA_UInt32 i = s->hash[h]; i; i = s->graph[i - 1].next) { SrvRef *q = &s->graph[i - 1];
        if(q->fwd == fwd && UA_NodeId_equal(&q->src, &src) && UA_NodeId_equal(&q->dst, &dst) && UA_NodeId_equal(&q->type, &type)) return;
    }
    if(s->graphSize == s->graphCap) { s->graphCap = s->graphCap ? 2 * s->graphCap : 64; s->graph = (SrvRef *)realloc(s->graph, s->graphCap * sizeof(SrvRef)); }
    SrvRef *r = &s->graph[s->graphSize++]; r->fwd = fwd; r->next = s->hash[h]; s->hash[h] = (UA_UInt32)s->graphSize;
    UA_NodeId_copy(&src, &r->src); UA_NodeId_copy(&type, &r->type); UA_NodeId_copy(&dst, &r->dst);
}
static void sub(UA_Server *s, UA_UInt32 a, UA_UInt32 b) {
    Srv_addGraph(s, UA_NODEID_NUMERIC(0, a), UA_NODEID_NUMERIC(0, 45), UA_NODEID_NUMERIC(0, b), true); }
UA_Server *Srv_new(void) {
    UA_Server *s = (UA_Server *)calloc(1, sizeof *s);
    s->logger.log = srvLog; s->logger.context = s; s->config.logging = &s->logger;
    sub(s, 31, 33); sub(s, 31, 32); sub(s, 33, 34); sub(s, 33, 35); sub(s, 33, 36); sub(s, 34, 44); sub(s, 34, 45);
    sub(s, 44, 46); sub(s, 44, 47); sub(s, 36, 48); sub(s, 32, 37); sub(s, 32, 38); sub(s, 32, 39); sub(s, 32, 40);
    sub(s, 32, 41); sub(s, 24, 22); sub(s, 24, 29); sub(s, 22, 12755); sub(s, 24, 12); sub(s, 24, 26); sub(s, 26, 27); sub(s, 27, 6);
    s->ns[s->nsSize++] = dupn((const UA_Byte *)"http://opcfoundation.org/UA/", 28);
    s->ns[s->nsSize++] = dupn((const UA_Byte *)"urn:app", 7);
    return s;
}
static void clrRefs(SrvRef *r, size_t n) {
    for(size_t i = 0; i < n; i++) { UA_NodeId_clear(&r[i].src); UA_NodeId_clear(&r[i].type); UA_NodeId_clear(&r[i].dst); }
    free(r); }
void Srv_delete(UA_Server *s) {
    for(size_t i = 0; i < s->callsSize; i++) { SrvCall *c = &s->calls[i];
        UA_NodeId_clear(&c->id); UA_NodeId_clear(&c->parent); UA_NodeId_clear(&c->refType); UA_NodeId_clear(&c->typeDef); UA_NodeId_clear(&c->dataType);
        free(c->bnName); free(c->dnLocale); free(c->dnText); free(c->deLocale); free(c->deText); free(c->inLocale); free(c->inText); }
    const UA_DataTypeArray *ta = s->config.customDataTypes;
    /* the arrays of the loader are released with its own function */
    NodesetLoader_cleanupCustomDataTypes(ta);
    free(s->calls); clrRefs(s->refs, s->refsSize); clrRefs(s->graph, s->graphSize);
    for(size_t i = 0; i < s->nsSize; i++) free(s->ns[i]);
    for(size_t i = 0; i < s->logSize; i++) free(s->logs[i]);
    free(s);
}
UA_ServerConfig *UA_Server_getConfig(UA_Server *s) { return &s->config; }
UA_UInt16 UA_Server_addNamespace(UA_Server *s, const char *name) {
    if(!name) name = "";
    if(s->nsSize >= 512) return 511;
    for(size_t i = 0; i < s->nsSize; i++) if(!strcmp(s->ns[i], name)) return (UA_UInt16)i;
    s->ns[s->nsSize] = dupn((const UA_Byte *)name, strlen(name)); return (UA_UInt16)s->nsSize++;
}
UA_BrowseResult UA_Server_browse(UA_Server *s, UA_UInt32 max, const UA_BrowseDescription *bd) {
    UA_BrowseResult br; memset(&br, 0, sizeof br);
    if(s->browseFail) { br.statusCode = UA_STATUSCODE_BADINTERNALERROR; return br; }
    UA_Boolean wantFwd = bd->browseDirection == UA_BROWSEDIRECTION_FORWARD;
    for(size_t i = 0; i < s->graphSize && (max == 0 || br.referencesSize < max); i++) {
        SrvRef *r = &s->graph[i];
        if(!UA_NodeId_equal(&bd->referenceTypeId, &UA_NODEID_NULL) && !UA_NodeId_equal(&bd->referenceTypeId, &r->type)) continue;
        const UA_NodeId *from = r->fwd == wantFwd ? &r->src : &r->dst, *to = r->fwd == wantFwd ? &r->dst : &r->src;
        if(!UA_NodeId_equal(from, &bd->nodeId)) continue;
        if(bd->nodeClassMask == UA_NODECLASS_DATATYPE) { UA_NodeId st = UA_NODEID_NUMERIC(0, 45); if(!UA_NodeId_equal(&r->type, &st)) continue; }
        br.references = (UA_ReferenceDescription *)realloc(br.references, (br.referencesSize + 1) * sizeof(UA_ReferenceDescription));
        UA_ReferenceDescription *d = &br.references[br.referencesSize++]; memset(d, 0, sizeof *d);
        UA_NodeId_copy(to, &d->nodeId.nodeId); UA_NodeId_copy(&r->type, &d->referenceTypeId); d->isForward = wantFwd;
    }
    return br;
}
void UA_BrowseResult_clear(UA_BrowseResult *p) {
    for(size_t i = 0; i < p->referencesSize; i++) { UA_NodeId_clear(&p->references[i].nodeId.nodeId); UA_NodeId_clear(&p->references[i].referenceTypeId); }
    free(p->references); memset(p, 0, sizeof *p);
}
static SrvCall *rec(UA_Server *s, UA_NodeClass cls, UA_NodeId id, UA_NodeId parent, UA_NodeId rt, UA_QualifiedName bn,
                    const UA_LocalizedText *dn, const UA_LocalizedText *de, void *ctx) {
    if(s->callsSize == s->callsCap) { s->callsCap = s->callsCap ? 2 * s->callsCap : 64; s->calls = (SrvCall *)realloc(s->calls, s->callsCap * sizeof(SrvCall)); }
    SrvCall *c = &s->calls[s->callsSize++]; memset(c, 0, sizeof *c);
    c->cls = cls; UA_NodeId_copy(&id, &c->id); UA_NodeId_copy(&parent, &c->parent); UA_NodeId_copy(&rt, &c->refType);
    c->bnNs = bn.namespaceIndex; c->bnName = dups(&bn.name);
    c->dnLocale = dups(&dn->locale); c->dnText = dups(&dn->text); c->deLocale = dups(&de->locale); c->deText = dups(&de->text);
    c->ctx = ctx; return c;
}
static UA_StatusCode fin(UA_Server *s, SrvCall *c) {
    c->status = s->policy ? s->policy(s, c) : UA_STATUSCODE_GOOD;
    if(c->status == 0) Srv_addGraph(s, c->parent, c->refType, c->id, true);
    return c->status;
}
UA_StatusCode UA_Server_addNode_begin(UA_Server *s, const UA_NodeClass cls, const UA_NodeId id, const UA_NodeId parent,
    const UA_NodeId rt, const UA_QualifiedName bn, const UA_NodeId td, const void *attr, const UA_DataType *at, void *ctx, UA_NodeId *o) {
    SrvCall *c;
    if(at == &UA_TYPES[UA_TYPES_OBJECTATTRIBUTES]) {
        const UA_ObjectAttributes *a = (const UA_ObjectAttributes *)attr;
        c = rec(s, cls, id, parent, rt, bn, &a->displayName, &a->description, ctx); c->eventNotifier = a->eventNotifier;
    } else if(at == &UA_TYPES[UA_TYPES_VARIABLEATTRIBUTES]) {
        const UA_VariableAttributes *a = (const UA_VariableAttributes *)attr;
        c = rec(s, cls, id, parent, rt, bn, &a->displayName, &a->description, ctx);
        UA_NodeId_copy(&a->dataType, &c->dataType); c->valueRank = a->valueRank; c->dimsSize = a->arrayDimensionsSize;
        for(size_t i = 0; i < a->arrayDimensionsSize && i < 64; i++) c->dims[i] = a->arrayDimensions[i];
        c->accessLevel = a->accessLevel; c->userAccessLevel = a->userAccessLevel; c->historizing = a->historizing;
        c->minimumSamplingInterval = a->minimumSamplingInterval;
        c->hasValue = a->value.data != NULL; c->valType = a->value.type; c->valLen = a->value.arrayLength;
        c->valScalar = a->value.arrayLength == 0 && a->value.data != (void *)0x1;
        if(a->value.data && a->value.type && a->value.data != (void *)0x1) {
            c->valBytes = (c->valScalar ? 1 : c->valLen) * a->value.type->memSize;
            memcpy(c->val, a->value.data, c->valBytes < sizeof c->val ? c->valBytes : sizeof c->val);
        }
        if(s->onValue) s->onValue(s, c, &a->value);
    } else {
        const UA_VariableTypeAttributes *a = (const UA_VariableTypeAttributes *)attr;
        c = rec(s, cls, id, parent, rt, bn, &a->displayName, &a->description, ctx);
        UA_NodeId_copy(&a->dataType, &c->dataType); c->valueRank = a->valueRank; c->isAbstract = a->isAbstract;
        c->dimsSize = a->arrayDimensionsSize;
        for(size_t i = 0; i < a->arrayDimensionsSize && i < 64; i++) c->dims[i] = a->arrayDimensions[i];
    }
    UA_NodeId_copy(&td, &c->typeDef);
    return fin(s, c);
}
UA_StatusCode UA_Server_addNode_finish(UA_Server *s, const UA_NodeId id) { return 0; }
#define BASE(cl) SrvCall *c = rec(s, cl, id, parent, rt, bn, &a.displayName, &a.description, ctx)
UA_StatusCode UA_Server_addViewNode(UA_Server *s, const UA_NodeId id, const UA_NodeId parent, const UA_NodeId rt, const UA_QualifiedName bn, const UA_ViewAttributes a, void *ctx, UA_NodeId *o) {
    BASE(UA_NODECLASS_VIEW); c->containsNoLoops = a.containsNoLoops; c->eventNotifier = a.eventNotifier; return fin(s, c); }
UA_StatusCode UA_Server_addObjectTypeNode(UA_Server *s, const UA_NodeId id, const UA_NodeId parent, const UA_NodeId rt, const UA_QualifiedName bn, const UA_ObjectTypeAttributes a, void *ctx, UA_NodeId *o) {
    BASE(UA_NODECLASS_OBJECTTYPE); c->isAbstract = a.isAbstract; return fin(s, c); }
UA_StatusCode UA_Server_addReferenceTypeNode(UA_Server *s, const UA_NodeId id, const UA_NodeId parent, const UA_NodeId rt, const UA_QualifiedName bn, const UA_ReferenceTypeAttributes a, void *ctx, UA_NodeId *o) {
    BASE(UA_NODECLASS_REFERENCETYPE); c->symmetric = a.symmetric; c->isAbstract = a.isAbstract; c->inLocale = dups(&a.inverseName.locale); c->inText = dups(&a.inverseName.text); return fin(s, c); }
UA_StatusCode UA_Server_addDataTypeNode(UA_Server *s, const UA_NodeId id, const UA_NodeId parent, const UA_NodeId rt, const UA_QualifiedName bn, const UA_DataTypeAttributes a, void *ctx, UA_NodeId *o) {
    BASE(UA_NODECLASS_DATATYPE); c->isAbstract = a.isAbstract; return fin(s, c); }
UA_StatusCode UA_Server_addMethodNode(UA_Server *s, const UA_NodeId id, const UA_NodeId parent, const UA_NodeId rt, const UA_QualifiedName bn, const UA_MethodAttributes a, UA_MethodCallback m, size_t ni, const UA_Argument *ia, size_t no, const UA_Argument *oa, void *ctx, UA_NodeId *o) {
    BASE(UA_NODECLASS_METHOD); c->executable = a.executable; c->userExecutable = a.userExecutable; return fin(s, c); }
UA_StatusCode UA_Server_addReference(UA_Server *s, const UA_NodeId src, const UA_NodeId rt, const UA_ExpandedNodeId dst, UA_Boolean fwd) {
    if(s->refsSize == s->refsCap) { s->refsCap = s->refsCap ? 2 * s->refsCap : 64; s->refs = (SrvRef *)realloc(s->refs, s->refsCap * sizeof(SrvRef)); } SrvRef *r = &s->refs[s->refsSize++];
    r->fwd = fwd; UA_NodeId_copy(&src, &r->src); UA_NodeId_copy(&rt, &r->type); UA_NodeId_copy(&dst.nodeId, &r->dst);
    Srv_addGraph(s, src, rt, dst.nodeId, fwd);
    return 0; }
