/* Replay driver: runs the real loader on files and prints what a user can
 * observe, one record per line.  Allocations made by the loader's own objects
 * are counted (--wrap) so that leaks are seen without LeakSanitizer. */
#include "ua_native.h"
#include <NodesetLoader/NodesetLoader.h>
#include <NodesetLoader/backendOpen62541.h>
#include <NodesetLoader/dataTypes.h>
#include <stdio.h>
#include <stdarg.h>
#include <unistd.h>
#include <fcntl.h>
#include "CharAllocator.h"
#include "InternalLogger.h"
#include "RefServiceImpl.h"
#include "ServerContext.h"
#define base64 dump_base64
#define unbase64 dump_unbase64
#include "nodeset_base64.h"

void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t); void __real_free(void *);
static long live, peakFail = -1, cnt;
void *__wrap_malloc(size_t n) { void *p = __real_malloc(n); if(p) live++; return p; }
void *__wrap_calloc(size_t a, size_t b) { void *p = __real_calloc(a, b); if(p) live++; return p; }
void *__wrap_realloc(void *q, size_t n) { void *p = __real_realloc(q, n); if(p && !q) live++; if(!p && q && n == 0) live--; return p; }
void __wrap_free(void *p) { if(p) live--; __real_free(p); }

static FILE *O;
static void js(const char *s) {
    if(!s) { fputs("null", O); return; }
    fputc('"', O);
    for(; *s; s++) { unsigned char c = (unsigned char)*s;
        if(c == '"' || c == '\\') fprintf(O, "\\%c", c); else if(c < 32 || c > 126) fprintf(O, "\\u%04x", c); else fputc(c, O); }
    fputc('"', O);
}
static void jsn(const UA_Byte *p, size_t n) {
    fputc('"', O);
    for(size_t i = 0; i < n; i++) { unsigned char c = p[i];
        if(c == '"' || c == '\\') fprintf(O, "\\%c", c); else if(c < 32 || c > 126) fprintf(O, "\\u%04x", c); else fputc(c, O); }
    fputc('"', O);
}
static void jid(const UA_NodeId *id) {
    fputc('"', O);
    if(id->namespaceIndex) fprintf(O, "ns=%u;", id->namespaceIndex);
    if(id->identifierType == UA_NODEIDTYPE_NUMERIC) fprintf(O, "i=%u", id->identifier.numeric);
    else if(id->identifierType == UA_NODEIDTYPE_GUID) { const UA_Guid *g = &id->identifier.guid;
        fprintf(O, "g=%08x-%04x-%04x-%02x%02x-", g->data1, g->data2, g->data3, g->data4[0], g->data4[1]);
        for(int i = 2; i < 8; i++) fprintf(O, "%02x", g->data4[i]); }
    else { fprintf(O, "%c=", id->identifierType == UA_NODEIDTYPE_STRING ? 's' : 'b');
        for(size_t i = 0; i < id->identifier.string.length; i++) { unsigned char c = id->identifier.string.data[i];
            if(c == '"' || c == '\\' || c < 32 || c > 126) fprintf(O, "\\u%04x", c); else fputc(c, O); } }
    fputc('"', O);
}
static void jref(const NL_Reference *r) {
    fputc('[', O);
    for(int first = 1; r; r = r->next, first = 0) {
        if(!first) fputc(',', O);
        fputc('[', O); jid(&r->refType); fputc(',', O); jid(&r->target); fprintf(O, ",%s]", r->isForward ? "true" : "false"); }
    fputc(']', O);
}
static void jdata(const NL_Data *d, const NL_Data *parent) {
    if(!d) { fputs("null", O); return; }
    fputs("[", O); js(d->name);
    if(d->parent != parent) fputs(",\"BADPARENT\"", O);
    if(d->type == DATATYPE_PRIMITIVE) { fputs(",\"P\",", O); js(d->val.primitiveData.value); }
    else { fputs(",\"C\",[", O);
        for(size_t i = 0; i < d->val.complexData.membersSize; i++) { if(i) fputc(',', O); jdata(d->val.complexData.members[i], d); }
        fputc(']', O); }
    fputc(']', O);
}
#define A(k) fprintf(O, ",\"" k "\":")
#define S(k, v) do { A(k); js(v); } while(0)
static int maxDepth(const NL_Data *d) { return d ? 1 : 0; }
static void jnode(void *ctx, NL_Node *n) {
    (void)maxDepth;
    if(ctx != (void *)&cnt) fprintf(O, "{\"r\":\"badctx\"}\n");
    fprintf(O, "{\"r\":\"node\",\"class\":%d,\"id\":", (int)n->nodeClass); jid(&n->id);
    fprintf(O, ",\"bns\":%u", n->browseName.nsIdx); S("bn", n->browseName.name);
    S("dnl", n->displayName.locale); S("dn", n->displayName.text); S("del", n->description.locale); S("de", n->description.text);
    A("hier"); jref(n->hierachicalRefs); A("non"); jref(n->nonHierachicalRefs); A("unk"); jref(n->unknownRefs);
    if(n->extension) { A("ext"); js((const char *)n->extension); }
    switch(n->nodeClass) {
    case NODECLASS_OBJECT: { NL_ObjectNode *o = (NL_ObjectNode *)n; A("parent"); jid(&o->parentNodeId); S("en", o->eventNotifier); A("td"); jref(o->refToTypeDef); break; }
    case NODECLASS_OBJECTTYPE: S("abs", ((NL_ObjectTypeNode *)n)->isAbstract); break;
    case NODECLASS_VARIABLE: { NL_VariableNode *v = (NL_VariableNode *)n; A("parent"); jid(&v->parentNodeId); A("dt"); jid(&v->datatype);
        S("dims", v->arrayDimensions); S("rank", v->valueRank); S("al", v->accessLevel); S("ual", v->userAccessLevel); S("hist", v->historizing); S("msi", v->minimumSamplingInterval);
        A("td"); jref(v->refToTypeDef);
        A("val"); if(!v->value) fputs("null", O); else { fprintf(O, "{\"arr\":%s,\"eo\":%s,\"type\":", v->value->isArray ? "true" : "false", v->value->isExtensionObject ? "true" : "false");
            js(v->value->type); A("data"); jdata(v->value->data, NULL); fputc('}', O); }
        break; }
    case NODECLASS_DATATYPE: { NL_DataTypeNode *d = (NL_DataTypeNode *)n; S("abs", d->isAbstract); A("def");
        if(!d->definition) fputs("null", O); else { fprintf(O, "{\"enum\":%d,\"union\":%d,\"os\":%d,\"fields\":[", d->definition->isEnum, d->definition->isUnion, d->definition->isOptionSet);
            for(size_t i = 0; i < d->definition->fieldCnt; i++) { NL_DataTypeDefinitionField *f = &d->definition->fields[i];
                if(i) fputc(',', O); fputc('[', O); js(f->name); fputc(',', O); jid(&f->dataType); fprintf(O, ",%d,%d,%d]", f->valueRank, f->value, f->isOptional); }
            fputs("]}", O); }
        break; }
    case NODECLASS_METHOD: { NL_MethodNode *m = (NL_MethodNode *)n; A("parent"); jid(&m->parentNodeId); S("ex", m->executable); S("uex", m->userExecutable); break; }
    case NODECLASS_REFERENCETYPE: { NL_ReferenceTypeNode *t = (NL_ReferenceTypeNode *)n; S("sym", t->symmetric); S("inl", t->inverseName.locale); S("in", t->inverseName.text); break; }
    case NODECLASS_VARIABLETYPE: { NL_VariableTypeNode *t = (NL_VariableTypeNode *)n; S("abs", t->isAbstract); A("dt"); jid(&t->datatype); S("dims", t->arrayDimensions); S("rank", t->valueRank); break; }
    case NODECLASS_VIEW: { NL_ViewNode *v = (NL_ViewNode *)n; A("parent"); jid(&v->parentNodeId); S("cnl", v->containsNoLoops); S("en", v->eventNotifier); break; }
    }
    fputs("}\n", O); cnt++;
}
/* ---- namespaces ---- */
static char *uris[2048]; static size_t urisSize; static int curFile;
static unsigned short addNs(void *ctx, const char *uri) {
    fprintf(O, "{\"r\":\"ns\",\"file\":%d,\"ctx\":%d", *(int *)ctx, *(int *)ctx == curFile); S("uri", uri); fputs("}\n", O);
    const char *u = uri ? uri : "";
    size_t i; for(i = 0; i < urisSize; i++) if(!strcmp(uris[i], u)) break;
    if(i == urisSize) { uris[urisSize] = (char *)__real_malloc(strlen(u) + 1); strcpy(uris[urisSize++], u); }
    return (unsigned short)(7 + 13 * i);
}
static unsigned short addNs2(void *ctx, const char *uri) { return (unsigned short)(addNs(ctx, uri) + 1); }
static void logJ(void *ctx, enum NodesetLoader_LogLevel l, const char *m, ...) {
    char b[4096]; va_list v; va_start(v, m); vsnprintf(b, sizeof b, m, v); va_end(v);
    fprintf(O, "{\"r\":\"log\",\"level\":%d", (int)l); S("msg", b); fputs("}\n", O);
}
/* ---- recording extension interface ---- */
static char *extBuf; 
static void ex(const char *a, const char *b) { strcat(extBuf, a); if(b) strcat(extBuf, b); strcat(extBuf, ";"); }
static void *extNew(void) { extBuf = (char *)__real_calloc(1, 1 << 16); ex("new", NULL); return extBuf; }
static void extStart(void *d, const char *n, int na, const char **at) { if(d == extBuf) ex("<", n); }
static void extEnd(void *d, const char *n, const char *t) { if(d == extBuf) { ex(">", n); ex("=", t); } }
static void extFin(void *d) { if(d == extBuf) ex("fin", NULL); }
static void srvGraph(UA_Server *s, const char *spec) {  /* "a>b,a>b" HasSubtype edges */
    char *c = strdup(spec);
    for(char *t = strtok(c, ","); t; t = strtok(NULL, ",")) { char *g = strchr(t, '>'); *g = 0;
        UA_NodeId a = UA_NODEID(t), b = UA_NODEID(g + 1); Srv_addGraph(s, a, UA_NODEID_NUMERIC(0, 45), b, true); UA_NodeId_clear(&a); UA_NodeId_clear(&b); }
    __real_free(c);
}
static int modeLoader(int argc, char **argv) {
    int sort = 1, own = 1, files = 0, cbs = 0; char *f[64]; const char *graph = NULL; int useSrv = 0; int two = 0, ext = 0;
    for(int i = 0; i < argc; i++) {
        if(!strcmp(argv[i], "--nosort")) sort = 0; else if(!strcmp(argv[i], "--builtin")) own = 0; else if(!strcmp(argv[i], "--twocb")) cbs = 1;
        else if(!strcmp(argv[i], "--srv")) { useSrv = 1; graph = argv[++i]; } else if(!strcmp(argv[i], "--two")) two = 1; else if(!strcmp(argv[i], "--ext")) ext = 1; else f[files++] = argv[i];
    }
    UA_Server *srv = NULL; NL_ReferenceService *rs = NULL;
    if(useSrv) { srv = Srv_new(); if(graph && *graph && *graph != '@') srvGraph(srv, graph);
        if(graph && *graph == '@') { FILE *gf = fopen(graph + 1, "r"); char line[512]; while(fgets(line, sizeof line, gf)) { line[strcspn(line, "\n")] = 0; if(*line) srvGraph(srv, line); } fclose(gf); } }
    for(int pass = 0; pass <= two; pass++) {
    long l0 = live;
    if(useSrv) rs = RefServiceImpl_new(srv);
    NodesetLoader_Logger lg = {NULL, logJ};
    NodesetLoader *L = NodesetLoader_new(own ? &lg : NULL, rs);
    int ids[64];
    NodesetLoader_ExtensionInterface ei = {extNew, extStart, extEnd, extFin};
    for(int i = 0; i < files; i++) {
        NL_FileContext fc; memset(&fc, 0, sizeof fc); ids[i] = i; curFile = i;
        fc.file = f[i]; fc.userContext = &ids[i]; fc.addNamespace = cbs && i % 2 ? addNs2 : addNs; if(ext) fc.extensionHandling = &ei;
        if(!strcmp(f[i], "NULLCTX")) { fprintf(O, "{\"r\":\"import\",\"ok\":%d}\n", NodesetLoader_importFile(L, NULL)); continue; }
        if(!strcmp(f[i], "NULLCB")) fc.addNamespace = NULL;
        int ok = NodesetLoader_importFile(L, &fc);
        fprintf(O, "{\"r\":\"import\",\"ok\":%d}\n", ok);
    }
    if(sort) {
        fprintf(O, "{\"r\":\"sort\",\"ok\":%d}\n", NodesetLoader_sort(L));
        for(int c = 0; c < NL_NODECLASS_COUNT; c++) { cnt = 0; size_t r = NodesetLoader_forEachNode(L, (NL_NodeClass)c, &cnt, jnode);
            fprintf(O, "{\"r\":\"count\",\"class\":%d,\"n\":%zu,\"calls\":%ld}\n", c, r, cnt); }
    }
    for(const NL_BiDirectionalReference *b = NodesetLoader_getBidirectionalRefs(L); b; b = b->next) {
        fputs("{\"r\":\"bidir\",\"src\":", O); jid(&b->source); A("dst"); jid(&b->target); A("type"); jid(&b->refType); fputs("}\n", O); }
    NodesetLoader_delete(L);
    if(rs) RefServiceImpl_delete(rs);
    fprintf(O, "{\"r\":\"leak\",\"n\":%ld}\n", live - l0);
    }
    if(srv) Srv_delete(srv);
    return 0;
}
/* ---- typed values ---- */
static void jtyped(const UA_Byte *p, const UA_DataType *t, int depth) {
    if(!t || depth > 20) { fputs("\"?\"", O); return; }
    switch((UA_DataTypeKind)t->typeKind) {
    case UA_DATATYPEKIND_BOOLEAN: fprintf(O, "%s", *(const UA_Boolean *)p ? "true" : "false"); break;
    case UA_DATATYPEKIND_SBYTE: fprintf(O, "%d", *(const UA_SByte *)p); break;
    case UA_DATATYPEKIND_BYTE: fprintf(O, "%d", *(const UA_Byte *)p); break;
#define RD(T) T v; memcpy(&v, p, sizeof v)
    case UA_DATATYPEKIND_INT16: { RD(UA_Int16); fprintf(O, "%d", v); break; }
    case UA_DATATYPEKIND_UINT16: { RD(UA_UInt16); fprintf(O, "%u", v); break; }
    case UA_DATATYPEKIND_INT32: case UA_DATATYPEKIND_ENUM: { RD(UA_Int32); fprintf(O, "%d", v); break; }
    case UA_DATATYPEKIND_UINT32: case UA_DATATYPEKIND_STATUSCODE: { RD(UA_UInt32); fprintf(O, "%u", v); break; }
    case UA_DATATYPEKIND_INT64: case UA_DATATYPEKIND_DATETIME: { RD(UA_Int64); fprintf(O, "%lld", (long long)v); break; }
    case UA_DATATYPEKIND_UINT64: { RD(UA_UInt64); fprintf(O, "%llu", (unsigned long long)v); break; }
    case UA_DATATYPEKIND_FLOAT: { RD(UA_Float); fprintf(O, "%.9g", (double)v); break; }
    case UA_DATATYPEKIND_DOUBLE: { RD(UA_Double); fprintf(O, "%.17g", v); break; }
    case UA_DATATYPEKIND_STRING: case UA_DATATYPEKIND_BYTESTRING: { RD(UA_String); if(!v.data) fprintf(O, v.length ? "\"BADLEN\"" : "null"); else jsn(v.data, v.length); break; }
    case UA_DATATYPEKIND_GUID: { UA_NodeId n; memset(&n, 0, sizeof n); n.identifierType = UA_NODEIDTYPE_GUID; memcpy(&n.identifier.guid, p, sizeof(UA_Guid)); jid(&n); break; }
    case UA_DATATYPEKIND_NODEID: { RD(UA_NodeId); jid(&v); break; }
    case UA_DATATYPEKIND_QUALIFIEDNAME: { RD(UA_QualifiedName); fprintf(O, "[%u,", v.namespaceIndex); if(v.name.data) jsn(v.name.data, v.name.length); else fputs("null", O); fputc(']', O); break; }
    case UA_DATATYPEKIND_LOCALIZEDTEXT: { RD(UA_LocalizedText); fputc('[', O); if(v.locale.data) jsn(v.locale.data, v.locale.length); else fputs("null", O); fputc(',', O); if(v.text.data) jsn(v.text.data, v.text.length); else fputs("null", O); fputc(']', O); break; }
    case UA_DATATYPEKIND_STRUCTURE: {
        fputc('{', O); size_t off = 0;
        for(size_t i = 0; i < t->membersSize; i++) { const UA_DataTypeMember *m = &t->members[i];
            if(i) fputc(',', O); js(m->memberName); fputc(':', O); off += m->padding;
            if(m->isArray) { size_t n; UA_Byte *a; memcpy(&n, p + off, sizeof n); memcpy(&a, p + off + sizeof n, sizeof a);
                fputc('[', O); for(size_t k = 0; a && k < n && k < 100000; k++) { if(k) fputc(',', O); jtyped(a + k * m->memberType->memSize, m->memberType, depth + 1); } fputc(']', O);
                if(!a && n) fputs(",\"BAD\":1", O);
                off += sizeof n + sizeof a; }
            else { jtyped(p + off, m->memberType, depth + 1); off += m->memberType->memSize; } }
        fputc('}', O); break; }
    case UA_DATATYPEKIND_UNION: { UA_UInt32 sw; memcpy(&sw, p, 4); fprintf(O, "{\"#\":%u", sw);
        if(sw > 0 && sw <= t->membersSize) { const UA_DataTypeMember *m = &t->members[sw - 1]; fputc(',', O); js(m->memberName); fputc(':', O);
            if(m->isArray) { size_t n; UA_Byte *a; memcpy(&n, p + m->padding, sizeof n); memcpy(&a, p + m->padding + sizeof n, sizeof a);
                fputc('[', O); for(size_t k = 0; a && k < n; k++) { if(k) fputc(',', O); jtyped(a + k * m->memberType->memSize, m->memberType, depth + 1); } fputc(']', O); }
            else jtyped(p + m->padding, m->memberType, depth + 1); }
        fputc('}', O); break; }
    default: { int z = 1; for(size_t i = 0; i < t->memSize; i++) if(p[i]) z = 0; fprintf(O, "\"kind%d%s\"", (int)t->typeKind, z ? "zero" : "nonzero"); }
    }
}
typedef struct { UA_NodeId id; int times; } Refuse;
static Refuse rf[4096]; static size_t rfn; static int needParent;
static UA_StatusCode policy(UA_Server *s, const SrvCall *c) {
    for(size_t i = 0; i < rfn; i++) if(UA_NodeId_equal(&rf[i].id, &c->id) && rf[i].times != 0) { if(rf[i].times > 0) rf[i].times--; return 0x80340000; }
    return 0;
}
static void jcall(UA_Server *s, const SrvCall *c) {
    fprintf(O, "{\"r\":\"call\",\"class\":%d,\"id\":", (int)c->cls); jid(&c->id); A("parent"); jid(&c->parent); A("rt"); jid(&c->refType); A("td"); jid(&c->typeDef);
    fprintf(O, ",\"bns\":%u", c->bnNs); S("bn", c->bnName); S("dnl", c->dnLocale); S("dn", c->dnText); S("del", c->deLocale); S("de", c->deText); S("inl", c->inLocale); S("in", c->inText);
    A("dt"); jid(&c->dataType); fprintf(O, ",\"rank\":%d,\"dims\":[", c->valueRank); for(size_t i = 0; i < c->dimsSize && i < 64; i++) fprintf(O, "%s%u", i ? "," : "", c->dims[i]);
    fprintf(O, "],\"al\":%u,\"ual\":%u,\"en\":%u,\"hist\":%d,\"abs\":%d,\"sym\":%d,\"ex\":%d,\"uex\":%d,\"cnl\":%d,\"msi\":%.17g,\"st\":%u", c->accessLevel, c->userAccessLevel, c->eventNotifier,
        c->historizing, c->isAbstract, c->symmetric, c->executable, c->userExecutable, c->containsNoLoops, c->minimumSamplingInterval, c->status);
    if(c->ctx) { A("ext"); js((const char *)c->ctx); }
    A("hasval"); fprintf(O, "%d", c->hasValue); fputs("}\n", O);
}
static void onValue(UA_Server *s, const SrvCall *c, const UA_Variant *v) {
    if(!v->type && !v->data) return;
    fputs("{\"r\":\"value\",\"id\":", O); jid(&c->id); A("tn"); js(v->type ? v->type->typeName : NULL); A("tid"); if(v->type) jid(&v->type->typeId); else fputs("null", O);
    fprintf(O, ",\"len\":%zu", v->arrayLength); A("v");
    if(!v->data || !v->type) fputs("null", O);
    else if(v->arrayLength == 0 && v->data != (void *)0x1) jtyped((const UA_Byte *)v->data, v->type, 0);
    else { fputc('[', O); for(size_t i = 0; i < v->arrayLength; i++) { if(i) fputc(',', O); jtyped((const UA_Byte *)v->data + i * v->type->memSize, v->type, 0); } fputc(']', O); }
    fputs("}\n", O);
}
static int modeServer(int argc, char **argv) {
    long l0 = live; UA_Server *s = Srv_new(); s->policy = policy; s->onValue = onValue; int ext = 0;
    NodesetLoader_ExtensionInterface ei = {extNew, extStart, extEnd, extFin};
    for(int i = 0; i < argc; i++) {
        if(!strcmp(argv[i], "--refuse")) { char *t = argv[++i]; char *at = strrchr(t, '@'); *at = 0; rf[rfn].id = UA_NODEID(t); rf[rfn++].times = atoi(at + 1); continue; }
        if(!strcmp(argv[i], "--graph")) { srvGraph(s, argv[++i]); continue; }
        if(!strcmp(argv[i], "--ext")) { ext = 1; continue; }
        if(!strcmp(argv[i], "--ns")) { int n = atoi(argv[++i]); for(int k = 0; k < n; k++) { char b[32]; sprintf(b, "urn:pre%d", k); UA_Server_addNamespace(s, b); } continue; }
        size_t c0 = s->callsSize, r0 = s->refsSize, g0 = s->logSize;
        int ok = NodesetLoader_loadFile(s, argv[i], ext ? &ei : NULL);
        fprintf(O, "{\"r\":\"load\",\"ok\":%d}\n", ok);
        for(size_t k = c0; k < s->callsSize; k++) jcall(s, &s->calls[k]);
        for(size_t k = r0; k < s->refsSize; k++) { fputs("{\"r\":\"ref\",\"src\":", O); jid(&s->refs[k].src); A("type"); jid(&s->refs[k].type); A("dst"); jid(&s->refs[k].dst); fprintf(O, ",\"fwd\":%s}\n", s->refs[k].fwd ? "true" : "false"); }
        for(size_t k = g0; k < s->logSize; k++) { fprintf(O, "{\"r\":\"slog\",\"level\":%d", (int)s->logLevel[k]); S("msg", s->logs[k]); fputs("}\n", O); }
    }
    for(const UA_DataTypeArray *a = s->config.customDataTypes; a; a = a->next)
        for(size_t i = 0; i < a->typesSize; i++) { const UA_DataType *t = &a->types[i];
            fputs("{\"r\":\"type\",\"id\":", O); jid(&t->typeId); S("name", t->typeName); A("enc"); jid(&t->binaryEncodingId);
            fprintf(O, ",\"size\":%u,\"kind\":%u,\"pf\":%u,\"members\":[", t->memSize, t->typeKind, t->pointerFree);
            for(size_t k = 0; k < t->membersSize; k++) { const UA_DataTypeMember *m = &t->members[k]; if(k) fputc(',', O);
                fputc('[', O); js(m->memberName); fprintf(O, ",%u,%d,%d,", m->padding, m->isArray, m->isOptional); if(m->memberType) jid(&m->memberType->typeId); else fputs("null", O); fputc(']', O); }
            fputs("]", O);
            const UA_DataType *f = NodesetLoader_getCustomDataType(s, &t->typeId); A("found"); fprintf(O, "%d}\n", f == t); }
    for(size_t i = 0; i < s->nsSize; i++) { fputs("{\"r\":\"sns\"", O); S("uri", s->ns[i]); fputs("}\n", O); }
    Srv_delete(s);
    for(size_t i = 0; i < rfn; i++) UA_NodeId_clear(&rf[i].id);
    fprintf(O, "{\"r\":\"leak\",\"n\":%ld}\n", live - l0);
    return 0;
}
/* ---- arena ---- */
static int modeArena(int argc, char **argv) {
    unsigned seed = (unsigned)atoi(argv[0]); srand(seed);
    typedef struct { char *p; size_t n; unsigned char fill; } B;
    for(int round = 0; round < 40; round++) {
        size_t init = (size_t)(rand() % 3 == 0 ? rand() % 5 : rand() % 200); B b[400]; int n = 0;
        CharArenaAllocator *a = CharArenaAllocator_new(init);
        for(int k = 0; k < 300; k++) {
            size_t sz = (size_t)(rand() % 4 ? rand() % 40 : rand() % 500);
            if(n && rand() % 3 == 0) {
                B old = b[n - 1]; char *p = CharArenaAllocator_realloc(a, sz);
                for(size_t i = 0; i < old.n; i++) if((unsigned char)p[i] != old.fill) { fprintf(O, "{\"r\":\"fail\",\"what\":\"grown block lost its content (seed %u round %d)\"}\n", seed, round); return 0; }
                for(size_t i = 0; i < sz; i++) if(p[old.n + i]) { fprintf(O, "{\"r\":\"fail\",\"what\":\"grown bytes not zero (seed %u round %d)\"}\n", seed, round); return 0; }
                b[n - 1].p = p; b[n - 1].n += sz; memset(p, b[n - 1].fill, b[n - 1].n);
            } else {
                char *p = CharArenaAllocator_malloc(a, sz);
                for(size_t i = 0; i < sz; i++) if(p[i]) { fprintf(O, "{\"r\":\"fail\",\"what\":\"block not zero (seed %u round %d)\"}\n", seed, round); return 0; }
                b[n].p = p; b[n].n = sz; b[n].fill = (unsigned char)(1 + rand() % 250); memset(p, b[n].fill, sz); n++;
            }
            for(int x = 0; x < n; x++) for(size_t i = 0; i < b[x].n; i++) if((unsigned char)b[x].p[i] != b[x].fill) { fprintf(O, "{\"r\":\"fail\",\"what\":\"block %d changed (seed %u round %d)\"}\n", x, seed, round); return 0; }
        }
        CharArenaAllocator_delete(a);
    }
    fprintf(O, "{\"r\":\"leak\",\"n\":%ld}\n", live);
    return 0;
}
static int modeB64(int argc, char **argv) {
    char line[70000];
    while(fgets(line, sizeof line, stdin)) { line[strcspn(line, "\n")] = 0; size_t L = strlen(line);
        for(size_t i = 0; i < L; i++) if(line[i] == '~') line[i] = '\n'; else if(line[i] == '^') line[i] = '\t';
        char *copy = (char *)__real_malloc(L + 1); memcpy(copy, line, L + 1); int n = -7;
        unsigned char *r = unbase64(copy, (int)L, &n);
        fprintf(O, "{\"r\":\"b64\",\"n\":%d,\"null\":%d,\"d\":", n, r == NULL); if(r && n >= 0) jsn(r, (size_t)n); else fputs("\"\"", O); fputs("}\n", O);
        __wrap_free(r); __real_free(copy); }
    fprintf(O, "{\"r\":\"leak\",\"n\":%ld}\n", live);
    return 0;
}
static int modeCtx(int argc, char **argv) {
    unsigned seed = (unsigned)atoi(argv[0]); srand(seed); static UA_UInt16 m[70000]; size_t n = 0;
    UA_Server *srv = (UA_Server *)0x1234;
    ServerContext *c = ServerContext_new(srv);
    if(ServerContext_getServerObject(c) != srv || ServerContext_getServerObject(NULL)) fprintf(O, "{\"r\":\"fail\",\"what\":\"server object\"}\n");
    for(int k = 0; k < 400; k++) {
        UA_UInt16 v = (UA_UInt16)rand(); ServerContext_addNamespaceIdx(c, v); ServerContext_addNamespaceIdx(NULL, v); m[n++] = v;
        for(unsigned i = 0; i < 700; i++) { UA_UInt16 e = i == 0 ? 0 : i <= n ? m[i - 1] : 65535; UA_UInt16 g = ServerContext_translateToServerIdx(c, (UA_UInt16)i);
            if(e != g || ServerContext_translateToServerIdx(NULL, (UA_UInt16)i) != 65535) { fprintf(O, "{\"r\":\"fail\",\"what\":\"after %zu registrations index %u maps to %u instead of %u (seed %u)\"}\n", n, i, g, e, seed); return 0; } }
    }
    ServerContext_delete(c);
    fprintf(O, "{\"r\":\"leak\",\"n\":%ld}\n", live);
    return 0;
}
static int modeLog(int argc, char **argv) {  /* stdout is the log */
    for(int i = 0; i < 5; i++) { NodesetLoader_Logger *a = InternalLogger_new(), *b = InternalLogger_new();
        a->log(a->context, NODESETLOADER_LOGLEVEL_DEBUG, "m%d %s", i, "x"); b->log(b->context, NODESETLOADER_LOGLEVEL_WARNING, "plain");
        InternalLogger_delete(b);
        a->log(a->context, NODESETLOADER_LOGLEVEL_ERROR, "%zu%%|%.*s|%c", (size_t)77, 3, "abcdef", 'q'); { char big[5001]; memset(big, 'x', 5000); big[5000] = 0; a->log(a->context, NODESETLOADER_LOGLEVEL_WARNING, "%s|", big); } InternalLogger_delete(a); }
    fflush(stdout);
    fprintf(O, "{\"r\":\"leak\",\"n\":%ld}\n", live);
    return 0;
}
int main(int argc, char **argv) {
    O = fopen(argv[1], "w"); if(!O) return 3;
    int rc = 3;
    if(!strcmp(argv[2], "loader")) rc = modeLoader(argc - 3, argv + 3);
    else if(!strcmp(argv[2], "server")) rc = modeServer(argc - 3, argv + 3);
    else if(!strcmp(argv[2], "arena")) rc = modeArena(argc - 3, argv + 3);
    else if(!strcmp(argv[2], "b64")) rc = modeB64(argc - 3, argv + 3);
    else if(!strcmp(argv[2], "ctx")) rc = modeCtx(argc - 3, argv + 3);
    else if(!strcmp(argv[2], "log")) rc = modeLog(argc - 3, argv + 3);
    fprintf(O, "{\"r\":\"end\"}\n"); fclose(O); _exit(rc);
}
