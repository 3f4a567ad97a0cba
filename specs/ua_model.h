/* Contracts of the open62541 primitives the loader calls (trusted: the library
 * is not installed here).  The loader never looks inside a string identifier,
 * so the identity of string and byte string identifiers is abstracted to their
 * length: two of them are equal exactly if their lengths are. */
#include <open62541/types.h>
#ifdef __cplusplus
#error C only
#endif
const UA_NodeId UA_NODEID_NULL;
static bool vf_ideq(const UA_NodeId *a, const UA_NodeId *b) {
    if(a->namespaceIndex != b->namespaceIndex || a->identifierType != b->identifierType) return false;
    if(a->identifierType == UA_NODEIDTYPE_NUMERIC) return a->identifier.numeric == b->identifier.numeric;
    if(a->identifierType == UA_NODEIDTYPE_GUID) return a->identifier.guid.data1 == b->identifier.guid.data1 && a->identifier.guid.data2 == b->identifier.guid.data2;
    return a->identifier.string.length == b->identifier.string.length;
}
#ifndef NO_UA_EQUAL
UA_Boolean UA_NodeId_equal(const UA_NodeId *a, const UA_NodeId *b) { return vf_ideq(a, b); }
#endif
#ifndef NO_UA_CLEAR
#ifdef UA_OWNED     /* string identifiers own an allocation */
void UA_NodeId_clear(UA_NodeId *p) { if(p->identifierType == UA_NODEIDTYPE_STRING || p->identifierType == UA_NODEIDTYPE_BYTESTRING) free(p->identifier.string.data); memset(p, 0, sizeof *p); }
UA_StatusCode UA_NodeId_copy(const UA_NodeId *src, UA_NodeId *dst) {
    *dst = *src;
    if(src->identifierType == UA_NODEIDTYPE_STRING || src->identifierType == UA_NODEIDTYPE_BYTESTRING) { dst->identifier.string.data = (UA_Byte *)malloc(1); __CPROVER_assume(dst->identifier.string.data != NULL); }
    return 0; }
#else
size_t G_clears;
void UA_NodeId_clear(UA_NodeId *p) { G_clears++; memset(p, 0, sizeof *p); }
size_t G_copies;
UA_StatusCode UA_NodeId_copy(const UA_NodeId *src, UA_NodeId *dst) { G_copies++; *dst = *src;
    if(src->identifierType == UA_NODEIDTYPE_STRING || src->identifierType == UA_NODEIDTYPE_BYTESTRING) dst->identifier.string.data = (UA_Byte *)(void *)&G_copies; /* new storage */
    return 0; }
#endif
#endif
UA_NodeId nondet_id(void);
