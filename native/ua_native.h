/* Executable stand-in for the part of open62541 the loader calls: node-id
 * primitives and a recording UA_Server.  Used only to replay candidates
 * against the real loader code. */
#ifndef UA_NATIVE_H
#define UA_NATIVE_H
#include <open62541/server.h>
typedef struct {
    UA_NodeClass cls;
    UA_NodeId id, parent, refType, typeDef;
    UA_UInt16 bnNs; char *bnName;
    char *dnLocale, *dnText, *deLocale, *deText, *inLocale, *inText;
    UA_NodeId dataType; UA_Int32 valueRank; size_t dimsSize; UA_UInt32 dims[64];
    UA_Byte accessLevel, userAccessLevel, eventNotifier;
    UA_Boolean historizing, isAbstract, symmetric, executable, userExecutable, containsNoLoops;
    UA_Double minimumSamplingInterval;
    void *ctx; UA_StatusCode status;
    const UA_DataType *valType; size_t valLen; size_t valBytes; UA_Byte val[512]; UA_Boolean hasValue, valScalar;
} SrvCall;
typedef struct { UA_NodeId src, type, dst; UA_Boolean fwd; UA_UInt32 next; } SrvRef;
struct UA_Server {
    UA_ServerConfig config; UA_Logger logger;
    size_t callsSize, callsCap, refsCap, graphCap; UA_UInt32 hash[65536]; SrvCall *calls;
    size_t refsSize; SrvRef *refs;       /* addReference calls */
    size_t graphSize; SrvRef *graph;     /* what browse sees */
    size_t nsSize; char *ns[512];
    size_t logSize; char *logs[4096]; UA_LogLevel logLevel[4096];
    UA_StatusCode (*policy)(struct UA_Server *s, const SrvCall *c);
    void *policyCtx;
    void (*onValue)(struct UA_Server *s, const SrvCall *c, const UA_Variant *v);
    UA_Boolean browseFail;
};
UA_Server *Srv_new(void);
void Srv_delete(UA_Server *s);
void Srv_addGraph(UA_Server *s, UA_NodeId src, UA_NodeId type, UA_NodeId dst, UA_Boolean fwd);
#endif
