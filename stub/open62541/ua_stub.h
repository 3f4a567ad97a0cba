/* Stand-in for the open62541 1.4 public headers, which are not installed in
 * this sandbox.  Only what the nodeset loader uses is declared; names, types,
 * field order and enum values follow open62541 1.4.  Function bodies are in
 * native/ua_native.c (executable replays) and specs/ua_model.h (verifier
 * contracts / models). */
#ifndef UA_STUB_H
#define UA_STUB_H
#include <assert.h>
#include <stdarg.h>
#include <stdbool.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

typedef bool UA_Boolean;
#define UA_TRUE true
#define UA_FALSE false
typedef int8_t UA_SByte;
typedef uint8_t UA_Byte;
typedef int16_t UA_Int16;
typedef uint16_t UA_UInt16;
typedef int32_t UA_Int32;
typedef uint32_t UA_UInt32;
typedef int64_t UA_Int64;
typedef uint64_t UA_UInt64;
typedef float UA_Float;
typedef double UA_Double;
typedef uint32_t UA_StatusCode;
typedef int64_t UA_DateTime;
#define UA_UINT16_MAX 65535
#define UA_STATUSCODE_GOOD 0x00000000
#define UA_STATUSCODE_BADINTERNALERROR 0x80020000
#define UA_STATUSCODE_BADOUTOFMEMORY 0x80030000
#define UA_STATUSCODE_BADDECODINGERROR 0x80070000
#define UA_STATUSCODE_BADPARENTNODEIDINVALID 0x805B0000
static inline UA_Boolean UA_StatusCode_isBad(UA_StatusCode code) { return ((code >> 30) >= 0x02); }

typedef enum { UA_ORDER_LESS = -1, UA_ORDER_EQ = 0, UA_ORDER_MORE = 1 } UA_Order;

typedef struct { size_t length; UA_Byte *data; } UA_String;
typedef UA_String UA_ByteString;
typedef UA_String UA_XmlElement;
typedef struct { UA_UInt32 data1; UA_UInt16 data2; UA_UInt16 data3; UA_Byte data4[8]; } UA_Guid;
typedef struct {
    UA_UInt16 nanoSec; UA_UInt16 microSec; UA_UInt16 milliSec;
    UA_UInt16 sec; UA_UInt16 min; UA_UInt16 hour;
    UA_UInt16 day; UA_UInt16 month; UA_Int16 year;
} UA_DateTimeStruct;

enum UA_NodeIdType {
    UA_NODEIDTYPE_NUMERIC = 0, UA_NODEIDTYPE_STRING = 3,
    UA_NODEIDTYPE_GUID = 4, UA_NODEIDTYPE_BYTESTRING = 5
};
typedef struct {
    UA_UInt16 namespaceIndex;
    enum UA_NodeIdType identifierType;
    union {
        UA_UInt32 numeric; UA_String string; UA_Guid guid; UA_ByteString byteString;
    } identifier;
} UA_NodeId;
typedef struct { UA_NodeId nodeId; UA_String namespaceUri; UA_UInt32 serverIndex; } UA_ExpandedNodeId;
typedef struct { UA_UInt16 namespaceIndex; UA_String name; } UA_QualifiedName;
typedef struct { UA_String locale; UA_String text; } UA_LocalizedText;
typedef struct { UA_UInt32 min; UA_UInt32 max; } UA_NumericRangeDimension;

struct UA_DataType;
typedef struct UA_DataType UA_DataType;
typedef enum { UA_VARIANT_DATA, UA_VARIANT_DATA_NODELETE } UA_VariantStorageType;
typedef struct {
    const UA_DataType *type;
    UA_VariantStorageType storageType;
    size_t arrayLength;
    void *data;
    size_t arrayDimensionsSize;
    UA_UInt32 *arrayDimensions;
} UA_Variant;
typedef struct {
    int encoding;
    union {
        struct { UA_NodeId typeId; UA_ByteString body; } encoded;
        struct { const UA_DataType *type; void *data; } decoded;
    } content;
} UA_ExtensionObject;
typedef struct UA_DiagnosticInfo {
    UA_Boolean hasSymbolicId : 1; UA_Boolean hasNamespaceUri : 1;
    UA_Boolean hasLocalizedText : 1; UA_Boolean hasLocale : 1;
    UA_Boolean hasAdditionalInfo : 1; UA_Boolean hasInnerStatusCode : 1;
    UA_Boolean hasInnerDiagnosticInfo : 1;
    UA_Int32 symbolicId; UA_Int32 namespaceUri; UA_Int32 localizedText; UA_Int32 locale;
    UA_String additionalInfo; UA_StatusCode innerStatusCode;
    struct UA_DiagnosticInfo *innerDiagnosticInfo;
} UA_DiagnosticInfo;

typedef struct {
    UA_Boolean hasValue : 1; UA_Boolean hasStatus : 1; UA_Boolean hasSourceTimestamp : 1; UA_Boolean hasServerTimestamp : 1;
    UA_Boolean hasSourcePicoseconds : 1; UA_Boolean hasServerPicoseconds : 1;
    UA_Variant value; UA_DateTime sourceTimestamp; UA_DateTime serverTimestamp;
    UA_UInt16 sourcePicoseconds; UA_UInt16 serverPicoseconds; UA_StatusCode status;
} UA_DataValue;

typedef struct {
    const char *memberName;
    const UA_DataType *memberType;
    UA_Byte padding : 6;
    UA_Byte isArray : 1;
    UA_Byte isOptional : 1;
} UA_DataTypeMember;
typedef enum {
    UA_DATATYPEKIND_BOOLEAN = 0, UA_DATATYPEKIND_SBYTE = 1, UA_DATATYPEKIND_BYTE = 2,
    UA_DATATYPEKIND_INT16 = 3, UA_DATATYPEKIND_UINT16 = 4, UA_DATATYPEKIND_INT32 = 5,
    UA_DATATYPEKIND_UINT32 = 6, UA_DATATYPEKIND_INT64 = 7, UA_DATATYPEKIND_UINT64 = 8,
    UA_DATATYPEKIND_FLOAT = 9, UA_DATATYPEKIND_DOUBLE = 10, UA_DATATYPEKIND_STRING = 11,
    UA_DATATYPEKIND_DATETIME = 12, UA_DATATYPEKIND_GUID = 13, UA_DATATYPEKIND_BYTESTRING = 14,
    UA_DATATYPEKIND_XMLELEMENT = 15, UA_DATATYPEKIND_NODEID = 16,
    UA_DATATYPEKIND_EXPANDEDNODEID = 17, UA_DATATYPEKIND_STATUSCODE = 18,
    UA_DATATYPEKIND_QUALIFIEDNAME = 19, UA_DATATYPEKIND_LOCALIZEDTEXT = 20,
    UA_DATATYPEKIND_EXTENSIONOBJECT = 21, UA_DATATYPEKIND_DATAVALUE = 22,
    UA_DATATYPEKIND_VARIANT = 23, UA_DATATYPEKIND_DIAGNOSTICINFO = 24,
    UA_DATATYPEKIND_DECIMAL = 25, UA_DATATYPEKIND_ENUM = 26, UA_DATATYPEKIND_STRUCTURE = 27,
    UA_DATATYPEKIND_OPTSTRUCT = 28, UA_DATATYPEKIND_UNION = 29, UA_DATATYPEKIND_BITFIELDCLUSTER = 30
} UA_DataTypeKind;
struct UA_DataType {
    const char *typeName;
    UA_NodeId typeId;
    UA_NodeId binaryEncodingId;
    UA_UInt32 memSize : 16;
    UA_UInt32 typeKind : 6;
    UA_UInt32 pointerFree : 1;
    UA_UInt32 overlayable : 1;
    UA_UInt32 membersSize : 8;
    UA_DataTypeMember *members;
};
typedef struct UA_DataTypeArray {
    const struct UA_DataTypeArray *next;
    const size_t typesSize;
    const UA_DataType *types;
    UA_Boolean cleanup;
} UA_DataTypeArray;
#define UA_BINARY_OVERLAYABLE_INTEGER 1

extern const UA_NodeId UA_NODEID_NULL;
extern const UA_ExpandedNodeId UA_EXPANDEDNODEID_NULL;

static inline UA_String UA_STRING(char *chars) {
    UA_String s; s.length = 0; s.data = NULL;
    if(!chars) return s;
    s.length = strlen(chars); s.data = (UA_Byte *)chars;
    return s;
}
static inline UA_NodeId UA_NODEID_NUMERIC(UA_UInt16 nsIndex, UA_UInt32 identifier) {
    UA_NodeId id; memset(&id, 0, sizeof(UA_NodeId));
    id.namespaceIndex = nsIndex;
    id.identifierType = UA_NODEIDTYPE_NUMERIC;
    id.identifier.numeric = identifier;
    return id;
}
static inline UA_LocalizedText UA_LOCALIZEDTEXT(char *locale, char *text) {
    UA_LocalizedText lt; lt.locale = UA_STRING(locale); lt.text = UA_STRING(text); return lt;
}
static inline UA_QualifiedName UA_QUALIFIEDNAME(UA_UInt16 nsIndex, char *chars) {
    UA_QualifiedName qn; qn.namespaceIndex = nsIndex; qn.name = UA_STRING(chars); return qn;
}
UA_NodeId UA_NODEID(const char *chars);
UA_Guid UA_GUID(const char *chars);
UA_StatusCode UA_NodeId_parse(UA_NodeId *id, const UA_String str);
UA_StatusCode UA_NodeId_print(const UA_NodeId *id, UA_String *output);
UA_Boolean UA_NodeId_equal(const UA_NodeId *n1, const UA_NodeId *n2);
UA_Order UA_NodeId_order(const UA_NodeId *n1, const UA_NodeId *n2);
static inline void UA_NodeId_init(UA_NodeId *p) { memset(p, 0, sizeof(UA_NodeId)); }
void UA_NodeId_clear(UA_NodeId *p);
UA_StatusCode UA_NodeId_copy(const UA_NodeId *src, UA_NodeId *dst);
void UA_String_clear(UA_String *s);
UA_DateTime UA_DateTime_fromStruct(UA_DateTimeStruct ts);
UA_UInt32 *UA_UInt32_new(void);
const UA_DataType *UA_findDataType(const UA_NodeId *typeId);
void UA_Variant_setScalar(UA_Variant *v, void *p, const UA_DataType *type);
void UA_Variant_setArray(UA_Variant *v, void *array, size_t arraySize, const UA_DataType *type);
void UA_Variant_clear(UA_Variant *v);
#define UA_calloc calloc
#define UA_malloc malloc
#define UA_realloc realloc
#define UA_free free

#define UA_TYPES_COUNT 40
extern UA_DataType UA_TYPES[UA_TYPES_COUNT];
#define UA_TYPES_BOOLEAN 0
#define UA_TYPES_SBYTE 1
#define UA_TYPES_BYTE 2
#define UA_TYPES_INT16 3
#define UA_TYPES_UINT16 4
#define UA_TYPES_INT32 5
#define UA_TYPES_UINT32 6
#define UA_TYPES_INT64 7
#define UA_TYPES_UINT64 8
#define UA_TYPES_FLOAT 9
#define UA_TYPES_DOUBLE 10
#define UA_TYPES_STRING 11
#define UA_TYPES_DATETIME 12
#define UA_TYPES_GUID 13
#define UA_TYPES_BYTESTRING 14
#define UA_TYPES_XMLELEMENT 15
#define UA_TYPES_NODEID 16
#define UA_TYPES_EXPANDEDNODEID 17
#define UA_TYPES_STATUSCODE 18
#define UA_TYPES_QUALIFIEDNAME 19
#define UA_TYPES_LOCALIZEDTEXT 20
#define UA_TYPES_EXTENSIONOBJECT 21
#define UA_TYPES_DATAVALUE 22
#define UA_TYPES_VARIANT 23
#define UA_TYPES_DIAGNOSTICINFO 24
#define UA_TYPES_OBJECTATTRIBUTES 30
#define UA_TYPES_VARIABLEATTRIBUTES 31
#define UA_TYPES_VARIABLETYPEATTRIBUTES 32

#define UA_NS0ID_STRUCTURE 22
#define UA_NS0ID_ENUMERATION 29
#define UA_NS0ID_NONHIERARCHICALREFERENCES 32
#define UA_NS0ID_HIERARCHICALREFERENCES 33
#define UA_NS0ID_HASTYPEDEFINITION 40
#define UA_NS0ID_HASSUBTYPE 45
#define UA_NS0ID_OPTIONSET 12755

/* ---- server ---- */
typedef enum { UA_LOGLEVEL_TRACE = 100, UA_LOGLEVEL_DEBUG = 200, UA_LOGLEVEL_INFO = 300,
               UA_LOGLEVEL_WARNING = 400, UA_LOGLEVEL_ERROR = 500, UA_LOGLEVEL_FATAL = 600 } UA_LogLevel;
typedef enum { UA_LOGCATEGORY_NETWORK = 0, UA_LOGCATEGORY_SERVER = 4, UA_LOGCATEGORY_USERLAND = 6 } UA_LogCategory;
typedef struct UA_Logger {
    void (*log)(void *logContext, UA_LogLevel level, UA_LogCategory category, const char *msg, va_list args);
    void *context;
    void (*clear)(struct UA_Logger *logger);
} UA_Logger;
typedef struct UA_Server UA_Server;
typedef struct {
    UA_Logger *logging;
    const UA_DataTypeArray *customDataTypes;
} UA_ServerConfig;
UA_ServerConfig *UA_Server_getConfig(UA_Server *server);
UA_UInt16 UA_Server_addNamespace(UA_Server *server, const char *name);

typedef enum { UA_NODECLASS_UNSPECIFIED = 0, UA_NODECLASS_OBJECT = 1, UA_NODECLASS_VARIABLE = 2,
    UA_NODECLASS_METHOD = 4, UA_NODECLASS_OBJECTTYPE = 8, UA_NODECLASS_VARIABLETYPE = 16,
    UA_NODECLASS_REFERENCETYPE = 32, UA_NODECLASS_DATATYPE = 64, UA_NODECLASS_VIEW = 128 } UA_NodeClass;
typedef enum { UA_BROWSEDIRECTION_FORWARD = 0, UA_BROWSEDIRECTION_INVERSE = 1, UA_BROWSEDIRECTION_BOTH = 2 } UA_BrowseDirection;
#define UA_BROWSERESULTMASK_BROWSENAME 8
typedef struct {
    UA_NodeId nodeId; UA_BrowseDirection browseDirection; UA_NodeId referenceTypeId;
    UA_Boolean includeSubtypes; UA_UInt32 nodeClassMask; UA_UInt32 resultMask;
} UA_BrowseDescription;
typedef struct {
    UA_NodeId referenceTypeId; UA_Boolean isForward; UA_ExpandedNodeId nodeId;
    UA_QualifiedName browseName; UA_LocalizedText displayName; UA_NodeClass nodeClass;
    UA_ExpandedNodeId typeDefinition;
} UA_ReferenceDescription;
typedef struct {
    UA_StatusCode statusCode; UA_ByteString continuationPoint;
    size_t referencesSize; UA_ReferenceDescription *references;
} UA_BrowseResult;
static inline void UA_BrowseDescription_init(UA_BrowseDescription *p) { memset(p, 0, sizeof(*p)); }
UA_BrowseResult UA_Server_browse(UA_Server *server, UA_UInt32 maxReferences, const UA_BrowseDescription *bd);
void UA_BrowseResult_clear(UA_BrowseResult *p);

typedef struct {
    UA_UInt32 specifiedAttributes; UA_LocalizedText displayName; UA_LocalizedText description;
    UA_UInt32 writeMask; UA_UInt32 userWriteMask; UA_Byte eventNotifier;
} UA_ObjectAttributes;
typedef struct {
    UA_UInt32 specifiedAttributes; UA_LocalizedText displayName; UA_LocalizedText description;
    UA_UInt32 writeMask; UA_UInt32 userWriteMask; UA_Variant value; UA_NodeId dataType;
    UA_Int32 valueRank; size_t arrayDimensionsSize; UA_UInt32 *arrayDimensions;
    UA_Byte accessLevel; UA_Byte userAccessLevel; UA_Double minimumSamplingInterval; UA_Boolean historizing;
} UA_VariableAttributes;
typedef struct {
    UA_UInt32 specifiedAttributes; UA_LocalizedText displayName; UA_LocalizedText description;
    UA_UInt32 writeMask; UA_UInt32 userWriteMask; UA_Boolean executable; UA_Boolean userExecutable;
} UA_MethodAttributes;
typedef struct {
    UA_UInt32 specifiedAttributes; UA_LocalizedText displayName; UA_LocalizedText description;
    UA_UInt32 writeMask; UA_UInt32 userWriteMask; UA_Boolean isAbstract;
} UA_ObjectTypeAttributes;
typedef struct {
    UA_UInt32 specifiedAttributes; UA_LocalizedText displayName; UA_LocalizedText description;
    UA_UInt32 writeMask; UA_UInt32 userWriteMask; UA_Variant value; UA_NodeId dataType;
    UA_Int32 valueRank; size_t arrayDimensionsSize; UA_UInt32 *arrayDimensions; UA_Boolean isAbstract;
} UA_VariableTypeAttributes;
typedef struct {
    UA_UInt32 specifiedAttributes; UA_LocalizedText displayName; UA_LocalizedText description;
    UA_UInt32 writeMask; UA_UInt32 userWriteMask; UA_Boolean isAbstract; UA_Boolean symmetric;
    UA_LocalizedText inverseName;
} UA_ReferenceTypeAttributes;
typedef struct {
    UA_UInt32 specifiedAttributes; UA_LocalizedText displayName; UA_LocalizedText description;
    UA_UInt32 writeMask; UA_UInt32 userWriteMask; UA_Boolean isAbstract;
} UA_DataTypeAttributes;
typedef struct {
    UA_UInt32 specifiedAttributes; UA_LocalizedText displayName; UA_LocalizedText description;
    UA_UInt32 writeMask; UA_UInt32 userWriteMask; UA_Boolean containsNoLoops; UA_Byte eventNotifier;
} UA_ViewAttributes;
extern const UA_ObjectAttributes UA_ObjectAttributes_default;
extern const UA_VariableAttributes UA_VariableAttributes_default;
extern const UA_MethodAttributes UA_MethodAttributes_default;
extern const UA_ObjectTypeAttributes UA_ObjectTypeAttributes_default;
extern const UA_VariableTypeAttributes UA_VariableTypeAttributes_default;
extern const UA_ReferenceTypeAttributes UA_ReferenceTypeAttributes_default;
extern const UA_DataTypeAttributes UA_DataTypeAttributes_default;
extern const UA_ViewAttributes UA_ViewAttributes_default;

typedef struct { UA_UInt32 unused; } UA_Argument;
typedef UA_StatusCode (*UA_MethodCallback)(UA_Server *server);
UA_StatusCode UA_Server_addNode_begin(UA_Server *server, const UA_NodeClass nodeClass,
    const UA_NodeId requestedNewNodeId, const UA_NodeId parentNodeId, const UA_NodeId referenceTypeId,
    const UA_QualifiedName browseName, const UA_NodeId typeDefinition, const void *attr,
    const UA_DataType *attributeType, void *nodeContext, UA_NodeId *outNewNodeId);
UA_StatusCode UA_Server_addNode_finish(UA_Server *server, const UA_NodeId nodeId);
UA_StatusCode UA_Server_addViewNode(UA_Server *server, const UA_NodeId requestedNewNodeId,
    const UA_NodeId parentNodeId, const UA_NodeId referenceTypeId, const UA_QualifiedName browseName,
    const UA_ViewAttributes attr, void *nodeContext, UA_NodeId *outNewNodeId);
UA_StatusCode UA_Server_addObjectTypeNode(UA_Server *server, const UA_NodeId requestedNewNodeId,
    const UA_NodeId parentNodeId, const UA_NodeId referenceTypeId, const UA_QualifiedName browseName,
    const UA_ObjectTypeAttributes attr, void *nodeContext, UA_NodeId *outNewNodeId);
UA_StatusCode UA_Server_addReferenceTypeNode(UA_Server *server, const UA_NodeId requestedNewNodeId,
    const UA_NodeId parentNodeId, const UA_NodeId referenceTypeId, const UA_QualifiedName browseName,
    const UA_ReferenceTypeAttributes attr, void *nodeContext, UA_NodeId *outNewNodeId);
UA_StatusCode UA_Server_addDataTypeNode(UA_Server *server, const UA_NodeId requestedNewNodeId,
    const UA_NodeId parentNodeId, const UA_NodeId referenceTypeId, const UA_QualifiedName browseName,
    const UA_DataTypeAttributes attr, void *nodeContext, UA_NodeId *outNewNodeId);
UA_StatusCode UA_Server_addMethodNode(UA_Server *server, const UA_NodeId requestedNewNodeId,
    const UA_NodeId parentNodeId, const UA_NodeId referenceTypeId, const UA_QualifiedName browseName,
    const UA_MethodAttributes attr, UA_MethodCallback method, size_t inputArgumentsSize,
    const UA_Argument *inputArguments, size_t outputArgumentsSize, const UA_Argument *outputArguments,
    void *nodeContext, UA_NodeId *outNewNodeId);
UA_StatusCode UA_Server_addReference(UA_Server *server, const UA_NodeId sourceId, const UA_NodeId refTypeId,
    const UA_ExpandedNodeId targetId, UA_Boolean isForward);
#endif
