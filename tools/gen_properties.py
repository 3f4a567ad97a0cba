import json
P=[]
def p(id,title,st,over,q,why,files,mech,observe=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m} for n,m in state]
    P.append({"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":q},"why_tests_cant":why,"anchors":a})
CA="src/CharAllocator.c"; NS="src/Nodeset.c"; NL="src/NodesetLoader.c"; BE="backends/open62541/src/"
p("P01","Text storage: allocations are disjoint, zeroed and stay valid until deletion",
 "Every block handed out by the text arena lies completely inside memory the arena owns, does not overlap any other block handed out before (unless it is that block, grown), and all its bytes are zero when it is handed out. Blocks keep their address and content until the arena is deleted, whatever is allocated later and however large the requests are compared with the initial size. When memory is exhausted the request returns no block and the arena stays usable.",
 ["inputs","histories"],"every initial size, every sequence of requests and sizes (sums below the address space), every allocation failure",
 "The four allocator tests run a handful of sizes and look at a few bytes; overlap or a bad bound needs a particular fill level of the current region.",
 [CA],[("region arithmetic and request handling",CA+": CharArenaAllocator_malloc, Region_new, getRegionSize"),("release",CA+": CharArenaAllocator_delete")],
 state=[("region fill level","bytes [0,size) are handed out, the rest is zero and free")])
p("P02","Text storage: growing the last block preserves its content",
 "Growing the most recently handed out block by n bytes returns a block that starts with all bytes the block had before, followed by n zero bytes which belong to nobody else. This holds when the block is grown in place and when it moves to a new region, any number of times in a row, and the block before it is never touched.",
 ["inputs","histories"],"every block size, growth size, fill level and number of repeated growths",
 "The existing test grows a few blocks once; the move to a new region with repeated growth and requests near the region size is not sampled.",
 [CA],[("growth and transfer to a new region",CA+": CharArenaAllocator_realloc")])
p("P03","Element text is the concatenation of all delivered pieces",
 "The text of an element (display name, description, alias, reference target, namespace uri, value) is exactly the concatenation of the character pieces delivered by the XML parser since its last tag, terminated by a zero byte. It does not depend on how the parser splits the text or on how long it is, and text of one element never leaks into another one.",
 ["inputs","schedules"],"every text, every split into pieces (including buffer boundaries) and every length",
 "Tests use short texts which arrive in one piece; the split depends on entity references and on the position of the text relative to the 1024 byte read buffer.",
 [NL,CA],[("character callback and text reset at tags",NL+": OnCharacters, OnStartElementNs, OnEndElementNs"),("text storage",CA)])
p("P04","Attribute lookup returns the exactly named attribute or the default",
 "When an element is read, each attribute the loader asks for yields exactly the characters between the start and end position the XML parser reports for the (first) attribute of exactly that name, whatever the number, order and other attributes are. If no attribute has that name the documented default of the attribute is used. The lookup never reads outside the attribute table and never modifies it.",
 ["inputs"],"every attribute table of any length, every name (prefixes and extensions of each other included), every value",
 "Tests use well formed nodes with the usual attribute order; names which are prefixes of each other, empty values and late positions are not sampled.",
 [NS],[("lookup",NS+": getAttributeValue")])
p("P05","Nodes carry the attributes of their class with the specified defaults",
 "A node read from a file has the class of its element and, for each attribute defined for this class, the value written in the file, or the default of the nodeset schema if it is missing (value rank -1, data type BaseDataType, access levels 1, abstract false, executable true, sampling interval -1, event notifier 0, historizing false, symmetric false, no loops false). Display name, description and inverse name carry the locale attribute and the text of their own element. No attribute of one class is stored into a node of another class.",
 ["inputs"],"every node class, every subset and order of attributes",
 "basicNodeClasses.xml covers one node per class and only some attributes; the product of classes, present and absent attributes is not sampled.",
 [NS,NL,"src/nodes/Node.c"],[("attribute extraction per class",NS+": extractAttributes, Nodeset_newNode"),("localized texts",NS+": Nodeset_setDisplayName, Nodeset_DisplayNameFinish, Nodeset_setDescription, Nodeset_setInverseName"),("element to class",NL+": OnStartElementNs")])
p("P06","Node ids and browse names are translated to the caller's namespace indices",
 "In every place of a file (node id, parent, data type, reference type and target, alias, definition field, browse name) a namespace index n > 0 is replaced by the index the caller returned for the n-th namespace uri of that file, while identifier type and identifier value stay as written. Index 0 and indices which the file does not declare stay unchanged. Texts which are no node id yield the null id, and a browse name without colon keeps its whole text and index 0.",
 ["inputs"],"every namespace table, every index 0..65535, every identifier kind, every string",
 "Tests use one or two namespaces whose server index is often equal to the file index, so a missing or a double translation stays invisible.",
 [NS,"src/NamespaceList.c"],[("translation",NS+": translateNodeId, translateBrowseName, extractNodedId, extractBrowseName"),("table lookup","src/NamespaceList.c: NamespaceList_getNamespace")])
p("P07","Namespace uris are registered once each, in file order, per file",
 "For each namespace uri of a file the caller's callback is invoked exactly once, in file order, with exactly that uri and the caller's own context. The index it returns becomes the meaning of the position of that uri in this file, for any number of uris. A further file imported with the same loader starts with a table of its own and uses its own callback.",
 ["inputs","histories"],"every number and content of uris, every return value of the callback, every sequence of files",
 "Tests declare one or two uris in one file per loader; table growth and the second file are not exercised.",
 ["src/NamespaceList.c",NS,NL],[("table","src/NamespaceList.c: NamespaceList_new, NamespaceList_newNamespace"),("per file reset",NS+": Nodeset_startFile"),("registration",NS+": Nodeset_newNamespaceFinish")])
p("P08","Aliases stand for exactly the node id they were declared with",
 "Wherever a file uses an alias name for a reference type, reference target or data type, the loader uses the (translated) node id this name was declared with; the first declaration wins and any number of aliases can be declared. Names which are not declared in this file are parsed as node ids. Ids obtained through an alias are independent copies: they stay valid and can be released separately.",
 ["inputs","histories"],"every number of aliases, every name and id (string ids included), every number of uses",
 "Tests declare a few numeric aliases; more than the initial capacity, string ids and the ownership of copies are not sampled.",
 ["src/AliasList.c",NS],[("table","src/AliasList.c: AliasList_newAlias, AliasList_getNodeId, AliasList_delete"),("use",NS+": alias2Id, Nodeset_newAlias, Nodeset_newAliasFinish")])
p("P09","Default reference classification follows the declared type hierarchy",
 "Without a caller supplied reference service, a reference counts as hierarchical exactly if its type is one of the nine predefined hierarchical types or was introduced by a loaded reference type whose inverse hierarchical references name a type already known as hierarchical; every other type of namespace 0 and every other loaded reference type counts as non-hierarchical. Types nobody declared are neither. Only HasTypeDefinition (i=40) counts as type definition, any number of types can be added, and loaders do not influence each other.",
 ["inputs","histories"],"every reference type id, every number and order of added types, any number of loaders in a process",
 "Tests add one or two types to one loader; table growth, interference between loaders and types with several references are not sampled.",
 ["src/InternalRefService.c"],[("classification","src/InternalRefService.c: isReferenceHierachical, isRefNonHierachical, isRefTypeDef"),("registration","src/InternalRefService.c: addnewRefTypeImpl, addHierachicalRef, InternalRefService_new")])
p("P10","Every reference of a node ends up in exactly one list, unchanged",
 "Each reference element of a node is kept exactly once, with its direction (forward unless the file says false), type and target: as type definition for objects and variables, else among the hierarchical, else among the non-hierarchical references. References whose type is only declared later are classified when the nodes are sorted; if some type stays unknown, sorting fails after a message, in any other case all of them are classified. Sorting always terminates and never drops or duplicates a reference.",
 ["inputs","histories"],"every list of references of every node class, every classification answer of the service, every order of declaration",
 "Tests contain a few references per node and mostly known types; chains of reference types declared out of order and mixed unknown types are not sampled.",
 [NS],[("first classification",NS+": Nodeset_newReference, Nodeset_newReferenceFinish"),("deferred classification",NS+": lookupUnknownReferences, lookupReferenceTypes, Nodeset_sort, Nodeset_newNodeFinish")])
p("P11","Sorting emits every node once, parents first, or reports a cycle",
 "For any set of nodes whose hierarchical references form no cycle, sorting succeeds and hands out every added node exactly once, each one after all nodes which point to it with a hierarchical reference in hierarchical direction; if there is a cycle it fails. A second node with an id which was already added is refused. An instance node without hierarchical references gets exactly one from its parent id: the inverse of the parent's reference to it if the parent was read before, else an inverse HasComponent.",
 ["inputs","histories"],"every finite graph of nodes and hierarchical references, every insertion order, every kind of node id",
 "tests/sort.c builds four small graphs; balancing of the search tree, id kinds, self references, references to absent nodes and insertion orders are not sampled.",
 ["src/Sort.c"],[("search tree","src/Sort.c: search_node"),("edges","src/Sort.c: Sort_addNode, record_relation"),("topological order","src/Sort.c: Sort_start, scan_zeros, recurse_tree")])
p("P12","Iterating delivers each accepted node exactly once, in order, with a true count",
 "After sorting, iterating over a node class calls back exactly once for each accepted node of that class, in the order in which they were emitted by sorting, with the caller's context, and returns their number. This holds for any number of nodes; nodes of other classes are never delivered, and a loader without a file delivers none.",
 ["inputs","histories"],"every number of nodes per class (across the growth steps of the containers), every class",
 "Tests iterate over a handful of nodes; the growth of the containers starts at 10 to 10000 nodes.",
 ["src/nodes/NodeContainer.c",NS,NL],[("container","src/nodes/NodeContainer.c: NodeContainer_new, NodeContainer_add"),("iteration",NS+": Nodeset_forEachNode, Nodeset_addNode"),("api",NL+": NodesetLoader_forEachNode")])
p("P13","Values are kept as a tree that mirrors the XML of the value",
 "The value of a variable is a tree with the names, nesting, order and text of the XML elements of its content: a list yields one member per list entry, an extension object yields the body element with its fields, its type id text and the extension object flag, a simple value yields one leaf. Leaves hold the text of their element, or none if it is empty or only white space. A sequence of elements which is no valid value never crashes, leaks or corrupts memory.",
 ["inputs","histories"],"every value subtree of any depth and width, every sequence of start and end events with matching tags",
 "ValueTest.cpp covers about ten hand written event sequences.",
 ["src/Value.c"],[("state machine","src/Value.c: Value_start, Value_end"),("tree","src/Value.c: addNewMember, setRootData, Data_clear"),("text","src/Value.c: isOnlyWhitespace")])
p("P14","Unknown XML elements are skipped without effect on their surroundings",
 "Elements the loader does not know are ignored with everything inside them, at any position and nesting depth, and even if elements inside have known names. The nodes, references, aliases, namespaces and texts read from a file are the same as if those elements were removed, except that a text in which such an element stands only consists of its part behind it. Afterwards reading continues exactly where the unknown element started.",
 ["inputs"],"every well formed document, every position, nesting depth and name of unknown elements",
 "Tests contain a few unknown elements at fixed places; depth, repetition and known names inside unknown elements are not sampled.",
 [NL],[("document state machine",NL+": OnStartElementNs, OnEndElementNs, enterUnknownState")])
p("P15","Data type definitions keep all fields in order with their meaning",
 "The definition of a data type node has exactly the fields of the file, in file order, each with its name, value rank, optional flag and (translated, alias resolved) data type; a field with a value makes the definition an enumeration and carries that value. Union and option set flags are taken from the definition element, and option sets keep no fields. This holds for any number of fields; definitions on nodes which are no data types have no effect.",
 ["inputs"],"every number and kind of fields, every subset of attributes, every node class",
 "Tests check a few structures with up to four fields.",
 [NS,"src/nodes/DataTypeNode.c"],[("definition",NS+": Nodeset_addDataTypeDefinition, Nodeset_addDataTypeField"),("storage","src/nodes/DataTypeNode.c: getNewField, DataTypeNode_addDefinitionField, DataTypeNode_clear")])
p("P16","Custom data types get the memory layout a C compiler would give them",
 "For each imported structure or union whose member types are known, the padding before each member and the total size are those of the corresponding C struct: members aligned to their own alignment, arrays as length and pointer, optional members as pointer, union members behind a 32 bit switch field, size rounded up to the alignment; types of more than 65535 bytes or 255 members are left without layout or inherited members. Members are the inherited ones followed by the declared ones, in order; a structure with an inherited or declared optional member is one with optional fields. The type counts as pointer free exactly if no member is an array, optional or itself not pointer free.",
 ["inputs"],"every member list over all built-in kinds and nested custom types, every order of declaration",
 "Tests compare a few structures against compiled ones; the combinations of alignment, nesting, arrays and unions are not sampled.",
 [BE+"DataTypeImporter.c",BE+"padding.h"],[("layout",BE+"DataTypeImporter.c: setPaddingMemsize, getAlignment, getMemberAlignment, getMembersAlignment"),("padding",BE+"padding.h: getPadding"),("order of computation",BE+"DataTypeImporter.c: calcMemSize, readyForMemsizeCalc, setDataTypeMembersTypeIndex")])
p("P17","Values are converted to the binary form of their data type without loss",
 "A value whose tree has the shape of its data type is converted so that each scalar, array element, structure member and union member holds the number, text, id or flag written in the file, at the place the data type defines, over the full range of its type. Members which the file omits stay zero and do not move the others; array members carry their number of elements. Values without the shape of their type never lead to memory accesses outside the converted value.",
 ["inputs"],"every data type over the supported kinds, every value tree, every number in the range of its type",
 "Tests convert one value per kind, mostly small numbers.",
 [BE+"Value.c",BE+"conversion.h"],[("scalars",BE+"Value.c: setScalar, setPrimitiveValue and the setX functions"),("structures, unions, arrays",BE+"Value.c: setStructure, setUnion, setArray, Value_getData"),("text conversions",BE+"conversion.h")])
p("P18","Base64 decoding is exact and rejects malformed text",
 "Decoding text with valid base64 (white space anywhere) yields exactly the encoded bytes and their number. Text with a character outside the alphabet or with an incomplete last group yields no data and length zero. Decoding never reads or writes outside its buffers and never returns uninitialized bytes.",
 ["inputs"],"every text of every length",
 "bytestring.xml contains one encoded file and two malformed texts.",
 [BE+"nodeset_base64.h",BE+"Value.c"],[("decoder",BE+"nodeset_base64.h: unbase64"),("use",BE+"Value.c: setByteString")])
p("P19","Array dimensions are parsed completely and agree with the value",
 "A comma separated list of array dimensions yields exactly its numbers, in order, and their count; the empty text yields none. A variable with value rank 1 and no dimensions gets the single dimension 0, a variable with an array value and no dimensions gets the length of the value, and variable types with value rank of at least 0 and no dimensions get the single dimension 0.",
 ["inputs"],"every dimension text of any length, every value rank, every array value",
 "valueRank.xml has a handful of fixed combinations with at most three dimensions.",
 [BE+"import.c"],[("parsing",BE+"import.c: getArrayDimensions"),("selection",BE+"import.c: handleVariableNode, handleVariableTypeNode")])
p("P20","File namespace indices inside values map to server namespace indices",
 "Inside values of a file, namespace index 0 stays 0, index n up to the number of declared uris becomes the server index registered for the n-th uri of the file, and any larger index becomes 65535. Registering a further uri never changes the mapping of the earlier ones, for any number of uris. Without a mapping context the result is 65535.",
 ["inputs","histories"],"every number of uris and server indices, every index 0..65535",
 "ServerContext tests register two or three indices.",
 [BE+"ServerContext.c",BE+"import.c"],[("mapping",BE+"ServerContext.c: ServerContext_addNamespaceIdx, ServerContext_translateToServerIdx"),("registration",BE+"import.c: NodesetLoader_BackendOpen62541_addNamespace")])
p("P21","Each node reaches the server with its own id, parent, names and attributes",
 "Each node read from the file is offered to the server through the operation of its class with its own id, browse name, display name, description, extension and class attributes converted from their texts. Its parent is its parent id or, if it has none, the target of the first inverse reference in its list of hierarchical references, with the type of that reference; objects and variables carry their type definition. Classes are offered in the order reference types, data types, object types, variable types, objects, methods, variables, views.",
 ["inputs"],"every node of every class, every attribute text, every reference list",
 "Backend tests need an installed open62541 and compare some attributes of about ten nodes.",
 [BE+"import.c"],[("dispatch",BE+"import.c: addNodeImpl, addNodes, getParentId"),("per class",BE+"import.c: handleObjectNode, handleViewNode, handleMethodNode, handleVariableNode, handleObjectTypeNode, handleReferenceTypeNode, handleVariableTypeNode, handleDataTypeNode")])
p("P22","Nodes refused by the server are retried and references are all added",
 "Exactly the nodes the server refuses are offered again, in the same order, round after round, until none is left or nine further rounds have passed; nodes the server accepted are never offered again. Afterwards every hierarchical and non-hierarchical reference of every node is offered to the server once with its source, type, target and direction.",
 ["inputs","fault_sequences"],"every pattern of refusals by the server over all rounds, every number of nodes and references",
 "No test makes the server refuse a node in a controlled pattern.",
 [BE+"import.c"],[("retry",BE+"import.c: secondChanceAddNodes, addNodeImpl, addNodes"),("references",BE+"import.c: addNonHierachicalRefs")])
p("P23","Import reports every file, read and XML error",
 "Importing succeeds only if the file could be opened, the complete content was read and the XML is well formed up to its end; otherwise it returns false and logs an error. The XML parser is fed with all bytes of the file in order, for any file size. Missing file contexts or callbacks are refused with a message and nothing is added to a server after a failed import.",
 ["inputs","fault_sequences"],"every file size and content (truncated at any byte), every read error, every missing argument",
 "Tests import complete small files and one missing file; truncation at a chunk boundary and read errors are not sampled.",
 ["src/Parser.c",NL,BE+"import.c"],[("feeding the parser","src/Parser.c: Parser_run"),("status",NL+": NodesetLoader_importFile"),("backend",BE+"import.c: NodesetLoader_loadFile")])
p("P24","Deleting a loader releases everything exactly once, at any point",
 "Whatever was imported, and whether import or sorting succeeded, failed or never happened, deleting the loader releases each node, reference, id, value, definition and table exactly once, leaks nothing and touches no released memory. Loggers and reference services supplied by the caller are not released.",
 ["inputs","histories"],"every document and every sequence of import, sort and delete (including failed ones)",
 "Tests delete loaders after successful imports, and only some run under a memory checker.",
 [NL,NS,"src/nodes/Node.c","src/nodes/NodeContainer.c","src/Sort.c"],[("loader",NL+": NodesetLoader_delete"),("nodeset",NS+": Nodeset_cleanup"),("nodes","src/nodes/Node.c: Node_delete, deleteRef"),("sorter","src/Sort.c: Sort_cleanup, Sort_forEachPending")])
p("P25","Binary encoding objects are linked back to their data types",
 "The loader reports exactly one entry for each inverse HasEncoding reference of a node whose browse name is \"Default Binary\", with the data type as source and the encoding node as target, most recent first, and none for other nodes, directions or types. On import into a server each custom data type gets the encoding id of an entry for it.",
 ["inputs"],"every reference, every browse name, every number of encodings",
 "Tests contain single structures with one encoding each.",
 [NS,BE+"import.c",BE+"DataTypeImporter.c"],[("collection",NS+": Nodeset_newReferenceFinish, Nodeset_getBiDirectionalRefs"),("use",BE+"import.c: addDataType"),("encoding id",BE+"DataTypeImporter.c: getBinaryEncodingId")])
p("P26","Log messages keep their level and are fully formatted",
 "Each message logged with the built-in logger is printed as one line with the product prefix, the name of its level (Debug, Warning or Error) and the message with all its arguments expanded. With the server backend each message reaches the server's logger once with the corresponding level, the same format text and its arguments. A built-in logger can be created and deleted any number of times.",
 ["inputs"],"every level, format text and argument list",
 "No test looks at the output of the loggers.",
 ["src/PrintfLogger.c",BE+"import.c","include/NodesetLoader/Logger.h"],[("console","src/PrintfLogger.c: logStdOut, InternalLogger_new"),("server",BE+"import.c: logToOpen")])
p("P27","Imported data types are registered with the right kind and can be found by id",
 "Each data type node becomes exactly one custom type of the server, with its own id and name, as enumeration, structure, union, structure with optional members, or as alias of its built-in supertype, according to its supertype and definition. Looking up a custom type by id returns the first type with exactly that id in any of the server's type arrays, and nothing if there is none. Abstract or unknown namespace 0 member types are treated as Variant.",
 ["inputs","histories"],"every data type hierarchy and definition, any number of types (up to 1000) and of chained type arrays",
 "Tests import about ten data types into one array.",
 [BE+"DataTypeImporter.c",BE+"customDataType.c",BE+"import.c"],[("kind",BE+"DataTypeImporter.c: DataTypeImporter_addCustomDataType, StructureDataType_init, EnumDataType_init, SubtypeOfBase_init, addDataTypeMembers"),("lookup",BE+"customDataType.c: findCustomDataType"),("supertype",BE+"import.c: getParentType, isKnownParent")])
p("P28","With a server, reference classification follows the server's type hierarchy",
 "With the server backend a reference counts as hierarchical, non-hierarchical or type definition exactly if its type is the corresponding root type, one of its direct or indirect subtypes known to the server, or a reference type added by the file below such a type; added types below no hierarchical type count as non-hierarchical. Each lookup compares complete ids, any number of types is supported, and adding a type never changes the classification of another one.",
 ["inputs","histories"],"every type hierarchy of the server, every number and order of added types",
 "Backend tests add one or two reference types below HasComponent.",
 [BE+"RefServiceImpl.c"],[("collection",BE+"RefServiceImpl.c: iterate, addToRefs, RefServiceImpl_new"),("classification",BE+"RefServiceImpl.c: isInContainer, addnewRefType")])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
import re
for x in P:
    assert len(x['title'])<=80,(x['id'],len(x['title']))
    n=len(re.findall(r'[.](\s|$)',x['statement'])); print(x['id'],n,len(x['title']))
