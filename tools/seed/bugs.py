"""planted bugs: edits against /repo's HEAD (original lines only), the driver
arguments of the demonstration and the records it compares"""
BUGS = []
def S(id, prop, edits, needs, breaks, args, kinds, files=None, **kw):
    BUGS.append(dict(id=id, prop=prop, edits=[edits] if isinstance(edits, tuple) else edits, needs=needs, breaks=breaks, args=args, kinds=kinds, files=files or {}, **kw))
def NS(body, uris=("urn:a", "urn:b"), head=""):
    return '<?xml version="1.0" encoding="utf-8"?>\n<UANodeSet>\n' + ("<NamespaceUris>%s</NamespaceUris>\n" % "".join("<Uri>%s</Uri>" % u for u in uris) if uris else "") + head + body + "</UANodeSet>\n"
def REFS(*r): return "<References>%s</References>" % "".join('<Reference ReferenceType="%s"%s>%s</Reference>' % (t, "" if f else ' IsForward="false"', x) for t, x, f in r)
def NODE(cls, id, bn, refs=(), inner="", attrs=""): return '<UA%s NodeId="%s" BrowseName="%s"%s><DisplayName>%s</DisplayName>%s%s</UA%s>\n' % (cls, id, bn, " " + attrs if attrs else "", bn.split(":")[-1], REFS(*refs), inner, cls)
def VAR(id, name, val, dt, attrs=""): return NODE("Variable", id, "1:" + name, [("i=47", "i=85", False), ("i=40", "i=63", True)], "<Value>%s</Value>" % val, 'ParentNodeId="i=85" DataType="%s" %s' % (dt, attrs))
def DT(id, name, parent, fields, defattrs="", attrs=""): return NODE("DataType", id, "1:" + name, [("i=45", parent, False)], '<Definition Name="%s" %s>%s</Definition>' % (name, defattrs, "".join("<Field %s/>" % f for f in fields)), attrs)
A, NL, SO, NSF, AL, IR, PA, VA, LO, PL = ["src/" + x for x in ("CharAllocator.c", "NamespaceList.c", "Sort.c", "Nodeset.c", "AliasList.c", "InternalRefService.c", "Parser.c", "Value.c", "NodesetLoader.c", "PrintfLogger.c")]
B = "backends/open62541/src/"
LOADER = "loader in.xml"; SERVER = "server in.xml"

S("P01-1", "P01", (A, "        newRegion->size = newRegion->userSize;\n        arena->current = newRegion;", "        newRegion->size = newRegion->userSize;\n        arena->current = newRegion;\n        // the moved block was the main user of the old region\n        if (newRegion->next->userSize * 2 > newRegion->next->size && newRegion->next->next)\n        {\n            struct Region *old = newRegion->next;\n            newRegion->next = old->next;\n            free(old->mem);\n            free(old);\n        }"),
  "a growing block which moves out of a second region that still holds a smaller block", "an earlier block is released with the region of a moved block", "arena 5", ["fail"])
S("P01-2", "P01", (A, "    arena->current->size += size;\n    arena->current->userSize = size;\n    return arena->current->userPtr;", "    arena->current->size += size;\n    if (size)\n    {\n        arena->current->userSize = size;\n    }\n    return arena->current->userPtr;"),
  "an empty block which is grown until it moves to a new region", "growing an empty block copies bytes behind it, so the block is not zero", "arena 7", ["fail"])
S("P02-1", "P02", (A, "        newRegion->userSize = arena->current->userSize;\n        newRegion->next = arena->current;\n        newRegion->size = newRegion->userSize;", "        newRegion->next = arena->current;\n        newRegion->size = arena->current->userSize;"),
  "a block which moves to a new region twice", "after the second move only the bytes added after the first move are kept", "arena 3", ["fail"])
S("P02-2", "P02", (A, "Region_new(getRegionSize(size + arena->current->userSize*2, arena->initialSize))", "Region_new(getRegionSize(size + arena->current->userSize/2, arena->initialSize))"),
  "a block near the initial size which grows by a little", "the new region is smaller than the block, the copy overflows it", "arena 11", ["fail"])
S("P03-1", "P03", (LO, "    size_t onCharLength;\n", "    unsigned short onCharLength;\n"),
  "an element text longer than 65535 bytes", "the write position wraps, the text is overwritten from its start", LOADER, ["node"], {"in.xml": NS(NODE("Object", "ns=1;i=1", "1:x", [("i=47", "i=85", False)], "<Description>" + "".join("%07d " % i for i in range(9000)) + "</Description>"))})
S("P03-2", "P03", (LO, "    TParserCtx *pctx = (TParserCtx *)ctx;\n    if (pctx->onCharacters == NULL)\n    {", "    TParserCtx *pctx = (TParserCtx *)ctx;\n    // indentation between elements\n    if (len == 1 && ch[0] == '\\n')\n    {\n        return;\n    }\n    if (pctx->onCharacters == NULL)\n    {"),
  "a line break delivered as a piece of its own (character reference, carriage return)", "line breaks inside a text get lost", LOADER, ["node"], {"in.xml": NS(NODE("Object", "ns=1;i=1", "1:x", [("i=47", "i=85", False)], "<Description>first&#10;second</Description>"))})
S("P04-1", "P04", (NSF, "        if (strcmp((const char *)localname, attr->name))\n            continue;", "        if (strncmp((const char *)localname, attr->name, strlen(attr->name)))\n            continue;"),
  "an attribute whose name starts with the name of a known one, in front of it", "the value of another attribute is used", LOADER, ["node"], {"in.xml": NS('<UAObject NodeIdOld="i=77" NodeId="ns=1;i=1" BrowseName="1:x"><DisplayName>x</DisplayName>%s</UAObject>' % REFS(("i=47", "i=85", False)))})
S("P04-2", "P04", (NSF, "    for (int i = 0; i < nb_attributes; i++)\n    {\n        const char *localname = attributes[i * fields + 0];", "    for (int i = nb_attributes - 1; i > 0; i--)\n    {\n        const char *localname = attributes[i * fields + 0];"),
  "an element whose first attribute is not the node id (references: a single attribute)", "the first attribute is never found", LOADER, ["node", "import", "sort"], {"in.xml": NS('<UAObject BrowseName="1:x" NodeId="ns=1;i=1" EventNotifier="3"><DisplayName Locale="en">x</DisplayName>%s</UAObject>' % REFS(("i=47", "i=85", False)))})
S("P05-1", "P05", (NSF, "        ((NL_VariableNode *)node)->userAccessLevel = getAttributeValue(\n            nodeset, &attrUserAccessLevel, attributes, attributeSize);", "        // without a value of its own it is the same as the access level\n        ((NL_VariableNode *)node)->userAccessLevel = getAttributeValue(\n            nodeset, &attrUserAccessLevel, attributes, attributeSize);\n        if (((NL_VariableNode *)node)->userAccessLevel == attrUserAccessLevel.defaultValue)\n        {\n            ((NL_VariableNode *)node)->userAccessLevel = ((NL_VariableNode *)node)->accessLevel;\n        }"),
  "a variable with an access level but without user access level", "the user access level is not the default of the schema", LOADER, ["node"], {"in.xml": NS(NODE("Variable", "ns=1;i=1", "1:x", [("i=47", "i=85", False)], "", 'AccessLevel="3"'))})
S("P05-2", "P05", (NSF, "void Nodeset_setInverseName(Nodeset *nodeset, NL_Node *node, int attributeSize,\n                            const char **attributes)\n{\n    if (node->nodeClass == NODECLASS_REFERENCETYPE)\n    {\n        ((NL_ReferenceTypeNode *)node)->inverseName.locale =\n            getAttributeValue(nodeset, &attrLocale, attributes, attributeSize);",
   "void Nodeset_setInverseName(Nodeset *nodeset, NL_Node *node, int attributeSize,\n                            const char **attributes)\n{\n    if (node->nodeClass == NODECLASS_REFERENCETYPE)\n    {\n        char *locale =\n            getAttributeValue(nodeset, &attrLocale, attributes, attributeSize);\n        ((NL_ReferenceTypeNode *)node)->inverseName.locale =\n            locale ? locale : node->displayName.locale;"),
  "a reference type whose display name has a locale and whose inverse name has none", "the inverse name gets a locale which is not in the file", LOADER, ["node"], {"in.xml": NS('<UAReferenceType NodeId="ns=1;i=1" BrowseName="1:x"><DisplayName Locale="de">x</DisplayName><InverseName>y</InverseName>%s</UAReferenceType>' % REFS(("i=45", "i=35", False)))})
S("P06-1", "P06", (NSF, "    char *bnName = strchr(s, ':');", "    char *bnName = strrchr(s, ':');"),
  "a browse name with two colons", "the name loses everything in front of the last colon", LOADER, ["node"], {"in.xml": NS(NODE("Object", "ns=1;i=1", "2:urn:x", [("i=47", "i=85", False)]))})
S("P06-2", "P06", (NL, "    if((size_t)relativeIndex >=list->size)", "    if((size_t)relativeIndex > list->size)"),
  "a namespace index which is one larger than the number of declared uris", "an entry behind the table is read", LOADER, ["node"], {"in.xml": NS(NODE("Object", "ns=3;i=1", "3:x", [("i=47", "i=85", False)]))})
S("P06-3", "P06", (NSF, "        if (ns != NULL)\n        {\n            bn.nsIdx =", "        if (ns != NULL && ns->idx != 0)\n        {\n            bn.nsIdx ="),
  "a file which lists the base namespace, so that an index maps to 0", "such a browse name keeps the file index instead of 0", "server in.xml", ["call"], {"in.xml": NS(NODE("Object", "ns=1;i=1", "2:x", [("i=47", "i=85", False)]), uris=("urn:a", "http://opcfoundation.org/UA/"))})
S("P07-1", "P07", (NL, "    // ask backend to create/get overall namespaceIndex\n", "    // the base namespace is always the first one\n    if(uri && list->data[0].idx == 0 && uri[0] == 'h' && !strcmp(uri, list->data[0].name))\n    {\n        return &list->data[0];\n    }\n    // ask backend to create/get overall namespaceIndex\n"),
  "a file which lists the uri of the base namespace in front of others", "the callback is not invoked for it and the positions of the other uris shift", LOADER, ["ns", "node"], {"in.xml": NS(NODE("Object", "ns=2;i=1", "2:x", [("i=47", "i=85", False)]), uris=("http://opcfoundation.org/UA/", "urn:a", "urn:b"))})
BUGS[-1]["edits"].append((NL, "#include <stdlib.h>\n", "#include <stdlib.h>\n#include <string.h>\n"))
S("P08-1", "P08", (NSF, "    const UA_NodeId *alias = AliasList_getNodeId(nodeset->aliasList, name);\n    if (!alias)", "    // node ids are no alias names\n    const UA_NodeId *alias = name && strchr(name, '=') ? NULL : AliasList_getNodeId(nodeset->aliasList, name);\n    if (!alias)"),
  "an alias whose name contains an equals sign", "the alias is not used, the reference gets the null id as type", LOADER, ["node", "import", "sort"], {"in.xml": NS(NODE("Object", "ns=1;i=1", "1:x", [("Org=Organizes", "i=85", False)]), head='<Aliases><Alias Alias="HasX">i=5</Alias><Alias Alias="Org=Organizes">i=35</Alias></Aliases>')})
S("P08-2", "P08", (AL, "    for(Alias* alias = list->data; alias != list->data + list->size; alias++) {", "    // search the latest ones first\n    for(Alias* alias = list->data + list->size; alias-- != list->data;) {"),
  "an alias name which is declared twice", "the last declaration wins", LOADER, ["node"], {"in.xml": NS(NODE("Object", "ns=1;i=1", "1:x", [("HasComponent", "i=85", False)]), head='<Aliases><Alias Alias="HasComponent">i=47</Alias><Alias Alias="HasComponent">i=46</Alias></Aliases>')})
S("P09-1", "P09", (IR, "            for (size_t i = 0; i < service->hierachicalRefsSize; i++) {\n                if (UA_NodeId_equal(&service->hierachicalRefs[i].id, &ref->target)) {", "            for (size_t i = 0; i < INITIAL_HIERACHICAL_REFS; i++) {\n                if (UA_NodeId_equal(&service->hierachicalRefs[i].id, &ref->target)) {"),
  "a reference type below a loaded hierarchical reference type", "only direct subtypes of the predefined types are hierarchical", LOADER, ["node", "sort"], {"in.xml": NS(NODE("ReferenceType", "ns=1;i=1", "1:a", [("i=45", "i=47", False)]) + NODE("ReferenceType", "ns=1;i=2", "1:b", [("i=45", "ns=1;i=1", False)]) + NODE("Object", "ns=1;i=3", "1:x", [("ns=1;i=2", "i=85", False)]))})
S("P09-2", "P09", (IR, "    if (ref->refType.namespaceIndex == 0)\n        return true;", "    if (ref->refType.namespaceIndex == 0 &&\n        ref->refType.identifierType == UA_NODEIDTYPE_NUMERIC &&\n        ref->refType.identifier.numeric < 30000)\n        return true;"),
  "a reference of a type of namespace 0 with a large or non numeric id", "such a reference is of unknown kind, sorting fails", LOADER, ["node", "sort"], {"in.xml": NS(NODE("Object", "ns=1;i=3", "1:x", [("i=47", "i=85", False), ("i=31000", "i=86", True)]))})
S("P10-1", "P10", (NSF, "            insertElementAtFront(&node->nonHierachicalRefs, node->unknownRefs);\n            node->unknownRefs = nextUnknown;\n            continue;", "            node->unknownRefs->next = NULL;\n            NL_Reference **last = &node->nonHierachicalRefs;\n            while (*last && (*last)->next)\n            {\n                last = &(*last)->next;\n            }\n            *last = node->unknownRefs;\n            node->unknownRefs = nextUnknown;\n            continue;"),
  "a node with a non hierarchical reference and one whose type is only declared later", "the last non hierarchical reference is replaced", LOADER, ["node", "sort"], {"in.xml": NS(NODE("Object", "ns=1;i=3", "1:x", [("i=47", "i=85", False), ("i=37", "i=78", True), ("ns=1;i=9", "i=86", True)]) + NODE("ReferenceType", "ns=1;i=9", "1:a", [("i=45", "i=32", False)]))})
S("P10-2", "P10", (NSF, "        ((NL_ObjectNode *)node)->refToTypeDef = newRef;\n        return newRef;", "        if (!newRef->next || newRef->isForward)\n        {\n            ((NL_ObjectNode *)node)->refToTypeDef = newRef;\n            return newRef;\n        }"),
  "an object with two type definition references of which the second is inverse", "the reference is in two lists", LOADER, ["node", "sort"], {"in.xml": NS(NODE("Object", "ns=1;i=3", "1:x", [("i=47", "i=85", False), ("i=40", "i=61", True), ("i=40", "i=58", False)]))})
S("P11-1", "P11", (SO, "                        if (r->left) {\n                            p = r->left;\n                            r->left = p->right;", "                        if (r->left) {\n                            p = r->left;\n                            r->left = p->balance > 0 ? NULL : p->right;"),
  "an insertion order which leads to a double rotation with a right heavy middle node", "a subtree of the search tree is dropped with its nodes", LOADER, ["node", "sort", "count"], {"in.xml": NS("".join(NODE("Object", "ns=1;i=%d" % i, "1:x", [("i=47", "ns=1;i=%d" % p, False)]) for i, p in [(50, 20), (20, 80), (80, 70), (70, 90), (90, 75), (75, 10), (10, 5), (60, 50), (65, 50), (72, 50), (73, 50), (74, 50), (71, 50)]))})
S("P11-2", "P11", (SO, "                    newRef->isForward = !r->isForward;", "                    newRef->isForward = r->isForward;"),
  "a node with a parent id whose parent was read before and points to it", "the generated reference has the wrong direction", LOADER, ["node"], {"in.xml": NS(NODE("Object", "ns=1;i=1", "1:p", [("i=47", "i=85", False), ("i=35", "ns=1;i=2", True)]) + NODE("Object", "ns=1;i=2", "1:c", [("i=40", "i=58", True)], "", 'ParentNodeId="ns=1;i=1"'))})
S("P11-3", "P11", (SO, "    if(UA_NodeId_equal(from->id, to->id))\n        return;\n", "    if(UA_NodeId_equal(from->id, to->id))\n        return;\n    // already recorded\n    if(from->edges && from->edges->dest == to)\n    {\n        to->edgeCount++;\n        return;\n    }\n"),
  "a node with two hierarchical references to the same parent in a row", "the second reference is counted but never released, sorting reports a cycle", LOADER, ["node", "sort"], {"in.xml": NS(NODE("Object", "ns=1;i=1", "1:p", [("i=47", "i=85", False)]) + NODE("Object", "ns=1;i=2", "1:c", [("i=47", "ns=1;i=1", False), ("i=35", "ns=1;i=1", False)]))})
S("P12-1", "P12", ("src/nodes/NodeContainer.c", "        container->capacity += container->incrementSize;", "        container->capacity *= 2;"),
  "more than 200 reference types in a loader, or 300 views", "the table is smaller than its capacity, nodes are written behind it", LOADER, ["node", "count", "sort"], {"in.xml": NS("".join(NODE("View", "ns=1;i=%d" % i, "1:v", [("i=47", "i=85", False)]) for i in range(1, 36)))})
S("P12-2", "P12", (NSF, "    for (NL_Node **node = c->nodes; node != c->nodes + c->size; node++)\n    {\n        fn(context, *node);\n    }", "    for (NL_Node **node = c->nodes; node != c->nodes + c->size; node++)\n    {\n        if ((*node)->nodeClass == NODECLASS_VIEW && !(*node)->hierachicalRefs)\n        {\n            continue;\n        }\n        fn(context, *node);\n    }"),
  "a view without hierarchical references", "the view is counted but not delivered", LOADER, ["node", "count", "sort"], {"in.xml": NS(NODE("View", "ns=1;i=5", "1:v"))})
S("P13-1", "P13", (VA, "    for(const char* c=value;*c!='\\0'; c++)", "    for(const char* c=value;*c!='\\0' && *c!='\\n'; c++)"),
  "a leaf whose text starts on a new line", "the text is taken for white space and dropped", LOADER, ["node"], {"in.xml": NS(VAR("ns=1;i=1", "x", "<String>\nabc\n</String>", "i=12"))})
S("P13-2", "P13", (VA, "        if (val->isExtensionObject && val->isArray &&\n            val->ctx->currentData->parent == NULL)", "        if (val->isExtensionObject && val->isArray &&\n            val->data->val.complexData.membersSize < 3 &&\n            val->ctx->currentData->parent == NULL)"),
  "a list with three or more extension objects", "the members behind the third are nested wrongly", LOADER, ["node"], {"in.xml": NS(VAR("ns=1;i=1", "x", "<ListOfExtensionObject>%s</ListOfExtensionObject>" % ("<ExtensionObject><TypeId><Identifier>ns=1;i=7</Identifier></TypeId><Body><T><a>1</a><b>2</b></T></Body></ExtensionObject>" * 4), "i=22"))})
S("P14-1", "P14", (LO, "    case PARSER_STATE_DISPLAYNAME:\n        enterUnknownState(pctx);\n        break;", "    case PARSER_STATE_DISPLAYNAME:\n        break;"),
  "an element inside a display name", "the node is left when the display name ends", LOADER, ["node"], {"in.xml": NS('<UAObject NodeId="ns=1;i=1" BrowseName="1:x"><DisplayName>a<b>c</b>d</DisplayName>%s</UAObject>' % REFS(("i=47", "i=85", False)) + NODE("Object", "ns=1;i=2", "1:y", [("i=47", "i=85", False)]))})
S("P14-2", "P14", (LO, "    case PARSER_STATE_UNKNOWN:\n        pctx->unknown_depth++;\n        break;    ", "    case PARSER_STATE_UNKNOWN:\n        // known elements continue normally\n        if (strcmp(localname, NAMESPACEURI))\n        {\n            pctx->unknown_depth++;\n        }\n        break;    "),
  "an unknown element which contains an element named Uri followed by others", "the unknown element is left too early", LOADER, ["node", "ns"], {"in.xml": NS("<Models><Uri>x</Uri>" + NODE("Object", "ns=1;i=9", "1:no", [("i=47", "i=85", False)]) + "</Models>" + NODE("Object", "ns=1;i=2", "1:y", [("i=47", "i=85", False)]))})
S("P15-1", "P15", ("src/nodes/DataTypeNode.c", """    definition->fields = (NL_DataTypeDefinitionField *)realloc(
        definition->fields,
        definition->fieldCnt * sizeof(NL_DataTypeDefinitionField));
""", """    // grow in steps of eight
    if (definition->fieldCnt % 8 == 1)
    {
        definition->fields = (NL_DataTypeDefinitionField *)realloc(
            definition->fields, (definition->fieldCnt + 6) *
                                    sizeof(NL_DataTypeDefinitionField));
    }
"""),
  "a definition with at least eight fields", "the eighth field is written behind the table", LOADER, ["node"], {"in.xml": NS(DT("ns=1;i=1", "E", "i=29", ['Name="a%d" Value="%d"' % (k, k) for k in range(17)]))})
S("P15-2", "P15", (NSF, "            nodeset, &attrValueRank, attributes, attributeSize));\n        char *isOptional", "            nodeset, &attrValueRank, attributes, attributeSize - 1));\n        char *isOptional"),
  "a field whose last attribute is the value rank", "the value rank of the field is lost", LOADER, ["node"], {"in.xml": NS(DT("ns=1;i=1", "S", "i=22", ['Name="a" DataType="i=6" ValueRank="1" IsOptional="true"', 'Name="b" DataType="i=6" ValueRank="1"']))})
S("P16-1", "P16", (B + "DataTypeImporter.c", "        type->pointerFree = type->pointerFree && memberType->pointerFree;", "        type->pointerFree = memberType->pointerFree;"),
  "a structure whose last member is pointer free while an earlier one is not", "the structure counts as pointer free", SERVER, ["type"], {"in.xml": NS(DT("ns=1;i=1", "S", "i=22", ['Name="a" DataType="i=12"', 'Name="b" DataType="i=6"']))})
S("P16-2", "P16", (B + "padding.h", "    return (UA_Byte)((alignment - (offset % alignment)) % alignment);", "    return (UA_Byte)(alignment > 4 ? (alignment - (offset % alignment)) % alignment : (offset & (alignment - 1)));"),
  "a member with alignment 4 at an offset of 1 or 3 modulo 4", "the padding is the offset modulo the alignment", SERVER, ["type"], {"in.xml": NS(DT("ns=1;i=1", "S", "i=22", ['Name="a" DataType="i=3"', 'Name="b" DataType="i=6"', 'Name="c" DataType="i=3"']))})
S("P16-3", "P16", (B + "DataTypeImporter.c", "            memberOffset = parentType->membersSize;\n", "            memberOffset = parentType->membersSize > 1 ? parentType->membersSize : 0;\n"),
  "a structure which inherits exactly one member and has the same number of members of its own", "the member types are assigned to the wrong members", SERVER, ["type"], {"in.xml": NS(DT("ns=1;i=1", "P", "i=22", ['Name="a" DataType="i=1"']) + DT("ns=1;i=2", "S", "ns=1;i=1", ['Name="b" DataType="i=11"']))})
ST = DT("ns=1;i=101", "S", "i=22", ['Name="a" DataType="i=3"', 'Name="b" DataType="i=11"', 'Name="c" DataType="i=6" ValueRank="1"', 'Name="d" DataType="i=12"'])
def EO(t, body): return "<ExtensionObject><TypeId><Identifier>%s</Identifier></TypeId><Body>%s</Body></ExtensionObject>" % (t, body)
S("P17-1", "P17", (B + "Value.c", "            size_t structOffset = data->offset + memberType->memSize;\n            setScalar(memberData, memberType, data, customTypes, serverContext);\n            data->offset = structOffset;", "            setScalar(memberData, memberType, data, customTypes, serverContext);"),
  "a structure with a byte string or status code member in front of others", "conversions which do not advance the offset move the following members", SERVER, ["value"], {"in.xml": NS(DT("ns=1;i=101", "S", "i=22", ['Name="a" DataType="i=15"', 'Name="b" DataType="i=6"']) + VAR("ns=1;i=1", "v", EO("ns=1;i=101", "<S><a>QUJD</a><b>7</b></S>"), "ns=1;i=101"))})
S("P17-2", "P17", (B + "Value.c", "        data->offset += type->members[switchField - 1].padding;", "        data->offset += type->members[0].padding;\n        if (data->offset > unionOffset + type->memSize - type->members[switchField - 1].memberType->memSize || switchField == 2)\n            data->offset = unionOffset + sizeof(UA_UInt32);"),
  "a union with 8 byte alignment whose second field is used", "the field is written directly behind the switch field", SERVER, ["value"], {"in.xml": NS(DT("ns=1;i=102", "U", "i=12756", ['Name="a" DataType="i=6"', 'Name="b" DataType="i=11"'], 'IsUnion="true"') + VAR("ns=1;i=1", "v", EO("ns=1;i=102", "<U><SwitchField>2</SwitchField><b>2.5</b></U>"), "ns=1;i=102")).replace("i=12756", "i=22")})
S("P17-3", "P17", (B + "Value.c", "    *(UA_Int16 *)adr = (UA_Int16)atoi(value);", "    int v = atoi(value);\n    *(UA_Int16 *)adr = (UA_Int16)(v > 32767 ? 32767 : v <= -32768 ? -32767 : v);"),
  "the smallest 16 bit integer", "-32768 becomes -32767", SERVER, ["value"], {"in.xml": NS(VAR("ns=1;i=1", "v", "<Int16>-32768</Int16>", "i=4") + VAR("ns=1;i=2", "w", "<Int16>32767</Int16>", "i=4"))})
S("P17-4", "P17", (B + "Value.c", "    s->data = (UA_Byte*)calloc(s->length, 1);", "    s->data = (UA_Byte*)calloc(s->length < 4 ? 4 : s->length, 1);\n    // no byte order mark\n    if (s->length >= 3 && value[0] == '\\xEF')\n    {\n        value += 3;\n        s->length -= 3;\n    }"),
  "a string which starts with the byte 0xEF (e.g. full width characters)", "the first character of the string is lost", SERVER, ["value"], {"in.xml": NS(VAR("ns=1;i=1", "v", "<String>&#xFF21;bc</String>", "i=12"))})
S("P18-1", "P18", (B + "nodeset_base64.h", "    for (charNo = 0; charNo <= len - 4 - pad; charNo += 4)", "    for (charNo = 0; charNo < len - 4 - pad; charNo += 4)"),
  "base64 without padding, or with one padding character", "the last group is not decoded, its bytes are uninitialized", "b64 <in.txt", ["b64"], {"in.txt": "QUJD\nQUI=\nQQ==\nQUJDREVG\nQUJDREVGRw==\nQUJDREVGR0g=\n"})
S("P18-2", "P18", (B + "nodeset_base64.h", "        bin[cb++] = (unsigned char)(B << 4) | (C >> 2);\n    }\n    else if", "        bin[cb++] = (unsigned char)(B << 4) | ((C >> 2) & 0x7);\n    }\n    else if"),
  "a last group with one padding character whose third character is large", "one bit of the last byte is lost", "b64 <in.txt", ["b64"], {"in.txt": "QUI=\nQU8=\n//8=\nAAAA//8=\n"})
S("P18-3", "P18", (B + "nodeset_base64.h", "    54, 55, 56, 57, 58, 59, 60, 61, 0,  0,  // 60", "    54, 55, 56, 57, 58, 59, 60, 60, 0,  0,  // 60"),
  "text with the character 9", "9 decodes like 8", "b64 <in.txt", ["b64"], {"in.txt": "9999\nQUJD\n"})
S("P20-1", "P20", (B + "ServerContext.c", "    else if ((nodesetIdx > 0) && ((size_t)nodesetIdx <= serverContext->namespaceCnt))", "    else if ((nodesetIdx > 0) && ((UA_Byte)nodesetIdx <= serverContext->namespaceCnt))"),
  "a namespace index above 255 with fewer uris", "the index is truncated to 8 bits for the check, memory behind the table is read", "ctx 1", ["fail"])
S("P20-2", "P20", (B + "ServerContext.c", "        realloc(serverContext->namespaceIdxMapping, sizeof(UA_UInt16) * (serverContext->namespaceCnt + 1));", "        realloc(serverContext->namespaceIdxMapping, sizeof(UA_UInt16) * serverContext->namespaceCnt + 1);"),
  "registering any uri (misplaced parenthesis)", "the table is one byte too small", "ctx 2", ["fail"])
S("P23-1", "P23", (PA, "    while ((res = (int)fread(chars, 1, sizeof(chars), file)) > 0)", "    while ((res = (int)fread(chars, 1, sizeof(chars), file)) > 1)"),
  "a file whose size is 5 modulo 1024", "the last byte of the file is not parsed", LOADER, ["import", "node"], {"in.xml": None})
S("P23-2", "P23", (LO, "    FILE *f = fopen(fileHandler->file, \"r\");\n\n    if (!f)\n    {\n        loader->logger->log(loader->logger->context,\n                            NODESETLOADER_LOGLEVEL_ERROR,\n                            \"NodesetLoader: file open error\");\n        retStatus = false;", "    FILE *f = fopen(fileHandler->file, \"r\");\n\n    if (!f)\n    {\n        loader->logger->log(loader->logger->context,\n                            NODESETLOADER_LOGLEVEL_ERROR,\n                            \"NodesetLoader: file open error\");\n        // a missing additional file is no problem\n        retStatus = loader->nodeset->aliasList && NodesetLoader_getBidirectionalRefs(loader) != NULL;"),
  "a missing file after a file with encoding nodes was imported", "the import of a missing file succeeds", "loader in.xml missing.xml", ["import", "log"], {"in.xml": NS(NODE("Object", "ns=1;i=3", "Default Binary", [("i=38", "ns=1;i=2", False)]))})
S("P24-1", "P24", ("src/nodes/Node.c", """        UA_NodeId_clear(&varNode->parentNodeId);
""", """        if (!varNode->hierachicalRefs)
        {
            UA_NodeId_clear(&varNode->parentNodeId);
        }
"""),
  "a variable with a parent which has a string id", "the id of the parent is not released", LOADER, ["leak"], {"in.xml": NS(NODE("Object", "ns=1;s=p", "1:p", [("i=47", "i=85", False)]) + '<UAVariable NodeId="ns=1;i=2" BrowseName="1:v" ParentNodeId="ns=1;s=p"><References><Reference ReferenceType="i=47" IsForward="false">ns=1;s=p</Reference></References></UAVariable>')})
S("P24-2", "P24", ("src/nodes/Node.c", "        UA_NodeId_clear(&ref->refType);\n        free(ref);", "        if(ref->isForward || ref->refType.namespaceIndex)\n        {\n            UA_NodeId_clear(&ref->refType);\n        }\n        free(ref);"),
  "an inverse reference whose type is a string id of namespace 0", "the type of the reference is not released", LOADER, ["leak"], {"in.xml": NS(NODE("Object", "ns=1;i=1", "1:x", [("i=47", "i=85", False), ("s=custom", "i=86", False)]))})
S("P25-1", "P25", (NSF, '        !strcmp(node->browseName.name, "Default Binary") && !ref->isForward)', '        !strncmp(node->browseName.name, "Default", 7) && !ref->isForward)'),
  "a data type with a Default XML encoding node", "XML encodings are reported as binary encodings", LOADER, ["bidir"], {"in.xml": NS(NODE("Object", "ns=1;i=3", "Default Binary", [("i=38", "ns=1;i=2", False)]) + NODE("Object", "ns=1;i=4", "Default XML", [("i=38", "ns=1;i=2", False)]))})
S("P25-2", "P25", (B + "import.c", "            NL_Reference *lastRef = node->nonHierachicalRefs;\n            node->nonHierachicalRefs = ref;\n            ref->next = lastRef;\n            break;", "            NL_Reference *lastRef = node->nonHierachicalRefs;\n            if (lastRef)\n            {\n                ref->next = lastRef->next;\n                lastRef->next = ref;\n            }\n            else\n            {\n                node->nonHierachicalRefs = ref;\n            }\n            break;"),
  "a data type which lists its own forward encoding reference to another (e.g. JSON) node", "the type gets the id of the other encoding", SERVER, ["type"], {"in.xml": NS(NODE("DataType", "ns=1;i=2", "1:S", [("i=45", "i=22", False), ("i=38", "ns=1;i=4", True)], '<Definition Name="S"><Field Name="a" DataType="i=6"/></Definition>') + NODE("Object", "ns=1;i=3", "Default Binary", [("i=38", "ns=1;i=2", False)]) + NODE("Object", "ns=1;i=4", "Default JSON", [("i=38", "ns=1;i=2", False)]))})
S("P26-1", "P26", (PL, """    NodesetLoader_Logger *logger =
        (NodesetLoader_Logger *)calloc(1, sizeof(NodesetLoader_Logger));
""", """    static NodesetLoader_Logger *logger = NULL;
    if (!logger)
    {
        logger = (NodesetLoader_Logger *)calloc(1, sizeof(NodesetLoader_Logger));
    }
"""),
  "a second logger after the first one was deleted", "the released logger is handed out again", "log", ["stdout"])
S("P26-2", "P26", (B + "import.c", "    case NODESETLOADER_LOGLEVEL_WARNING:\n        uaLevel = UA_LOGLEVEL_WARNING;", "    case NODESETLOADER_LOGLEVEL_WARNING:\n        uaLevel = UA_LOGLEVEL_INFO;"),
  "a warning of the server import (a refused node)", "warnings are logged with another level", "server --refuse 'ns=2;i=1@2' in.xml", ["slog"], {"in.xml": NS(NODE("Object", "ns=1;i=1", "1:x", [("i=47", "i=85", False)]))})
S("P27-1", "P27", (B + "customDataType.c", "                 type != types->types + types->typesSize; type++)\n            {\n                if (UA_NodeId_equal(&type->typeId, typeId))", "                 type != types->types + types->typesSize; type++)\n            {\n                if (type->memSize && UA_NodeId_equal(&type->typeId, typeId))"),
  "a type whose memory size is not (yet) known, e.g. a member declared before its type", "the type is not found", SERVER, ["type"], {"in.xml": NS(DT("ns=1;i=1", "A", "i=22", ['Name="b" DataType="ns=1;i=2"', 'Name="c" DataType="i=3"']) + DT("ns=1;i=2", "B", "i=22", ['Name="x" DataType="i=11"']))})
S("P27-2", "P27", (B + "import.c", "        typeId.identifier.numeric <= 29)", "        typeId.identifier.numeric < 29)"),
  "an enumeration data type (parent i=29)", "enumerations are not recognized as such", SERVER, ["type"], {"in.xml": NS(DT("ns=1;i=1", "E", "i=29", ['Name="a" Value="0"', 'Name="b" Value="5"']))})
I_ = B + "import.c"; R_ = B + "RefServiceImpl.c"
S("P19-1", "P19", (I_, "        *dims = (UA_UInt32 *)realloc(*dims, arrSize * sizeof(UA_UInt32));", "        // grow in steps of four\n        if (arrSize % 4 == 2)\n        {\n            *dims = (UA_UInt32 *)realloc(*dims, (arrSize + 2) * sizeof(UA_UInt32));\n        }"),
  "more than four dimensions", "the table is too small for the fifth dimension", SERVER, ["call"], {"in.xml": NS(NODE("Variable", "ns=1;i=1", "1:v", [("i=47", "i=85", False)], "", 'DataType="i=6" ValueRank="5" ArrayDimensions="1,2,3,4,5"'))})
S("P19-2", "P19", (I_, "    attr.isAbstract = isValTrue(node->isAbstract);\n    UA_UInt32 arrayDimensions[1] = {0};\n    UA_UInt32 *arrDims = NULL;\n    if (attr.valueRank >= 0)", "    attr.isAbstract = isValTrue(node->isAbstract);\n    UA_UInt32 arrayDimensions[1] = {0};\n    UA_UInt32 *arrDims = NULL;\n    if (attr.valueRank > 0)"),
  "a variable type of value rank 0 (one or more dimensions)", "its dimensions get lost", SERVER, ["call"], {"in.xml": NS(NODE("VariableType", "ns=1;i=1", "1:v", [("i=45", "i=63", False)], "", 'DataType="i=6" ValueRank="0"') + NODE("VariableType", "ns=1;i=2", "1:w", [("i=45", "i=63", False)], "", 'DataType="i=6" ValueRank="0" ArrayDimensions="2,3"'))})
S("P19-3", "P19", (I_, "    if (attr.arrayDimensionsSize == 0 && node->value && node->value->isArray)", "    if (attr.arrayDimensionsSize <= 1 && node->value && node->value->isArray)"),
  "an array value whose variable declares another (larger) dimension", "the declared dimension is replaced by the length of the value", SERVER, ["call"], {"in.xml": NS(VAR("ns=1;i=1", "v", "<ListOfInt32><Int32>1</Int32><Int32>2</Int32></ListOfInt32>", "i=6", 'ValueRank="1" ArrayDimensions="4"')), }, drop=["st"])
S("P21-1", "P21", (I_, "    NL_Reference *hierachicalRef = node->hierachicalRefs;\n    while (hierachicalRef)\n    {\n        if (!hierachicalRef->isForward)\n        {\n            return hierachicalRef;\n        }\n        hierachicalRef = hierachicalRef->next;\n    }\n    return NULL;", "    NL_Reference *hierachicalRef = node->hierachicalRefs;\n    NL_Reference *found = NULL;\n    while (hierachicalRef)\n    {\n        if (!hierachicalRef->isForward)\n        {\n            found = hierachicalRef;\n        }\n        hierachicalRef = hierachicalRef->next;\n    }\n    return found;"),
  "a node with two inverse hierarchical references", "the last inverse hierarchical reference determines the parent", SERVER, ["call"], {"in.xml": NS(NODE("Object", "ns=1;i=1", "1:x", [("i=47", "i=85", False), ("i=35", "i=86", False)]) + NODE("ObjectType", "ns=1;i=2", "1:t", [("i=45", "i=58", False), ("i=35", "i=61", False)]))})
S("P21-2", "P21", (I_, "        NODECLASS_VARIABLETYPE,  NODECLASS_OBJECT,   NODECLASS_METHOD,\n        NODECLASS_VARIABLE,      NODECLASS_VIEW};", "        NODECLASS_VARIABLETYPE,  NODECLASS_OBJECT,   NODECLASS_VARIABLE,\n        NODECLASS_METHOD,        NODECLASS_VIEW};"),
  "a file with methods and (argument) variables", "the variables are offered before the methods they belong to", SERVER, ["call"], {"in.xml": NS(NODE("Method", "ns=1;i=2", "1:m", [("i=47", "i=85", False)], "", 'ParentNodeId="i=85"') + NODE("Variable", "ns=1;i=3", "InputArguments", [("i=46", "ns=1;i=2", False)], "", 'ParentNodeId="ns=1;i=2"'))}, ordered=True)
S("P21-3", "P21", (I_, "    attr.userExecutable = isValTrue(node->userExecutable);", "    // not executable for anybody, not executable for the user\n    attr.userExecutable = attr.executable && isValTrue(node->userExecutable);"),
  "a method with Executable false and without UserExecutable", "user executable is not the value of the node", SERVER, ["call"], {"in.xml": NS(NODE("Method", "ns=1;i=2", "1:m", [("i=47", "i=85", False)], "", 'ParentNodeId="i=85" Executable="false"'))})
S("P22-1", "P22", (I_, "        (*badStatusNodes) = local_badStatusNodes;\n        attempt++;", "        (*badStatusNodes) = local_badStatusNodes;\n        attempt++;\n        // no progress\n        if (counterOfAdddedNodesForOneAttempt == 0 && attempt > 2)\n        {\n            break;\n        }"),
  "a node which the server refuses more than three times", "the node is given up although further rounds are left", "server --refuse 'ns=2;i=1@5' in.xml", ["call"], {"in.xml": NS(NODE("Object", "ns=1;i=1", "1:x", [("i=47", "i=85", False)]))})
S("P22-2", "P22", (I_, "        UA_NodeId refType = ref->refType;\n        UA_Server_addReference(server, src, refType, target, ref->isForward);\n        ref = ref->next;\n    }\n}", "        UA_NodeId refType = ref->refType;\n        // the reference to the parent was added together with the node\n        if (ref->isForward || ref != node->hierachicalRefs || ref->next)\n        {\n            UA_Server_addReference(server, src, refType, target, ref->isForward);\n        }\n        ref = ref->next;\n    }\n}"),
  "an instance whose only hierarchical reference is inverse and which has another parent node id (or a node which the server refused)", "the reference is never added", SERVER, ["ref"], {"in.xml": NS(NODE("Object", "ns=1;i=1", "1:x", [("i=35", "i=86", False)], "", 'ParentNodeId="i=85"'))})
S("P22-3", "P22", (I_, "        context.problemNodes = local_badStatusNodes;\n        context.serverContext = serverContext;\n        for (size_t counter = 0; counter < (*badStatusNodes)->size; counter++)", "        context.problemNodes = local_badStatusNodes;\n        context.serverContext = serverContext;\n        // the last one may be the parent of the others\n        for (size_t counter = (*badStatusNodes)->size; counter-- > 0;)"),
  "two refused nodes", "refused nodes are offered again in reversed order", "server --refuse 'ns=2;i=1@1' --refuse 'ns=2;i=2@1' in.xml", ["call"], {"in.xml": NS(NODE("Object", "ns=1;i=1", "1:x", [("i=47", "i=85", False)]) + NODE("Object", "ns=1;i=2", "1:y", [("i=47", "i=85", False)]))}, ordered=True)
S("P28-1", "P28", (R_, "        if (UA_NodeId_equal(&ref->refType, id))\n            return true;", "        if (ref->refType.namespaceIndex == id->namespaceIndex &&\n            ref->refType.identifierType == id->identifierType &&\n            ref->refType.identifier.numeric == id->identifier.numeric)\n            return true;"),
  "two added reference types with string ids of the same length, one hierarchical and one not", "a non-hierarchical reference counts as hierarchical", SERVER, ["ref", "call", "load"], {"in.xml": NS("".join('<UAReferenceType NodeId="ns=1;s=%s" BrowseName="1:%s"><DisplayName>x</DisplayName>%s</UAReferenceType>' % (n, n, REFS(("i=45", p, False))) for n, p in (("RefH", "i=35"), ("RefN", "i=32"))) + NODE("Object", "ns=1;i=2", "1:a", [("ns=1;s=RefN", "ns=1;i=3", True), ("i=35", "i=85", False)]) + NODE("Object", "ns=1;i=3", "1:b", [("ns=1;s=RefN", "ns=1;i=2", True), ("i=35", "i=85", False)]))})
S("P28-2", "P28", (R_, "            iterate(server, &rd->nodeId.nodeId, fnc, impl);", "            // types of companion specifications are leaves\n            if (rd->nodeId.nodeId.namespaceIndex == 0)\n                iterate(server, &rd->nodeId.nodeId, fnc, impl);"),
  "a server with a reference type of another namespace which has a subtype itself", "the indirect subtype is unknown, sorting the file fails", "server --graph 'i=35>ns=2;i=10,ns=2;i=10>ns=2;i=11' --ns 1 in.xml", ["load", "call", "ref"], {"in.xml": NS(NODE("Object", "ns=1;i=2", "1:a", [("ns=1;i=11", "i=85", False)]), uris=("urn:pre0", "urn:b"))})
S("P28-3", "P28", (R_, "            for (size_t i = 0; i < service->hierachicalRefs.size; i++) {", "            // the root is abstract\n            for (size_t i = 1; i < service->hierachicalRefs.size; i++) {"),
  "a type added directly below HierarchicalReferences (i=33)", "it counts as non-hierarchical", SERVER, ["ref", "call", "load"], {"in.xml": NS('<UAReferenceType NodeId="ns=1;i=5" BrowseName="1:r"><DisplayName>x</DisplayName>%s</UAReferenceType>' % REFS(("i=45", "i=33", False)) + NODE("Object", "ns=1;i=2", "1:a", [("ns=1;i=5", "i=85", False)]))})
_t = NS(NODE("Object", "ns=1;i=1", "1:x", [("i=47", "i=85", False)]))
_t = _t.replace("</UANodeSet>\n", "<!--PAD--></UANodeSet>"); _t = _t.replace("PAD", "P" * ((5 - (len(_t) - 3)) % 1024))
next(b for b in BUGS if b["id"] == "P23-1")["files"]["in.xml"] = _t
IN_ = "src/nodes/InstanceNode.c"; DN = "src/nodes/DataTypeNode.c"; DI = B + "DataTypeImporter.c"; SC = B + "ServerContext.c"; CD = B + "customDataType.c"
S("P22-4", "P22", (I_, "    // Delete only reference and container. Not NL_Nodes objects.\n    NodeContainer_delete(badStatusNodes);\n\n    for (size_t i = 0; i < NL_NODECLASS_COUNT; i++)", "    // Delete only reference and container. Not NL_Nodes objects.\n    NodeContainer_delete(badStatusNodes);\n\n    // views are the last ones, all other nodes refer to them\n    for (size_t i = 0; i + 1 < NL_NODECLASS_COUNT; i++)"),
  "a view with references of its own", "the references of views are not added", SERVER, ["ref"], {"in.xml": NS(NODE("View", "ns=1;i=1", "1:v", [("i=35", "i=87", False), ("i=35", "i=85", True)]))})
S("P07-2", "P07", (NL, "    short unsigned globalIdx = list->cb(userContext, uri);", "    unsigned char globalIdx = (unsigned char)list->cb(userContext, uri);"),
  "a caller which returns namespace indices above 255", "the index is truncated", "server --ns 300 in.xml", ["node", "call"], {"in.xml": NS(NODE("Object", "ns=1;i=1", "1:x", [("i=47", "i=85", False)]))})
S("P04-3", "P04", (NSF, "        size_t size = (size_t)(value_end - value_start);\n        char *value", "        uint16_t size = (uint16_t)(value_end - value_start);\n        char *value"),
  "an attribute of more than 65535 characters", "the attribute is cut off", LOADER, ["node"], {"in.xml": NS(NODE("Object", "ns=1;i=1", "1:" + "n" * 70000, [("i=47", "i=85", False)]))})
S("P15-3", "P15", (NSF, "        newField->value = atoi(value);\n        dataTypeNode->definition->isEnum =\n            !dataTypeNode->definition->isOptionSet;", "        newField->value = atoi(value);\n        dataTypeNode->definition->isEnum =\n            newField->value >= 0 && !dataTypeNode->definition->isOptionSet;"),
  "an enumeration whose last field has a negative value", "the definition is no enumeration", LOADER, ["node", "def", "field"], {"in.xml": NS(DT("ns=1;i=1", "E", "i=29", ['Name="a" Value="3"', 'Name="b" Value="-1"']))})
S("P11-4", "P11", (IN_, "        baseNode->nodeClass == NODECLASS_METHOD ||\n        baseNode->nodeClass == NODECLASS_VIEW)", "        baseNode->nodeClass == NODECLASS_METHOD)"),
  "a view with a parent id and no hierarchical reference", "no reference to the parent is generated", LOADER, ["node"], {"in.xml": NS(NODE("View", "ns=1;i=1", "1:v", [], "", 'ParentNodeId="i=87"'))})
S("P06-4", "P06", (NSF, "        bn.nsIdx = (uint16_t)atoi(&s[0]);", "        bn.nsIdx = (uint16_t)(s[0] - '0');"),
  "a browse name with a namespace index of two digits", "only the first digit counts", LOADER, ["node"], {"in.xml": NS(NODE("Object", "ns=12;i=1", "12:x", [("i=47", "i=85", False)]), uris=["urn:%d" % i for i in range(14)])})
S("P12-3", "P12", ("src/nodes/NodeContainer.c", "        container->capacity += container->incrementSize;", "        container->capacity += container->incrementSize;\n        container->incrementSize *= 2;\n        if (container->incrementSize > 1000)\n        {\n            container->size = container->capacity - container->incrementSize;\n        }"),
  "a table which grows several times", "nodes are overwritten after some growth steps", LOADER, ["node", "each"], {"in.xml": NS("".join(NODE("ObjectType", "ns=1;i=%d" % i, "1:x", [("i=45", "i=58", False)]) for i in range(1, 3600)))})
S("P05-3", "P05", (NSF, "    case NODECLASS_VIEW:\n        ((NL_ViewNode *)node)->parentNodeId = extractNodedId(", "    case NODECLASS_VIEW:\n        ((NL_ViewNode *)node)->parentNodeId = alias2Id(\n            nodeset, getAttributeValue(nodeset, &attrParentNodeId, attributes,\n                                       attributeSize));\n        if (!UA_NodeId_equal(&((NL_ViewNode *)node)->parentNodeId, &UA_NODEID_NULL))\n        {\n            ((NL_ViewNode *)node)->containsNoLoops = attrContainsNoLoops.defaultValue;\n            ((NL_ViewNode *)node)->eventNotifier = attrEventNotifier.defaultValue;\n            break;\n        }\n        ((NL_ViewNode *)node)->parentNodeId = extractNodedId("),
  "a view with a parent and an event notifier", "the attributes of the view get lost", LOADER, ["node"], {"in.xml": NS(NODE("View", "ns=1;i=1", "1:v", [("i=35", "i=87", False)], "", 'ParentNodeId="i=87" EventNotifier="5" ContainsNoLoops="true"'))})
S("P13-3", "P13", (VA, "        if (!strncmp(name, \"ListOf\", strlen(\"ListOf\")))\n        {\n            val->ctx->state = PARSERSTATE_LISTOF;", "        if (!strncmp(name, \"ListOf\", strlen(\"ListOf\")) && strlen(name) > 10)\n        {\n            val->ctx->state = PARSERSTATE_LISTOF;"),
  "a list of a type with a short name (ListOfByte, ListOfGuid)", "the list is no array", LOADER, ["node", "value"], {"in.xml": NS(VAR("ns=1;i=1", "v", "<ListOfByte><Byte>1</Byte><Byte>2</Byte></ListOfByte>", "i=3", 'ValueRank="1"'))})
S("P13-4", "P13", (VA, "        if (strcmp(name, val->ctx->currentData->name))\n        {\n            break;\n        }", "        if (strcmp(name, val->ctx->currentData->name) ||\n            (val->ctx->currentData->parent && val->isExtensionObject && !value &&\n             val->ctx->currentData->type == DATATYPE_PRIMITIVE &&\n             !strcmp(name, val->ctx->currentData->parent->name)))\n        {\n            break;\n        }"),
  "an empty member of an extension object which is named like the element around it", "the member is not closed, later members end up inside of it", LOADER, ["node", "value"], {"in.xml": NS(VAR("ns=1;i=1", "v", "<ExtensionObject><TypeId><Identifier>i=297</Identifier></TypeId><Body><Node><Node/><Value>4</Value></Node></Body></ExtensionObject>", "i=297"))})
S("P20-3", "P20", (SC, "    else if ((nodesetIdx > 0) && ((size_t)nodesetIdx <= serverContext->namespaceCnt))\n    {\n        return serverContext->namespaceIdxMapping[nodesetIdx - 1];", "    else if ((nodesetIdx > 0) && ((size_t)nodesetIdx <= serverContext->namespaceCnt))\n    {\n        // same uri declared twice\n        for (size_t i = nodesetIdx; i < serverContext->namespaceCnt; i++)\n        {\n            if (serverContext->namespaceIdxMapping[i] < serverContext->namespaceIdxMapping[i - 1])\n                return serverContext->namespaceIdxMapping[i];\n        }\n        return serverContext->namespaceIdxMapping[nodesetIdx - 1];"),
  "a server which knows the second namespace of the file before the first one", "values get the index of the other namespace", "server --ns 2 in.xml", ["value"], {"in.xml": NS(VAR("ns=1;i=1", "v", "<NodeId><Identifier>ns=1;i=7</Identifier></NodeId>", "i=17") + VAR("ns=1;i=2", "w", "<QualifiedName><NamespaceIndex>1</NamespaceIndex><Name>q</Name></QualifiedName>", "i=20"), uris=("urn:new", "urn:pre1"))})
S("P25-3", "P25", (DI, "        if (UA_NodeId_equal(&encodingRefType, &ref->refType))\n        {", "        if (UA_NodeId_equal(&encodingRefType, &ref->refType) && ref->isForward &&\n            ref->target.identifierType == UA_NODEIDTYPE_NUMERIC)\n        {"),
  "a binary encoding node with a string id", "the type has no encoding id", SERVER, ["type"], {"in.xml": NS(DT("ns=1;i=1", "A", "i=22", ['Name="b" DataType="i=3"']) + NODE("Object", "ns=1;s=enc", "Default Binary", [("i=38", "ns=1;i=1", False), ("i=40", "i=76", True)]))})
S("P25-4", "P25", (I_, "        if (UA_NodeId_equal(&r->source, &node->id))\n        {\n            NL_Reference *ref", "        if (UA_NodeId_equal(&r->source, &node->id) && !node->nonHierachicalRefs)\n        {\n            NL_Reference *ref"),
  "a data type with another non-hierarchical reference and an encoding which only refers inversely", "the type has no encoding id", SERVER, ["type", "ref"], {"in.xml": NS('<UADataType NodeId="ns=1;i=1" BrowseName="1:A"><DisplayName>A</DisplayName>' + REFS(("i=45", "i=22", False), ("i=37", "i=80", True)) + '<Definition Name="A"><Field Name="b" DataType="i=3"/></Definition></UADataType>' + NODE("Object", "ns=1;i=5", "Default Binary", [("i=38", "ns=1;i=1", False), ("i=40", "i=76", True)]))})
S("P27-3", "P27", (I_, "    UA_BrowseResult br = UA_Server_browse(server, 10, &bd);\n    if (br.statusCode != UA_STATUSCODE_GOOD || br.referencesSize != 1)", "    UA_BrowseResult br = UA_Server_browse(server, 10, &bd);\n    if (br.statusCode != UA_STATUSCODE_GOOD || br.referencesSize != 1 ||\n        br.references[0].nodeId.nodeId.namespaceIndex != id.namespaceIndex)") if 0 else (I_, "    while (!isKnownParent(current))\n    {\n        UA_NodeId parent = getParentDataType(server, current);", "    // own type, its parent and the parent of that one\n    for (int i = 0; i < 3 && !isKnownParent(current); i++)\n    {\n        UA_NodeId parent = getParentDataType(server, current);"),
  "a data type with more than two own supertypes", "the kind of the type is not found", SERVER, ["type"], {"in.xml": NS("".join(DT("ns=1;i=%d" % i, "T%d" % i, "ns=1;i=%d" % (i - 1) if i > 1 else "i=29", ['Name="a" Value="1"']) for i in range(1, 6)))})
S("P17-5", "P17", (I_, "            const size_t arraySize =\n                node->value->isArray\n                    ? node->value->data->val.complexData.membersSize\n                    : 0;", "            const UA_Byte arraySize =\n                node->value->isArray\n                    ? (UA_Byte)node->value->data->val.complexData.membersSize\n                    : 0;"),
  "an array value of more than 255 elements", "the number of elements is truncated", SERVER, ["value"], {"in.xml": NS(VAR("ns=1;i=1", "v", "<ListOfInt32>%s</ListOfInt32>" % "".join("<Int32>%d</Int32>" % i for i in range(300)), "i=6", 'ValueRank="1"'))})
S("P16-4", "P16", (DI, "        if (!ref->isForward)\n            return ref->target;\n        ref = ref->next;", "        if (!ref->isForward && ref->target.namespaceIndex == node->id.namespaceIndex)\n            return ref->target;\n        ref = ref->next;"),
  "a structure derived from a structure of another namespace", "the inherited members are missing", SERVER, ["type"], {"in.xml": NS(DT("ns=1;i=1", "A", "i=22", ['Name="a" DataType="i=3"']) + DT("ns=2;i=2", "B", "ns=1;i=1", ['Name="b" DataType="i=11"']))})
S("P28-4", "P28", (R_, "            for (size_t i = 0; i < service->hasTypeDefRefs.size; i++) {\n                if (UA_NodeId_equal(&service->hasTypeDefRefs.ids[i], &ref->target)) {", "            for (size_t i = 0; i < service->hasTypeDefRefs.size && isHierachical; i++) {\n                if (UA_NodeId_equal(&service->hasTypeDefRefs.ids[i], &ref->target)) {"),
  "a reference type added below HasTypeDefinition", "references of that type are not taken as type definition", SERVER, ["call", "ref", "load"], {"in.xml": NS('<UAReferenceType NodeId="ns=1;i=5" BrowseName="1:r"><DisplayName>x</DisplayName>%s</UAReferenceType>' % REFS(("i=45", "i=40", False)) + NODE("Object", "ns=1;i=2", "1:a", [("ns=1;i=5", "i=61", True), ("i=47", "i=85", False)]))})
S("P14-3", "P14", (LO, "    case PARSER_STATE_UNKNOWN:\n        pctx->unknown_depth++;\n        break;", "    case PARSER_STATE_UNKNOWN:\n        if (!prefix || !URI || strcmp(URI, \"http://www.w3.org/1999/xhtml\"))\n        {\n            pctx->unknown_depth++;\n        }\n        break;"),
  "an unknown element with embedded xhtml elements", "the unknown element ends too early", LOADER, ["node", "sort", "import"], {"in.xml": NS(NODE("Object", "ns=1;i=1", "1:x", [("i=47", "i=85", False)], '<Documentation2 xmlns:h="http://www.w3.org/1999/xhtml"><h:p>see <h:b>this</h:b></h:p><Description>no</Description></Documentation2><Description>yes</Description>'))})
S("P24-3", "P24", (DN, "    if (node->definition)\n    {", "    if (node->definition && node->definition->fieldCnt)\n    {") if 0 else (AL, "    for(size_t i = 0; i < list->size; i++)\n    {\n        UA_NodeId_clear(&list->data[i].id);\n    }", "    for(size_t i = 0; i < list->size && list->data[i].name; i++)\n    {\n        UA_NodeId_clear(&list->data[i].id);\n    }"),
  "an alias without name in front of an alias of a string id", "the ids of the later aliases are never released", "loader in.xml --leaks", ["leak", "fail"], {"in.xml": NS("", head='<Aliases><Alias>i=1</Alias><Alias Alias="a">ns=1;s=%s</Alias></Aliases>' % ("x" * 40))})
S("P19-4", "P19", (I_, "    const char *subString = strchr(s, ',');\n\n    while (subString != NULL)", "    const char *subString = strchr(s, ',');\n\n    // unknown length at the end\n    while (subString != NULL && strcmp(subString, \",0\"))"),
  "dimensions which end with 0", "the last dimension is missing", SERVER, ["call"], {"in.xml": NS(NODE("Variable", "ns=1;i=1", "1:v", [("i=47", "i=85", False)], "", 'DataType="i=6" ValueRank="2" ArrayDimensions="3,0"'))})
S("P21-4", "P21", (I_, "    if(NodesetLoader_isInstanceNode(node))\n    {\n        parentId = ((const NL_InstanceNode*)node)->parentNodeId;\n    }\n    NL_Reference *ref = getHierachicalInverseReference((const NL_Node *)node);", "    NL_Reference *ref = getHierachicalInverseReference((const NL_Node *)node);\n    // the reference says more than the attribute\n    if(NodesetLoader_isInstanceNode(node) && !(ref && ref->next))\n    {\n        parentId = ((const NL_InstanceNode*)node)->parentNodeId;\n    }"),
  "an instance with a parent id, more than one hierarchical reference", "the parent is not the parent id of the node", SERVER, ["call"], {"in.xml": NS(NODE("Object", "ns=1;i=1", "1:x", [("i=35", "i=86", False), ("i=47", "i=85", False), ("i=35", "i=87", False)], "", 'ParentNodeId="i=85"'))})
S("P09-3", "P09", (IR, "    // we state that we know all references from namespace 0\n    if (ref->refType.namespaceIndex == 0)", "    // we state that we know all references from namespace 0\n    if (ref->refType.namespaceIndex == 0 && ref->refType.identifierType == UA_NODEIDTYPE_NUMERIC &&\n        ref->refType.identifier.numeric != 34)"),
  "a reference of type HasChild (i=34), which is none of the predefined ones", "sorting fails because the type is unknown", LOADER, ["sort", "node"], {"in.xml": NS(NODE("Object", "ns=1;i=1", "1:x", [("i=47", "i=85", False), ("i=34", "i=86", True)]))})
S("P01-3", "P01", (A, "    if (requested > initialArenaSize)\n    {\n        regionSize = requested * 2;", "    // small overhangs do not need a region of their own size\n    if (requested / 2 > initialArenaSize)\n    {\n        regionSize = requested * 2;"),
  "a request between the initial size and twice the initial size", "the block reaches beyond its region", "arena 5", ["fail"])
S("P02-3", "P02", (A, "    if ((arena->current->size + size) > arena->current->capacity)\n    {        \n", "    struct Region *older = arena->current->next;\n    if ((arena->current->size + size) > arena->current->capacity && older &&\n        older->size + size <= older->capacity)\n    {\n        // use what is left of the region before\n        older->userPtr = older->mem + older->size;\n        older->size += size;\n        older->userSize = size;\n        return older->userPtr;\n    }\n    if ((arena->current->size + size) > arena->current->capacity)\n    {        \n"),
  "a full region in front of one with space left, and a block which is grown afterwards", "another block is grown", "arena 3", ["fail"])
S("P03-3", "P03", (LO, "        break;    \n    }\n    pctx->onCharacters = NULL;\n    pctx->onCharLength = 0;\n", "        break;    \n    }\n    if (pctx->state == PARSER_STATE_VALUE && pctx->unknown_depth > 1)\n    {\n        return;\n    }\n    pctx->onCharacters = NULL;\n    pctx->onCharLength = 0;\n"),
  "a value with text in front of a nested element", "the text in front of the element becomes part of its text", LOADER, ["node", "value"], {"in.xml": NS(VAR("ns=1;i=1", "v", "<ListOfInt32>\n  <Int32>1</Int32>\n  <Int32>2</Int32>\n</ListOfInt32>", "i=6", 'ValueRank="1"'))})
S("P05-4", "P05", (NSF, "        ((NL_DataTypeNode *)node)->isAbstract = getAttributeValue(\n            nodeset, &attrIsAbstract, attributes, attributeSize);\n        break;", "        ((NL_DataTypeNode *)node)->isAbstract = getAttributeValue(\n            nodeset, &attrIsAbstract, attributes, attributeSize);\n        if (node->browseName.nsIdx == 0)\n        {\n            break;\n        }\n        // fall through\n"),
  "a data type with a browse name of another namespace", "the attributes of a method are stored into the data type", LOADER, ["node", "def"], {"in.xml": NS(DT("ns=1;i=1", "A", "i=22", ['Name="a" DataType="i=3"']))})
S("P08-3", "P08", (AL, "    for(Alias* alias = list->data; alias != list->data + list->size; alias++) {", "    const Alias *end = list->data + (list->size < MAX_ALIAS ? list->size : MAX_ALIAS);\n    for(Alias* alias = list->data; alias != end; alias++) {"),
  "more aliases than the initial table has entries", "the later aliases are not found", LOADER, ["node", "sort", "import"], {"in.xml": NS(NODE("Object", "ns=1;i=1", "1:x", [("Last", "i=85", False)]), head="<Aliases>" + "".join('<Alias Alias="A%d">i=%d</Alias>' % (i, i) for i in range(1200)) + '<Alias Alias="Last">i=47</Alias></Aliases>')})
S("P09-4", "P09", (IR, "    for (size_t i = 0; i < service->nonHierachicalRefs->size; i++) {\n        if (UA_NodeId_equal(&ref->refType,", "    for (size_t i = service->nonHierachicalRefs->size; i-- > 1;) {\n        if (UA_NodeId_equal(&ref->refType,"),
  "a reference of the first loaded non-hierarchical type", "the type is unknown, sorting fails", LOADER, ["node", "sort"], {"in.xml": NS(NODE("ReferenceType", "ns=1;i=1", "1:a", [("i=45", "i=32", False)]) + NODE("Object", "ns=1;i=3", "1:x", [("i=47", "i=85", False), ("ns=1;i=1", "i=86", True)]))})
S("P10-3", "P10", (NSF, "    if (NODECLASS_VARIABLE == node->nodeClass &&\n", "    if ((NODECLASS_VARIABLE == node->nodeClass || NODECLASS_VARIABLETYPE == node->nodeClass) &&\n"),
  "a variable type with a type definition reference", "the reference is in no list", LOADER, ["node", "sort", "leak"], {"in.xml": NS(NODE("VariableType", "ns=1;i=3", "1:x", [("i=45", "i=63", False), ("i=40", "i=61", True)]))})
S("P11-5", "P11", (SO, "            hierachicalRef = hierachicalRef->next;\n            hierachicalRefRecorded = true;", "            // only a reference from the parent counts\n            hierachicalRefRecorded = hierachicalRefRecorded || !hierachicalRef->isForward;\n            hierachicalRef = hierachicalRef->next;"),
  "an instance with a parent id whose only hierarchical references are forward ones", "a second hierarchical reference is generated", LOADER, ["node", "sort"], {"in.xml": NS(NODE("Object", "ns=1;i=1", "1:x", [("i=47", "ns=1;i=2", True)], "", 'ParentNodeId="i=85"') + NODE("Object", "ns=1;i=2", "1:y", [("i=47", "ns=1;i=1", False)]))})
S("P14-4", "P14", (LO, "    case PARSER_STATE_DATATYPE_DEFINITION_FIELD:\n        enterUnknownState(pctx);\n        break;", "    case PARSER_STATE_DATATYPE_DEFINITION_FIELD:\n        enterUnknownState(pctx);\n        // nothing inside of a field is of interest\n        pctx->prev_state = PARSER_STATE_DATATYPE_DEFINITION;\n        break;"),
  "a field with a nested element which is followed by another field", "the later fields are lost", LOADER, ["node", "def", "field"], {"in.xml": NS('<UADataType NodeId="ns=1;i=1" BrowseName="1:A"><DisplayName>A</DisplayName>' + REFS(("i=45", "i=22", False)) + '<Definition Name="A"><Field Name="a" DataType="i=3"><Description>x</Description></Field><Field Name="b" DataType="i=4"/><Field Name="c" DataType="i=5"/></Definition></UADataType>')})
S("P15-4", "P15", (NSF, "        char *isOptional = getAttributeValue(nodeset, &dataTypeField_IsOptional,\n                                             attributes, attributeSize);", "        // empty arrays need no flag\n        char *isOptional = newField->valueRank > 0 ? \"false\" : getAttributeValue(nodeset, &dataTypeField_IsOptional,\n                                             attributes, attributeSize);"),
  "an optional field which is an array", "the optional flag of the field is lost", LOADER, ["node", "def", "field"], {"in.xml": NS(DT("ns=1;i=1", "A", "i=22", ['Name="a" DataType="i=3"', 'Name="b" DataType="i=4" ValueRank="1" IsOptional="true"']))})
S("P23-3", "P23", (LO, "                            NODESETLOADER_LOGLEVEL_ERROR, \"xml parsing error\");\n        retStatus = false;", "                            NODESETLOADER_LOGLEVEL_ERROR, \"xml parsing error\");\n        // everything was read if no element is open\n        retStatus = ctx->state == PARSER_STATE_INIT && ctx->ref != NULL;"),
  "an XML error behind the last node", "the import succeeds", LOADER, ["import"], {"in.xml": NS(NODE("Object", "ns=1;i=1", "1:x", [("i=47", "i=85", False)])).replace("</UANodeSet>", "</UANodeSe>")})
S("P24-4", "P24", (NSF, "        UA_NodeId_clear(&ref->source);\n        UA_NodeId_clear(&ref->target);\n        UA_NodeId_clear(&ref->refType);\n        free(ref);", "        UA_NodeId_clear(&ref->source);\n        UA_NodeId_clear(&ref->refType);\n        free(ref);"),
  "an encoding node with a string id", "the id in the list of encodings is not released", LOADER, ["leak", "node"], {"in.xml": NS(NODE("Object", "ns=1;s=enc", "Default Binary", [("i=38", "ns=1;i=1", False), ("i=40", "i=76", True)]))})
