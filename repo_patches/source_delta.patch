From 4984ceec3dad75b44152edfb5322f48c9e93673d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:37 +0000
Subject: [PATCH 01/42] fix: grow the alias table instead of rejecting aliases
 beyond the 300th

---
 src/AliasList.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/AliasList.c b/src/AliasList.c
index f187ad6..687a61d 100644
--- a/src/AliasList.c
+++ b/src/AliasList.c
@@ -15,6 +15,7 @@ struct AliasList
 {
     Alias *data;
     size_t size;
+    size_t capacity;
 };
 
 AliasList *AliasList_new(void)
@@ -30,14 +31,22 @@ AliasList *AliasList_new(void)
         free(list);
         return NULL;
     }
+    list->capacity = MAX_ALIAS;
     return list;
 }
 
 Alias *AliasList_newAlias(AliasList *list, char *name)
 {
-    if(list->size >= MAX_ALIAS)
+    if(list->size >= list->capacity)
     {
-        return NULL;
+        Alias *data = (Alias *)realloc(
+            list->data, (list->capacity + MAX_ALIAS) * sizeof(Alias));
+        if(!data)
+        {
+            return NULL;
+        }
+        list->data = data;
+        list->capacity += MAX_ALIAS;
     }
     list->data[list->size].name = name;
     UA_NodeId_init(&list->data[list->size].id);
-- 
2.43.0


From 3339663fd6b5dc2ce13b2b36661cbe4b633d4deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:37 +0000
Subject: [PATCH 02/42] fix: tolerate Alias elements without an Alias attribute

---
 src/AliasList.c | 2 +-
 src/Nodeset.c   | 4 ++++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/AliasList.c b/src/AliasList.c
index 687a61d..6acd114 100644
--- a/src/AliasList.c
+++ b/src/AliasList.c
@@ -60,7 +60,7 @@ const UA_NodeId *
         return NULL;
 
     for(Alias* alias = list->data; alias != list->data + list->size; alias++) {
-        if (!strcmp(name, alias->name))
+        if (alias->name && !strcmp(name, alias->name))
             return &alias->id;
     }
     return NULL;
diff --git a/src/Nodeset.c b/src/Nodeset.c
index a3b3c88..3a2050f 100644
--- a/src/Nodeset.c
+++ b/src/Nodeset.c
@@ -483,6 +483,10 @@ Alias *Nodeset_newAlias(Nodeset *nodeset, int attributeSize,
 
 void Nodeset_newAliasFinish(Nodeset *nodeset, Alias *alias, char *idString)
 {
+    if (!alias)
+    {
+        return;
+    }
     alias->id = extractNodedId(nodeset->namespaces, idString);
 }
 
-- 
2.43.0


From ecfd2ed0a738c65f5231926423dd3d88093c17f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:37 +0000
Subject: [PATCH 03/42] fix: copy node ids out of the alias table instead of
 sharing their string memory

---
 src/AliasList.c | 4 ++++
 src/Nodeset.c   | 4 +++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/AliasList.c b/src/AliasList.c
index 6acd114..35b62d0 100644
--- a/src/AliasList.c
+++ b/src/AliasList.c
@@ -68,6 +68,10 @@ const UA_NodeId *
 
 void AliasList_delete(AliasList *list)
 {
+    for(size_t i = 0; i < list->size; i++)
+    {
+        UA_NodeId_clear(&list->data[i].id);
+    }
     free(list->data);
     free(list);
 }
diff --git a/src/Nodeset.c b/src/Nodeset.c
index 3a2050f..764afd9 100644
--- a/src/Nodeset.c
+++ b/src/Nodeset.c
@@ -150,7 +150,9 @@ static UA_NodeId alias2Id(const Nodeset *nodeset, char *name)
     {
         return extractNodedId(nodeset->namespaces, name);
     }
-    return *alias;
+    UA_NodeId id = UA_NODEID_NULL;
+    UA_NodeId_copy(alias, &id);
+    return id;
 }
 
 Nodeset *Nodeset_new(NL_addNamespaceCallback nsCallback,
-- 
2.43.0


From 77fa07b3c4b59b386f01916d18a502dd0be10f51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:33 +0000
Subject: [PATCH 04/42] fix: resolve and register deferred reference types,
 abort the sort when that is impossible

---
 src/Nodeset.c | 69 ++++++++++++++++++++++++++++++++++-----------------
 1 file changed, 46 insertions(+), 23 deletions(-)

diff --git a/src/Nodeset.c b/src/Nodeset.c
index 764afd9..bfcd423 100644
--- a/src/Nodeset.c
+++ b/src/Nodeset.c
@@ -218,50 +218,73 @@ static bool lookupUnknownReferences(Nodeset *nodeset, NL_Node *node)
     return true;
 }
 
-static void lookupReferenceTypes(Nodeset *nodeset)
+static void logUnresolvedReference(Nodeset *nodeset, const NL_Node *node)
 {
-    bool allRefTypesKnown = false;
-    while (!allRefTypesKnown)
+    UA_String nodeIdStr = {0};
+    UA_NodeId_print(&node->id, &nodeIdStr);
+    nodeset->logger->log(nodeset->logger->context, NODESETLOADER_LOGLEVEL_ERROR,
+                         "node with unresolved reference(s): NodeId(%.*s)",
+                         (int)nodeIdStr.length, (char *)nodeIdStr.data);
+    UA_String_clear(&nodeIdStr);
+}
+
+static bool lookupReferenceTypes(Nodeset *nodeset)
+{
+    NodeContainer *refTypes = nodeset->refTypesWithUnknownRefs;
+    // a resolved reference type can help to resolve other ones, so try again as
+    // long as there is some progress
+    bool progress = true;
+    while (progress)
     {
-        allRefTypesKnown = true;
-        for (size_t i = 0; i < nodeset->refTypesWithUnknownRefs->size; i++)
+        progress = false;
+        for (size_t i = 0; i < refTypes->size; i++)
         {
-            allRefTypesKnown = lookupUnknownReferences(
-                nodeset, nodeset->refTypesWithUnknownRefs->nodes[i]);
+            NL_Node *node = refTypes->nodes[i];
+            if (!node || !lookupUnknownReferences(nodeset, node))
+            {
+                continue;
+            }
+            refTypes->nodes[i] = NULL;
+            Nodeset_newNodeFinish(nodeset, node);
+            progress = true;
         }
     }
 
-    for (size_t i = 0; i < nodeset->refTypesWithUnknownRefs->size; i++)
+    for (size_t i = 0; i < refTypes->size; i++)
     {
-        Sort_addNode(nodeset->sortCtx,
-                     nodeset->refTypesWithUnknownRefs->nodes[i]);
+        if (refTypes->nodes[i])
+        {
+            logUnresolvedReference(nodeset, refTypes->nodes[i]);
+            return false;
+        }
     }
+    return true;
 }
 
 bool Nodeset_sort(Nodeset *nodeset)
 {
     // first we have to figure out, if there are reference types, for which we
     // cannot state if they are hierachical or nonhierachical
-    lookupReferenceTypes(nodeset);
+    if (!lookupReferenceTypes(nodeset))
+    {
+        return false;
+    }
     // all hierachical references of a node should be known at this point
     // if there are nodes with unknown references, the import will be aborted
     for (size_t i = 0; i < nodeset->nodesWithUnknownRefs->size; i++)
     {
-        bool result = lookupUnknownReferences(
-            nodeset, nodeset->nodesWithUnknownRefs->nodes[i]);
-        if (!result)
+        NL_Node *node = nodeset->nodesWithUnknownRefs->nodes[i];
+        if (!node)
+        {
+            continue;
+        }
+        if (!lookupUnknownReferences(nodeset, node))
         {
-            UA_String nodeIdStr = {0};
-            UA_NodeId_print(&nodeset->nodesWithUnknownRefs->nodes[i]->id,
-                            &nodeIdStr);
-            nodeset->logger->log(
-                nodeset->logger->context, NODESETLOADER_LOGLEVEL_ERROR,
-                "node with unresolved reference(s): NodeId(%.*s)",
-                (int)nodeIdStr.length, (char *)nodeIdStr.data);
-            UA_String_clear(&nodeIdStr);
+            logUnresolvedReference(nodeset, node);
             return false;
         }
-        Sort_addNode(nodeset->sortCtx, nodeset->nodesWithUnknownRefs->nodes[i]);
+        nodeset->nodesWithUnknownRefs->nodes[i] = NULL;
+        Nodeset_newNodeFinish(nodeset, node);
     }
 
     return Sort_start(nodeset->sortCtx, nodeset, Nodeset_addNode,
-- 
2.43.0


From 87e6ef0d7d40be166d3d5b7b36e0e0ccdd03a7d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:14 +0000
Subject: [PATCH 05/42] fix: release all references and node ids of a node,
 initialize new definition fields

---
 src/Nodeset.c            |  2 ++
 src/nodes/DataTypeNode.c | 10 +++++++++-
 src/nodes/Node.c         | 18 ++++++++++++++++--
 3 files changed, 27 insertions(+), 3 deletions(-)

diff --git a/src/Nodeset.c b/src/Nodeset.c
index bfcd423..ce44046 100644
--- a/src/Nodeset.c
+++ b/src/Nodeset.c
@@ -466,6 +466,7 @@ NL_Reference *Nodeset_newReference(Nodeset *nodeset, NL_Node *node,
         nodeset->refService->isHasTypeDefRef(nodeset->refService->context,
                                              newRef))
     {
+        newRef->next = ((NL_VariableNode *)node)->refToTypeDef;
         ((NL_VariableNode *)node)->refToTypeDef = newRef;
         return newRef;
     }
@@ -474,6 +475,7 @@ NL_Reference *Nodeset_newReference(Nodeset *nodeset, NL_Node *node,
         nodeset->refService->isHasTypeDefRef(nodeset->refService->context,
                                              newRef))
     {
+        newRef->next = ((NL_ObjectNode *)node)->refToTypeDef;
         ((NL_ObjectNode *)node)->refToTypeDef = newRef;
         return newRef;
     }
diff --git a/src/nodes/DataTypeNode.c b/src/nodes/DataTypeNode.c
index c2343e7..0c48872 100644
--- a/src/nodes/DataTypeNode.c
+++ b/src/nodes/DataTypeNode.c
@@ -7,6 +7,7 @@
 
 #include "DataTypeNode.h"
 #include <stdlib.h>
+#include <string.h>
 
 static NL_DataTypeDefinitionField *getNewField(NL_DataTypeDefinition *definition)
 {
@@ -18,7 +19,10 @@ static NL_DataTypeDefinitionField *getNewField(NL_DataTypeDefinition *definition
     {
         return NULL;
     }
-    return &definition->fields[definition->fieldCnt - 1];
+    NL_DataTypeDefinitionField *newField =
+        &definition->fields[definition->fieldCnt - 1];
+    memset(newField, 0, sizeof(NL_DataTypeDefinitionField));
+    return newField;
 }
 
 NL_DataTypeDefinition* DataTypeDefinition_new(NL_DataTypeNode* node)
@@ -41,6 +45,10 @@ void DataTypeNode_clear(NL_DataTypeNode *node)
 {
     if (node->definition)
     {
+        for (size_t i = 0; i < node->definition->fieldCnt; i++)
+        {
+            UA_NodeId_clear(&node->definition->fields[i].dataType);
+        }
         free(node->definition->fields);
     }
     free(node->definition);
diff --git a/src/nodes/Node.c b/src/nodes/Node.c
index f494a80..ba25b5d 100644
--- a/src/nodes/Node.c
+++ b/src/nodes/Node.c
@@ -61,9 +61,14 @@ static void deleteRef(NL_Reference *ref)
 
 void Node_delete(NL_Node *node)
 {
+    if (!node)
+    {
+        return;
+    }
     UA_NodeId_clear(&node->id);
     deleteRef(node->hierachicalRefs);
     deleteRef(node->nonHierachicalRefs);
+    deleteRef(node->unknownRefs);
     if (node->nodeClass == NODECLASS_DATATYPE)
     {
         DataTypeNode_clear((NL_DataTypeNode *)node);
@@ -71,8 +76,9 @@ void Node_delete(NL_Node *node)
     if(node->nodeClass == NODECLASS_VARIABLE)
     {
         NL_VariableNode* varNode = (NL_VariableNode*)node;
-        free(varNode->refToTypeDef);
+        deleteRef(varNode->refToTypeDef);
         UA_NodeId_clear(&varNode->parentNodeId);
+        UA_NodeId_clear(&varNode->datatype);
         if(varNode->value)
         {
             Value_delete(varNode->value);
@@ -82,7 +88,15 @@ void Node_delete(NL_Node *node)
     {
         NL_ObjectNode *objNode = (NL_ObjectNode *)node;
         UA_NodeId_clear(&objNode->parentNodeId);
-        free(objNode->refToTypeDef);
+        deleteRef(objNode->refToTypeDef);
+    }
+    if(node->nodeClass == NODECLASS_METHOD || node->nodeClass == NODECLASS_VIEW)
+    {
+        UA_NodeId_clear(&((NL_InstanceNode *)node)->parentNodeId);
+    }
+    if(node->nodeClass == NODECLASS_VARIABLETYPE)
+    {
+        UA_NodeId_clear(&((NL_VariableTypeNode *)node)->datatype);
     }
     free(node);
 }
-- 
2.43.0


From 3adb87855faa848d24353910e3b1b4f51c188547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:14 +0000
Subject: [PATCH 06/42] fix: release nodes and values which are unfinished or
 unsorted when the loader is deleted

---
 src/Nodeset.c       |  7 +++++--
 src/NodesetLoader.c | 21 ++++++++++++++++++++-
 src/Sort.c          | 21 +++++++++++++++++++++
 src/Sort.h          |  3 +++
 4 files changed, 49 insertions(+), 3 deletions(-)

diff --git a/src/Nodeset.c b/src/Nodeset.c
index ce44046..287d402 100644
--- a/src/Nodeset.c
+++ b/src/Nodeset.c
@@ -175,8 +175,8 @@ Nodeset *Nodeset_new(NL_addNamespaceCallback nsCallback,
     nodeset->nodes[NODECLASS_REFERENCETYPE] = NodeContainer_new(100, true);
     nodeset->nodes[NODECLASS_VARIABLETYPE] = NodeContainer_new(100, true);
     nodeset->nodes[NODECLASS_VIEW] = NodeContainer_new(10, true);
-    nodeset->nodesWithUnknownRefs = NodeContainer_new(100, false);
-    nodeset->refTypesWithUnknownRefs = NodeContainer_new(100, false);
+    nodeset->nodesWithUnknownRefs = NodeContainer_new(100, true);
+    nodeset->refTypesWithUnknownRefs = NodeContainer_new(100, true);
     nodeset->refService = refService;
     nodeset->sortCtx = Sort_init();
     nodeset->logger = logger;
@@ -295,6 +295,9 @@ void Nodeset_cleanup(Nodeset *nodeset)
 {
     CharArenaAllocator_delete(nodeset->charArena);
     AliasList_delete(nodeset->aliasList);
+    // nodes which were never emitted by the sorting algorithm have to be
+    // released as well
+    Sort_forEachPending(nodeset->sortCtx, nodeset, Nodeset_addNode);
     for (size_t cnt = 0; cnt < NL_NODECLASS_COUNT; cnt++)
     {
         NodeContainer_delete(nodeset->nodes[cnt]);
diff --git a/src/NodesetLoader.c b/src/NodesetLoader.c
index 4e80577..15c8e2d 100644
--- a/src/NodesetLoader.c
+++ b/src/NodesetLoader.c
@@ -10,6 +10,7 @@
 #include "Nodeset.h"
 #include "Parser.h"
 #include "Value.h"
+#include "nodes/Node.h"
 #include <assert.h>
 #include <stdlib.h>
 #include <string.h>
@@ -345,6 +346,7 @@ static void OnEndElementNs(void *ctx, const char *localname, const char *prefix,
         break;
     case PARSER_STATE_NODE:
         Nodeset_newNodeFinish(pctx->nodeset, pctx->node);
+        pctx->node = NULL;
         pctx->state = PARSER_STATE_INIT;
         break;
     case PARSER_STATE_DISPLAYNAME:
@@ -367,7 +369,15 @@ static void OnEndElementNs(void *ctx, const char *localname, const char *prefix,
         {
             /* TODO: Enable VariableType to hold a valeu */
             if(pctx->node->nodeClass == NODECLASS_VARIABLE)
-                ((NL_VariableNode *)pctx->node)->value = pctx->val;
+            {
+                NL_VariableNode *varNode = (NL_VariableNode *)pctx->node;
+                if(varNode->value)
+                    Value_delete(varNode->value);
+                varNode->value = pctx->val;
+            }
+            else
+                Value_delete(pctx->val);
+            pctx->val = NULL;
             pctx->state = PARSER_STATE_NODE;
         }
         else
@@ -502,6 +512,15 @@ bool NodesetLoader_importFile(NodesetLoader *loader,
         retStatus = false;
     }
     Parser_delete(parser);
+    // a parsing error can leave an unfinished node and value behind
+    if (ctx->val)
+    {
+        Value_delete(ctx->val);
+    }
+    if (ctx->node)
+    {
+        Node_delete(ctx->node);
+    }
 
 cleanup:
     free(ctx);
diff --git a/src/Sort.c b/src/Sort.c
index 9ee81c3..5d73261 100644
--- a/src/Sort.c
+++ b/src/Sort.c
@@ -240,6 +240,27 @@ static void walk_tree(SortContext *ctx, S_Node *rootNode,
         recurse_tree(ctx, rootNode->right, action);
 }
 
+static void forEachPending(S_Node *n, struct Nodeset *nodeset,
+                           Sort_SortedNodeCallback callback)
+{
+    if (!n)
+    {
+        return;
+    }
+    forEachPending(n->left, nodeset, callback);
+    if (n->id && n->data)
+    {
+        callback(nodeset, n->data);
+    }
+    forEachPending(n->right, nodeset, callback);
+}
+
+void Sort_forEachPending(SortContext *ctx, struct Nodeset *nodeset,
+                         Sort_SortedNodeCallback callback)
+{
+    forEachPending(ctx->root1, nodeset, callback);
+}
+
 SortContext *Sort_init(void)
 {
     SortContext *ctx = (SortContext *)calloc(1, sizeof(SortContext));
diff --git a/src/Sort.h b/src/Sort.h
index 047172f..5685607 100644
--- a/src/Sort.h
+++ b/src/Sort.h
@@ -24,6 +24,9 @@ SortContext* Sort_init(void);
 void Sort_cleanup(SortContext * ctx);
 bool Sort_addNode(SortContext* ctx, struct NL_Node *node);
 typedef void (*Sort_SortedNodeCallback)(struct Nodeset *nodeset, struct NL_Node *node);
+// calls back for every added node which was not emitted by Sort_start
+void Sort_forEachPending(SortContext *ctx, struct Nodeset *nodeset,
+                         Sort_SortedNodeCallback callback);
 bool Sort_start(SortContext* ctx, struct Nodeset *nodeset, Sort_SortedNodeCallback callback, struct NodesetLoader_Logger* logger);
 
 #ifdef __cplusplus
-- 
2.43.0


From cdf5d132cc1dbab642c4ce55fbc9049e9b026223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:52 +0000
Subject: [PATCH 07/42] fix: keep the hierarchical reference types per service
 instance and let the table grow

---
 src/InternalRefService.c | 43 ++++++++++++++++++++++++++++++++--------
 1 file changed, 35 insertions(+), 8 deletions(-)

diff --git a/src/InternalRefService.c b/src/InternalRefService.c
index 45e2f2c..43fe49b 100644
--- a/src/InternalRefService.c
+++ b/src/InternalRefService.c
@@ -9,18 +9,20 @@
 #include "nodes/NodeContainer.h"
 #include "NodesetLoader/NodesetLoader.h"
 #include <stdlib.h>
+#include <string.h>
 
 struct InternalRefService
 {
     size_t hierachicalRefsSize;
+    size_t hierachicalRefsCapacity;
     NL_ReferenceTypeNode *hierachicalRefs;
     struct NodeContainer *nonHierachicalRefs;
 };
 
 typedef struct InternalRefService InternalRefService;
 
-#define MAX_HIERACHICAL_REFS 50
-NL_ReferenceTypeNode hierachicalRefs[MAX_HIERACHICAL_REFS] = {
+#define INITIAL_HIERACHICAL_REFS 9
+static const NL_ReferenceTypeNode initialHierachicalRefs[INITIAL_HIERACHICAL_REFS] = {
     {NODECLASS_REFERENCETYPE,
      {0, UA_NODEIDTYPE_NUMERIC, {35}},
      {0, "Organizes"},
@@ -164,17 +166,30 @@ isRefTypeDef(const InternalRefService* service, const NL_Reference* ref) {
     return UA_NodeId_equal(&ref->refType, &hasTypeDefId);
 }
 
+static bool
+addHierachicalRef(InternalRefService *service, const NL_ReferenceTypeNode *node) {
+    if (service->hierachicalRefsSize == service->hierachicalRefsCapacity) {
+        size_t newCapacity = service->hierachicalRefsCapacity * 2;
+        NL_ReferenceTypeNode *newRefs = (NL_ReferenceTypeNode *)realloc(
+            service->hierachicalRefs, newCapacity * sizeof(NL_ReferenceTypeNode));
+        if (!newRefs)
+            return false;
+        service->hierachicalRefs = newRefs;
+        service->hierachicalRefsCapacity = newCapacity;
+    }
+    service->hierachicalRefs[service->hierachicalRefsSize++] = *node;
+    return true;
+}
+
 static void
 addnewRefTypeImpl(InternalRefService *service, NL_ReferenceTypeNode *node) {
     NL_Reference *ref = node->hierachicalRefs;
     bool isHierachical = false;
-    while (ref) {
+    while (ref && !isHierachical) {
         if (!ref->isForward) {
             for (size_t i = 0; i < service->hierachicalRefsSize; i++) {
                 if (UA_NodeId_equal(&service->hierachicalRefs[i].id, &ref->target)) {
-                    service->hierachicalRefs[service->hierachicalRefsSize++] =
-                        *(NL_ReferenceTypeNode *)node;
-                    isHierachical = true;
+                    isHierachical = addHierachicalRef(service, node);
                     break;
                 }
             }
@@ -194,13 +209,24 @@ NL_ReferenceService *InternalRefService_new(void)
     {
         return NULL;
     }
-    service->hierachicalRefs = hierachicalRefs;
-    service->hierachicalRefsSize = 9;
+    service->hierachicalRefs = (NL_ReferenceTypeNode *)malloc(
+        INITIAL_HIERACHICAL_REFS * sizeof(NL_ReferenceTypeNode));
+    if(!service->hierachicalRefs)
+    {
+        free(service);
+        return NULL;
+    }
+    memcpy(service->hierachicalRefs, initialHierachicalRefs,
+           sizeof(initialHierachicalRefs));
+    service->hierachicalRefsSize = INITIAL_HIERACHICAL_REFS;
+    service->hierachicalRefsCapacity = INITIAL_HIERACHICAL_REFS;
     service->nonHierachicalRefs = NodeContainer_new(100, false);
 
     NL_ReferenceService *refService = (NL_ReferenceService *)calloc(1, sizeof(NL_ReferenceService));
     if(!refService)
     {
+        NodeContainer_delete(service->nonHierachicalRefs);
+        free(service->hierachicalRefs);
         free(service);
         return NULL;
     }
@@ -220,6 +246,7 @@ void InternalRefService_delete(NL_ReferenceService *refService)
     InternalRefService *internalService =
         (InternalRefService *)refService->context;
     NodeContainer_delete(internalService->nonHierachicalRefs);
+    free(internalService->hierachicalRefs);
     free(internalService);
     free(refService);
 }
-- 
2.43.0


From 14b31370d18e08555b4565c5db30a90271d6f5c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:52 +0000
Subject: [PATCH 08/42] fix: do not grow the reference type tables while
 searching them

---
 backends/open62541/src/RefServiceImpl.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/backends/open62541/src/RefServiceImpl.c b/backends/open62541/src/RefServiceImpl.c
index f018c00..af083c0 100644
--- a/backends/open62541/src/RefServiceImpl.c
+++ b/backends/open62541/src/RefServiceImpl.c
@@ -131,11 +131,14 @@ static void addnewRefType(RefServiceImpl *service, NL_ReferenceTypeNode *node)
                 if (UA_NodeId_equal(&service->hierachicalRefs.ids[i], &ref->target)) {
                     addToRefs(&service->hierachicalRefs, node->id);
                     isHierachical = true;
+                    break;
                 }
             }
             for (size_t i = 0; i < service->hasTypeDefRefs.size; i++) {
-                if (UA_NodeId_equal(&service->hasTypeDefRefs.ids[i], &ref->target))
+                if (UA_NodeId_equal(&service->hasTypeDefRefs.ids[i], &ref->target)) {
                     addToRefs(&service->hasTypeDefRefs, node->id);
+                    break;
+                }
             }
         }
         ref = ref->next;
-- 
2.43.0


From 441ec68f66d65d24987b7dafd0c21d79506f72d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:52 +0000
Subject: [PATCH 09/42] fix: report XML errors found at the end of the document
 and release the parser context

---
 src/Parser.c | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/Parser.c b/src/Parser.c
index aa5bf27..9cf1de0 100644
--- a/src/Parser.c
+++ b/src/Parser.c
@@ -46,17 +46,28 @@ int Parser_run(Parser *parser, FILE *file, Parser_callbackStart start,
     xmlInitParser(); // Fix memory leak: https://gitlab.gnome.org/GNOME/libxml2/-/issues/9
     xmlParserCtxtPtr ctxt =
         xmlCreatePushParserCtxt(&hdl, parser->context, chars, res, NULL);
+    if (!ctxt)
+    {
+        return 1;
+    }
     while ((res = (int)fread(chars, 1, sizeof(chars), file)) > 0)
     {
         if (xmlParseChunk(ctxt, chars, res, 0))
         {
             xmlParserError(ctxt, "xmlParseChunk");
+            xmlFreeParserCtxt(ctxt);
+            xmlCleanupParser();
             return 1;
         }
     }
-    xmlParseChunk(ctxt, chars, 0, 1);
+    int status = 0;
+    if (ferror(file) || xmlParseChunk(ctxt, chars, 0, 1))
+    {
+        xmlParserError(ctxt, "xmlParseChunk");
+        status = 1;
+    }
     xmlFreeParserCtxt(ctxt);
     xmlCleanupParser();
-    return 0;
+    return status;
 }
 void Parser_delete(Parser *parser) { free(parser); }
-- 
2.43.0


From c02039e9aeae55bb77bf0b5c5b2e96adb3b8adeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:09 +0000
Subject: [PATCH 10/42] fix: replace the root of a value consistently when a
 Value has several top level elements

---
 src/Value.c | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/src/Value.c b/src/Value.c
index c14153b..216b729 100644
--- a/src/Value.c
+++ b/src/Value.c
@@ -43,6 +43,17 @@ static NL_Data *addNewMember(NL_Data *parent, const char *name)
     return newData;
 }
 
+static void Data_clear(NL_Data *data);
+
+// a value has only one root, an already existing one is replaced
+static void setRootData(NL_Value *val, NL_Data *root, bool isArray)
+{
+    Data_clear(val->data);
+    val->data = root;
+    val->isArray = isArray;
+    val->ctx->currentData = root;
+}
+
 void Value_start(NL_Value *val, const char *name)
 {
     switch (val->ctx->state)
@@ -51,9 +62,8 @@ void Value_start(NL_Value *val, const char *name)
         if (!strncmp(name, "ListOf", strlen("ListOf")))
         {
             val->ctx->state = PARSERSTATE_LISTOF;
-            val->isArray = true;
-            val->data = newData(name, DATATYPE_COMPLEX);
-            val->ctx->currentData = val->data;
+            val->isExtensionObject = false;
+            setRootData(val, newData(name, DATATYPE_COMPLEX), true);
         }
         else if (!strcmp(name, "ExtensionObject"))
         {
@@ -63,8 +73,8 @@ void Value_start(NL_Value *val, const char *name)
         else
         {
             val->type = name;
-            val->data = newData(name, DATATYPE_PRIMITIVE);
-            val->ctx->currentData = val->data;
+            val->isExtensionObject = false;
+            setRootData(val, newData(name, DATATYPE_PRIMITIVE), false);
             val->ctx->state = PARSERSTATE_DATA;
         }
         break;
@@ -100,8 +110,7 @@ void Value_start(NL_Value *val, const char *name)
         val->ctx->state = PARSERSTATE_DATA;
         if (!val->ctx->currentData)
         {
-            val->data = newData(name, DATATYPE_COMPLEX);
-            val->ctx->currentData = val->data;
+            setRootData(val, newData(name, DATATYPE_COMPLEX), false);
         }
         else
         {
@@ -116,8 +125,7 @@ void Value_start(NL_Value *val, const char *name)
     case PARSERSTATE_DATA:
         if (!val->ctx->currentData)
         {
-            val->data = newData(name, DATATYPE_PRIMITIVE);
-            val->ctx->currentData = val->data;
+            setRootData(val, newData(name, DATATYPE_PRIMITIVE), false);
         }
         else
         {
@@ -211,8 +219,6 @@ void Value_end(NL_Value *val, const char *name, const char *value)
         break;
     }
 }
-static void Data_clear(NL_Data *data);
-
 static void PrimitiveData_clear(NL_Data *data)
 {
     // free(data);
-- 
2.43.0


From 8b36255683a3f30c51d9a9bf7e3498b86dae1613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:09 +0000
Subject: [PATCH 11/42] fix: tolerate HasEncoding references on nodes without a
 browse name

---
 src/Nodeset.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Nodeset.c b/src/Nodeset.c
index 287d402..b71f497 100644
--- a/src/Nodeset.c
+++ b/src/Nodeset.c
@@ -570,6 +570,7 @@ void Nodeset_newReferenceFinish(Nodeset *nodeset, NL_Reference *ref,
     // handle hasEncoding in a special way
     UA_NodeId hasEncodingRef = UA_NODEID("i=38");
     if (UA_NodeId_equal(&ref->refType, &hasEncodingRef) &&
+        node->browseName.name &&
         !strcmp(node->browseName.name, "Default Binary") && !ref->isForward)
     {
         NL_BiDirectionalReference *newRef = (NL_BiDirectionalReference *)calloc(
-- 
2.43.0


From ab69f1ec414a933e5b3bc2c20fa1869720f377fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:09 +0000
Subject: [PATCH 12/42] fix: ignore a Definition on nodes which are no data
 types

---
 src/Nodeset.c | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/Nodeset.c b/src/Nodeset.c
index b71f497..09aea9f 100644
--- a/src/Nodeset.c
+++ b/src/Nodeset.c
@@ -588,8 +588,18 @@ void Nodeset_newReferenceFinish(Nodeset *nodeset, NL_Reference *ref,
 void Nodeset_addDataTypeDefinition(Nodeset *nodeset, NL_Node *node,
                                    int attributeSize, const char **attributes)
 {
+    if (node->nodeClass != NODECLASS_DATATYPE)
+    {
+        return;
+    }
     NL_DataTypeNode *dataTypeNode = (NL_DataTypeNode *)node;
+    // a repeated definition replaces the former one
+    DataTypeNode_clear(dataTypeNode);
     NL_DataTypeDefinition *def = DataTypeDefinition_new(dataTypeNode);
+    if (!def)
+    {
+        return;
+    }
     def->isUnion =
         !strcmp("true", getAttributeValue(nodeset, &dataTypeDefinition_IsUnion,
                                           attributes, attributeSize));
@@ -601,8 +611,12 @@ void Nodeset_addDataTypeDefinition(Nodeset *nodeset, NL_Node *node,
 void Nodeset_addDataTypeField(Nodeset *nodeset, NL_Node *node,
                               int attributeSize, const char **attributes)
 {
+    if (node->nodeClass != NODECLASS_DATATYPE)
+    {
+        return;
+    }
     NL_DataTypeNode *dataTypeNode = (NL_DataTypeNode *)node;
-    if (dataTypeNode->definition->isOptionSet)
+    if (!dataTypeNode->definition || dataTypeNode->definition->isOptionSet)
     {
         return;
     }
-- 
2.43.0


From 9a5220b68d74b70d51514f45ed2766faec8374ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:09 +0000
Subject: [PATCH 13/42] fix: allow to use and delete a loader which has not
 imported any file

---
 src/NodesetLoader.c | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/NodesetLoader.c b/src/NodesetLoader.c
index 15c8e2d..03dd5f1 100644
--- a/src/NodesetLoader.c
+++ b/src/NodesetLoader.c
@@ -533,6 +533,10 @@ cleanup:
 
 bool NodesetLoader_sort(NodesetLoader *loader)
 {
+    if (!loader->nodeset)
+    {
+        return false;
+    }
     return Nodeset_sort(loader->nodeset);
 }
 
@@ -567,7 +571,10 @@ NodesetLoader *NodesetLoader_new(NodesetLoader_Logger *logger,
 
 void NodesetLoader_delete(NodesetLoader *loader)
 {
-    Nodeset_cleanup(loader->nodeset);
+    if (loader->nodeset)
+    {
+        Nodeset_cleanup(loader->nodeset);
+    }
     if (loader->internalLogger)
     {
         free(loader->logger);
@@ -582,6 +589,10 @@ void NodesetLoader_delete(NodesetLoader *loader)
 const NL_BiDirectionalReference *
 NodesetLoader_getBidirectionalRefs(const NodesetLoader *loader)
 {
+    if (!loader->nodeset)
+    {
+        return NULL;
+    }
     return Nodeset_getBiDirectionalRefs(loader->nodeset);
 }
 
@@ -589,5 +600,9 @@ size_t NodesetLoader_forEachNode(NodesetLoader *loader, NL_NodeClass nodeClass,
                                void *context,
                                NodesetLoader_forEachNode_Func fn)
 {
+    if (!loader->nodeset)
+    {
+        return 0;
+    }
     return Nodeset_forEachNode(loader->nodeset, nodeClass, context, fn);
 }
-- 
2.43.0


From 1fe5b330051135b9f0c6a5bb0f399c4418478a8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:37 +0000
Subject: [PATCH 14/42] fix: reject base64 strings with an incomplete group
 instead of returning uninitialized bytes

---
 backends/open62541/src/nodeset_base64.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/backends/open62541/src/nodeset_base64.h b/backends/open62541/src/nodeset_base64.h
index 8af13a6..eb5ebbe 100644
--- a/backends/open62541/src/nodeset_base64.h
+++ b/backends/open62541/src/nodeset_base64.h
@@ -136,7 +136,7 @@ unsigned char *unbase64(const char *ascii, int len, int *flen)
     for (charNo = 0; charNo < len; charNo++)
     {
         // remove all space characters e.g. LF, CR, space and tab
-        if (!isspace(ascii[charNo]))
+        if (!isspace((unsigned char)ascii[charNo]))
         {
             if (((ascii[charNo] >= '0') &&
                  (ascii[charNo] <= '9')) ||
@@ -162,11 +162,11 @@ unsigned char *unbase64(const char *ascii, int len, int *flen)
     }
 
     len = cb;
-    if (len < 2)
-    { // 2 accesses below would be OOB.
+    if (len < 4 || len % 4 != 0)
+    { // base64 encoded data consists of groups of 4 characters
         // catch empty string, return NULL as result.
-        puts("ERROR: You passed an invalid base64 string (too short). You get "
-             "NULL back.");
+        puts("ERROR: You passed an invalid base64 string (invalid length). You "
+             "get NULL back.");
         *flen = 0;
         free(safeAsciiPtr);
         return 0;
-- 
2.43.0


From ddcc69ff29c129ac130ef6324c993204e18ccc3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:37 +0000
Subject: [PATCH 15/42] fix: convert 64 bit and unsigned 32 bit values without
 truncation

---
 backends/open62541/src/Value.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/backends/open62541/src/Value.c b/backends/open62541/src/Value.c
index 59bd496..9ab4833 100644
--- a/backends/open62541/src/Value.c
+++ b/backends/open62541/src/Value.c
@@ -57,17 +57,17 @@ static void setInt32(uintptr_t adr, const char *value)
 
 static void setUInt32(uintptr_t adr, const char *value)
 {
-    *(UA_UInt32 *)adr = (UA_UInt32)atoi(value);
+    *(UA_UInt32 *)adr = (UA_UInt32)strtoul(value, NULL, 10);
 }
 
 static void setInt64(uintptr_t adr, const char *value)
 {
-    *(UA_Int64 *)adr = atoi(value);
+    *(UA_Int64 *)adr = (UA_Int64)strtoll(value, NULL, 10);
 }
 
 static void setUInt64(uintptr_t adr, const char *value)
 {
-    *(UA_UInt64 *)adr = (UA_UInt64)atoi(value);
+    *(UA_UInt64 *)adr = (UA_UInt64)strtoull(value, NULL, 10);
 }
 
 static void setFloat(uintptr_t adr, const char *value)
-- 
2.43.0


From 68d884270fe615ee384350e7dbc2219928543b9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:37 +0000
Subject: [PATCH 16/42] fix: convert the members of a structure which follow an
 omitted one

---
 backends/open62541/src/Value.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/backends/open62541/src/Value.c b/backends/open62541/src/Value.c
index 9ab4833..2756d40 100644
--- a/backends/open62541/src/Value.c
+++ b/backends/open62541/src/Value.c
@@ -275,8 +275,9 @@ static void setStructure(const NL_Data *value, const UA_DataType *type,
         NL_Data *memberData = lookupMember(value, m->memberName);
         if (!memberData)
         {
-            data->offset += memberType->memSize;
-            return;
+            data->offset += m->isArray ? sizeof(size_t) + sizeof(void *)
+                                       : memberType->memSize;
+            continue;
         }
         if (m->isArray)
         {
-- 
2.43.0


From 54cf88d6d2137297317919fc0530b1acd7946e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:37 +0000
Subject: [PATCH 17/42] fix: look up the parts of a QualifiedName value by name

---
 backends/open62541/src/Value.c | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/backends/open62541/src/Value.c b/backends/open62541/src/Value.c
index 2756d40..61bf777 100644
--- a/backends/open62541/src/Value.c
+++ b/backends/open62541/src/Value.c
@@ -168,19 +168,25 @@ static void setQualifiedName(const NL_Data *value, RawData *data, const ServerCo
 {
     uintptr_t adr = (uintptr_t)data->mem + data->offset;
 
-    setScalarValueWithAddress(
-        (uintptr_t)&((UA_QualifiedName*)adr)->namespaceIndex,
-        UA_DATATYPEKIND_UINT16,
-        value->val.complexData.members[0]->val.primitiveData.value);
-    
+    NL_Data *nsIdxData = lookupMember(value, "NamespaceIndex");
+    if (nsIdxData)
+    {
+        setScalarValueWithAddress(
+            (uintptr_t)&((UA_QualifiedName*)adr)->namespaceIndex,
+            UA_DATATYPEKIND_UINT16, nsIdxData->val.primitiveData.value);
+    }
+
     // Translate namespace index
     ((UA_QualifiedName*)adr)->namespaceIndex = 
         ServerContext_translateToServerIdx(serverContext, ((UA_QualifiedName*)adr)->namespaceIndex);        
 
-    setScalarValueWithAddress(
-        (uintptr_t)&((UA_QualifiedName*)adr)->name,
-        UA_DATATYPEKIND_STRING,
-        value->val.complexData.members[1]->val.primitiveData.value);
+    NL_Data *nameData = lookupMember(value, "Name");
+    if (nameData)
+    {
+        setScalarValueWithAddress(
+            (uintptr_t)&((UA_QualifiedName*)adr)->name,
+            UA_DATATYPEKIND_STRING, nameData->val.primitiveData.value);
+    }
 
     data->offset += sizeof(UA_QualifiedName);
 }
-- 
2.43.0


From ab7f90099b06601d1d0bd6882888837deeb3278d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:37 +0000
Subject: [PATCH 18/42] fix: do not convert values which do not have the shape
 of their data type

---
 backends/open62541/src/Value.c | 75 ++++++++++++++++++++++++++--------
 1 file changed, 57 insertions(+), 18 deletions(-)

diff --git a/backends/open62541/src/Value.c b/backends/open62541/src/Value.c
index 61bf777..ebdb47b 100644
--- a/backends/open62541/src/Value.c
+++ b/backends/open62541/src/Value.c
@@ -143,6 +143,23 @@ static void setPrimitiveValue(RawData *data, const char *value,
     data->offset = data->offset + memSize;
 }
 
+static size_t getMembersSize(const NL_Data *value)
+{
+    return value->type == DATATYPE_COMPLEX ? value->val.complexData.membersSize
+                                           : 0;
+}
+
+// the text of a (primitive) member, NULL if there is none
+static const char *getMemberText(const NL_Data *value, size_t index)
+{
+    if (index >= getMembersSize(value) ||
+        value->val.complexData.members[index]->type != DATATYPE_PRIMITIVE)
+    {
+        return NULL;
+    }
+    return value->val.complexData.members[index]->val.primitiveData.value;
+}
+
 static NL_Data *lookupMember(const NL_Data *value, const char *name)
 {
     // is there a better way?
@@ -159,8 +176,10 @@ static NL_Data *lookupMember(const NL_Data *value, const char *name)
 static void setDateTime(const NL_Data *value, RawData *data)
 {
     uintptr_t adr = (uintptr_t)data->mem + data->offset;
-    UA_DateTime time = UA_DateTime_fromString(value->val.primitiveData.value);
-    *(UA_DateTime*)adr = time;
+    if (value->val.primitiveData.value)
+    {
+        *(UA_DateTime*)adr = UA_DateTime_fromString(value->val.primitiveData.value);
+    }
     data->offset = data->offset + sizeof(UA_DateTime);
 }
 
@@ -169,7 +188,7 @@ static void setQualifiedName(const NL_Data *value, RawData *data, const ServerCo
     uintptr_t adr = (uintptr_t)data->mem + data->offset;
 
     NL_Data *nsIdxData = lookupMember(value, "NamespaceIndex");
-    if (nsIdxData)
+    if (nsIdxData && nsIdxData->type == DATATYPE_PRIMITIVE)
     {
         setScalarValueWithAddress(
             (uintptr_t)&((UA_QualifiedName*)adr)->namespaceIndex,
@@ -181,7 +200,7 @@ static void setQualifiedName(const NL_Data *value, RawData *data, const ServerCo
         ServerContext_translateToServerIdx(serverContext, ((UA_QualifiedName*)adr)->namespaceIndex);        
 
     NL_Data *nameData = lookupMember(value, "Name");
-    if (nameData)
+    if (nameData && nameData->type == DATATYPE_PRIMITIVE)
     {
         setScalarValueWithAddress(
             (uintptr_t)&((UA_QualifiedName*)adr)->name,
@@ -195,7 +214,7 @@ static void setLocalizedText(const NL_Data *value, RawData *data)
 {
     NL_Data *localeData = lookupMember(value, "Locale");
 
-    if (localeData)
+    if (localeData && localeData->type == DATATYPE_PRIMITIVE)
     {
         setScalarValueWithAddress(data->offset + (uintptr_t) &
                                       ((UA_LocalizedText *)data->mem)->locale,
@@ -205,7 +224,7 @@ static void setLocalizedText(const NL_Data *value, RawData *data)
 
     NL_Data *textData = lookupMember(value, "Text");
 
-    if (textData)
+    if (textData && textData->type == DATATYPE_PRIMITIVE)
     {
         setScalarValueWithAddress(
             data->offset + (uintptr_t) & ((UA_LocalizedText *)data->mem)->text,
@@ -216,10 +235,8 @@ static void setLocalizedText(const NL_Data *value, RawData *data)
 
 static void setNodeId(const NL_Data *value, RawData *data, const ServerContext *serverContext)
 {
-    assert(value->val.complexData.membersSize == 1);
     *(UA_NodeId *)((uintptr_t)data->mem + data->offset) =
-        extractNodeId((char *)(uintptr_t)value->val.complexData.members[0]
-                          ->val.primitiveData.value);
+        extractNodeId((char *)(uintptr_t)getMemberText(value, 0));
 
     // Translate namespace index
     (*(UA_NodeId *)((uintptr_t)data->mem + data->offset)).namespaceIndex =
@@ -246,7 +263,11 @@ static void setByteString(const NL_Data* value, RawData*data)
 static void setGuid(const NL_Data* value, RawData*data)
 {
     uintptr_t adr = (uintptr_t)data->mem + data->offset;
-    *(UA_Guid*)adr = UA_GUID((const char *)(value->val.complexData.members[0]->val.primitiveData.value));
+    const char *text = getMemberText(value, 0);
+    if (text)
+    {
+        *(UA_Guid*)adr = UA_GUID(text);
+    }
     data->offset = data->offset + sizeof(UA_Guid);
 }
 
@@ -258,6 +279,10 @@ static void setArray(const NL_Data *value, const UA_DataType *type, RawData *dat
 static const char* getEnumValuePos(const char *string)
 {
     // Enum value is either on <symbol>_<value> or <value> format
+    if (!string)
+    {
+        return NULL;
+    }
     char *enumSepPos = strchr(string, '_');
     if (enumSepPos)
     {
@@ -288,11 +313,11 @@ static void setStructure(const NL_Data *value, const UA_DataType *type,
         if (m->isArray)
         {
             RawData *rawdata = RawData_new(data);
-            rawdata->mem = calloc(memberData->val.complexData.membersSize,
+            rawdata->mem = calloc(getMembersSize(memberData),
                                   memberType->memSize);
             setArray(memberData, memberType, rawdata, customTypes, serverContext);
             size_t *size = (size_t *)((uintptr_t)data->mem + data->offset);
-            *size = memberData->val.complexData.membersSize;
+            *size = getMembersSize(memberData);
             data->offset += sizeof(size_t);
             void **d = (void **)((uintptr_t)data->mem + data->offset);
             *d = rawdata->mem;
@@ -327,7 +352,13 @@ static void setUnion(const NL_Data *value, const UA_DataType *type, RawData *dat
     // Remember the initial offset of the complete union
     const size_t unionOffset = data->offset;
     // Extract the switchField value
-    const UA_UInt32 switchField = (UA_UInt32)atoi(value->val.complexData.members[0]->val.primitiveData.value);
+    const char *switchFieldText = getMemberText(value, 0);
+    const UA_UInt32 switchField = switchFieldText ? (UA_UInt32)atoi(switchFieldText) : 0;
+    if (switchField > type->membersSize ||
+        (switchField != 0 && getMembersSize(value) < 2))
+    {
+        return;
+    }
     // Write out the switchField value
     *(UA_UInt32 *)((uintptr_t)data->mem + data->offset) = switchField;
     // Insert the field padding
@@ -345,11 +376,11 @@ static void setUnion(const NL_Data *value, const UA_DataType *type, RawData *dat
         if (type->members[switchField - 1].isArray)
         {
             RawData *rawdata = RawData_new(data);
-            rawdata->mem = calloc(memberData->val.complexData.membersSize,
+            rawdata->mem = calloc(getMembersSize(memberData),
                                     memberType->memSize);
             setArray(memberData, memberType, rawdata, customTypes, serverContext);
             size_t *size = (size_t *)((uintptr_t)data->mem + data->offset);
-            *size = memberData->val.complexData.membersSize;
+            *size = getMembersSize(memberData);
             data->offset += sizeof(size_t);
             void **d = (void **)((uintptr_t)data->mem + data->offset);
             *d = rawdata->mem;
@@ -370,9 +401,8 @@ static void setStatusCode(const NL_Data *value, RawData *data)
     assert(value->type == DATATYPE_COMPLEX);
     if (value->val.complexData.membersSize == 1)
     {
-        NL_Data *code = value->val.complexData.members[0];
         setPrimitiveValue(
-            data, code->val.primitiveData.value, UA_DATATYPEKIND_UINT32,
+            data, getMemberText(value, 0), UA_DATATYPEKIND_UINT32,
             UA_TYPES[UA_TYPES_UINT32].memSize);
     }
 }
@@ -380,6 +410,15 @@ static void setStatusCode(const NL_Data *value, RawData *data)
 static void setScalar(const NL_Data *value, const UA_DataType *type, RawData *data,
                       const UA_DataType *customTypes, const ServerContext *serverContext)
 {
+    // a value which does not have the shape of its type is not converted
+    const bool isPrimitiveKind = type->typeKind < CONVERSION_TABLE_SIZE ||
+                                 type->typeKind == UA_DATATYPEKIND_BYTESTRING ||
+                                 type->typeKind == UA_DATATYPEKIND_DATETIME ||
+                                 type->typeKind == UA_DATATYPEKIND_ENUM;
+    if (isPrimitiveKind != (value->type == DATATYPE_PRIMITIVE))
+    {
+        return;
+    }
     if (type->typeKind < CONVERSION_TABLE_SIZE)
     {
         setPrimitiveValue(data, value->val.primitiveData.value,
@@ -436,7 +475,7 @@ static void setScalar(const NL_Data *value, const UA_DataType *type, RawData *da
 static void setArray(const NL_Data *value, const UA_DataType *type, RawData *data,
                      const UA_DataType *customTypes, const ServerContext *serverContext)
 {
-    for (size_t i = 0; i < value->val.complexData.membersSize; i++)
+    for (size_t i = 0; i < getMembersSize(value); i++)
     {
         data->offset = i * type->memSize;
         setScalar(value->val.complexData.members[i], type, data, customTypes, serverContext);
-- 
2.43.0


From dfc30bcd79b02b688e2571a28bcd0d82f6fdf34c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:07 +0000
Subject: [PATCH 19/42] fix: take the number behind the last underscore of an
 enumeration value

---
 backends/open62541/src/Value.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/backends/open62541/src/Value.c b/backends/open62541/src/Value.c
index ebdb47b..ef03dc7 100644
--- a/backends/open62541/src/Value.c
+++ b/backends/open62541/src/Value.c
@@ -283,7 +283,7 @@ static const char* getEnumValuePos(const char *string)
     {
         return NULL;
     }
-    char *enumSepPos = strchr(string, '_');
+    char *enumSepPos = strrchr(string, '_');
     if (enumSepPos)
     {
         return ++enumSepPos;
-- 
2.43.0


From c864af069b5a2804559806ae1421a07371d7cc16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:07 +0000
Subject: [PATCH 20/42] fix: copy node ids taken from browse results and
 bidirectional references

---
 backends/open62541/src/import.c | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/backends/open62541/src/import.c b/backends/open62541/src/import.c
index 34cfbdc..2d3d42f 100644
--- a/backends/open62541/src/import.c
+++ b/backends/open62541/src/import.c
@@ -33,9 +33,11 @@ static UA_NodeId getParentDataType(UA_Server *server, const UA_NodeId id)
     UA_BrowseResult br = UA_Server_browse(server, 10, &bd);
     if (br.statusCode != UA_STATUSCODE_GOOD || br.referencesSize != 1)
     {
+        UA_BrowseResult_clear(&br);
         return UA_NODEID_NULL;
     }
-    UA_NodeId parentId = br.references[0].nodeId.nodeId;
+    UA_NodeId parentId = UA_NODEID_NULL;
+    UA_NodeId_copy(&br.references[0].nodeId.nodeId, &parentId);
     UA_BrowseResult_clear(&br);
     return parentId;
 }
@@ -58,10 +60,14 @@ static bool isKnownParent(const UA_NodeId typeId)
 
 static UA_NodeId getParentType(UA_Server *server, const UA_NodeId dataTypeId)
 {
-    UA_NodeId current = dataTypeId;
+    UA_NodeId current = UA_NODEID_NULL;
+    UA_NodeId_copy(&dataTypeId, &current);
+    // a known parent is a numeric id, it does not own any memory
     while (!isKnownParent(current))
     {
-        current = getParentDataType(server, current);
+        UA_NodeId parent = getParentDataType(server, current);
+        UA_NodeId_clear(&current);
+        current = parent;
     }
     return current;
 }
@@ -500,8 +506,8 @@ static void addDataType(struct DataTypeImportCtx *ctx, NL_Node *node)
         if (UA_NodeId_equal(&r->source, &node->id))
         {
             NL_Reference *ref = (NL_Reference *)calloc(1, sizeof(NL_Reference));
-            ref->refType = r->refType;
-            ref->target = r->target;
+            UA_NodeId_copy(&r->refType, &ref->refType);
+            UA_NodeId_copy(&r->target, &ref->target);
 
             NL_Reference *lastRef = node->nonHierachicalRefs;
             node->nonHierachicalRefs = ref;
-- 
2.43.0


From 9c220d5668a418296a06b1b09625b3c6629d46ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:07 +0000
Subject: [PATCH 21/42] fix: let custom data types own their node ids

---
 backends/open62541/src/DataTypeImporter.c | 6 ++++++
 backends/open62541/src/customDataType.c   | 2 ++
 2 files changed, 8 insertions(+)

diff --git a/backends/open62541/src/DataTypeImporter.c b/backends/open62541/src/DataTypeImporter.c
index 85e73eb..0a5a818 100644
--- a/backends/open62541/src/DataTypeImporter.c
+++ b/backends/open62541/src/DataTypeImporter.c
@@ -660,6 +660,12 @@ void DataTypeImporter_addCustomDataType(DataTypeImporter *importer,
         SubtypeOfBase_init(importer, type, node, parent);
     }
 
+    // the datatype outlives the nodes of the nodeset
+    UA_NodeId typeId = type->typeId;
+    UA_NodeId_copy(&typeId, &type->typeId);
+    UA_NodeId binaryEncodingId = type->binaryEncodingId;
+    UA_NodeId_copy(&binaryEncodingId, &type->binaryEncodingId);
+
     importer->nodes = (const NL_DataTypeNode **)realloc(
         (void *)importer->nodes, (importer->nodesSize + 1) * sizeof(void *));
     importer->nodes[importer->nodesSize] = node;
diff --git a/backends/open62541/src/customDataType.c b/backends/open62541/src/customDataType.c
index f499d98..785fee2 100644
--- a/backends/open62541/src/customDataType.c
+++ b/backends/open62541/src/customDataType.c
@@ -43,6 +43,8 @@ static void cleanupCustomTypes(const UA_DataTypeArray *types)
             for (const UA_DataType *type = types->types;
                  type != types->types + types->typesSize; type++)
             {
+                UA_NodeId_clear((UA_NodeId *)(uintptr_t)&type->typeId);
+                UA_NodeId_clear((UA_NodeId *)(uintptr_t)&type->binaryEncodingId);
                 free((void*)(uintptr_t)type->typeName);
                 for (UA_DataTypeMember *m = type->members;
                      m != type->members + type->membersSize; m++)
-- 
2.43.0


From d294741f061c06f65fcc0a2db98d1e9d774f5810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:07 +0000
Subject: [PATCH 22/42] fix: keep the array dimensions of a variable type alive
 until the node is added

---
 backends/open62541/src/import.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/backends/open62541/src/import.c b/backends/open62541/src/import.c
index 2d3d42f..bb3033c 100644
--- a/backends/open62541/src/import.c
+++ b/backends/open62541/src/import.c
@@ -349,13 +349,12 @@ static UA_StatusCode handleVariableTypeNode(const NL_VariableTypeNode *node, UA_
     attr.description = *description;
     attr.valueRank = atoi(node->valueRank);
     attr.isAbstract = isValTrue(node->isAbstract);
+    UA_UInt32 arrayDimensions[1] = {0};
     if (attr.valueRank >= 0)
     {
         if (!strcmp(node->arrayDimensions, ""))
         {
             attr.arrayDimensionsSize = 1;
-            UA_UInt32 arrayDimensions[1];
-            arrayDimensions[0] = 0;
             attr.arrayDimensions = &arrayDimensions[0];
         }
     }
-- 
2.43.0


From 361c8ffe4c902e41f7ce5450c4be4b98851a6329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:07 +0000
Subject: [PATCH 23/42] fix: expand the arguments of messages printed by the
 internal logger

---
 src/PrintfLogger.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/PrintfLogger.c b/src/PrintfLogger.c
index 6acf9c3..a80528a 100644
--- a/src/PrintfLogger.c
+++ b/src/PrintfLogger.c
@@ -17,8 +17,10 @@ static void logStdOut(void *context, enum NodesetLoader_LogLevel level,
 {
     va_list vl;
     va_start(vl, message);
+    printf("NODESETLOADER: %s : ", logLevel[level]);
+    vprintf(message, vl);
+    printf("\n");
     va_end(vl);
-    printf("NODESETLOADER: %s : %s\n", logLevel[level], message);
 }
 
 NodesetLoader_Logger *InternalLogger_new(void)
-- 
2.43.0


From 340fe248e9fba4ef1b927a4fb625ede29ac7d99c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:07 +0000
Subject: [PATCH 24/42] fix: handle data types without a concrete built-in
 supertype and more than 1000 data types

---
 backends/open62541/src/DataTypeImporter.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/backends/open62541/src/DataTypeImporter.c b/backends/open62541/src/DataTypeImporter.c
index 0a5a818..e3c0c90 100644
--- a/backends/open62541/src/DataTypeImporter.c
+++ b/backends/open62541/src/DataTypeImporter.c
@@ -528,8 +528,11 @@ static void SubtypeOfBase_init(const DataTypeImporter *importer,
                                const UA_NodeId parent)
 {
     const UA_DataType *parentType = UA_findDataType(&parent);
-
-    assert(parentType);
+    // like for members, a Variant is used for an abstract or unknown type
+    if (!parentType)
+    {
+        parentType = &UA_TYPES[UA_TYPES_VARIANT];
+    }
 
     type->typeId = node->id;
     type->binaryEncodingId = parentType->binaryEncodingId;
@@ -625,7 +628,11 @@ void DataTypeImporter_addCustomDataType(DataTypeImporter *importer,
         importer->types->types =
             (UA_DataType *)calloc(1000, sizeof(UA_DataType));
     }
-    assert(importer->types->typesSize < 1000);
+    // the types are referenced by pointers, so the array must not be moved
+    if (!importer->types->types || importer->types->typesSize >= 1000)
+    {
+        return;
+    }
 
     UA_DataType *type = (UA_DataType *)(uintptr_t)&importer->types
                             ->types[importer->types->typesSize];
-- 
2.43.0


From 5162806c4cb294fb7c93f2e4572489f2e50ff194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:51 +0000
Subject: [PATCH 25/42] fix: tolerate definition fields without a name

---
 backends/open62541/src/DataTypeImporter.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/backends/open62541/src/DataTypeImporter.c b/backends/open62541/src/DataTypeImporter.c
index e3c0c90..86d1183 100644
--- a/backends/open62541/src/DataTypeImporter.c
+++ b/backends/open62541/src/DataTypeImporter.c
@@ -472,10 +472,14 @@ static void addDataTypeMembers(const UA_DataTypeArray *customTypes,
         UA_NodeId typeId = node->definition->fields[i].dataType;
         member->memberType = getDataType(&typeId, customTypes, NULL);
 
-        char *memberNameCopy = (char *)UA_calloc(
-            strlen(node->definition->fields[i].name) + 1, sizeof(char));
-        memcpy(memberNameCopy, node->definition->fields[i].name,
-               strlen(node->definition->fields[i].name));
+        const char *fieldName = node->definition->fields[i].name;
+        size_t fieldNameLength = fieldName ? strlen(fieldName) : 0;
+        char *memberNameCopy =
+            (char *)UA_calloc(fieldNameLength + 1, sizeof(char));
+        if (fieldName)
+        {
+            memcpy(memberNameCopy, fieldName, fieldNameLength);
+        }
         member->memberName = memberNameCopy;
         member->isOptional = node->definition->fields[i].isOptional;
         if (member->isOptional)
-- 
2.43.0


From 4a6362c4eb6908d7fc1034fb607e58695fb900f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:51 +0000
Subject: [PATCH 26/42] fix: compute the size of each custom data type once its
 members are known and stop without progress

---
 backends/open62541/src/DataTypeImporter.c | 24 ++++++++++++-----------
 backends/open62541/src/Value.c            |  2 +-
 backends/open62541/src/import.c           |  2 +-
 3 files changed, 15 insertions(+), 13 deletions(-)

diff --git a/backends/open62541/src/DataTypeImporter.c b/backends/open62541/src/DataTypeImporter.c
index 86d1183..303b08e 100644
--- a/backends/open62541/src/DataTypeImporter.c
+++ b/backends/open62541/src/DataTypeImporter.c
@@ -433,7 +433,6 @@ static void setDataTypeMembersTypeIndex(DataTypeImporter *importer,
             type->members = members;
             type->membersSize =
                 (uint8_t)(parentType->membersSize + type->membersSize);
-            type->memSize = parentType->memSize;
             memberOffset = parentType->membersSize;
         }
     }
@@ -552,7 +551,8 @@ static bool readyForMemsizeCalc(const UA_DataType *type,
                                 const UA_DataType *customTypes)
 {
     if (type->typeKind != UA_DATATYPEKIND_STRUCTURE &&
-        type->typeKind != UA_DATATYPEKIND_OPTSTRUCT)
+        type->typeKind != UA_DATATYPEKIND_OPTSTRUCT &&
+        type->typeKind != UA_DATATYPEKIND_UNION)
     {
         return true;
     }
@@ -564,7 +564,9 @@ static bool readyForMemsizeCalc(const UA_DataType *type,
     for (UA_DataTypeMember *m = type->members;
          m != type->members + type->membersSize; m++)
     {
-        if (m->memberType && m->memberType->memSize > 0)
+        // arrays and optional members are stored behind a pointer
+        if (m->memberType &&
+            (m->memberType->memSize > 0 || m->isArray || m->isOptional))
         {
             continue;
         }
@@ -576,11 +578,13 @@ static bool readyForMemsizeCalc(const UA_DataType *type,
 
 static void calcMemSize(DataTypeImporter *importer)
 {
-    bool allTypesFinished = false;
     // datatype nodes could be sorted upfront to detect cyclic dependencies
-    while (!allTypesFinished)
+    // stop as soon as no further type can be calculated, e.g. because the type
+    // of a member is unknown
+    bool progress = true;
+    while (progress)
     {
-        allTypesFinished = true;
+        progress = false;
         for (UA_DataType *type =
                  (UA_DataType *)(uintptr_t)importer->types->types +
                  importer->firstNewDataType;
@@ -589,13 +593,11 @@ static void calcMemSize(DataTypeImporter *importer)
         {
             // we can calculate the memsize if the memsize of all membertypes is
             // known
-            if (readyForMemsizeCalc(type, importer->types->types))
+            if (type->memSize == 0 &&
+                readyForMemsizeCalc(type, importer->types->types))
             {
                 setPaddingMemsize(type, importer->types);
-            }
-            else
-            {
-                allTypesFinished = false;
+                progress = progress || type->memSize > 0;
             }
         }
     }
diff --git a/backends/open62541/src/Value.c b/backends/open62541/src/Value.c
index ef03dc7..995ceb7 100644
--- a/backends/open62541/src/Value.c
+++ b/backends/open62541/src/Value.c
@@ -485,7 +485,7 @@ static void setArray(const NL_Data *value, const UA_DataType *type, RawData *dat
 void Value_getData(RawData *outData, const NL_Value *value, const UA_DataType *type,
                    const UA_DataType *customTypes, const ServerContext *serverContext)
 {
-    if (!type)
+    if (!type || type->memSize == 0)
     {
         return;
     }
diff --git a/backends/open62541/src/import.c b/backends/open62541/src/import.c
index bb3033c..9674236 100644
--- a/backends/open62541/src/import.c
+++ b/backends/open62541/src/import.c
@@ -273,7 +273,7 @@ static UA_StatusCode handleVariableNode(const NL_VariableNode *node, UA_NodeId *
                     &attr.value, data->mem,
                     node->value->data->val.complexData.membersSize, dataType);
             }
-            else
+            else if (data->mem)
             {
                 UA_Variant_setScalar(&attr.value, data->mem, dataType);
             }
-- 
2.43.0


From 2cb9b9a8c9588cd4925f794e4a12820dc7b9f542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:51 +0000
Subject: [PATCH 27/42] fix: lay out custom structures and unions like the C
 compiler does

---
 backends/open62541/src/DataTypeImporter.c | 162 ++++++++++------------
 1 file changed, 77 insertions(+), 85 deletions(-)

diff --git a/backends/open62541/src/DataTypeImporter.c b/backends/open62541/src/DataTypeImporter.c
index 303b08e..d0b26a6 100644
--- a/backends/open62541/src/DataTypeImporter.c
+++ b/backends/open62541/src/DataTypeImporter.c
@@ -192,6 +192,20 @@ typedef struct
     UA_Guid member;
 } TempGuid;
 
+typedef struct
+{
+    char c;
+    size_t member;
+} TempSizeT;
+typedef struct
+{
+    char c;
+    void *member;
+} TempVoidPtr;
+
+static int getMembersAlignment(const UA_DataType *type,
+                               const UA_DataTypeArray *customTypes);
+
 static int getAlignment(const UA_DataType *type,
                         const UA_DataTypeArray *customTypes)
 {
@@ -246,40 +260,56 @@ static int getAlignment(const UA_DataType *type,
     case UA_DATATYPEKIND_EXTENSIONOBJECT:
         return offsetof(TempExtensionObject, member);
     case UA_DATATYPEKIND_UNION:
-        return 0;
+    {
+        // the switch field is in front of the members
+        int switchAlignment = offsetof(TempUInt32, member);
+        int retAlignment = getMembersAlignment(type, customTypes);
+        return retAlignment > switchAlignment ? retAlignment : switchAlignment;
+    }
     case UA_DATATYPEKIND_GUID:
         return offsetof(TempGuid, member);
     case UA_DATATYPEKIND_STRUCTURE:
     case UA_DATATYPEKIND_OPTSTRUCT:
-        // here we have to take a look on the first member
-        assert(type->members);
-        int retAlignment = 0;
-        for (UA_UInt32 i = 0; i < type->membersSize; i++)
-        {
-            const UA_DataType *memberType = type->members[i].memberType;
-            int tmp = getAlignment(memberType, customTypes);
-            if (tmp > retAlignment)
-            {
-                retAlignment = tmp;
-            }
-        }
-        return retAlignment;
+        return type->members ? getMembersAlignment(type, customTypes)
+                             : (int)offsetof(TempVoidPtr, member);
     }
 
     assert(false && "typeKind not handled");
     return 0;
 }
 
-typedef struct
+static int getMemberAlignment(const UA_DataTypeMember *member,
+                              const UA_DataTypeArray *customTypes)
 {
-    char c;
-    size_t member;
-} TempSizeT;
-typedef struct
+    if (member->isArray)
+    {
+        // the size and the pointer to the data
+        int sizeAlignment = offsetof(TempSizeT, member);
+        int pointerAlignment = offsetof(TempVoidPtr, member);
+        return sizeAlignment > pointerAlignment ? sizeAlignment
+                                                : pointerAlignment;
+    }
+    if (member->isOptional)
+    {
+        return offsetof(TempVoidPtr, member);
+    }
+    return getAlignment(member->memberType, customTypes);
+}
+
+static int getMembersAlignment(const UA_DataType *type,
+                               const UA_DataTypeArray *customTypes)
 {
-    char c;
-    void *member;
-} TempVoidPtr;
+    int retAlignment = 1;
+    for (size_t i = 0; i < type->membersSize; i++)
+    {
+        int tmp = getMemberAlignment(&type->members[i], customTypes);
+        if (tmp > retAlignment)
+        {
+            retAlignment = tmp;
+        }
+    }
+    return retAlignment;
+}
 
 static void setPaddingMemsize(UA_DataType *type,
                               const UA_DataTypeArray *customTypes)
@@ -288,12 +318,18 @@ static void setPaddingMemsize(UA_DataType *type,
     {
         return;
     }
+    // same layout as a C compiler: every member is aligned, the size is a
+    // multiple of the alignment of the type. The members of a union start all
+    // at the same offset, behind the switch field.
+    const bool isUnion = type->typeKind == UA_DATATYPEKIND_UNION;
+    const int alignment = getAlignment(type, customTypes);
     int offset = 0;
-    int endPadding = 0;
-
-    UA_UInt16 biggestMemberSize = 0;
-
-    UA_Boolean hasArrayMember = false;
+    int size = 0;
+    if (isUnion)
+    {
+        offset = (int)sizeof(UA_UInt32);
+        offset += getPadding(getMembersAlignment(type, customTypes), offset);
+    }
 
     for (UA_DataTypeMember *tm = type->members;
          tm < type->members + type->membersSize; tm++)
@@ -301,83 +337,39 @@ static void setPaddingMemsize(UA_DataType *type,
         const UA_DataType *memberType = tm->memberType;
         type->pointerFree = type->pointerFree && memberType->pointerFree;
 
+        int memberSize = memberType->memSize;
         if (tm->isArray)
         {
             // for arrays we have to take the size_t for the arraySize into
             // account if the open changes the implementation of array
             // serialization, we have a serious problem
-            // we rely here that its an size_t
-            int align = offsetof(TempSizeT, member);
-            tm->padding = (UA_Byte)(0x3F & getPadding(align, offset));
-            offset = offset + tm->padding + (UA_Byte)sizeof(size_t);
-            // the void* for data
-            align = offsetof(TempVoidPtr, member);
-            int padding2 = getPadding(align, offset);
-            offset = offset + padding2 + (UA_Byte)sizeof(void *);
+            // we rely here that its an size_t, followed by the void* for data
+            memberSize = (int)(sizeof(size_t) + sizeof(void *));
             // datatype is not pointerfree
             type->pointerFree = false;
-
-            if (sizeof(void *) > biggestMemberSize)
-            {
-                biggestMemberSize = sizeof(void *);
-            }
-
-            hasArrayMember = true;
         }
         else if (tm->isOptional)
         {
-            int align = offsetof(TempVoidPtr, member);
-            tm->padding = (UA_Byte)(0x3F & getPadding(align, offset));
-            offset = offset + tm->padding + (UA_Byte)sizeof(void *);
+            memberSize = (int)sizeof(void *);
             type->pointerFree = false;
-            if (sizeof(void *) > biggestMemberSize)
-            {
-                biggestMemberSize = sizeof(void *);
-            }
         }
-        else
-        {
-            // add the switchfield to the padding of the first datatype member
-            if (type->typeKind == UA_DATATYPEKIND_UNION)
-            {
-                tm->padding = (UA_Byte)sizeof(UA_UInt32);
-            }
-            else if (memberType->typeKind != UA_DATATYPEKIND_UNION)
-            {
-                int align = getAlignment(memberType, customTypes);
-                tm->padding = (UA_Byte)(0x3F & getPadding(align, offset));
-            }
 
-            offset = offset + tm->padding + memberType->memSize;
-            // padding after struct at end is needed
-            if (memberType->memSize > sizeof(size_t))
-            {
-                endPadding = memberType->memSize % sizeof(size_t);
-            }
-            if (memberType->memSize > biggestMemberSize)
+        if (isUnion)
+        {
+            tm->padding = (UA_Byte)(0x3F & offset);
+            if (offset + memberSize > size)
             {
-                biggestMemberSize = memberType->memSize;
+                size = offset + memberSize;
             }
         }
-    }
-    if (type->typeKind == UA_DATATYPEKIND_UNION)
-    {
-        // add the switch field
-        type->memSize = sizeof(UA_Int32);
-        int padding = getPadding(offsetof(TempUInt32, member), 0);
-        type->memSize = (UA_UInt16)(type->memSize + padding);
-        type->memSize = (UA_UInt16)(type->memSize + biggestMemberSize);
-        if (hasArrayMember)
+        else
         {
-            type->memSize = (UA_UInt16)(type->memSize + sizeof(size_t));
+            int align = getMemberAlignment(tm, customTypes);
+            tm->padding = (UA_Byte)(0x3F & getPadding(align, size));
+            size += tm->padding + memberSize;
         }
-        endPadding = getPadding(offsetof(TempSizeT, member), type->memSize);
-        type->memSize = (UA_UInt16)(type->memSize + endPadding);
-    }
-    else
-    {
-        type->memSize = (UA_UInt16)(offset + endPadding);
     }
+    type->memSize = (UA_UInt16)(size + getPadding(alignment, size));
 }
 
 static UA_NodeId getParentNode(const NL_DataTypeNode *node)
-- 
2.43.0


From febee9c958751bd9ba6614022aaa2fbee064038a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:17 +0000
Subject: [PATCH 28/42] fix: start every file with its own namespace and alias
 table

---
 src/Nodeset.c       | 23 +++++++++++++++++++++++
 src/Nodeset.h       |  2 ++
 src/NodesetLoader.c |  4 ++++
 3 files changed, 29 insertions(+)

diff --git a/src/Nodeset.c b/src/Nodeset.c
index 09aea9f..af81bf0 100644
--- a/src/Nodeset.c
+++ b/src/Nodeset.c
@@ -183,6 +183,29 @@ Nodeset *Nodeset_new(NL_addNamespaceCallback nsCallback,
     return nodeset;
 }
 
+bool Nodeset_startFile(Nodeset *nodeset, NL_addNamespaceCallback nsCallback)
+{
+    AliasList *aliasList = AliasList_new();
+    NamespaceList *namespaces = NamespaceList_new(nsCallback);
+    if (!aliasList || !namespaces)
+    {
+        if (aliasList)
+        {
+            AliasList_delete(aliasList);
+        }
+        if (namespaces)
+        {
+            NamespaceList_delete(namespaces);
+        }
+        return false;
+    }
+    AliasList_delete(nodeset->aliasList);
+    NamespaceList_delete(nodeset->namespaces);
+    nodeset->aliasList = aliasList;
+    nodeset->namespaces = namespaces;
+    return true;
+}
+
 static void Nodeset_addNode(Nodeset *nodeset, NL_Node *node)
 {
     NodeContainer_add(nodeset->nodes[node->nodeClass], node);
diff --git a/src/Nodeset.h b/src/Nodeset.h
index bc67733..ef4d21e 100644
--- a/src/Nodeset.h
+++ b/src/Nodeset.h
@@ -40,6 +40,8 @@ struct Nodeset
 };
 
 Nodeset *Nodeset_new(NL_addNamespaceCallback nsCallback, NodesetLoader_Logger* logger, NL_ReferenceService* refService);
+// namespace indices and aliases are local to a file
+bool Nodeset_startFile(Nodeset *nodeset, NL_addNamespaceCallback nsCallback);
 void Nodeset_cleanup(Nodeset *nodeset);
 bool Nodeset_sort(Nodeset *nodeset);
 NL_Node *Nodeset_newNode(Nodeset *nodeset, NL_NodeClass nodeClass,
diff --git a/src/NodesetLoader.c b/src/NodesetLoader.c
index 03dd5f1..9bbdcbf 100644
--- a/src/NodesetLoader.c
+++ b/src/NodesetLoader.c
@@ -476,6 +476,10 @@ bool NodesetLoader_importFile(NodesetLoader *loader,
         loader->nodeset = Nodeset_new(fileHandler->addNamespace, loader->logger,
                                       loader->refService);
     }
+    else if (!Nodeset_startFile(loader->nodeset, fileHandler->addNamespace))
+    {
+        return false;
+    }
 
     TParserCtx *ctx = NULL;
     FILE *f = fopen(fileHandler->file, "r");
-- 
2.43.0


From 3a2f28d5f2163c47548bf72181f049f63e68fd6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:24 +0000
Subject: [PATCH 29/42] fix: do not abort the import on values of kinds which
 are not implemented

---
 backends/open62541/src/Value.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/backends/open62541/src/Value.c b/backends/open62541/src/Value.c
index 995ceb7..021cd35 100644
--- a/backends/open62541/src/Value.c
+++ b/backends/open62541/src/Value.c
@@ -466,10 +466,8 @@ static void setScalar(const NL_Data *value, const UA_DataType *type, RawData *da
     {
         setStatusCode(value, data);
     }
-    else
-    {
-        assert(false && "conversion not implemented");
-    }
+    // the conversion of the other kinds (e.g. structures with optional members)
+    // is not implemented, such a value stays zero
 }
 
 static void setArray(const NL_Data *value, const UA_DataType *type, RawData *data,
-- 
2.43.0


From 8c048adcfb2fe7c7dc83000f7aa95cdb195b5de5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:08 +0000
Subject: [PATCH 30/42] fix: consider all subtypes of a reference type, not
 only the first 100

---
 backends/open62541/src/RefServiceImpl.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/backends/open62541/src/RefServiceImpl.c b/backends/open62541/src/RefServiceImpl.c
index af083c0..3874466 100644
--- a/backends/open62541/src/RefServiceImpl.c
+++ b/backends/open62541/src/RefServiceImpl.c
@@ -50,7 +50,8 @@ static void iterate(UA_Server *server, const UA_NodeId *startId, browseFnc fnc,
     bd.resultMask = UA_BROWSERESULTMASK_BROWSENAME;
     bd.nodeId = *startId;
     bd.nodeClassMask = UA_NODECLASS_REFERENCETYPE;
-    UA_BrowseResult br = UA_Server_browse(server, 100, &bd);
+    // no limit, there is no handling of continuation points
+    UA_BrowseResult br = UA_Server_browse(server, 0, &bd);
     if (br.statusCode == UA_STATUSCODE_GOOD)
     {
         for (UA_ReferenceDescription *rd = br.references;
-- 
2.43.0


From a265e52ac8b7dfbe5e4ecdfc9dc82cb7307814b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:31 +0000
Subject: [PATCH 31/42] fix: skip Extension elements nested in an Extension
 with it

---
 src/NodesetLoader.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/NodesetLoader.c b/src/NodesetLoader.c
index 9bbdcbf..801b892 100644
--- a/src/NodesetLoader.c
+++ b/src/NodesetLoader.c
@@ -285,6 +285,7 @@ static void OnStartElementNs(void *ctx, const char *localname,
         {
             pctx->extIf->start(pctx->extensionData, localname, nb_attributes, attributes);
         }
+        pctx->unknown_depth++;
         break;
 
     case PARSER_STATE_REFERENCES:
@@ -387,7 +388,7 @@ static void OnEndElementNs(void *ctx, const char *localname, const char *prefix,
         }
         break;
     case PARSER_STATE_EXTENSION:
-        if (!strcmp(localname, EXTENSION))
+        if (!strcmp(localname, EXTENSION) && pctx->unknown_depth == 0)
         {
             if (pctx->extIf)
             {
@@ -403,6 +404,7 @@ static void OnEndElementNs(void *ctx, const char *localname, const char *prefix,
                 pctx->extIf->end(pctx->extensionData, localname,
                                  pctx->onCharacters);
             }
+            pctx->unknown_depth--;
         }
         break;
     case PARSER_STATE_EXTENSIONS:
-- 
2.43.0


From 0110e000fbdf14c1f6851db44c72509aa270383b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:31 +0000
Subject: [PATCH 32/42] fix: reject base64 strings with padding characters
 inside

---
 backends/open62541/src/nodeset_base64.h | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/backends/open62541/src/nodeset_base64.h b/backends/open62541/src/nodeset_base64.h
index eb5ebbe..5925254 100644
--- a/backends/open62541/src/nodeset_base64.h
+++ b/backends/open62541/src/nodeset_base64.h
@@ -173,8 +173,20 @@ unsigned char *unbase64(const char *ascii, int len, int *flen)
     }
     if (safeAsciiPtr[len - 1] == '=')
         ++pad;
-    if (safeAsciiPtr[len - 2] == '=')
+    if (pad == 1 && safeAsciiPtr[len - 2] == '=')
         ++pad;
+    for (charNo = 0; charNo < len - pad; charNo++)
+    {
+        // the padding character is only allowed at the end
+        if (safeAsciiPtr[charNo] == '=')
+        {
+            puts("ERROR: You passed an invalid base64 string (illegal "
+                 "padding). You get NULL back.");
+            *flen = 0;
+            free(safeAsciiPtr);
+            return 0;
+        }
+    }
 
     *flen = 3 * len / 4 - pad;
     bin = (unsigned char *)malloc((size_t)*flen);
-- 
2.43.0


From 3973232c6669392747bad951afd1477769d507d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:53 +0000
Subject: [PATCH 33/42] fix: handle structure members of type DataValue

---
 backends/open62541/src/DataTypeImporter.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/backends/open62541/src/DataTypeImporter.c b/backends/open62541/src/DataTypeImporter.c
index d0b26a6..8df6ee9 100644
--- a/backends/open62541/src/DataTypeImporter.c
+++ b/backends/open62541/src/DataTypeImporter.c
@@ -177,6 +177,11 @@ typedef struct
     UA_DiagnosticInfo member;
 } TempDiagnosticInfo;
 typedef struct
+{
+    char c;
+    UA_DataValue member;
+} TempDataValue;
+typedef struct
 {
     char c;
     UA_Variant member;
@@ -253,6 +258,8 @@ static int getAlignment(const UA_DataType *type,
         return offsetof(TempNodeId, member);
     case UA_DATATYPEKIND_DIAGNOSTICINFO:
         return offsetof(TempDiagnosticInfo, member);
+    case UA_DATATYPEKIND_DATAVALUE:
+        return offsetof(TempDataValue, member);
     case UA_DATATYPEKIND_VARIANT:
         return offsetof(TempVariant, member);
     case UA_DATATYPEKIND_ENUM:
-- 
2.43.0


From f7d6bbd43f4a11fb58cc8b34b441f0fe9ae30976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:54 +0000
Subject: [PATCH 34/42] fix: the HasEncoding reference of a data type is a
 forward reference

---
 backends/open62541/src/import.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/backends/open62541/src/import.c b/backends/open62541/src/import.c
index 9674236..2eae7d8 100644
--- a/backends/open62541/src/import.c
+++ b/backends/open62541/src/import.c
@@ -505,6 +505,7 @@ static void addDataType(struct DataTypeImportCtx *ctx, NL_Node *node)
         if (UA_NodeId_equal(&r->source, &node->id))
         {
             NL_Reference *ref = (NL_Reference *)calloc(1, sizeof(NL_Reference));
+            ref->isForward = true;
             UA_NodeId_copy(&r->refType, &ref->refType);
             UA_NodeId_copy(&r->target, &ref->target);
 
-- 
2.43.0


From 8bd4ec87b08b6aec7c0f98e8505dc2644c65acd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:54 +0000
Subject: [PATCH 35/42] fix: pass the array dimensions of variable types to the
 server

---
 backends/open62541/src/import.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/backends/open62541/src/import.c b/backends/open62541/src/import.c
index 2eae7d8..11756da 100644
--- a/backends/open62541/src/import.c
+++ b/backends/open62541/src/import.c
@@ -350,6 +350,7 @@ static UA_StatusCode handleVariableTypeNode(const NL_VariableTypeNode *node, UA_
     attr.valueRank = atoi(node->valueRank);
     attr.isAbstract = isValTrue(node->isAbstract);
     UA_UInt32 arrayDimensions[1] = {0};
+    UA_UInt32 *arrDims = NULL;
     if (attr.valueRank >= 0)
     {
         if (!strcmp(node->arrayDimensions, ""))
@@ -357,12 +358,20 @@ static UA_StatusCode handleVariableTypeNode(const NL_VariableTypeNode *node, UA_
             attr.arrayDimensionsSize = 1;
             attr.arrayDimensions = &arrayDimensions[0];
         }
+        else
+        {
+            attr.arrayDimensionsSize =
+                getArrayDimensions(node->arrayDimensions, &arrDims);
+            attr.arrayDimensions = arrDims;
+        }
     }
 
-   return UA_Server_addNode_begin(server, UA_NODECLASS_VARIABLETYPE, *id, *parentId,
+    UA_StatusCode status = UA_Server_addNode_begin(server, UA_NODECLASS_VARIABLETYPE, *id, *parentId,
                             *parentReferenceId, *qn, UA_NODEID_NULL, &attr,
                             &UA_TYPES[UA_TYPES_VARIABLETYPEATTRIBUTES],
                             node->extension, NULL);
+    UA_free(arrDims);
+    return status;
 }
 
 static UA_StatusCode handleDataTypeNode(const NL_DataTypeNode *node, UA_NodeId *id,
-- 
2.43.0


From e0ee0255764870a702f1c82165a893eec8622c32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:19 +0000
Subject: [PATCH 36/42] fix: do not convert members whose data type has no
 known layout

The size of an array member does not depend on its element type, so a
structure has a layout even if the layout of the elements is unknown (e.g.
because one of their members has an unknown type). The elements were
written behind the end of a buffer of size 0.
---
 backends/open62541/src/Value.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/backends/open62541/src/Value.c b/backends/open62541/src/Value.c
index 021cd35..79248f2 100644
--- a/backends/open62541/src/Value.c
+++ b/backends/open62541/src/Value.c
@@ -304,7 +304,8 @@ static void setStructure(const NL_Data *value, const UA_DataType *type,
 
         data->offset += m->padding;
         NL_Data *memberData = lookupMember(value, m->memberName);
-        if (!memberData)
+        // there are no values of a type whose layout is not known
+        if (!memberData || memberType->memSize == 0)
         {
             data->offset += m->isArray ? sizeof(size_t) + sizeof(void *)
                                        : memberType->memSize;
@@ -355,7 +356,9 @@ static void setUnion(const NL_Data *value, const UA_DataType *type, RawData *dat
     const char *switchFieldText = getMemberText(value, 0);
     const UA_UInt32 switchField = switchFieldText ? (UA_UInt32)atoi(switchFieldText) : 0;
     if (switchField > type->membersSize ||
-        (switchField != 0 && getMembersSize(value) < 2))
+        (switchField != 0 &&
+         (getMembersSize(value) < 2 ||
+          type->members[switchField - 1].memberType->memSize == 0)))
     {
         return;
     }
-- 
2.43.0


From 14d3caf9f3fd636fea18e2ff4ce7f3d833b0cddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:20 +0000
Subject: [PATCH 37/42] fix: no array value without data for variables of an
 unknown type

The value of a variable whose data type is unknown is not converted. For an
array a variant with a length but without data was handed to the server.
---
 backends/open62541/src/import.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/backends/open62541/src/import.c b/backends/open62541/src/import.c
index 11756da..d72398e 100644
--- a/backends/open62541/src/import.c
+++ b/backends/open62541/src/import.c
@@ -267,11 +267,13 @@ static UA_StatusCode handleVariableNode(const NL_VariableNode *node, UA_NodeId *
 
         if (data)
         {
-            if (node->value->isArray)
+            const size_t arraySize =
+                node->value->isArray
+                    ? node->value->data->val.complexData.membersSize
+                    : 0;
+            if (node->value->isArray && (data->mem || arraySize == 0))
             {
-                UA_Variant_setArray(
-                    &attr.value, data->mem,
-                    node->value->data->val.complexData.membersSize, dataType);
+                UA_Variant_setArray(&attr.value, data->mem, arraySize, dataType);
             }
             else if (data->mem)
             {
-- 
2.43.0


From a72df78686b0409f691b6be150572e906e35f7dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:20 +0000
Subject: [PATCH 38/42] fix: no overflow of the member count of derived
 structures

If the inherited and the own members are more than 255, the member count
wraps and the loop over the own members runs out of the array.
---
 backends/open62541/src/DataTypeImporter.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/backends/open62541/src/DataTypeImporter.c b/backends/open62541/src/DataTypeImporter.c
index 8df6ee9..ce18a07 100644
--- a/backends/open62541/src/DataTypeImporter.c
+++ b/backends/open62541/src/DataTypeImporter.c
@@ -407,7 +407,9 @@ static void setDataTypeMembersTypeIndex(DataTypeImporter *importer,
         // done
         // First need to check if parentType exists at all. NodesetCompiler in
         // open62541 would not generate a type if it had no members.
-        if (parentType && parentType->members)
+        // The number of members is limited to 255.
+        if (parentType && parentType->members &&
+            parentType->membersSize + type->membersSize <= 255)
         {
             UA_DataTypeMember *members = (UA_DataTypeMember *)calloc(
                 (size_t)(parentType->membersSize + type->membersSize),
-- 
2.43.0


From 8f67fe0dd17c6976cec607d7b3c0c7aac89040f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:20 +0000
Subject: [PATCH 39/42] fix: structures of more than 64 KiB have no layout

The size was truncated to 16 bit, values of such a type were written behind
the end of their buffer.
---
 backends/open62541/src/DataTypeImporter.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/backends/open62541/src/DataTypeImporter.c b/backends/open62541/src/DataTypeImporter.c
index ce18a07..a68cddd 100644
--- a/backends/open62541/src/DataTypeImporter.c
+++ b/backends/open62541/src/DataTypeImporter.c
@@ -376,7 +376,9 @@ static void setPaddingMemsize(UA_DataType *type,
             size += tm->padding + memberSize;
         }
     }
-    type->memSize = (UA_UInt16)(size + getPadding(alignment, size));
+    size += getPadding(alignment, size);
+    // larger types cannot be described, they stay without layout
+    type->memSize = (UA_UInt16)(size <= 65535 ? size : 0);
 }
 
 static UA_NodeId getParentNode(const NL_DataTypeNode *node)
-- 
2.43.0


From 0e4f0118c45b26f672f8ea027a4d18e191384c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:25 +0000
Subject: [PATCH 40/42] fix: derived types without definition get the layout of
 their parent

---
 backends/open62541/src/DataTypeImporter.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/backends/open62541/src/DataTypeImporter.c b/backends/open62541/src/DataTypeImporter.c
index a68cddd..76cc76f 100644
--- a/backends/open62541/src/DataTypeImporter.c
+++ b/backends/open62541/src/DataTypeImporter.c
@@ -430,13 +430,18 @@ static void setDataTypeMembersTypeIndex(DataTypeImporter *importer,
                 cnt++;
             }
 
-            memcpy(members + parentType->membersSize, type->members,
-                   type->membersSize * sizeof(UA_DataTypeMember));
+            if (type->membersSize > 0)
+            {
+                memcpy(members + parentType->membersSize, type->members,
+                       type->membersSize * sizeof(UA_DataTypeMember));
+            }
             free(type->members);
             type->members = members;
             type->membersSize =
                 (uint8_t)(parentType->membersSize + type->membersSize);
             memberOffset = parentType->membersSize;
+            // a type without definition gets the layout of its parent
+            type->memSize = 0;
         }
     }
 
-- 
2.43.0


From e0ec52ceb00613e8c58d2e9803f0fe68ad4038ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:44 +0000
Subject: [PATCH 41/42] fix: types derived from a structure with optional
 fields are of that kind

---
 backends/open62541/src/DataTypeImporter.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/backends/open62541/src/DataTypeImporter.c b/backends/open62541/src/DataTypeImporter.c
index 76cc76f..fb76e60 100644
--- a/backends/open62541/src/DataTypeImporter.c
+++ b/backends/open62541/src/DataTypeImporter.c
@@ -442,6 +442,11 @@ static void setDataTypeMembersTypeIndex(DataTypeImporter *importer,
             memberOffset = parentType->membersSize;
             // a type without definition gets the layout of its parent
             type->memSize = 0;
+            if (parentType->typeKind == UA_DATATYPEKIND_OPTSTRUCT)
+            {
+                type->typeKind = UA_DATATYPEKIND_OPTSTRUCT;
+                type->pointerFree = false;
+            }
         }
     }
 
-- 
2.43.0


From 6b0a9bca7247b9d28718abfe5ae295cecf118830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:24:48 +0000
Subject: [PATCH 42/42] fix: accept 1 as xs:boolean true

The nodeset schema declares IsForward, IsAbstract, Symmetric etc. as xs:boolean,
for which 1 and 0 are as valid as true and false. A reference with
IsForward="1" was kept as inverse reference.
---
 backends/open62541/src/DataTypeImporter.c |  2 +-
 backends/open62541/src/conversion.h       |  2 +-
 src/Nodeset.c                             | 22 ++++++++++++++--------
 3 files changed, 16 insertions(+), 10 deletions(-)

diff --git a/backends/open62541/src/DataTypeImporter.c b/backends/open62541/src/DataTypeImporter.c
index fb76e60..a225e2f 100644
--- a/backends/open62541/src/DataTypeImporter.c
+++ b/backends/open62541/src/DataTypeImporter.c
@@ -60,7 +60,7 @@ static const UA_DataType *getDataType(const UA_NodeId *id,
         {
             if (UA_NodeId_equal(&importer->nodes[i]->id, &type->typeId))
             {
-                if (strcmp(importer->nodes[i]->isAbstract, "true") == 0)
+                if (isValTrue(importer->nodes[i]->isAbstract))
                 {
                     return &UA_TYPES[UA_TYPES_VARIANT];
                 }
diff --git a/backends/open62541/src/conversion.h b/backends/open62541/src/conversion.h
index 4bc697d..a9eafa5 100644
--- a/backends/open62541/src/conversion.h
+++ b/backends/open62541/src/conversion.h
@@ -33,7 +33,7 @@ static inline UA_Boolean isValTrue(const char *s)
     {
         return UA_FALSE;
     }
-    if (strcmp(s, "true"))
+    if (strcmp(s, "true") && strcmp(s, "1"))
     {
         return UA_FALSE;
     }
diff --git a/src/Nodeset.c b/src/Nodeset.c
index af81bf0..378bda2 100644
--- a/src/Nodeset.c
+++ b/src/Nodeset.c
@@ -342,6 +342,12 @@ void Nodeset_cleanup(Nodeset *nodeset)
     free(nodeset);
 }
 
+// xs:boolean: "true" and "1" mean the same
+static bool isTrue(const char *value)
+{
+    return !strcmp("true", value) || !strcmp("1", value);
+}
+
 static char *getAttributeValue(Nodeset *nodeset, const NodeAttribute *attr,
                                const char **attributes, int nb_attributes)
 {
@@ -474,8 +480,8 @@ NL_Reference *Nodeset_newReference(Nodeset *nodeset, NL_Node *node,
                                    int attributeSize, const char **attributes)
 {
     NL_Reference *newRef = (NL_Reference *)calloc(1, sizeof(NL_Reference));
-    if (!strcmp("true", getAttributeValue(nodeset, &attrIsForward, attributes,
-                                          attributeSize)))
+    if (isTrue(getAttributeValue(nodeset, &attrIsForward, attributes,
+                                 attributeSize)))
     {
         newRef->isForward = true;
     }
@@ -624,11 +630,11 @@ void Nodeset_addDataTypeDefinition(Nodeset *nodeset, NL_Node *node,
         return;
     }
     def->isUnion =
-        !strcmp("true", getAttributeValue(nodeset, &dataTypeDefinition_IsUnion,
-                                          attributes, attributeSize));
-    def->isOptionSet = !strcmp(
-        "true", getAttributeValue(nodeset, &dataTypeDefinition_IsOptionSet,
-                                  attributes, attributeSize));
+        isTrue(getAttributeValue(nodeset, &dataTypeDefinition_IsUnion,
+                                 attributes, attributeSize));
+    def->isOptionSet =
+        isTrue(getAttributeValue(nodeset, &dataTypeDefinition_IsOptionSet,
+                                 attributes, attributeSize));
 }
 
 void Nodeset_addDataTypeField(Nodeset *nodeset, NL_Node *node,
@@ -666,7 +672,7 @@ void Nodeset_addDataTypeField(Nodeset *nodeset, NL_Node *node,
             nodeset, &attrValueRank, attributes, attributeSize));
         char *isOptional = getAttributeValue(nodeset, &dataTypeField_IsOptional,
                                              attributes, attributeSize);
-        newField->isOptional = !strcmp("true", isOptional);
+        newField->isOptional = isTrue(isOptional);
     }
 }
 
-- 
2.43.0

