from vf.core import Ob
OBS = {}
def prop(pid, *obs): OBS.setdefault(pid, []).extend(obs)
CA = "src/CharAllocator.c"
prop("P01",
  Ob("P01.malloc", "arena.c", "malloc", "CharArenaAllocator_malloc", "c_malloc", [CA], oom=True),
  Ob("P01.malloc_total", "arena.c", "malloc_total", "CharArenaAllocator_malloc", "c_malloc", [CA]),
  Ob("P01.new", "arena.c", "new", "CharArenaAllocator_new", "c_new", [CA]),
  Ob("P01.delete", "arena.c", "delete", "CharArenaAllocator_delete", None, [CA], kind="bounded", bound="up to 3 regions", unwind=5, leak=True),
)
prop("P02",
  Ob("P02.realloc", "arena.c", "realloc", "CharArenaAllocator_realloc", "c_realloc", [CA], oom=True),
  Ob("P02.realloc_total", "arena.c", "realloc_total", "CharArenaAllocator_realloc", "c_realloc", [CA]),
)
AL = "src/AliasList.c"
ALIAS_LOOP = dict(ptr={"Alias": ["__CPROVER_same_object($v, list->data)", "__CPROVER_POINTER_OFFSET($v) <= list->size * sizeof(Alias)", "__CPROVER_POINTER_OFFSET($v) % sizeof(Alias) == 0",
                                  "(__CPROVER_POINTER_OFFSET($v) <= G_K * sizeof(Alias) || G_sr != 0 || G_sb == NULL)"]},
                  int=["$v <= list->size", "($v <= G_K || G_sr != 0 || G_sb == NULL)"])
prop("P08",
  Ob("P08.alias_new", "lists.c", "alias_new", "AliasList_new", "c_alias_new", [AL]),
  Ob("P08.alias_add", "lists.c", "alias_add", "AliasList_newAlias", "c_alias_add", [AL], defs=["RE_T=Alias"]),
  Ob("P08.alias_add_oom", "lists.c", "alias_add", "AliasList_newAlias", "c_alias_add", [AL], defs=["RE_T=Alias", "VF_OOM=1"]),
  Ob("P08.alias_get", "lists.c", "alias_get", "AliasList_getNodeId", "c_alias_get", [AL], loops={AL: {"AliasList_getNodeId": [ALIAS_LOOP]}}),
)
NSL = "src/NamespaceList.c"; NC = "src/nodes/NodeContainer.c"
NS_NEW = Ob("P07.ns_new", "lists.c", "ns_new", "NamespaceList_new", "c_ns_new", [NSL])
NS_ADD = Ob("P07.ns_add", "lists.c", "ns_add", "NamespaceList_newNamespace", "c_ns_add", [NSL], defs=["RE_T=Namespace"])
NS_GET = Ob("P06.ns_get", "lists.c", "ns_get", "NamespaceList_getNamespace", "c_ns_get", [NSL])
prop("P07", NS_NEW, NS_ADD); prop("P06", NS_GET)
prop("P12", Ob("P12.nc_new", "lists.c", "nc_new", "NodeContainer_new", "c_nc_new", [NC]),
  Ob("P12.nc_add", "lists.c", "nc_add", "NodeContainer_add", "c_nc_add", [NC], defs=["RE_T=NL_Node *"]))
prop("P24", Ob("P24.alias_delete", "lists.c", "alias_del", "AliasList_delete", "c_alias_del", [AL], unwind=16, bunwind=8, loops={AL: {"AliasList_delete": [dict(int=["$v <= G_n", "G_clears == $v", "G_kc == ($v > G_K ? 1 : 0)"],
    ptr=["__CPROVER_same_object($v, G_d)", "__CPROVER_POINTER_OFFSET($v) == G_clears * sizeof(Alias)", "G_clears <= G_n", "G_kc == (G_clears > G_K ? 1 : 0)"], assigns=["G_clears", "G_kc"])]}}),
  Ob("P24.ns_delete", "lists.c", "ns_del", "NamespaceList_delete", None, [NSL], leak=True))
prop("P24", Ob("P24.nc_delete", "lists.c", "nc_delete", "NodeContainer_delete", "c_nc_delete", [NC], defs=["RE_T=NL_Node *"], loops={NC: {"NodeContainer_delete": [
    dict(int=["$v <= G_size", "G_deleted == $v", "($v <= G_K || G_trackedDeleted >= 1)"], ptr=["__CPROVER_same_object($v, G_nodes)", "__CPROVER_POINTER_OFFSET($v) <= G_size * sizeof(NL_Node *)", "__CPROVER_POINTER_OFFSET($v) % sizeof(NL_Node *) == 0", "G_deleted * sizeof(NL_Node *) == __CPROVER_POINTER_OFFSET($v)", "(__CPROVER_POINTER_OFFSET($v) <= G_K * sizeof(NL_Node *) || G_trackedDeleted >= 1)"], assigns=["G_deleted", "G_trackedDeleted"])]}}))

RS = "src/InternalRefService.c"
prop("P09", Ob("P09.hier", "lists.c", "rs_hier", "isReferenceHierachical", "c_rs_hier", [RS], loops={RS: {"isReferenceHierachical": [dict(int=["$v <= G_size", "($v <= G_K || G_K >= G_size || !G_ksr)"], assigns=["G_hitA", "G_hitB"])]}}),
  Ob("P09.non0", "lists.c", "rs_non", "isRefNonHierachical", "c_rs_non", [RS], unwind=3),
  Ob("P09.typedef", "lists.c", "rs_td", "isRefTypeDef", "c_rs_td", [RS]),
  Ob("P09.grow", "lists.c", "rs_addh", "addHierachicalRef", "c_rs_addh", [RS], defs=["RE_T=NL_ReferenceTypeNode", "VF_OOM=1", "CAP=3"], kind="bounded", bound="table of capacity 3"),
  Ob("P09.grow9", "lists.c", "rs_addh", "addHierachicalRef", "c_rs_addh", [RS], defs=["RE_T=NL_ReferenceTypeNode", "VF_OOM=1", "CAP=9"], kind="bounded", bound="table of capacity 9 (the initial one)", tier="thorough", timeout=600),
  Ob("P09.new", "lists.c", "rs_new", "InternalRefService_new", None, [RS], unwind=11, leak=True),
  Ob("P09.add", "lists.c", "rs_add", "addnewRefTypeImpl", "c_rs_add", [RS], kind="bounded", bound="at most three hierarchical references of the added type, at most three types known", unwind=6, replace=["addHierachicalRef/c_rs_addstub"], defs=["RE_T=char", "BOUNDED=3"]),
)
NLC = "src/NodesetLoader.c"
START = Ob("P14.start", "parser.c", "start", "OnStartElementNs", "c_start", [NLC], unwind=18, objbits=8)
END = Ob("P14.end", "parser.c", "end", "OnEndElementNs", "c_end", [NLC], unwind=18, objbits=8)
prop("P14", START, END)
prop("P03", Ob("P03.start", "parser.c", "start", "OnStartElementNs", "c_start", [NLC], unwind=18, objbits=8, defs=["ONLYTEXT=1"]), Ob("P03.end", "parser.c", "end", "OnEndElementNs", "c_end", [NLC], unwind=18, objbits=8, defs=["ONLYTEXT=1"]))
prop("P03", Ob("P03.chars", "parser.c", "onchar", "OnCharacters", "c_char", [NLC], unwind=18, objbits=8))
NSC = "src/Nodeset.c"; NDC = "src/nodes/Node.c"
GAV = ["getAttributeValue:spec_getAttributeValue"]
def nsob(id, define, fn, contract, **k):
    k.setdefault("unwind", 28); k.setdefault("objbits", 9)
    return Ob(id, "nodeset.c", define, fn, contract, k.pop("src", [NSC]), **k)
prop("P06", nsob("P06.translate", "translate", "translateNodeId", "c_translate"),
  nsob("P06.extract", "extractid", "extractNodedId", "c_extractid"),
  nsob("P06.browsename", "browsename", "extractBrowseName", "c_browsename"))
prop("P08", nsob("P08.alias2id", "alias2id", "alias2Id", "c_alias2id"))
for c, n in enumerate(["object", "objecttype", "variable", "datatype", "method", "referencetype", "variabletype", "view"]):
    prop("P05", nsob("P05.new_" + n, "newnode", "Nodeset_newNode", "c_newnode", src=[NSC, NDC], subst=GAV, defs=["CLS_LO=%d" % c, "CLS_HI=%d" % c]))
for d, fn in (("dn", "Nodeset_setDisplayName"), ("de", "Nodeset_setDescription"), ("in", "Nodeset_setInverseName")):
    prop("P05", nsob("P05.locale_" + d, d, fn, "c_" + d, subst=GAV))
for d, fn in (("dnf", "Nodeset_DisplayNameFinish"), ("def", "Nodeset_DescriptionFinish"), ("inf", "Nodeset_InverseNameFinish")):
    prop("P05", nsob("P05.text_" + d, d, fn, "c_" + d))
prop("P10", nsob("P10.newref", "newref", "Nodeset_newReference", "c_newref", subst=GAV))
prop("P25", nsob("P25.reffin", "reffin", "Nodeset_newReferenceFinish", "c_reffin"))
prop("P10", nsob("P10.nodefin", "nodefin", "Nodeset_newNodeFinish", "c_nodefin"),
  nsob("P10.lookup", "lookup", "lookupUnknownReferences", "c_lookup", kind="bounded", bound="at most 4 unknown references per node", unwind=6),
  nsob("P10.sort", "sort", "Nodeset_sort", None, kind="bounded", bound="at most 3 deferred reference types and 2 deferred nodes", unwind=12, subst=["lookupUnknownReferences:spec_lookup", "Nodeset_newNodeFinish:spec_finish"]))
prop("P12", nsob("P12.foreach", "foreach", "Nodeset_forEachNode", "c_foreach", loops={NSC: {"Nodeset_forEachNode": [
   dict(int=["$v <= G_size", "G_calls == $v", "($v <= G_K || G_K >= G_size || G_atK == G_nodeK)"], ptr=["__CPROVER_same_object($v, G_nodes)", "__CPROVER_POINTER_OFFSET($v) <= G_size * sizeof(NL_Node *)", "__CPROVER_POINTER_OFFSET($v) % sizeof(NL_Node *) == 0", "G_calls <= G_size", "G_calls * sizeof(NL_Node *) == __CPROVER_POINTER_OFFSET($v)", "(G_calls <= G_K || G_K >= G_size || G_atK == G_nodeK)"], assigns=["G_calls", "G_atK"])]}}))
prop("P15", nsob("P15.adddef", "adddef", "Nodeset_addDataTypeDefinition", "c_adddef", subst=GAV), nsob("P15.addfield", "addfield", "Nodeset_addDataTypeField", "c_addfield", subst=GAV))
prop("P08", nsob("P08.aliasnew", "aliasnew", "Nodeset_newAlias", "c_aliasnew", subst=GAV), nsob("P08.aliasfin", "aliasfin", "Nodeset_newAliasFinish", "c_aliasfin"))
prop("P07", nsob("P07.nsfin", "nsfin", "Nodeset_newNamespaceFinish", "c_nsfin"), nsob("P07.startfile", "startfile", "Nodeset_startFile", "c_startfile"))
PAC = "src/Parser.c"
prop("P23", Ob("P23.run", "parserun.c", "run", "Parser_run", "c_run", [PAC], unwind=12, bounded=3000, bunwind=12, loops={PAC: {"Parser_run": [dict(
   always=["G_fed == G_pos", "G_pos <= G_size", "G_live", "!G_bad", "!G_xmlerr", "!G_term", "G_created == 1", "G_freed == 0", "G_failAt >= G_fed", "G_pos <= G_ioAt", "(!G_ioerr || G_ioAt == G_pos)", "(G_pos >= 4 || G_pos == G_size || G_ioerr)"],
   assigns=["__CPROVER_object_whole(chars)", "G_pos", "G_fed", "G_ioerr", "G_xmlerr", "G_bad"])]}}))
def lob(id, define, fn, **k): return Ob(id, "loader.c", define, fn, None, [NLC], unwind=4, **k)
prop("P23", lob("P23.import", "import", "NodesetLoader_importFile", leak=True), lob("P23.import_oom", "import", "NodesetLoader_importFile", leak=True, defs=["VF_OOM=1"]))
prop("P24", lob("P24.loader_new", "lnew", "NodesetLoader_new"), lob("P24.loader_delete", "ldelete", "NodesetLoader_delete", leak=True))
prop("P11", lob("P11.entry", "lsort", "NodesetLoader_sort"))
prop("P12", lob("P12.entry", "lforeach", "NodesetLoader_forEachNode"))
prop("P25", lob("P25.entry", "lbidir", "NodesetLoader_getBidirectionalRefs"))
prop("P26", Ob("P26.logger", "logger.c", "logger", "logStdOut", None, ["src/PrintfLogger.c"], unwind=45, leak=True))
BE = "backends/open62541/src/"
SC = BE + "ServerContext.c"
def scob(n, fn, c, **k): return Ob("P20." + n, "srvctx.c", n.split("_")[0], fn, c, [SC], **k)
prop("P20", scob("new", "ServerContext_new", None, leak=True), scob("add", "ServerContext_addNamespaceIdx", "c_add"), scob("add_oom", "ServerContext_addNamespaceIdx", "c_add", defs=["VF_OOM=1"]),
  scob("translate", "ServerContext_translateToServerIdx", "c_translate"), scob("delete", "ServerContext_delete", None, leak=True))
B64 = BE + "nodeset_base64.h"
prop("P18", Ob("P18.exact", "b64.c", "unbase64", "unbase64", None, [B64], kind="bounded", bound="texts of at most 8 characters", defs=["EXACT=1", "BOUNDED=8"], unwind=9, leak=True))
SAFE = "safeAsciiPtr"
def b64q(k, arr): return "(!(%s > 4 * G_g + %d) || %s[4 * G_g + %d] == G_q%d)" % ("cb" if k >= 0 else "", k, arr, k, k)
prop("P18", Ob("P18.decode", "b64.c", "unbase64", "unbase64", "c_unbase64", [B64], unwind=16, bounded=6, bunwind=8, timeout=400, loops={B64: {"unbase64": [
  dict(always=["0 <= charNo && charNo <= len", "0 <= cb && cb <= charNo", "cb == G_n", "!G_illegal", "G_eqs >= G_trail && G_trail >= 0 && G_eqs <= G_n"] + [b64q(k, SAFE) for k in range(4)] +
     ["(!(cb > G_P) || safeAsciiPtr[G_P] == G_pc)", "(!(cb > 0) || safeAsciiPtr[cb - 1] == G_l1)", "(!(cb > 1) || safeAsciiPtr[cb - 2] == G_l2)"],
     assigns=["__CPROVER_object_whole(safeAsciiPtr)", "G_n", "G_q0", "G_q1", "G_q2", "G_q3", "G_l1", "G_l2", "G_pc", "G_illegal", "G_eqs", "G_trail"]),
  dict(always=["0 <= charNo && charNo <= len - pad", "(!(charNo > G_P) || safeAsciiPtr[G_P] != '=')"]),
  dict(always=["0 <= charNo && charNo <= len - pad && charNo % 4 == 0", "cb == charNo / 4 * 3", "(!(charNo > 4 * G_g) || (bin[3 * G_g] == B0(G_q0, G_q1) && bin[3 * G_g + 1] == B1(G_q1, G_q2) && bin[3 * G_g + 2] == B2(G_q2, G_q3)))"], assigns=["__CPROVER_object_whole(bin)"]),
]}}))
VAL = "src/Value.c"
def vob(pid, id, define, fn, contract=None, **k): prop(pid, Ob(id, "value.c", define, fn, contract, [VAL], **{"unwind": 18, **k}))
vob("P13", "P13.new", "new", "Value_new", leak=True)
vob("P13", "P13.start", "start", "Value_start", subst=["Data_clear:spec_clear"])
vob("P13", "P13.end", "end", "Value_end", subst=["Data_clear:spec_clear", "isOnlyWhitespace:spec_ws"])
vob("P13", "P13.white_any", "white", "isOnlyWhitespace", "c_white", unwind=12, bunwind=8, loops={VAL: {"isOnlyWhitespace": [dict(ptr=["__CPROVER_same_object($v, G_text)", "__CPROVER_POINTER_OFFSET($v) == G_i"], int=["$v == G_i"], always=["!G_seen", "G_i <= G_len"], assigns=["G_i", "G_seen"])]}})
vob("P13", "P13.white", "wsb", "isOnlyWhitespace", kind="bounded", bound="texts of at most 16 characters")
vob("P24", "P24.data_clear", "clear", "Data_clear", kind="bounded", bound="trees of at most 3 levels and 2 members per element", unwind=4, defs=["DEPTH=2"], cost=9, leak=True)
vob("P24", "P24.members_clear", "cclear", "ComplexData_clear", "c_cclear", fallback="P24.data_clear", unwind=16, bunwind=8, subst=["Data_clear:spec_child"], loops={VAL: {"ComplexData_clear": [dict(int=["$v <= G_n", "G_clears == $v", "G_kc == ($v > G_K ? 1 : 0)"], ptr=["__CPROVER_same_object($v, G_m)", "__CPROVER_POINTER_OFFSET($v) == G_clears * sizeof(NL_Data *)", "G_clears <= G_n", "G_kc == (G_clears > G_K ? 1 : 0)"], assigns=["G_clears", "G_kc"])]}})
vob("P24", "P24.data_node", "dclear", "Data_clear", subst=["ComplexData_clear:spec_cclear"], leak=True, fallback="P24.data_clear")
vob("P24", "P24.value_delete", "delete", "Value_delete", subst=["Data_clear:spec_clear"], leak=True)
prop("P04", Ob("P04.exact", "attrs.c", "exact", "getAttributeValue", None, [NSC], unwind=6, kind="bounded", bound="at most 3 attributes with names of at most 2 characters; values of any length", defs=["NB=3","NL=2"]),
  Ob("P04.first", "attrs.c", "first", "getAttributeValue", "c_first", [NSC], unwind=12, bunwind=6, loops={NSC: {"getAttributeValue": [dict(int=["0 <= $v && $v <= G_nb", "(size_t)$v <= G_K", "$v < 0 || $v >= G_nb || G_tab[5 * (size_t)$v] == G_names + $v"], always=["G_mallocs == 0", "G_copies == 0"])]}}))
SO = "src/Sort.c"; INO = "src/nodes/InstanceNode.c"
def sob(pid, id, define, fn, **k): prop(pid, Ob(id, "sort.c", define, fn, None, [SO, INO], **k))
sob("P11", "P11.relation", "relation", "record_relation")
sob("P11", "P11.zeros", "zeros", "scan_zeros")
sob("P11", "P11.search", "search", "search_node", kind="bounded", bound="4 insertions, any order, any repetitions", unwind=5, defs=["NID=4"], cost=5)
sob("P11", "P11.sort", "sort", "Sort_start", kind="bounded", bound="3 ids with arbitrary relations", unwind=5, defs=["NN=3"], cost=8)
sob("P11", "P11.addnode", "addnode", "Sort_addNode", kind="bounded", bound="at most 3 hierarchical references of the node, 2 of its parent", unwind=6, subst=["search_node:spec_search", "record_relation:spec_relation"], cost=8)
sob("P24", "P24.pending", "pending", "Sort_cleanup", kind="bounded", bound="3 nodes, at most 2 edges each", unwind=5, leak=True)
sob("P11", "P11.sort4", "sort", "Sort_start", kind="bounded", bound="4 ids with arbitrary relations", unwind=6, defs=["NN=4"], cost=8, tier="thorough", timeout=1500)
DTI = BE + "DataTypeImporter.c"; CDT = BE + "customDataType.c"; PADH = BE + "padding.h"
def tob(pid, id, define, fn, **k): prop(pid, Ob(id, "types.c", define, fn, None, [DTI, CDT, PADH], **{"unwind": 6, **k}))
tob("P16", "P16.padding", "padding", "getPadding")
tob("P16", "P16.align", "align", "getAlignment", subst=["getMembersAlignment:spec_members"])
tob("P16", "P16.malign", "malign", "getMemberAlignment", subst=["getAlignment:spec_align"])
prop("P16", Ob("P16.malmax", "types.c", "malmax", "getMembersAlignment", "c_malmax", [DTI, CDT, PADH], unwind=6, subst=["getMemberAlignment:spec_memberAlign"], bunwind=10, loops={DTI: {"getMembersAlignment": [
  dict(always=["G_calls <= type->membersSize", "G_calls <= 255", "G_best >= 1 && G_best <= 16"], int={"size_t|unsigned": ["$v == G_calls"], "^int$": ["$v == G_best", "(G_calls <= G_I || $v >= G_aI)"]}, ptr=["__CPROVER_same_object($v, G_mb)", "__CPROVER_POINTER_OFFSET($v) == G_calls * sizeof(UA_DataTypeMember)"], assigns=["G_calls", "G_best"])]}}))
tob("P16", "P16.layout", "layout", "setPaddingMemsize", subst=["getAlignment:spec_al2"], kind="bounded", bound="at most 4 members", cost=6)
for _u, _n in enumerate(("structure", "union")): tob("P16", "P16.layout_" + _n, "layoutany", "setPaddingMemsize", subst=["getAlignment:spec_self", "getMembersAlignment:spec_mal", "getMemberAlignment:spec_al1", "getPadding:spec_pad"], defs=["MAXM=8", "UNI=%d" % _u], unwind=10, kind="bounded", bound="at most 8 members, of any size and alignment", fallback="P16.layout", cost=8)
tob("P16", "P16.layoutnone", "layoutnone", "setPaddingMemsize")
tob("P16", "P16.ready", "ready", "readyForMemsizeCalc", defs=["MAXM=255"], unwind=257)   # membersSize is a byte
tob("P16", "P16.calc", "calc", "calcMemSize", subst=["readyForMemsizeCalc:spec_ready", "setPaddingMemsize:spec_set"], kind="bounded", bound="4 types, the first of them from an earlier file", defs=["NT=4", "FIRST=1"])
for _p, _o in ((2, 1), (1, 2), (255, 1), (2, 0)): tob("P16", "P16.inherit%d%d" % (_p, _o), "inherit", "setDataTypeMembersTypeIndex", subst=["getDataType:spec_getdt"], kind="bounded", bound="%d inherited and %d own members, names of at most 2 characters" % (_p, _o), defs=["PN=%d" % _p, "NO=%d" % _o])
tob("P16", "P16.initmembers", "initmembers", "DataTypeImporter_initMembers", subst=["setDataTypeMembersTypeIndex:spec_idx", "calcMemSize:spec_calc"], kind="bounded", bound="at most 3 types")
tob("P27", "P27.getdt", "getdt", "getDataType", subst=["findCustomDataType:spec_findCustom"], kind="bounded", bound="at most 2 imported nodes")
for _n in (0, 1, 3): tob("P27", "P27.members%d" % _n, "members", "addDataTypeMembers", subst=["getDataType:spec_getdt"], kind="bounded", bound="%d fields, names of at most 2 characters" % _n, defs=["NF=%d" % _n])
for _n in (0, 2, 1000): tob("P27", "P27.addtype%d" % _n, "addtype", "DataTypeImporter_addCustomDataType", subst=["addDataTypeMembers:spec_members2", "getBinaryEncodingId:spec_enc"], kind="bounded", bound="%d types before, at most 3 nodes before, names of at most 2 characters" % _n, defs=["NT=%d" % _n])
tob("P27", "P27.find", "findb", "findCustomDataType", kind="bounded", bound="at most 2 arrays of 2 types", unwind=8)
tob("P27", "P27.new", "dnew", "DataTypeImporter_new", leak=True)
tob("P25", "P25.encid", "encid", "getBinaryEncodingId", kind="bounded", bound="at most 3 references")

tob("P27", "P27.getcustom", "getcustom", "NodesetLoader_getCustomDataType", subst=["findCustomDataType:spec_find"])
for _t, _m in ((1, 2), (2, 1), (2, 0)): tob("P24", "P24.types_cleanup%d%d" % (_t, _m), "typecleanup", "NodesetLoader_cleanupCustomDataTypes", kind="bounded", bound="%d types with %d members, with and without an empty array" % (_t, _m), defs=["UA_OWNED=1", "USE_CLEANUP_CUSTOM_DATATYPES=1", "NT=%d" % _t, "NM=%d" % _m], leak=True)
MINISAT = {"P08.alias_add", "P08.alias_add_oom", "P09.grow", "P09.add", "P11.search", "P11.sort", "P11.addnode", "P10.newref", "P10.lookup", "P24.data_clear", "P18.exact", "P04.exact", "P04.first", "P13.start", "P23.run"}
def _backends():
    for l in OBS.values():
        for o in l:
            if o.id in MINISAT: o.backend = "minisat2"
_backends()
BV = BE + "Value.c"; CVH = BE + "conversion.h"
def bob(id, define, fn, contract=None, **k): prop("P17", Ob("P17." + id, "sval.c", define, fn, contract, [BV, BE + "Value.h", CVH, B64], **{"unwind": 8, **k}))
CPX = ["setStructure:spec_st", "setUnion:spec_st"]
for _k, _n in enumerate(["Boolean", "SByte", "Byte", "Int16", "UInt16", "Int32", "UInt32", "Int64", "UInt64", "Float", "Double", "String"]): bob("scalar_" + _n, "scalar", "set" + _n, unwind=21, defs=["KIND=%d" % _k], subst=CPX)
bob("shape", "shape", "setScalar", unwind=21, subst=CPX + ["setPrimitiveValue:spec_p", "setByteString:spec_vd", "setDateTime:spec_vd", "setLocalizedText:spec_vd", "setGuid:spec_vd", "setStatusCode:spec_vd", "setNodeId:spec_vdc", "setQualifiedName:spec_vdc"])
LK = ["lookupMember:spec_lookup"]
bob("qname", "qname", "setQualifiedName", subst=LK, unwind=21)
bob("ltext", "ltext", "setLocalizedText", subst=LK, unwind=21)
for n, f in (("nodeid", "setNodeId"), ("guid", "setGuid"), ("status", "setStatusCode")): bob(n, n, f, unwind=21)
bob("bytes", "bytes", "setByteString", subst=["unbase64:spec_unbase64"], unwind=21)
bob("enum", "enum", "setScalar", subst=["getEnumValuePos:spec_enum"], unwind=21)
bob("enumpos", "enumpos", "getEnumValuePos", kind="bounded", bound="texts of at most 8 characters", unwind=10)
bob("datetime", "datetime", "setDateTime", unwind=36)
bob("lookup", "lookup", "lookupMember", kind="bounded", bound="at most 3 members with names of at most 2 characters")
bob("membertext", "membertext", "getMemberText", unwind=21)
bob("array", "array", "setArray", "c_array", subst=["setScalar:spec_elem"], unwind=16, bunwind=8, loops={BV: {"setArray": [dict(int={"size_t|unsigned": ["$v == G_calls"]}, always=["G_calls <= G_n"], assigns=["rd->offset", "G_calls"])]}})
for _n in (0, 1, 3): bob("struct%d" % _n, "struct", "setStructure", subst=["lookupMember:spec_look3", "setScalar:spec_scal", "setArray:spec_arr", "RawData_new:spec_rawnew"], unwind=21, kind="bounded", bound="%d members" % _n, defs=["NN=%d" % _n])
bob("union", "union", "setUnion", subst=["getMemberText:spec_mtext", "setScalar:spec_scal", "setArray:spec_arr", "RawData_new:spec_rawnew"], unwind=21, kind="bounded", bound="at most 3 members")
bob("getdata", "getdata", "Value_getData", subst=["setScalar:spec_s", "setArray:spec_a"])
bob("raw", "raw", "RawData_new", leak=True, kind="bounded", bound="chains of 3")
_backends()
IMPC = BE + "import.c"
def iob(pid, id, define, fn, **k): prop(pid, Ob(pid + "." + id, "import.c", define, fn, None, [IMPC, BE + "Value.h", INO], **{"unwind": 8, **k}))
_NODES = ["object", "objecttype", "variable", "datatype", "method", "referencetype", "variabletype", "view"]
for _c, _n in enumerate(_NODES):
    iob("P21", _n, "addnode", "addNodeImpl", defs=["CLS=%d" % _c], subst=["getHierachicalInverseReference:spec_inv", "getArrayDimensions:spec_dims", "getParentType:spec_parentType"], leak=True)
iob("P17", "variable", "addnode", "handleVariableNode", defs=["CLS=2", "ONLYVAL=1"], subst=["getHierachicalInverseReference:spec_inv", "getArrayDimensions:spec_dims", "getParentType:spec_parentType"], leak=True)
for _c, _n in ((2, "variable"), (6, "variabletype")):
    iob("P19", _n, "addnode", "addNodeImpl", defs=["CLS=%d" % _c, "ONLYDIMS=1"], subst=["getHierachicalInverseReference:spec_inv", "getArrayDimensions:spec_dims", "getParentType:spec_parentType"])
_backends()
iob("P21", "inverse", "inverse", "getParentId", kind="bounded", bound="at most 3 hierarchical references")
prop("P19", Ob("P19.parse_any", "import.c", "dimsany", "getArrayDimensions", "c_dims", [IMPC, BE + "Value.h", INO], unwind=14, bunwind=8, defs=["REALTEXT=1"], fallback="P19.parse", loops={IMPC: {"getArrayDimensions": [dict(
    ptr=["__CPROVER_same_object($v, G_T) || $v == NULL", "($v == NULL) == (G_end != 0)", "G_end || __CPROVER_POINTER_OFFSET($v) == G_last"], int=["$v == G_c + (G_end ? 1 : 0)"],
    always=["G_c <= G_N - 1", "!G_end || G_c == G_N - 1", "G_c > 0 || G_end", "G_last < G_len", "G_size == (G_c + (G_end ? 1 : 0)) * sizeof(UA_UInt32)", "__CPROVER_same_object(*G_dp, G_d) && __CPROVER_POINTER_OFFSET(*G_dp) == 0", "G_K >= G_c + (G_end ? 1 : 0) || G_d[G_K] == (UA_UInt32)G_num"],
    assigns=["*G_dp", "G_c", "G_last", "G_end", "G_size", "__CPROVER_object_whole(G_d)"])]}}))
iob("P19", "parse", "dims", "getArrayDimensions", defs=["REALTEXT=1"], unwind=13, kind="bounded", bound="at most 6 dimensions", leak=True)
iob("P27", "known", "known", "isKnownParent")
iob("P27", "ptype", "ptype", "getParentType", kind="bounded", bound="at most 3 supertypes")
iob("P25", "link", "link", "addDataType", subst=["getParentType:spec_ptype"], kind="bounded", bound="at most 3 encoding entries and 3 references")
iob("P22", "refs", "refs", "addNonHierachicalRefs", kind="bounded", bound="at most 3 references of each kind")
for _n in (1, 2, 3): prop("P22", Ob("P22.retry%d" % _n, "import.c", "retry", "secondChanceAddNodes", None, [IMPC, BE + "Value.h", INO], unwind=12, subst=["addNodeImpl:spec_try"], kind="bounded", bound="%d refused nodes, every history of answers" % _n, defs=["REALTEXT=1", "REALCONT=1", "NN=%d" % _n]))
iob("P20", "addns", "nsadd", "NodesetLoader_BackendOpen62541_addNamespace")
iob("P07", "server", "nsadd", "NodesetLoader_BackendOpen62541_addNamespace")
iob("P26", "server", "log", "logToOpen")
_backends()
for _p in ("P21", "P22"): prop(_p, Ob(_p + ".all", "import.c", "all", "addNodes", None, [IMPC, BE + "Value.h", INO], unwind=10, subst=["secondChanceAddNodes:spec_second", "getParentType:spec_parentType", "getArrayDimensions:spec_dims"], kind="bounded", bound="one node per class, at most one class without a node", defs=["REALCONT=1"]))
for _p in ("P23", "P24"): iob(_p, "loadfile", "load", "NodesetLoader_loadFile", subst=["addNodes:spec_addNodes"], leak=True)
_backends()
RSI = BE + "RefServiceImpl.c"
def rob(id, define, fn, contract=None, **k): prop("P28", Ob("P28." + id, "refs.c", define, fn, contract, [RSI], **{"unwind": 6, **k}))
prop("P28", Ob("P28.contains", "refs.c", "contains", "isInContainer", "c_contains", [RSI], unwind=16, loops={RSI: {"isInContainer": [dict(ptr=["__CPROVER_same_object($v, G_ids)", "__CPROVER_POINTER_OFFSET($v) <= G_n * sizeof(UA_NodeId)", "__CPROVER_POINTER_OFFSET($v) % sizeof(UA_NodeId) == 0", "(__CPROVER_POINTER_OFFSET($v) <= G_K * sizeof(UA_NodeId) || !G_kmatch)"], int=["$v <= G_n", "($v <= G_K || !G_kmatch)"], always=["!G_hit"], assigns=["G_hit"])]}}))
RCL = {RSI: {"RefContainer_clear": [dict(int=["$v <= G_n", "G_clears == $v", "G_kc == ($v > G_K ? 1 : 0)"],
    ptr=["__CPROVER_same_object($v, G_ids)", "__CPROVER_POINTER_OFFSET($v) == G_clears * sizeof(UA_NodeId)", "G_clears <= G_n", "G_kc == (G_clears > G_K ? 1 : 0)"], assigns=["G_clears", "G_kc"])]}}
prop("P24", Ob("P24.rs_delete", "lists.c", "rs_del", "InternalRefService_delete", None, [RS], unwind=11, leak=True))
prop("P24", Ob("P24.refs_clear", "refs.c", "rcclear", "RefContainer_clear", "c_rcclear", [RSI], unwind=16, bunwind=8, loops=RCL),
  Ob("P24.refs_delete", "refs.c", "rsdel", "RefServiceImpl_delete", None, [RSI], unwind=6, subst=["RefContainer_clear:spec_clear"], leak=True))
rob("addto", "addto", "addToRefs")
rob("addtype", "addtype", "addnewRefType", subst=["addToRefs:spec_addTo"], kind="bounded", bound="tables of 2 entries, at most 3 references of the added type")
rob("iterate", "iterate", "iterate", kind="bounded", bound="each tree of 5 types", objbits=16)
rob("new", "rsnew", "RefServiceImpl_new", subst=["iterate:spec_iterate"], leak=True, kind="bounded", bound="one subtype of each root")
_backends()
for _c, _n in enumerate(_NODES): iob("P22", "refused_" + _n, "addnode", "addNodeImpl", defs=["CLS=%d" % _c], subst=["getHierachicalInverseReference:spec_inv", "getArrayDimensions:spec_dims", "getParentType:spec_parentType"])
_backends()
NDTC = "src/nodes/DataTypeNode.c"
def nob(pid, id, define, fn, contract=None, src=(NDC,), **k): prop(pid, Ob(pid + "." + id, "node.c", define, fn, contract, list(src), **{"unwind": 11, **k}))
for _c, _n in enumerate(_NODES): nob("P24", "node_" + _n, "nodedel", "Node_delete", defs=["CLS=%d" % _c], subst=["deleteRef:spec_deleteRef"], leak=True)
nob("P24", "refs_any", "refany", "deleteRef", "c_refany", unwind=16, bunwind=8, fallback="P24.refs", loops={NDC: {"deleteRef": [dict(ptr=["$v == NULL || (__CPROVER_same_object($v, G_T) && __CPROVER_POINTER_OFFSET($v) == G_i * sizeof(NL_Reference))", "($v == NULL) == (G_i == G_n)"],
    always=["G_i <= G_n", "G_i >= G_n || LINK(G_i)", "G_ta == (G_i > G_K ? 1 : 0)", "G_ty == (G_i > G_K ? 1 : 0)", "G_fr == (G_i > G_K ? 1 : 0)"], assigns=["G_i", "G_ta", "G_ty", "G_fr"])]}})
nob("P24", "refs", "refdel", "deleteRef", kind="bounded", bound="lists of at most 3 references", leak=True)
nob("P24", "node_new", "nodenew", "Node_new", leak=True)
nob("P24", "dtclear", "dtclear", "DataTypeNode_clear", "c_dtclear", [NDTC], loops={NDTC: {"DataTypeNode_clear": [dict(int=["$v <= G_n", "G_clears == $v", "G_kc == ($v > G_K ? 1 : 0)"],
    ptr=["__CPROVER_same_object($v, G_f)", "__CPROVER_POINTER_OFFSET($v) == G_clears * sizeof(NL_DataTypeDefinitionField)", "G_clears <= G_n", "G_kc == (G_clears > G_K ? 1 : 0)"], assigns=["G_clears", "G_kc"])]}}, unwind=16, bunwind=8)
nob("P24", "dtclear_leak", "dtnone", "DataTypeNode_clear", None, [NDTC], leak=True, kind="bounded", bound="0 or 2 fields")
nob("P15", "newfield", "field", "DataTypeNode_addDefinitionField", None, [NDTC])
nob("P24", "nodeset_new", "nsnew", "Nodeset_new", None, [NSC], leak=True)
nob("P24", "cleanup", "cleanup", "Nodeset_cleanup", None, [NSC], unwind=16, leak=True, kind="bounded", bound="at most 3 encoding entries")
_backends()
