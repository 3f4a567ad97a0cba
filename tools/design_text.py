# hand-written parts of DESIGN.md; the tables are generated (tools/gen_design.py)
INTRO = r"""
# Deciding the properties of open62541-nodeset-loader with code contracts

This file is written by `tools/gen_design.py` from `tools/design_text.py`, the
registry of obligations (`specs/registry.py`) and `seeded/`.

## 1. What is verified, and with what

* **Verifier**: CBMC 6.11 with code contracts (`goto-cc`, `goto-instrument
  --dfcc … --enforce-contract F/c_F [--apply-loop-contracts]`, `cbmc` with SAT
  back ends CaDiCaL and MiniSat, chosen per obligation).  `frama-c` has no WP
  here, and no other installed verifier reads C.
* **Verified text**: the functions of /repo themselves.  Every run copies the
  sources an obligation names (`Ob.src`) from /repo's current working tree into
  a scratch folder and compiles that copy.  The copy is byte-identical except
  for loop contract clauses (`__CPROVER_assigns`, `__CPROVER_loop_invariant`,
  `__CPROVER_decreases`), which `vf/loops.py` inserts in front of the loop
  bodies; positions and the variables a loop modifies are taken from clang's
  AST, so a renamed variable, `for` rewritten as `while`, or an index rewritten
  as a pointer keeps its contract.  Nothing is dropped from the text; what the
  preprocessor drops is what it drops in the real build, except that the
  system headers are the host's and libxml2's, and open62541's are
  `stub/open62541` (the library is not installed here).
* **Contracts** are in `specs/*.c`, one file per group of functions, included
  in front of / behind the verified source.  An obligation is: a harness with
  arbitrary (nondeterministic) arguments and an arbitrary heap satisfying the
  precondition, ghost snapshots of the state before, the call of the real
  function, and the postcondition (`ENS`).  Where a dfcc contract is given
  (`c_…`) the frame (`assigns`, `frees`) is checked too and loops are cut by
  their invariants.  All of CBMC's own checks (bounds, pointers, overflow,
  division, conversion where defined, leaks where `leak=True`) are on.
* **Function by function**: a callee that has obligations of its own is
  replaced in its callers by a specification stub (`subst`,
  `--replace-calls f:spec_f`) which checks the precondition of the contract
  and returns anything the contract allows, recording its arguments in ghost
  state.  E.g. `P11.addnode` uses `search_node` through its contract, which
  `P11.search` establishes for the real body.
* **Quantifiers**: SAT back ends cannot decide unbounded quantifiers.  “For all
  elements” is expressed with one arbitrary tracked index `G_K`: the value at
  `G_K` is a ghost, the invariant and postcondition speak about it, and since
  it is arbitrary they hold for each index.  “For all lengths” is an arbitrary
  symbolic length up to the largest that fits the address space (`LIM`).
* **proof / bounded**.  `kind="proof"`: loop free for all inputs, or all loops
  under contract, or loops whose number of iterations is bounded by a constant
  of the code itself with the unwinding assertion on.  `kind="bounded"`: a
  stated bound; never counted as proved (the evidence has them in a list of
  their own).  The tables below and the evidence files name both.
* **Vacuity**: every obligation contains at least one `VAC(…)` assertion behind
  its precondition and behind the interesting cases of the postcondition which
  MUST fail; if one of them holds, or no obligation is generated, the result
  is an error and never “proved”.

### Verdicts (vf/run.py)

1. All obligations of an `Ob` discharged → ok.
2. An obligation without loop contracts refuted → **violation**.
3. An obligation with loop contracts fails or no longer attaches (the code was
   rewritten): the *real* loops are unrolled instead.  Refuted there →
   **violation**.  Not refuted → the verdict is “bounded”, reported in the
   evidence under `undecided`, never as proved and never as an alarm: an
   invariant that no longer fits is not evidence against the code.
4. Timeouts, missing functions, renamed statics, tool errors → “undecided”,
   reported in the evidence, no alarm.  The check exits 2 only if in addition
   the native replay could not run: then nothing looked at the code.
5. In parallel the **native replay** (section 3) runs the real code on the
   documents of the property.  If it fails, that input is the failing input of
   the VIOLATION line; if only an obligation fails the line ends with
   `no-failing-input-found` and the replay file names the obligation.

### Trusted / unchecked

* CBMC and its C library models; `malloc`/`calloc`/`realloc` succeed unless an
  obligation has `oom=True`/`VF_OOM` (exhausted memory is specified only where
  the code checks for it).
* `specs/cstr.h`: contracts of `memcpy`, `strcmp`, `strlen` (memcpy is
  instantiated at one arbitrary index).
* `specs/ua_model.h`, `stub/`: contracts of the open62541 primitives
  (`UA_NodeId_equal/copy/clear`, `UA_parse…`, `UA_Server_addNode_begin`, …).
  String identifiers are abstracted to their length there, because the loader
  never looks into them; the native replay uses real strings.
* libxml2: `xmlCreatePushParserCtxt`, `xmlParseChunk` etc. (`P23.run` states
  what is assumed); that libxml2 calls the SAX handlers as documented.
* Number texts (`atoi`, `strtol`, `strtod`, …) are ghost numbers with
  models of these functions: the glibc parsers are trusted.
* Pointer arithmetic `NULL + 0` for types without members is not counted as a
  violation.
* The composition of the function contracts into the whole-document property
  is an argument in this file (per property below), sampled by the native
  replay; it is not itself machine checked.

## 2. Why contracts reach what the tests cannot

The five tests import fixed files and test the arena with fixed sizes.  The
obligations quantify over every state the functions can be called in: e.g. all
parser states × all element names (P14), all attribute positions (P04), all
table sizes and growth steps (P01, P02, P07, P08, P12, P20), the complete range
of each scalar type (P17), every history of server answers (P22).  Writing them
exposed the 41 defects listed in `known_findings.json` (all repaired by `fix:`
commits, no open finding).

## 3. Native replay (bounded, labelled, never counted as proof)

`native/engine.py` builds the real sources (loader and backend) with
ASan/UBSan/LSan and runs generated documents: `gen.py` is a reference model of
the file format (what each node must look like), `srvgen.py` with
`ua_native.c` is a model of the server (stub open62541 whose calls are
recorded).  The documents of each family are enumerated from the property
(e.g. every attribute absent/present, deferred reference types, value trees,
files cut at each byte, layouts against what clang says about the same struct).
Purpose: concrete failing inputs for VIOLATION lines, and sampling the glue
between contracts.  It runs within each check; `VERIF_SEED` only affects which
random documents are added to the enumerated ones, `thorough` adds more.

## 4. Cost

6 s to 130 s per check on 8 cores; all 28 together about 14 minutes.  The
thorough tier adds the obligations marked `thorough` and more documents.

## 5. Behaviour under refactoring

Checked with a set of behaviour-preserving rewrites (helpers extracted, loops
rewritten in index/pointer/while form, conditions swapped, statements
reordered) of arena, lists, reference services, sorting, nodeset, values, type
import, import and loader: no check alarms.  Single obligations become
“bounded” or “undecided” then (the loop contract no longer attaches, or a
static function was split), as described above.
"""

DETAIL = {
"P01": """Anchor: src/CharAllocator.c.  The data invariant of the arena (current region,
used size, last block) is the precondition; `P01.malloc` establishes for any
arena and any size that the block lies inside the region, behind everything
handed out before, is zero at every (tracked) byte, and that no byte outside it
and no earlier region changes; with and without memory exhaustion.  Deleting is
bounded (3 regions).""",
"P02": """`P02.realloc`: for any last block and any growth, the tracked byte of the old
block is preserved, the tracked byte of the extension is zero, in place and
moved, with and without exhaustion; old regions are never freed.""",
"P03": """`P03.chars`: for any parser state, any text so far and any piece, the text
afterwards is the old text followed by the piece (tracked byte) and terminated.
`P03.start` and `P03.end`: every tag forgets the text, and what is handed on at
the end of an element is the text collected for it.""",
"P04": """`getAttributeValue` against a table of any number of attributes (tracked
attribute).  `P04.none`: no exact match → default, nothing copied.
`P04.first`: the first exact match → exactly the characters between its
positions.  `P04.exact` runs the real string comparison (bounded).""",
"P05": """`Nodeset_newNode` for each of the 8 classes with `getAttributeValue` through its
contract (a ghost table says which attributes exist): each class attribute gets
the file's value or the schema default, nothing else of the node changes.
Texts and locales: one obligation per setter.  Byte valued attributes are
specified for 0..255, booleans for every literal of xs:boolean (and others, which count as false).""",
"P06": """Contracts of `translateNodeId`, `extractNodedId`, `extractBrowseName`,
`NamespaceList_getNamespace` for all indices and table sizes.  A browse name
`abc:def` whose part before the colon is no number loses it (index 0): kept as
specified by the code's documented format.""",
"P07": """Growth of the namespace table of any size (tracked entry), the namespace finish
callback (one call, the uri, the caller's context), the start of a file (new
tables), and the server backend's callback.""",
"P08": """Alias table of any size: add, growth, lookup (tracked alias, first match wins),
`alias2Id` (alias or parsed id, independent copy), alias elements.""",
"P09": """The default reference service: lookups over tables of any size, growth,
registration of a new type.  Known limit, part of the statement: a reference
type declared before its supertype counts as non-hierarchical.""",
"P10": """`Nodeset_newReference` (direction, type, target) and `Nodeset_newNodeFinish`
(each reference moves to exactly one list) for one reference each, deferred
classification for up to 4 references and up to 3 deferred types.""",
"P11": """`record_relation`, `scan_zeros` (the queue), `search_node` (the tree), `Sort_start`
(all graphs over 3 ids, 4 in the thorough tier), `Sort_addNode` (which edges a
node contributes, the generated parent reference).  The reference generated
from a ParentNodeId is no edge of the graph: part of the statement is only
hierarchical references read from the file.""",
"P12": """Containers of any size: add with growth (tracked node), iterate (loop contract:
k-th call gets k-th node), guards of the entry point.""",
"P13": """`Value_start`/`Value_end` for each state of the value parser, any element name
and any tree position (local heap around the current element); whitespace rule.""",
"P14": """`OnStartElementNs`/`OnEndElementNs` for every parser state, every element name
and every skip depth: which callback is called with what, which state follows,
that skipping counts and restores.""",
"P15": """The definition element (flags, only on data types), a field (every attribute, any
number of fields before), growth of the field table.""",
"P16": """Alignment and padding against the C rules for every built-in kind, maximum over
any number of members, the layout loop (bounded members), readiness, the
fixed point over types, inheritance (selected numbers of members), order of the
phases.  The replay compares the layouts of generated types with clang's.
Decimal members have no alignment; option sets get size 0; at most 1000 types.""",
"P17": """One obligation per scalar kind over the complete value range, the complex
built-ins, enumerations, structures/unions/arrays with the recursion cut at its
contract, offsets, shape errors (any tree, never outside the buffer).
Unsupported kinds (Variant, ExtensionObject, ExpandedNodeId, XmlElement,
DiagnosticInfo, DataValue, Decimal, structures with optional members) are left
zero; fractions of a second and time zones of DateTime texts are ignored.""",
"P18": """`unbase64`: loop contracts for texts of any length (< 2^29) with one tracked
group; additionally an exact oracle for all texts up to 8 characters.""",
"P19": """The dimension parser (bounded number of dimensions; numbers are arbitrary; larger
than INT_MAX relies on glibc's atoi) and where the dimensions go for variables and
variable types.""",
"P20": """Namespace mapping of the server context for tables of any size.""",
"P21": """`addNodeImpl` for each class with recording stubs of the server operations: every
argument and attribute is the node's; the parent rule (`getParentId`); the
order of the classes.  “First” inverse hierarchical reference is the first of the
node's list.""",
"P22": """The retry loop for up to 3 refused nodes and every history of answers over all
rounds; refused means the server's status of the add operation (per class);
references (bounded number per node).""",
"P23": """`Parser_run`: loop contract — the bytes fed are the bytes read, in order, any
file size, any split, any position of a read or XML error; entry points with all
combinations of missing parts; nothing added after a failed import.""",
"P24": """Release of each structure: node (per class), references, ids, values,
definitions, containers of any size, loader, parser, context; leak check on.
Sequences are sampled by the replay under LSan.""",
"P25": """The finish of a reference (which ones are recorded), the entry point, the link to
the data type on import.""",
"P26": """The built-in logger against a model of `vprintf`/`vfprintf` sequences, the server
logger's forwarding.""",
"P27": """Kind and supertype of each data type node, fields, lookups by id.  At most 1000
types.""",
"P28": """Lookup tables of any size, adding, the walk over the server's hierarchy (trees of
5 types), the initial tables.""",
}

FALSE = """
* The model of `strcmp` subtracted plain `char`s: a signed overflow of the model
  was reported when the arguments were swapped.  The model now subtracts
  unsigned values.
* Loop contracts which spoke about one particular counter failed on rewritten
  loops: contracts are now attached by type to whatever the loop modifies, and a
  failed loop contract never alarms by itself (verdict 3).
* `NULL + 0` on types without members was reported by the pointer check: not an
  observable fault, excluded.
* Pointer order of `realloc` results, two-dimensional local arrays in CBMC and
  reading of uninitialised ghost booleans produced spurious counterexamples; the
  harnesses avoid those constructs.
"""
