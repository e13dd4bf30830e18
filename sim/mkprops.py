import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None,hook=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
    if state: d["anchors"]["state"]=[dict(name=x,where=", ".join(files)) for x in state]
    if observe: d["anchors"]["observe_at"]=observe
    if hook: d["anchors"]["hook_needed"]=hook
    P.append(d)
H="maintenance-point hook at the single place where the package decides to collect, repack, reorder or report overflow"
p("P01","Boolean connectives are exact whenever maintenance strikes",
 "Every binary connective, negation, if-then-else, implication/intersection witness, and the multi-operand and pairwise forms return a diagram denoting exactly the Boolean combination of the operands' functions. This holds whatever garbage collection, node repacking, variable reordering, variable creation or cache eviction happened before, between or inside the calls, and the operands keep their functions.",
 ["histories","schedules","inputs"],"all operation histories, operand functions, memory layouts and placements of automatic maintenance",
 "tests use one fixed seed, small functions that never reach the thresholds at which maintenance runs, and one memory layout; a stale cache or unique-table entry only matters when maintenance lands between two particular operations",
 ["src/calBddOp.c","src/calApplyReduce.c","src/calBddITE.c","src/calTerminal.c","src/calCacheTableTwo.c","src/calHashTable.c"],
 [("breadth-first apply/reduce over request queues","src/calApplyReduce.c"),("operation cache with forwarding","src/calCacheTableTwo.c"),("unique table lookup and growth","src/calHashTable.c")],
 ["unique tables, operation cache, request queues"],["return values of the exported operations, evaluated on all assignments"],H)
p("P02","Handle equality is function equality",
 "Two live handles compare equal exactly when they denote the same Boolean function, and the constant tests recognise exactly the two constant functions. The same function obtained along different operation sequences, before and after collection, repacking, reordering or variable creation, is always the identical diagram, with a handful of nodes or a hundred thousand.",
 ["histories","schedules"],"all pairs of live handles at every point of every history and maintenance schedule",
 "a duplicate node appears only when a table is rehashed, repacked or reordered between two constructions of the same function; tests compare within one quiet phase",
 ["src/cal.c","src/calHashTable.c","src/calGC.c","src/calReorderBF.c","src/calReorderDF.c"],
 [("unique table find-or-add","src/calHashTable.c"),("rehash of moved nodes","src/calHashTable.c"),("level swap in reordering","src/calReorderDF.c, src/calReorderBF.c")],
 ["unique tables"],["equality and constant tests on handles"],H)
p("P03","Live handles keep their function through maintenance",
 "As long as a handle has been acquired more often than released, it stays usable and denotes the function it was created with, however often collection, repacking, dynamic or explicit reordering and new variables intervene. Over-acquiring a handle past the internal counter's capacity never leads to it being reclaimed early.",
 ["histories","schedules"],"all histories of acquire/release and all maintenance schedules, including saturated reference counts",
 "lost references show only if a collection runs at the one moment a count is wrong and the freed node is reused afterwards",
 ["src/calGC.c","src/calBddManager.c","src/cal.c","src/calHashTable.c","src/calReorderUtil.c"],
 [("saturating per-node reference counts","src/calInt.h"),("mark-free sweep per level","src/calGC.c"),("forwarding of user handles after nodes move","src/calReorderUtil.c")],
 ["reference counts, user handle table"],["evaluation of every live handle after every step"],H)
p("P04","Everything unreachable is reclaimed, nothing reachable is",
 "After a full collection the manager's node count equals the number of distinct nodes reachable from live handles, declared variables and active associations (plus nodes pinned by a saturated count). Node storage freed by a collection is reused, so a workload with a bounded live set keeps bounded memory.",
 ["histories","schedules"],"all histories of operations and releases followed by a collection at any point",
 "tests never compare node counts with reachability; a leaked reference is invisible functionally and accumulates only over long histories",
 ["src/calGC.c","src/calHashTable.c","src/calMemoryManagement.c","src/calApplyReduce.c","src/calReduce.c","src/calQuant.c"],
 [("reference accounting in reduce steps","src/calApplyReduce.c, src/calReduce.c, src/calQuant.c"),("sweep","src/calGC.c"),("free lists and page release","src/calMemoryManagement.c")],
 ["node count statistics, free lists"],["node count after explicit collection"],H)
p("P05","Reordering permutes the order and changes nothing else",
 "After any dynamic or explicit reordering (window or sifting, depth-first or breadth-first) every live handle denotes the same function, the variable order is a permutation with consistent index-to-variable and variable-to-index lookups, and every diagram is ordered and reduced under it. Subsequent operations, queries and further reorderings remain correct.",
 ["histories","schedules"],"all histories, reordering methods and techniques, and points at which reordering is triggered",
 "the reordering test fixes one technique per run on one small workload; the defects live in swaps interacting with caches, associations, freed nodes and block structure",
 ["src/calReorderBF.c","src/calReorderDF.c","src/calReorderUtil.c","src/calBlk.c"],
 [("adjacent-level exchange","src/calReorderDF.c, src/calReorderBF.c"),("window and sifting drivers","src/calReorderDF.c, src/calReorderBF.c"),("fix-up of handles, associations and pipeline","src/calReorderUtil.c")],
 ["order maps, unique tables"],["variable-by-index/id lookups, handle evaluation"],H)
p("P06","Reordering respects variable blocks",
 "Variables declared as a block stay adjacent through every reordering, and inside a block marked not reorderable their relative order never changes. Declaring a block never changes any function, a block starting at a constant is refused, and creating variables afterwards keeps block structure consistent.",
 ["histories","schedules"],"all block declarations over the current order and all reordering schedules",
 "tests declare no nested or partially reorderable blocks before reordering",
 ["src/calBlk.c","src/calReorderBF.c","src/calReorderDF.c"],
 [("block tree","src/calBlk.c"),("block-wise sifting/window","src/calReorderDF.c, src/calReorderBF.c")],
 ["block tree"],["order of variables after reordering"],H)
p("P07","Quantification and relational product are exact and never stale",
 "Existential and universal quantification and the relational product remove exactly the variables of the association current at the call, and nothing else. Redefining the temporary association, reusing an association identifier, switching, reordering or collecting between calls never lets an answer for an earlier association leak into a later one.",
 ["histories","schedules","inputs"],"all histories of association changes interleaved with quantifications and maintenance",
 "wrong answers need a cached result of an earlier association to survive into a later one, i.e. a specific multi-call history",
 ["src/calQuant.c","src/calAssociation.c","src/calCacheTableTwo.c"],
 [("per-association operation codes","src/calQuant.c"),("cache flush when an association dies","src/calCacheTableTwo.c"),("last-quantified-level bookkeeping","src/calReorderUtil.c, src/calBddManager.c")],
 ["associations, operation cache"],["results of quantification calls"],H)
p("P08","Associations are stable, shared and released exactly",
 "Defining the same association twice yields the same identifier and it dies only when released as often as defined; setting a current association returns the previous one, an unknown identifier is refused with a warning and merely leaves the temporary association current, and malformed lists are refused without disturbing other associations or functions. Functions held by an association survive collection and reordering while it lives and become reclaimable when it goes.",
 ["histories","schedules"],"all histories of association define/augment/set/release calls with interleaved maintenance",
 "needs histories with several live associations, re-use of identifiers and collections in between",
 ["src/calAssociation.c","src/calReorderUtil.c","src/calBddManager.c"],
 [("association list with identifiers and counts","src/calAssociation.c"),("forwarding of associated functions","src/calAssociation.c")],
 ["association list, temporary association"],["identifiers returned, results of operations under the association"],H)
p("P09","Substitution, composition and variable swaps are exact",
 "Simultaneous substitution, variable-for-variable substitution, composition of one variable (or, harmlessly, a constant) and exchanging two variables return exactly the function obtained by substituting in every assignment. This holds for any association contents, any earlier substitutions in the history, and any placement of maintenance.",
 ["histories","schedules","inputs"],"all substitution maps, histories and maintenance schedules",
 "simultaneous versus sequential substitution and stale results differ only for overlapping maps or after specific earlier calls",
 ["src/calBddSubstitute.c","src/calBddVarSubstitute.c","src/calBddCompose.c","src/calBddSwapVars.c"],
 [("level-wise substitution queues","src/calBddSubstitute.c, src/calBddVarSubstitute.c"),("swap request queues","src/calBddSwapVars.c"),("compose with if-then-else","src/calBddCompose.c")],
 ["operation cache, associations"],["results of the calls"],H)
p("P10","Cofactor, reduce and between honour the care set",
 "The generalised cofactor and the care-set reduction agree with the given function wherever the care set holds, reduction never returns a larger diagram, and an interval request returns a function between its bounds no larger than either bound. This holds at any point of any history and whichever internal step maintenance interrupts.",
 ["histories","schedules","inputs"],"all functions, non-empty care sets, ordered bounds, histories and maintenance schedules",
 "tests sample few care sets and never let maintenance run between the internal steps",
 ["src/calReduce.c"],[("care-set apply/reduce passes","src/calReduce.c"),("size comparison before returning","src/calReduce.c")],
 ["request queues"],["results of the calls"],H)
p("P11","Queries are correct and never disturb the manager",
 "Support, dependence, cube test, type, top variable and branches, satisfying assignment, satisfying fraction, node counts, level profiles and printed forms describe exactly the handle's function in the current order (a constant has no top variable or branches: null handles), and the statistics report the manager's settings and counts. Asking never changes any function, leaves no residue that alters later answers, and is unaffected by maintenance triggered by the question itself.",
 ["histories","schedules","inputs"],"all live handles at every point of every history",
 "several queries mark nodes and must unmark them; residue is only visible in later, different queries, and maintenance inside a query needs thresholds tests never reach",
 ["src/calBddSupport.c","src/calBddSatisfy.c","src/calBddSize.c","src/calPrintProfile.c","src/cal.c"],
 [("mark/unmark traversals","src/calBddSize.c, src/calBddSupport.c"),("memoised fraction","src/calBddSatisfy.c"),("decomposition accessors","src/cal.c")],
 ["mark bits"],["query results"],H)
p("P12","Pipelined operations equal direct ones",
 "A batch of dependent operations queued provisionally and then executed yields, for every queued operation, the same handle the direct operation would return. This holds for any dependency shape, depth setting and for collection, repacking or reordering striking while the batch executes, and for other requests made while it is open; requests in the wrong phase are refused, and the manager is fully usable after the batch is finished or abandoned.",
 ["histories","schedules","inputs"],"all batches, pipeline depths and maintenance placements between stages",
 "tests run two fixed pipelines without any maintenance between the stages",
 ["src/calPipeline.c","src/calBddOp.c"],
 [("provisional request lists per depth","src/calPipeline.c"),("multi-level apply/reduce","src/calBddOp.c"),("result locking during execution","src/calPipeline.c")],
 ["request node lists, provisional handles"],["updated provisional handles"],H)
p("P13","Hitting the node limit fails cleanly",
 "When the configured node limit is exceeded, the affected operation returns either the exact result or the null handle with the overflow condition reported, and null handles passed on yield null again. Nothing else changes: all other handles keep their functions, no references leak, and after raising the limit or releasing handles the same operation succeeds. The limit takes effect: an operation that stores more nodes than the package lets pass between two looks at its size does not succeed with more nodes left than the limit, whatever collections came before.",
 ["histories","schedules","fault_sequences"],"all histories and all points at which the limit is exceeded",
 "no test sets a limit low enough to abort an operation, let alone continues afterwards",
 ["src/calUtil.c","src/calBddOp.c","src/calQuant.c","src/calBddManager.c"],
 [("limit check after collection","src/calUtil.c"),("result release on overflow","src/calBddOp.c")],
 ["overflow flag, node limit"],["null results, overflow query, later results"],H)
p("P14","Dump files round-trip and survive I/O faults",
 "Reading back a dumped diagram yields exactly the dumped function over the given variables, in the same or another manager with any order and whatever maintenance runs during either call. Reading a truncated, failing or corrupted stream returns null with the error reported or a well-formed diagram, never crashes, never leaks, and leaves every other handle intact; a list holding something other than variables is refused, and a dump that could not be written is not mistaken for a complete one.",
 ["histories","schedules","fault_sequences","inputs"],"all functions, variable lists, stream failures at every byte and byte corruptions",
 "tests write complete temporary files only; short, failing and corrupted streams are never presented",
 ["src/calDump.c"],[("shared-node numbering","src/calDump.c, src/calPrint.c"),("byte-wise encode/decode with error codes","src/calDump.c")],
 ["stream position, shared-node table"],["returned handle and error code"],H)
p("P15","Failed page allocation degrades without damage",
 "When the system refuses a large chunk of node memory the package retries with smaller chunks and carries on with exact results. Only when even the smallest chunk is refused does it stop with an out-of-memory report, never returning a wrong result first.",
 ["fault_sequences","histories"],"all sequences of refused page-segment allocations during any history",
 "allocation never fails in tests",
 ["src/calMemoryManagement.c"],[("segment size back-off","src/calMemoryManagement.c"),("page free list construction","src/calMemoryManagement.c")],
 ["page segments"],["results after refused allocations, exit report"])
p("P16","Variables can be created anywhere at any time",
 "A new variable gets a fresh identifier and exactly the requested place in the order (first, last, before or after another), shifting the others but keeping their relative order. Existing handles, associations and later operations are unaffected, also when internal tables must grow and when order was changed by reordering before.",
 ["histories","schedules"],"all creation sequences interleaved with operations and maintenance, across table growth",
 "tests create all variables first, before any function, association or reordering exists",
 ["src/calBddManager.c","src/calBlk.c","src/calAssociation.c"],
 [("table growth","src/calBddManager.c"),("index shifting","src/calBddManager.c")],
 ["order maps, unique tables, request queues, associations"],["index/id lookups, handle evaluation"],H)
p("P17","Managers are isolated and release all memory",
 "Interleaving operations on several managers gives each the results it would give alone. Shutting a manager down at any point of its life returns every piece of memory it obtained exactly once and does not affect the others.",
 ["histories","schedules"],"all interleavings of the lifetimes and operations of several managers",
 "tests run one manager and never account for its memory",
 ["src/calBddManager.c","src/calMemoryManagement.c"],
 [("manager construction/teardown","src/calBddManager.c"),("page and node managers","src/calMemoryManagement.c")],
 ["allocator state"],["allocator accounting at shutdown, per-manager results"])
p("P18","C++ handles own exactly one reference",
 "Every C++ handle, however constructed, copied, moved, assigned (also to itself) or destroyed, holds exactly one reference, so functions stay valid while a handle exists and become reclaimable once the last is gone. Results of every request of the C++ interface, in each of its spellings, equal those of the underlying operations under any maintenance schedule.",
 ["histories","schedules"],"all sequences of handle construction, assignment, move and destruction with interleaved operations and maintenance",
 "the C++ interface is only compiled, never executed, by the tests",
 ["src/calObj.hh"],[("handle copy/move/destroy","src/calObj.hh"),("manager wrapper operations","src/calObj.hh")],
 ["reference counts"],["reference counts and handle values"],H)
p("P19","Block and record allocators never overlap or lose storage",
 "Blocks and records handed out are disjoint, big enough, keep their contents through resizing and are reusable after being returned. This holds for any request sequence, also when the break moves discontiguously because of other users, and exhaustion is reported through the registered handler rather than by corrupting memory.",
 ["histories","fault_sequences"],"all request/resize/return sequences and all behaviours of the system break",
 "tests exercise no allocator sequence and the break always grows contiguously there",
 ["src/calMem.c"],[("power-of-two block lists with coalescing","src/calMem.c"),("record free lists","src/calMem.c")],
 ["segment lists"],["returned addresses and contents"])
p("P20","Maintenance happens only when enabled",
 "With dynamic reordering disabled the variable order changes only through explicit requests; with automatic collection switched off nothing is collected until it is switched on or requested. Switching these modes at any time never affects any function.",
 ["histories","schedules"],"all histories of mode switches and operations under maximal maintenance pressure",
 "tests stay below every threshold, so a mode that is ignored is not noticed",
 ["src/calUtil.c","src/calBddManager.c","src/calInteract.c","src/calGC.c"],
 [("collection gate","src/calUtil.c"),("reordering gate","src/calUtil.c")],
 ["mode flags"],["order lookups, collection statistics"],H)
p("P21","Observable answers do not depend on layout or timing",
 "Two executions of the same request history that differ only in where memory happens to lie and when automatic collection and repacking run give the same sizes, profiles, printed diagrams, fractions, supports and equality answers. No answer depends on uninitialised memory.",
 ["schedules","histories"],"all pairs of memory layouts and collection schedules for each history without reordering",
 "needs controlled re-execution under a different allocator layout and schedule; tests see one",
 ["src/calHashTable.c","src/calCacheTableTwo.c","src/calBddSize.c","src/calPrint.c","src/calMemoryManagement.c"],
 [("address-based hashing and operand ordering","src/calInt.h"),("uninitialised allocation","src/calMem.h")],
 ["hash tables"],["all query outputs of both executions"],H)
with open("/verif/properties.jsonl","w") as f:
    for d in P: f.write(json.dumps(d)+"\n")
