#!/usr/bin/env python3
# Generates properties.jsonl (kept here so that statements are edited in one place).
import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None,hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(zip(("name","meaning","where"),s)) for s in (state or [])],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe or [],hook_needed=hook)))
INST="none in /repo: the check instruments a copy of the sources (yield points, simulated locks and finalizers)"
p("C01","Boolean operations compute the right function whatever the memory events",
 "Every node returned by a valid call to a constant, variable, cube or Boolean operation (From/True/False, Ithvar, NIthvar, Makeset, Makecube, Not, And, Or, Imp, Equiv, Apply with each of the ten operators, Ite) denotes exactly the Boolean function that the documentation defines for the functions its operands denoted at the time of the call. This holds for every history of earlier operations, wherever node-table collections, table resizes, cache evictions and releases of references fall, including in the middle of the call. A valid call neither panics nor raises the error status.",
 ["histories","schedules","fault_sequences","configurations"],"all operation histories on one BDD, all placements of collections, resizes, cache collisions and reference releases, all table and cache sizes, both implementations",
 "The tests run four fixed programs (Milner, N-queens, four-variable Allsat, one Ite identity) with one placement of collections each, never exercise most operators, and ignore the result of their own Allsat check.",
 ["operations.go","bkernel.go","hkernel.go","cache.go","bdd.go","operator.go"],
 [("operand and intermediate results kept on the reference stack","operations.go: apply, not, ite"),("cache invalidation after a collection or a resize","bdd.go: Makenode; cache.go: cachereset, cacheresize"),("unique table","hkernel.go, bkernel.go: makenode")],
 [("refstack","transient nodes protected from collection","bdd.go"),("applycache, itecache","memoised results keyed by node ids","cache.go")],
 ["function denoted by the returned Node (Allnodes, Low/High/Label, Allsat)","Errored"],INST)
p("C02","Quantification and relational product are exact whatever the memory events",
 "Exist returns exactly the existential quantification of its operand over the variables of the given variable set, and AppEx/AndExist exactly the quantification of the binary operation, for the operators documented as supported; an empty variable set quantifies nothing. This holds for every history, wherever collections, resizes, cache evictions and releases of references fall, including in the middle of the call, and whatever quantifications over other variable sets were computed before. A valid call neither panics nor raises the error status.",
 ["histories","schedules","fault_sequences","configurations"],"all histories mixing quantifications over several variable sets with other operations, all placements of memory events, all cache sizes",
 "Only Milner's single variable set and one three-variable example are used; cache entries of different variable sets or operators never meet, and no collection is forced inside a quantification.",
 ["operations.go","cache.go"],[("quantification set stamped with a fresh id","cache.go: quantset2cache"),("cache keys including the variable set and the operator","cache.go: quantcache, appexcache"),("reference stack","operations.go: quant, appquant")],
 [("quantset, quantsetID, quantlast","variables being quantified","cache.go"),("appexcache.id, quantcache.id","cache key of the running quantification","cache.go")],
 ["function denoted by the returned Node","Errored"],INST)
p("C03","Replace substitutes exactly, for any number of live replacers",
 "For a Replacer accepted by NewReplacer, and a node that depends on none of the target variables, Replace returns exactly the function obtained by the simultaneous renaming of the old variables into the new ones, in any variable order; when the node does depend on a target variable the result is either the correct substitution or nil with the error status set. This holds for every history and any number of replacers used alternately on the same nodes, wherever collections, resizes and cache evictions fall.",
 ["histories","schedules","fault_sequences","configurations"],"all histories interleaving several replacers and other operations, all placements of memory events, all renamings (order preserving or not)",
 "The tests only use one order-preserving renaming per BDD, so the reordering path and cache confusion between replacers are never run.",
 ["operations.go","replace.go","cache.go"],[("replacer identifiers in the cache key","replace.go: NewReplacer; cache.go: replacecache"),("re-establishing the variable order","operations.go: correctify")],
 [("replacecache.id","identifier of the running replacer","cache.go")],["function denoted by the returned Node"],INST)
p("C04","A held node keeps its meaning until the program releases it",
 "As long as the program holds a Node, that Node stays valid and denotes the function it denoted when it was obtained, whatever other operations, collections, resizes and releases happen, including releases of other references to the same node and however many references to one node (thousands) are taken and released in any order. Constants and variables are valid for the whole life of the BDD. The kernel function Retnode gives one more such reference.",
 ["histories","schedules","fault_sequences"],"all sequences of acquiring and releasing references to shared nodes, in any order and any number, all placements of collections",
 "Premature reclamation needs a release history (for example more than a thousand references to one node, then the release of some) followed by a collection and slot reuse; the tests never release a reference in a controlled way.",
 ["bkernel.go","hkernel.go","buddy.go","hudd.go"],[("external reference count incremented by Retnode and decremented by a finalizer","bkernel.go, hkernel.go: Retnode; buddy.go, hudd.go: nodefinalizer"),("collection marks from every node with a positive count","gbc")],
 [("refcou","number of external references, saturating","buddy.go, hudd.go")],["function denoted by every held Node, at any later time"],INST)
p("C05","The concurrent finalizer never loses or invents a reference",
 "The Go runtime may run the library's finalizers in another goroutine at any instant, including in the middle of any operation, of a collection or of a table resize. Whatever this interleaving, held nodes keep their meaning, results are the same, no reference stays counted after its finalizer has run, and no call or finalizer panics.",
 ["schedules"],"all interleavings, at the granularity of individual memory reads and writes, of the finalizer goroutine with the caller's operations",
 "The tests never control when finalizers run; a lost update needs the finalizer goroutine to hit a window of a few instructions, and its effect shows only after a later collection.",
 ["hudd.go","hkernel.go","buddy.go","bkernel.go"],[("mutual exclusion between finalizer and table updates","hudd.go: nodefinalizer; hkernel.go: Retnode, noderesize, gbc; the same in buddy.go, bkernel.go")],
 [("refcou","shared between caller and finalizer","buddy.go, hudd.go"),("nodes","replaced during a resize","noderesize")],["function denoted by held nodes","set of active nodes after a collection"],INST)
p("C06","Operands may be released while the call that uses them is running",
 "The last use of a Node by the program may be its use as an argument: the Go runtime may then finalize it while the call is still running. The result of the call, and everything it passes to callbacks or writes, is the same as if the operand had stayed referenced.",
 ["schedules","fault_sequences"],"all operations taking nodes (including Allsat, Allnodes, Print and Dot with callbacks or writers that run BDD operations), all instants of the call at which the operand becomes unreachable and is finalized, all placements of collections in the call",
 "Needs a runtime garbage collection and a finalizer run inside one library call, followed by a node-table collection in the same call; the tests keep their operands or never hit that window.",
 ["operations.go"],[("operands pushed on the reference stack, or kept reachable","operations.go: Apply, Not, Ite, Exist, AppEx, Replace, Allsat")],
 [("refstack","operands and intermediate results of the running operation","bdd.go")],["result of the call; sequence passed to callbacks"],INST)
p("C07","Canonicity: equal functions are equal nodes in a reduced ordered diagram",
 "At any time two valid nodes of the same BDD denote the same Boolean function if and only if Equal says so. Between calls the active nodes form a reduced ordered diagram: variables strictly increase along branches, no node has two identical branches, no two active nodes have the same variable and branches, and every branch leads to an active node.",
 ["histories","schedules","fault_sequences","configurations"],"all histories, including collections, resizes, failed operations and interrupted traversals",
 "Equality of nodes is what fixpoint computations rely on; breaking it needs a stale unique-table entry after a particular sequence of collections and resizes. The tests never compare whole tables.",
 ["hkernel.go","bkernel.go","hudd.go","buddy.go"],[("unique table lookup before creation","makenode"),("removal or rebuilding of unique-table entries at a collection or resize","gbc, noderesize, delnode")],
 [("unique / hash chains","triple to node index","hudd.go, buddy.go")],["Equal; Allnodes without roots"],INST)
p("C08","Released nodes are reclaimed",
 "After the finalizers of released references have run, the next node-table collection reclaims every node that is not reachable from a held Node, a constant or a variable (nodes that once had very many simultaneous references may stay). Hence a program whose live set is bounded runs for any length of time in a bounded table.",
 ["histories","schedules"],"all histories of acquisitions and releases, all interleavings of finalizers, after every collection",
 "A leak changes no result; only the exact set of surviving nodes after a controlled collection shows it, for every operation and every interruption (failed operation, failing callback).",
 ["bkernel.go","hkernel.go"],[("mark and sweep","gbc, markrec"),("finalizer decrements the count","nodefinalizer"),("reference stack emptied between operations","Initref, Popref")],
 [("refcou, mark bit","survival of a node","buddy.go, hudd.go")],["Allnodes and Stats after a collection"],INST)
p("C09","The node table grows only when needed and within the configured limits",
 "The node table never gets larger than Maxnodesize (when set, and at least the initial size) and never grows by more than Maxnodeincrease (when set) in one step; it never shrinks. It grows only at a collection that leaves fewer free nodes than the Minfreenodes ratio, and then it does grow unless a limit forbids it.",
 ["histories","configurations"],"all histories and all combinations of Nodesize, Maxnodesize, Maxnodeincrease and Minfreenodes",
 "No test sets Maxnodesize, Maxnodeincrease or Minfreenodes.",
 ["config.go","bkernel.go","hkernel.go"],[("resize policy","noderesize; threshold in makenode"),("configuration carried to the tables","New")],
 [("maxnodesize, maxnodeincrease, minfreenodes","limits","config.go")],["Allocated, Free and number of collections in Stats"],INST)
p("C10","Running out of nodes fails cleanly and is recoverable",
 "When an operation needs more nodes than Maxnodesize allows, it returns nil (or the correct result if it could be completed) and sets the error status: it does not panic, hang or return a wrong function. All held nodes keep their meaning and the diagram stays canonical; a later operation whose result fits (the nodes still referenced plus the new nodes it builds do not exceed the limit) succeeds and is right.",
 ["fault_sequences","histories"],"all operations, all points of an operation at which the table can be exhausted, all later histories",
 "No test ever exhausts the table; the failure point (which node creation inside the recursion fails) and the state left behind by the aborted recursion are what matters.",
 ["operations.go","bdd.go","bkernel.go","hkernel.go"],[("errMemory from makenode, propagated as a negative index and a nil Node","bdd.go: Makenode, operations.go"),("cache invalidation after the failed collection","bdd.go: Makenode")],
 [("error","sticky error status","bdd.go")],["returned Node, Errored, later results"],INST)
p("C11","Invalid calls are rejected without damage and nil propagates",
 "A call with an invalid argument (nil or out-of-range node, unknown variable, slices of the wrong length, unsupported operator, ill-formed renaming, bad number of variables) does not panic: it returns the documented failure value and reports the error (error status or error result), and operations applied to the nil result fail the same way, so calls can be chained and checked once. A rejected call at any point of a history changes no held node, no later result and not the canonicity of the diagram.",
 ["fault_sequences","histories","inputs"],"all invalid calls inserted at all points of all histories",
 "The tests contain no invalid call at all.",
 ["bdd.go","operations.go","replace.go","errors.go"],[("operand checks","bdd.go: checkptr, Ithvar; operations.go"),("error status","errors.go: seterror"),("validation of renamings","replace.go: NewReplacer")],
 [("error","sticky error status","bdd.go")],["return values, Errored, later results"],INST)
p("C12","Allsat and Satcount are exact, also when the callback runs BDD operations",
 "Allsat calls its function on cubes (0, 1 or -1 per variable, one entry per variable) that are pairwise disjoint and cover exactly the satisfying assignments of the node, and Satcount is exactly their number over all variables. This holds whatever the callback does with the same BDD: it may run any operation, causing collections, resizes and releases of references, during the enumeration.",
 ["inputs","histories","schedules"],"all functions and variable counts, all operations run by the callback at every step, all placements of collections during the enumeration",
 "The tests check Allsat on a handful of four-variable functions and discard the outcome; no collection happens during an enumeration.",
 ["operations.go"],[("recursive enumeration over node ids","operations.go: Allsat, allsat"),("root kept alive during the enumeration","operations.go: Allsat"),("memoised big-integer count","operations.go: Satcount")],
 [],["sequence of callback arguments; Satcount"],INST)
p("C13","Traversals report exactly the diagram, also when the callback runs operations",
 "Allnodes with roots calls its function exactly once on each non-constant node reachable from the roots, with its true level and branches, and without roots on each active node; Low, High, Label and Scanset agree with it, and Scanset(Makeset(a)) gives the variables of a. A traversal leaves no trace, and the callback of a traversal with roots may itself run any operation (including another traversal) on the BDD without changing what is reported or the results of these operations.",
 ["inputs","histories","schedules"],"all diagrams, all sets of roots, all operations run from callbacks, all later collections",
 "The tests count nodes twice in one example; traversals use the same mark bits as the collector, and only a later or nested operation shows a leftover mark.",
 ["hudd.go","buddy.go","bdd.go","operations.go"],[("mark bits shared with the collector","allnodesfrom, markrec, unmarkall")],
 [("mark bit","visited flag stored in a field used by other operations","buddy.go, hudd.go")],["callback arguments; later results"],INST)
p("C14","A failing callback stops the enumeration, is reported and leaves no trace",
 "When the function given to Allsat or Allnodes returns an error, it is not called again and that error is returned; otherwise the result is nil. When it returns an error or panics (and the program recovers) at any call, the BDD is left as it was: held nodes keep their meaning, later traversals, results and reclamation are unaffected.",
 ["fault_sequences","histories"],"all nodes, all calls of the callback at which it fails or panics, all later histories",
 "No callback in the tests ever fails.",
 ["operations.go","hudd.go","buddy.go"],[("error propagation through the recursion","operations.go: allsat; hudd.go, buddy.go: allnodes, allnodesfrom")],
 [("mark bit","must be cleared on every exit","buddy.go, hudd.go")],["error returned, number of calls, later behaviour"],INST)
p("C15","Print and Dot describe the diagram faithfully and write failures surface",
 "Print and Dot write a description with exactly the nodes reachable from the given roots (or all active nodes), with their true variables and branches (Dot omits edges to False). If the writer fails or writes short at any point, Dot returns an error, and returns nil only if everything was written. Whatever the writer does, including failing, panicking or running BDD operations during a write, the BDD is left intact and the description of given roots is unchanged.",
 ["inputs","fault_sequences","histories"],"all diagrams, all write calls at which the writer fails, writes short, panics or runs other operations",
 "No test calls Print or Dot.",
 ["stdio.go"],[("node list collected or visited through Allnodes","stdio.go: Print, Dot")],[],["bytes written, error returned, later behaviour"],INST)
p("C16","Distinct BDDs can be used from distinct goroutines",
 "Operations on a BDD used by one goroutine give the same results whatever operations other goroutines run at the same time on other BDDs, including the creation of BDDs and of replacers, and while finalizers of all of them run. No state shared by the instances makes one observable from the other.",
 ["schedules"],"all interleavings, at the granularity of individual memory accesses, of programs running on distinct BDDs",
 "The tests are sequential and use one BDD at a time; a shared counter or buffer shows only under a particular preemption.",
 ["replace.go","bdd.go","cache.go"],[("process-wide counter of replacer identifiers","replace.go: NewReplacer"),("everything else is per instance","bdd.go, cache.go, hudd.go, buddy.go")],
 [("_REPLACEID","global replacer counter","replace.go")],["results of each program against its sequential model"],INST)
p("C17","Configuration and implementation choices change performance only",
 "The same program gives the same observable results (functions, equality, counts, order and content of enumerations, variable sets, error status) for every choice of Nodesize, Cachesize, Cacheratio, Minfreenodes and Maxnodeincrease, for both implementations selected by build tags, with and without the debug tag, and for every timing of memory events, as long as no node limit is exceeded.",
 ["configurations","schedules","programs"],"all programs, all pairs of configurations, builds and schedules of memory events",
 "The tests run one configuration per program and never compare two runs.",
 ["config.go","cache.go","hudd.go","buddy.go","hkernel.go","bkernel.go"],[("options only change sizes","config.go"),("both implementations present the same tables interface","hudd.go, buddy.go")],
 [],["transcript of all observable results"],INST)
p("C18","Every call returns: no deadlock with the finalizer, no runaway recursion",
 "Every call terminates within a number of steps bounded by the size of the diagrams involved, whatever the interleaving with the finalizer goroutine, whatever collection or resize happens inside it, and also when it fails (table exhausted, invalid operand, failing callback or writer). No interleaving blocks the caller and the finalizer for ever, and every pending finalizer eventually completes.",
 ["schedules","fault_sequences","histories"],"all interleavings of lock acquisitions of caller and finalizer, all failure points",
 "A deadlock needs the finalizer to ask for the lock in a window where the caller takes it again; an aborted recursion that stops memoising becomes exponential only on particular shapes.",
 ["hudd.go","hkernel.go","buddy.go","bkernel.go","operations.go"],[("lock discipline","hudd.go, hkernel.go"),("memoisation and early exit of failed recursions","operations.go")],
 [("RWMutex","shared by caller and finalizer","hudd.go")],["completion of calls and finalizers within a step bound"],INST)
p("C19","Table statistics are conserved",
 "At any time between calls the statistics add up: used plus free nodes is the size of the table, the used nodes are exactly the active ones, the numbers of produced nodes and of collections never decrease, and every node that appears was counted as produced. With the debug tag, the number of external references minus the number reclaimed is the number of counted references still outstanding, for every interleaving of the finalizers.",
 ["histories","schedules"],"all histories and interleavings, all builds",
 "Statistics are printed but never compared to anything by the tests; conservation errors (a free list out of step with its counter) make the table fail or grow much later.",
 ["hudd.go","buddy.go","hkernel.go","bkernel.go","bdd.go"],[("freenum, produced, gcstat counters","makenode, setnode, gbc, noderesize, Retnode, nodefinalizer, stats")],
 [("freenum, freepos","free list","buddy.go, hudd.go"),("gcstat","counters of references","bdd.go")],["Stats, Allnodes"],INST)
p("C20","User-defined operations built on the kernel functions are safe",
 "A program that builds nodes with Makenode, protects each result with Pushref until it is used (after one Initref, and unprotects with Popref), and publishes the final result with Retnode, obtains a node denoting exactly the function it built, wherever collections and resizes fall; protected transient nodes are never reclaimed, and Makenode gives the same index for the same variable and branches while that node is alive. Once unprotected and unpublished, the transient nodes are reclaimed.",
 ["programs","histories","schedules"],"all programs following this protocol, all placements of collections between and inside the calls",
 "No test uses the kernel functions directly.",
 ["bdd.go","bkernel.go","hkernel.go"],[("reference stack as additional roots of the collection","bdd.go: Initref, Pushref, Popref; gbc"),("hash consing","makenode")],
 [("refstack","transient roots","bdd.go")],["indices returned by Makenode, function denoted by the published node"],INST)
with open('/verif/properties.jsonl','w') as f:
    for x in P:
        assert len(x['title'])<=80,(x['id'],len(x['title']))
        f.write(json.dumps(x)+'\n')
print(len(P))
