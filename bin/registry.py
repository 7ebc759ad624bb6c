"""What each check runs. cases: (quick, thorough); require: least number of events below which a run decides nothing."""

CHECKS = {}


def _c(pid, target, quick, thorough, rule, require, **kw):
    CHECKS[pid] = dict(target=target, cases=(quick, thorough), rule=rule, require=require, level=kw.pop("level", "exploration"), **kw)


# ---------------------------------------------------------------- control flow graphs (sdfg/src/graph)
_DET = ["boost::adjacency_list with listS/vecS storage as declared in graph.h"]
_c("G01", "graph", 150000, 6000000,
   "dominator_tree of a random multigraph equals the immediate dominators found by deleting one vertex at a time; a case counts when some vertex has a dominator other than the root",
   {"dominators-compared": 100000, "non-root-dominators": 10000}, assumptions=_DET)
_c("G02", "graph", 150000, 6000000,
   "post_dominator_tree equals brute-force post-dominators over the given or a synthetic exit, twice in a row, and leaves the graph as it was; a case counts when it has at least two vertices",
   {"post-dominators-compared": 100000, "several-exits": 1000}, assumptions=_DET)
_c("G03", "graph", 120000, 5000000,
   "strongly and weakly connected components equal the partitions given by pairwise reachability; a case counts when the graph has an edge",
   {"pairs-compared": 100000, "graphs-with-cycles": 1000, "graphs-in-several-parts": 1000}, assumptions=_DET)
_c("G04", "graph", 150000, 6000000,
   "is_acyclic equals the absence of a cycle, topological sorts list every vertex once with every edge forward; a case counts when the graph has an edge",
   {"edges-ordered": 100000}, assumptions=_DET)
_c("G05", "graph", 150000, 6000000,
   "depth-first orders visit what is reachable, parents before children, and the back edges are exactly those of a recursive reference; a case counts when there is a back edge or two vertices",
   {"vertices-visited": 100000, "back-edges": 10000}, assumptions=_DET)
_c("G06", "graph", 200000, 8000000,
   "all_simple_paths equals exhaustive enumeration (as a multiset of edge sequences); a case counts when there is a path",
   {"paths": 50000}, assumptions=_DET)
_c("G07", "graph", 150000, 6000000,
   "reverse and undirected views hold exactly the vertices and edges of the graph, and the vertex maps are inverse to each other; a case counts with more than one edge",
   {"edges-compared": 100000}, assumptions=_DET)
_c("H01", "graph", 60000, 2000000,
   "is_number, parse_number_*, endswith, join, split and sets_intersect agree with reference implementations",
   {"numbers": 10000, "joins": 10000, "sets-meet": 1000, "sets-disjoint": 1000})

# ---------------------------------------------------------------- argument capture (arg-capture-io, rtl/src/capture.cpp)
_c("A01", "argcap", 2500, 60000,
   "what a capture stored, inline or as a file, decoded through its index equals the bytes, dimensions and primitive type that were captured; a case counts when a capture was read back",
   {"library-captures": 500, "runtime-captures": 500, "bytes": 100000}, stall=240, jobs=6)
_c("A02", "argcap", 12000, 400000,
   "an index written for several regions, read again from the same or a moved directory, names the same captures and data",
   {"indexes-loaded": 1000, "several-regions": 300})
_c("A03", "argcap", 4000, 100000,
   "the invocations that are captured are exactly those the strategy (never, once, all, unset) names, in the directory the documented precedence gives",
   {"invocations": 3000, "runs-beyond-65536-invocations": 1}, stall=240)
_c("A04", "argcap", 2500, 60000,
   "captures of every retained invocation stay readable with their own data: no invocation overwrites another's",
   {"invocations": 3000, "captures-retained": 1000}, stall=240)
_c("A05", "argcap", 2500, 60000,
   "with one failing open, write, close, read or directory creation at an enumerated place, an operation that reports success has stored or returned the right bytes",
   {"reported": 300}, level="fault_enumeration")
_c("A06", "argcap", 8000, 300000,
   "decode(encode(x)) = x, encode equals a reference encoder, and decoding damaged text never touches memory outside its buffers",
   {"round-trips": 1000, "hostile-decodes": 1000})
_c("A07", "argcap", 6000, 200000,
   "after every operation of a random history the store equals a model of it (captures by region, element and argument, clear, names)",
   {"operations": 10000})
_c("A08", "argcap", 20000, 800000,
   "an index that was cut, changed or is of another shape is either rejected with an error or loaded with every capture complete; no crash",
   {"refused": 1000, "accepted": 100})

# ---------------------------------------------------------------- instrumentation (rtl/src/instrumentation.cpp)
_PAPI = ["libpapi is replaced by a stand-in whose clock and counters the harness moves; PAPI itself is not exercised"]
_c("I01", "instr", 8000, 250000,
   "the trace a program leaves is JSON with exactly one event per completed or interrupted measurement, carrying the metadata of its region",
   {"trace_events": 20000, "hostile_strings": 500, "regions_without_events": 500, "events_without_sdfg": 500, "aggregate_traces": 500}, assumptions=_PAPI)
_c("I02", "instr", 8000, 250000,
   "start, duration and counter deltas of every event equal what the clock and counters did between enter and exit",
   {"trace_events": 20000, "events_with_counters": 5000, "evictions": 1000}, assumptions=_PAPI)
_c("I03", "instr", 8000, 250000,
   "aggregated statistics (count, mean, variance, min, max of runtime, counters and metrics) equal a two-pass computation in long double",
   {"counter_statistics": 5000, "metric_statistics": 5000, "regions_never_entered": 500}, assumptions=_PAPI)
_c("I04", "instr", 1200, 40000,
   "two to eight threads with own and handed-over regions: no data race (ThreadSanitizer), and the trace holds exactly the recorded events; distinct counts different global orders of events",
   {"thread_events": 20000, "threads": 500}, variant="tsan", assumptions=_PAPI, jobs=6)
_c("I05", "instr", 8000, 250000,
   "every call to PAPI obeys its state machine (create on PAPI_NULL, add before start, read and stop while running, cleanup before destroy), at most eleven sets beyond the active regions exist, none is left at exit",
   {"eventsets": 5000, "starts": 5000, "evictions": 1000}, assumptions=_PAPI)
_c("I06", "instr", 8000, 250000,
   "a region keeps its id over finalize, cache eviction and re-initialisation, ids are distinct and non-zero, and all its events end up in the trace",
   {"reinits": 5000, "evictions": 1000}, assumptions=_PAPI)
_c("I07", "instr", 6000, 150000,
   "unknown region ids and a missing, mismatching or failing PAPI end the program with a failure status and a diagnostic; NULL metadata gives region 0",
   {k: 100 for k in ("unknown-enter", "unknown-exit", "unknown-finalize", "unknown-metric", "null-metadata", "no-papi", "wrong-version", "create-fails", "add-fails", "traces_after_misuse")},
   assumptions=_PAPI)
_c("M01", "instr", 20000, 600000,
   "__daisy_sym_pow equals exact 128-bit arithmetic whenever the result fits 64 bits (UBSan watches the computation), min, max and fma are exact also inside larger expressions",
   {"pow": 100000, "minmax": 100000})

# ---------------------------------------------------------------- rpc
_c("R01", "rpc", 20000, 600000,
   "after any sequence of configuration sources the built context has the address and headers of a reference model; unreadable files are errors; nothing is built without a server",
   {"built": 3000, "refused": 300, "sources_applied": 5000, "rejected_files": 1000})
_c("R02", "rpc", 20000, 600000,
   "the credential is the first configured of DOCC_JOB_TOKEN, DOCC_ACCESS_TOKEN, $HOME/.config/docc/token, /var/lib/daisytuner/session, trimmed, with the right scheme; without any the context is refused",
   {"job_tokens": 500, "access_tokens": 500, "home_files": 500, "session_files": 500, "unresolved": 300}, assumptions=["/var/lib/daisytuner/session is redirected into the scratch directory"])
_c("R03", "rpc", 4000, 120000,
   "against a loopback server with random framing, splitting, statuses and failures: the request arrives once and unchanged, the result carries the status and body, and an error message exactly when it failed",
   {"successes": 300, "http_errors": 300, "failed_transfers": 300, "chunked": 100, "requests_seen": 1000})
_c("R04", "rpc", 4000, 120000,
   "tokens and header values appear in no output or error message, and redirects to another server are not followed",
   {"outputs_scanned": 1000, "redirects_refused": 300, "secrets": 1000})

# ---------------------------------------------------------------- symbolic expressions (sdfg/src/symbolic)
_SHIM = ["SymEngine and the ISL headers are stand-ins (/verif/shim): the shim's canonical forms and hash orders, not SymEngine's own, are explored; libisl itself is the installed one"]
_c("S01", "sdfg", 24000, 800000,
   "a random term built through docc's constructors, and its simplified, expanded, substituted, printed-and-parsed forms have the value of an evaluator that never saw the expression; atoms contain every symbol the value depends on",
   {"values": 300000, "dependences": 5000}, assumptions=_SHIM)
_c("S02", "sdfg", 24000, 800000,
   "coefficients times symbols add up to the value, the inverse undoes the affine map, quotient times divisor plus rest is the dividend, at exact rational valuations",
   {"sums": 50000, "inverses": 20000, "divisions": 10000, "quotients": 2000, "several-symbols": 8000}, assumptions=_SHIM)
_c("S03", "sdfg", 24000, 800000,
   "the conjunction of the clauses has the truth value of the condition at every sampled valuation and every literal is atomic",
   {"normal-forms": 10000, "clauses": 20000, "values": 100000}, assumptions=_SHIM)
_c("S04", "sdfg", 24000, 800000,
   "every value of the term over the enumerated domain lies within the reported bounds, which mention only the parameters",
   {"bounds": 20000, "values": 500000}, assumptions=_SHIM)
_c("S05", "sdfg", 12000, 400000,
   "enumerating the domains: disjoint subscripts share no element, subsets miss none, accesses said never to meet in different iterations do not",
   {"disjoint": 1000, "subsets-decided": 300, "never-intersect": 2000, "pairs": 10000, "different-nests": 1000}, assumptions=_SHIM)
_c("S06", "sdfg", 24000, 800000,
   "enumerating the domain: delinearized subscripts are equal exactly when the linear ones are",
   {"delinearized": 3000, "elements": 100000}, assumptions=_SHIM)
_c("F01", "sdfg", 24000, 800000,
   "orders, neighbours, degrees, sources, sinks and components equal those of an edge list kept beside the graph",
   {"graphs": 10000, "memlets checked": 100000, "orders checked": 10000}, assumptions=_SHIM)
_c("F02", "sdfg", 16000, 600000,
   "after each edit the block has the nodes and memlets of the model",
   {"memlets checked": 200000, "memlets removed": 2000, "nodes removed": 300, "code nodes cleared": 2000, "access nodes cleared": 2000}, assumptions=_SHIM)
_PROG = _SHIM + ["programs are those of harness/sdfg/gen.hpp: loops, maps, branches, whiles, tasklets, references, views, up to three dimensions; runs with undefined behaviour are discarded"]
_c("L01", "sdfg", 3600, 200000,
   "for every read of an interpreted run the write that produced the bytes is among the reported definitions",
   {"runs observed": 2000, "reads of a written value": 20000, "distinct dependences": 5000, "directed programs": 1}, assumptions=_PROG)
_c("L02", "sdfg", 24000, 800000,
   "whenever an iteration sees or overwrites bytes an earlier one wrote, a carried dependence of that kind is reported",
   {"runs observed": 2000, "carried values": 300, "carried overwrites": 1000, "directed programs": 1}, variant="plain", assumptions=_PROG)
_c("L03", "sdfg", 3200, 150000,
   "the sequence of uses of an interpreted run respects the reported dominations and use orders",
   {"runs observed": 2000, "dominations observed": 3000, "post-dominations observed": 1000, "uses after a user": 3000, "uses between users": 1000}, assumptions=_PROG)
_c("L04", "sdfg", 16000, 600000,
   "at every point of an interpreted run the symbols satisfy every bound claimed there",
   {"runs observed": 2000, "directed programs": 2}, variant="plain", assumptions=_PROG)
_T = "every run of the program after the pass gives the memory and return value of the reference run of the program before it; a case counts for each pass that changed the program"
_c("T01", "sdfg", 3600, 150000, _T,
   {"programs": 2000, "runs compared": 30000, "DeadDataElimination applied": 2000, "DeadReferenceElimination applied": 500, "MemletLinearization applied": 500, "ReferencePropagation applied": 100, "TaskletFusion applied": 100,
    "TrivialArrayElimination applied": 50}, variant="plain", assumptions=_PROG)
_c("T02", "sdfg", 5000, 200000, _T,
   {"programs": 3000, "runs compared": 30000, "BlockFusion applied": 2000, "DeadCFGElimination applied": 500, "LoopNormalization applied": 500, "SequenceFusion applied": 50, "WhileToForConversion applied": 500, "directed programs": 1}, variant="plain", assumptions=_PROG)
_c("T03", "sdfg", 8000, 300000, _T,
   {"programs": 4000, "runs compared": 30000, "SymbolEvolution applied": 50, "SymbolPromotion applied": 2000, "SymbolPropagation applied": 2000}, variant="plain", assumptions=_PROG)
_c("T04", "sdfg", 12000, 500000, _T,
   {"programs": 4000, "runs compared": 30000, "For2Map applied": 2000, "MapFusion applied": 20}, variant="plain", assumptions=_PROG)
_c("T05", "sdfg", 2000, 60000, _T,
   {"programs": 1000, "runs compared": 10000, "AllocationManagement applied": 50}, assumptions=_PROG)
_c("T06", "sdfg", 5000, 200000, _T,
   {"programs": 2000, "runs compared": 30000, "dataflow_simplification applied": 2000, "symbolic_simplification applied": 1000, "dead_code_elimination applied": 500, "expression_combine applied": 1000, "memlet_combine applied": 500,
    "controlflow_simplification applied": 1000, "data_parallelism applied": 1000}, variant="plain", assumptions=_PROG)
_c("T07", "sdfg", 1600, 60000, "after a random sequence of passes, each validated, the program gives the memory and return value of the reference run; a case counts when the history ended",
   {"histories": 1000, "runs compared": 3000}, assumptions=_PROG)
_c("D01", "sdfg", 3000, 150000, "the program read back has the dump of the one written, and every library node, expression and type in it",
   {"read back": 2000, "library nodes": 4000, "runs compared": 200, "with map": 200, "with struct": 200, "with external": 200, "ml::Cast": 5, "Invoke": 50}, assumptions=_PROG)
_c("D02", "sdfg", 2000, 100000, "a copy has the dump and the results of its original, and still has them after the original was changed and released",
   {"clones": 1000, "deep copies": 1000, "copied nodes": 10000, "runs compared": 1000}, assumptions=_PROG)
_NAT = ["the installed gcc and g++ compile what is generated as the language standards define it (-O1)"]
_c("E01", "sdfg", 320, 40000, "the generated C or C++ of a program, run natively, gives the memory and return value of the interpreter's run",
   {"programs": 1000, "native runs compared": 4000, "C programs": 400, "C++ programs": 400}, variant="plain", assumptions=_PROG + _NAT)
_c("E02", "sdfg", 480, 20000, "each operation and type, run natively, gives the value an independent definition of the operation gives",
   {"values compared": 100000, "fp_one": 10, "fp_ord": 10, "int_sdiv": 10, "int_urem": 10, "int_ashr": 10, "assign": 10}, variant="plain", assumptions=_SHIM + _NAT)
_c("E03", "sdfg", 320, 30000, "each printed expression or condition, run natively, has the value an independent evaluator gives it",
   {"terms compared": 10000, "conditions compared": 5000}, variant="plain", assumptions=_SHIM + _NAT)
