"""Source of properties.jsonl and MANIFEST.json (python3 bin/props.py rewrites both)."""
import json, os, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def p(id, title, statement, over, text, why, files, mechanism, level=None, technique=None, note=None, na=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mechanism=mechanism,
                  level=level, technique=technique, note=note, na=na, observe=observe))


GT = "random multigraphs under ASan/UBSan, oracle: brute-force reference on the observed result"
GN = "Held on every generated graph (up to 400 vertices, parallel edges, self loops, disconnected parts, unreachable vertices). Trusts the brute-force reference in harness/graph.cpp; says nothing about graphs not generated."
GF = ["sdfg/src/graph/graph.cpp", "sdfg/include/sdfg/graph/graph.h"]
GW = "The unit tests use a handful of fixed graphs of a few vertices; the guarantee is over every graph, including parallel edges, self loops, unreachable parts and several exits."

p("G01", "Dominator trees are exact",
  "For every directed graph and every root, the dominator tree maps each reachable vertex to its immediate dominator: the closest other vertex that lies on every path from the root. The root and unreachable vertices have none, and computing the tree neither crashes nor changes the graph.",
  ["inputs"], "all directed multigraphs and roots", GW, GF, [("dominator_tree", "sdfg/src/graph/graph.cpp")], technique=GT, note=GN)
p("G02", "Post-dominator trees are exact and leave the graph alone",
  "For every directed graph whose vertices can reach an exit, the post-dominator tree maps each vertex to the closest other vertex on every path from it to the exits, with none where the exits have nothing in common. Computing it leaves the graph with the same vertices and edges, so that repeated calls give the same answer.",
  ["inputs", "histories"], "all directed multigraphs with one or several exits; repeated calls", GW, GF, [("post_dominator_tree", "sdfg/src/graph/graph.cpp")], technique=GT, note=GN)
p("G03", "Graph components are the reachability classes",
  "Two vertices are in the same strongly connected component exactly when each reaches the other, and in the same weakly connected component exactly when they are connected ignoring direction. The reported number of components is the number of classes.",
  ["inputs"], "all directed multigraphs", GW, GF, [("strongly_connected_components, weakly_connected_components", "sdfg/src/graph/graph.cpp")], technique=GT, note=GN)
p("G04", "Acyclicity and topological orders are exact",
  "A graph is reported acyclic exactly when it has no directed cycle. Topological orders of an acyclic graph list every vertex exactly once with every edge pointing forward, and are the same for the same graph.",
  ["inputs"], "all directed multigraphs", GW, GF, [("is_acyclic, topological_sort, topological_sort_deterministic", "sdfg/src/graph/graph.cpp")], technique=GT, note=GN)
p("G05", "Depth-first orders and back edges are exact",
  "A depth-first traversal lists exactly the vertices reachable from its start, each once. The back edges of a graph are exactly the edges that lead to an ancestor in its depth-first traversal.",
  ["inputs"], "all directed multigraphs and starts", GW, GF, [("depth_first_search, back_edges", "sdfg/src/graph/graph.cpp")], technique=GT, note=GN)
p("G06", "Simple paths are enumerated completely",
  "The simple paths between two vertices are all the paths that visit no vertex twice, each given exactly once as its sequence of edges, distinguishing parallel edges; from a vertex to itself, they are the simple cycles through it.",
  ["inputs"], "all directed multigraphs and pairs of vertices", GW, GF, [("all_simple_paths", "sdfg/src/graph/graph.cpp")], technique=GT, note=GN)
p("G07", "Reversed and undirected views keep the graph",
  "The reversed view of a graph has the same vertices and exactly its edges turned around. The undirected view has one vertex for each vertex and one edge for each edge, and its two vertex mappings are inverse to each other.",
  ["inputs"], "all directed multigraphs", GW, GF, [("reverse, undirected", "sdfg/src/graph/graph.cpp")], technique=GT, note=GN)
p("H01", "String and set helpers agree with their definition",
  "Number recognition accepts exactly the non-empty digit strings, and parsing gives back every 64-bit value that was printed, with true as 1 and false as 0. Splitting undoes joining, a string ends with its suffixes only, and two sets intersect exactly when they share an element, in whatever order they are given.",
  ["inputs"], "all strings, 64-bit numbers and finite sets", "The unit tests use one or two examples of three of the helpers.",
  ["sdfg/include/sdfg/helpers/helpers.h"], [("helpers", "sdfg/include/sdfg/helpers/helpers.h")],
  technique="random inputs under ASan/UBSan against reference implementations", note="Held on the generated strings, numbers and sets.")

AF = ["arg-capture-io/src/arg_capture_io.cpp", "arg-capture-io/include/arg_capture_io/arg_capture_io.h", "rtl/src/capture.cpp"]
AT = "random captures under ASan/UBSan, oracle: what was captured, recomputed from the files left behind"
AN = "Held on every generated capture and history. Trusts the file system under the scratch directory and the JSON parser; the oracle decodes files itself."
p("A01", "Captured arguments are stored faithfully",
  "Whatever data, element size, dimensions and primitive type a program captures as an argument, reading the capture back gives exactly these bytes, dimensions and type, whether it is kept inline or in a file, and for any size. Capturing never changes or reads beyond the program's data.",
  ["inputs"], "all buffers, sizes (beyond 2 GiB included), dimensions and types, inline and file captures", "The unit tests capture a few small arrays of one type.",
  AF, [("capture_inline, write_capture_to_file, __daisy_capture_*", "arg-capture-io/src/arg_capture_io.cpp, rtl/src/capture.cpp")], technique=AT, note=AN)
p("A02", "A capture index finds its data again",
  "The index written for any set of captured regions, when loaded again, names exactly the same regions, arguments, dimensions, types and data. This also holds after the whole directory was moved elsewhere.",
  ["inputs", "histories"], "all sets of regions and captures, loading in place and after a move", "One test serialises a single region without moving it.",
  AF, [("write_index, from_index", "arg-capture-io/src/arg_capture_io.cpp")], technique=AT, note=AN)
p("A03", "The capture strategy decides which invocations are captured",
  "With the strategy 'never' nothing is captured, with 'once' exactly the first invocation of each element, and with 'all' every invocation; anything else counts as 'once'. Captures are written to the directory named by the environment, else to the one the program gives, else to arg_captures in the working directory.",
  ["histories", "configurations"], "all strategies, base directories and sequences of invocations of several elements", "The tests run each strategy once, on one program with two invocations.",
  ["rtl/src/capture.cpp"], [("__daisy_capture_init, __daisy_capture_enter, __daisy_capture_end", "rtl/src/capture.cpp")], technique=AT, note=AN)
p("A04", "No capture overwrites another invocation's data",
  "When several invocations, elements or arguments are captured in one run, every capture that the run retains stays readable afterwards with the data of its own invocation. No capture replaces the data of another one.",
  ["histories"], "all sequences of captured invocations", "The tests never compare the data of two invocations.",
  AF, [("file naming per element, invocation, argument and direction", "arg-capture-io/src/arg_capture_io.cpp")], technique=AT, note=AN)
p("A05", "A capture that reports success is on disk",
  "When opening, writing or closing a file, creating a directory or reading data back fails or is cut short, the capture operation concerned reports failure. An operation that reports success has stored or returned all of its bytes.",
  ["fault_sequences"], "one failing or short system call at every place of a capture, an index write or a read", "No test makes an I/O operation fail.",
  AF, [("stream state checks in the write and read functions", "arg-capture-io/src/arg_capture_io.cpp")], level="fault_enumeration",
  technique="fault injection at enumerated I/O calls (interposed fopen/write/close/read/mkdir) under ASan/UBSan, oracle: files compared with what was reported",
  note="Each case injects one fault at one call of one operation; all positions of the generated operations are covered. Faults below the libc calls (kernel write-back errors) are not modelled.")
p("A06", "Base64 coding is exact and safe",
  "Encoding gives the standard padded base64 text of any byte string, and decoding gives these bytes back. Decoding text that is not valid base64 does not access memory outside its buffers.",
  ["inputs"], "all byte strings and all texts", "The tests encode one short array.",
  AF, [("base64 encode and decode", "arg-capture-io/src/arg_capture_io.cpp")], technique="random and damaged inputs under ASan/UBSan against a reference encoder", note=AN)
p("A07", "The capture store behaves as a map under any history",
  "After any sequence of captures, invocations, clears and lookups, the store holds exactly the captures made since the last clear, under their element, argument and direction. The latest capture of an argument is the one that is found.",
  ["histories"], "all sequences of operations of the capture store", "The tests run fixed sequences of two or three operations.",
  AF, [("ArgCaptureIO", "arg-capture-io/src/arg_capture_io.cpp")], technique="stateful random testing against a model, under ASan/UBSan", note=AN)
p("A08", "A damaged capture index is refused, not misread",
  "An index file that was truncated or changed is either refused with an error or loaded with every member of every capture it contains. It never leads to a crash or to captures with missing members.",
  ["inputs", "fault_sequences"], "all truncations and mutations of index files", "No test loads an index that its own writer did not just produce.",
  AF, [("from_index", "arg-capture-io/src/arg_capture_io.cpp")], technique="mutation of valid index files under ASan/UBSan, oracle: error or complete captures", note=AN)

IF = ["rtl/src/instrumentation.cpp", "rtl/include/daisy_rtl/daisy_rtl.h"]
IT = "instrumented child programs with a recording PAPI stand-in under ASan/UBSan, offline check of the trace file"
IN = "Held on every generated program. PAPI is a stand-in with a virtual clock and virtual counters, so values are known exactly; real counters and CUDA are not exercised."
IW = "The tests of the instrumentation need libpapi and hardware counters (they fail here), and look at one region of one program."
p("I01", "The trace of any instrumented run is complete, valid JSON",
  "Whatever strings the metadata of the regions contains and whichever members are absent, the trace written at exit is valid JSON. It has exactly one event for every time a region was entered (in aggregate mode: one for every region that was registered), with the metadata of that region.",
  ["programs", "inputs"], "all programs of nested regions, metadata strings (quotes, control characters, UTF-8), modes", IW,
  IF, [("trace writer at process exit", "rtl/src/instrumentation.cpp")], technique=IT, note=IN)
p("I02", "Every event carries its own measurements",
  "In the default mode, each event of a region carries the start time, the duration and the difference of every configured counter between entering and leaving the region that time. This holds for nested regions and for regions that are registered again after being finalized.",
  ["programs", "histories"], "all sequences of entering and leaving nested regions, all event lists", IW,
  IF, [("enter, exit", "rtl/src/instrumentation.cpp")], technique=IT, note=IN)
p("I03", "Aggregated statistics are those of the measured values",
  "In aggregate mode, each region reports count, mean, variance, minimum and maximum of its durations, of each configured counter and of each metric the program recorded, as computed from the values of all its measurements. Its start is that of its first measurement and its duration is the total.",
  ["programs", "histories", "inputs"], "all sequences of measurements and recorded metrics", IW,
  IF, [("running mean and variance updates", "rtl/src/instrumentation.cpp")], technique=IT, note=IN + " Floating-point results are compared with a relative tolerance of 2e-5, the precision of the trace.")
p("I04", "Instrumentation is thread-safe",
  "When several threads register, enter, leave, record metrics for and finalize regions at the same time, each using a region alone at any moment, there is no data race. Every measurement ends up in the trace exactly once, with its own values.",
  ["schedules"], "all interleavings of threads using disjoint or handed-over regions", "No test uses threads.",
  IF, [("a mutex around every entry point", "rtl/src/instrumentation.cpp")],
  technique="ThreadSanitizer on multi-threaded programs, offline check of the trace against per-thread logs",
  note="Interleavings are those the scheduler produced (yields injected); the evidence counts distinct global orders of events. A race is reported by happens-before analysis, not only when it strikes.")
p("I05", "Hardware counter sets are used correctly and released",
  "Over any history of registering, entering, leaving and finalizing regions, counter sets are created, started, read, stopped, cleaned up and destroyed only in the states in which the counter library allows it. Beyond the regions in use only a bounded number of sets is kept, and at exit all sets of finalized regions have been destroyed.",
  ["histories"], "all histories of regions, including more regions than are cached", IW,
  IF, [("cache of sleeping regions", "rtl/src/instrumentation.cpp")], technique="online state-machine monitor in the PAPI stand-in, under ASan/UBSan", note=IN)
p("I06", "Regions keep their identity",
  "Registering a region again after it was finalized gives the same region, however many other regions were used in between, and different regions never share an id. All measurements of a region are reported under it.",
  ["histories"], "all histories of registering and finalizing regions", IW,
  IF, [("lookup by region name", "rtl/src/instrumentation.cpp")], technique=IT, note=IN)
p("I07", "Instrumentation failures are never silent",
  "Using a region that was not registered, and a missing, mismatching or failing counter library, end the program with a failure status and a message. Registering without metadata gives the null region.",
  ["fault_sequences", "histories"], "misuse at any point of a program; every failure of the counter library during set-up", IW,
  IF, [("error exits", "rtl/src/instrumentation.cpp")], level="fault_enumeration", technique="fault injection through the PAPI stand-in, oracle: exit status and diagnostics", note=IN)
p("M01", "Arithmetic helpers of generated code are exact",
  "The integer power used in generated code gives the exact result whenever it fits into 64 bits, and 0 for negative exponents, without undefined behaviour. Minimum, maximum and multiply-add give the result of their definition for any argument expressions, also inside larger expressions.",
  ["inputs"], "all 64-bit arguments whose result is representable", "No test calls the helpers.",
  ["rtl/include/daisy_rtl/daisy_rtl.h"], [("__daisy_sym_pow, __daisy_min, __daisy_max, __daisy_fma", "rtl/include/daisy_rtl/daisy_rtl.h")],
  technique="random arguments under UBSan against 128-bit arithmetic", note="Held on the generated arguments.")

RF = ["rpc/src/passes/rpc/rpc_context.cpp", "rpc/src/passes/rpc/daisytuner_rpc_context.cpp", "rpc/include/sdfg/passes/rpc/rpc_context.h"]
p("R01", "Remote-optimizer configuration follows its sources in order",
  "The server address and headers used for remote optimization are those of the last configuration source that sets them, for any sequence of defaults, configuration files, environment variables and explicit headers; values of the wrong type are ignored. An unreadable or malformed file is an error, and no connection is set up without a server.",
  ["configurations", "histories"], "all sequences of configuration sources and contents", "The tests of rpc need a running server; none checks configuration.",
  RF, [("SimpleRpcContextBuilder", "rpc/src/passes/rpc/rpc_context.cpp")], technique="random configuration histories against a model, under ASan/UBSan", note="Held on the generated configurations.")
p("R02", "Credentials are found in the documented order",
  "The credential is the first configured one of the job token, the access token, the token file of the user and the session file of the machine, without trailing white space, sent with the scheme that belongs to it. Without any, setting up the connection is refused; the server override is honoured.",
  ["configurations"], "all combinations of present, empty and absent sources", "No test covers credentials.",
  RF, [("find_docc_auth", "rpc/src/passes/rpc/daisytuner_rpc_context.cpp")], technique="random environments with an interposed session file, oracle: reference resolution", note="Held on the generated environments. Empty token files are not part of the property.")
p("R03", "Requests and responses cross the network unchanged",
  "A request reaches the server exactly once, as a POST with the given payload and headers, whatever its size. The result carries the status and the complete body of the response, and an error message exactly when the transfer failed or the status is not a success.",
  ["inputs", "fault_sequences"], "all payloads, response framings, splits, statuses and connection failures", "The tests of rpc need a running server and sample only success.",
  ["rpc/src/util/utils_curl.cpp", "rpc/include/sdfg/util/utils_curl.h"], [("post_json", "rpc/src/util/utils_curl.cpp")],
  technique="loopback server with scripted faults recording what it receives, under ASan/UBSan", note="Held on the generated exchanges over plain HTTP; TLS is libcurl's.")
p("R04", "Credentials are neither printed nor sent elsewhere",
  "Setting up and using a connection never writes a token or header value to the output or into an error message. A response that redirects to another server is not followed, so the credential stays with the configured server.",
  ["configurations", "inputs"], "all credentials, headers and redirect responses", "No test looks at the output.",
  RF + ["rpc/src/util/utils_curl.cpp"], [("build, post_json", "rpc/src")], technique="output capture and a second loopback server as monitors", note="Held on the generated configurations and redirects.")

exec(open(os.path.join(VERIF, "bin", "props_sdfg.py")).read()) if os.path.exists(os.path.join(VERIF, "bin", "props_sdfg.py")) else None


def main():
    sys.path.insert(0, os.path.join(VERIF, "bin"))
    import registry
    ids = [x["id"] for x in P]
    assert len(set(ids)) == len(ids)
    claimed = [x for x in P if x["id"] in registry.CHECKS and not x["na"]]
    assert set(registry.CHECKS) == {x["id"] for x in claimed}, set(registry.CHECKS) ^ {x["id"] for x in claimed}
    with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
        for x in P:
            assert len(x["title"]) <= 80, x["title"]
            a = {"files": x["files"], "mechanism": [{"name": n, "where": w} for n, w in x["mechanism"]]}
            if x["observe"]:
                a["observe_at"] = x["observe"]
            a["hook_needed"] = None
            f.write(json.dumps({"id": x["id"], "title": x["title"], "statement": x["statement"],
                                "quantifier": {"over": x["over"], "text": x["text"]}, "why_tests_cant": x["why"], "anchors": a}) + "\n")
    m = {"version": 1, "setup_cmd": "python3 bin/build.py", "checks": [], "not_applicable": []}
    for x in claimed:
        c = registry.CHECKS[x["id"]]
        m["checks"].append({"property": x["id"], "quick_cmd": "python3 bin/check.py %s" % x["id"],
                            "thorough_cmd": "VERIF_TIER=thorough python3 bin/check.py %s" % x["id"],
                            "evidence_file": "evidence/%s.json" % x["id"], "technique": x["technique"],
                            "level": x["level"] or c["level"], "level_note": x["note"]})
    for x in P:
        if x["na"]:
            m["not_applicable"].append({"property": x["id"], "reason": x["na"]})
    m["notes"] = "No hooks in /repo: the checks compile /repo's sources with sanitizers into harnesses of /verif. known_findings.jsonl lists repaired and recorded defects."
    json.dump(m, open(os.path.join(VERIF, "MANIFEST.json"), "w"), indent=1)
    print(len(P), "properties,", len(claimed), "claimed")


main()
