# Properties of sdfg/, executed by props.py.
SF = ["sdfg/src/symbolic", "sdfg/include/sdfg/symbolic"]
ST = "random expressions under ASan/UBSan, oracle: exact evaluation and enumeration of finite domains"
SN = "Held on every generated expression and domain. SymEngine's headers are not installed here: docc is built against a stand-in in /verif/shim whose hash order is varied; libisl is the installed one. Trusts harness/sdfg/eval.hpp."
SW = "The unit tests pin the result of a few hand-written expressions; the guarantee is over every expression, order of symbols and valuation."

p("S01", "Symbolic expressions keep their value",
  "Building an expression or condition, simplifying, expanding, substituting a symbol, and writing it to a file and parsing it back never change its value (integer division truncates as in C) for any values of its symbols. Conditions decided to be true or false always are. The reported atoms contain every symbol the value depends on.",
  ["inputs"], "all integer expressions and conditions over + - * / % min max abs pow, zext, trunc, comparisons and connectives, and all valuations for which they are defined", SW,
  ["sdfg/src/symbolic/symbolic.cpp", "sdfg/src/serializer/json_serializer.cpp"], [("symbolic::simplify, expand, subs, parse, atoms; JSONSerializer::expression", "sdfg/src/symbolic/symbolic.cpp")], technique=ST, note=SN)
p("S02", "Polynomial and affine decompositions are exact",
  "The affine coefficients reported for an expression, multiplied with their symbols and added up with the constant, give the expression, in whatever order the symbols were listed. The inverse of an affine expression undoes it. A polynomial division's quotient times divisor plus remainder is the dividend.",
  ["inputs"], "all expressions, lists of symbols and valuations", SW, ["sdfg/src/symbolic/polynomials.cpp"],
  [("affine_coefficients, affine_inverse, polynomial_div", "sdfg/src/symbolic/polynomials.cpp")], technique=ST, note=SN)
p("S03", "Conjunctive normal forms are equivalent",
  "The conjunctive normal form of a condition is true exactly when the condition is, and its literals contain no further connective.",
  ["inputs"], "all conditions and valuations", SW, ["sdfg/src/symbolic/conjunctive_normal_form.cpp"],
  [("conjunctive_normal_form", "sdfg/src/symbolic/conjunctive_normal_form.cpp")], technique=ST, note=SN)
p("S04", "Extreme values bound the expression",
  "A reported minimum is never above, and a reported maximum never below, any value the expression takes for symbols that satisfy the assumptions, and both mention only the symbols given as parameters.",
  ["inputs"], "all expressions, assumptions and admissible valuations", SW, ["sdfg/src/symbolic/extreme_values.cpp"],
  [("minimum, maximum, minimum_new, maximum_new", "sdfg/src/symbolic/extreme_values.cpp")], technique=ST, note=SN)
p("S05", "Verdicts about memory accesses are sound",
  "Two accesses called disjoint never touch the same element under the same parameters. An access called a subset of another touches only elements of the other's range. Two accesses said not to intersect across iterations of a loop never touch the same element in two different iterations of it.",
  ["inputs"], "all subscripts (linear, linearised, strided, non-affine), nests and parameters", SW,
  ["sdfg/src/symbolic/sets.cpp", "sdfg/src/symbolic/maps.cpp", "sdfg/src/symbolic/utils.cpp"],
  [("is_disjoint, is_subset, maps::intersects", "sdfg/src/symbolic/sets.cpp, sdfg/src/symbolic/maps.cpp")], technique=ST, note=SN + " One known finding: symbolic strides (see known_findings.jsonl).")
p("S06", "Delinearization keeps elements apart",
  "Where a linearised subscript is split into several indices, two executions access the same element exactly when they have the same indices.",
  ["inputs"], "all linearised subscripts, bounds and parameters", SW, ["sdfg/src/symbolic/utils.cpp"],
  [("delinearize", "sdfg/src/symbolic/utils.cpp")], technique=ST, note=SN + " One known finding: symbolic strides (see known_findings.jsonl).")

PT = "random programs under ASan/UBSan, oracle: a reference interpreter's recorded run"
PN = "Held on every generated program. SymEngine's headers are not installed: docc is built against the stand-in in /verif/shim. Trusts harness/sdfg/interp.hpp (the interpreter, written from docc's documented meaning of nodes) and gen.hpp (the programs, all free of undefined behaviour)."
PW = "The unit tests pin the answer for a few hand-written programs; the guarantee is over every program and every run of it."
p("F01", "Dataflow queries describe the graph",
  "In every block, the topological orders are permutations that respect all memlets, predecessors, successors, degrees, sources, sinks, data nodes, code nodes and weakly connected components are those of the graph, and the order is the same every time it is asked for.",
  ["inputs"], "all acyclic dataflow graphs, built in any order", PW, ["sdfg/src/data_flow/data_flow_graph.cpp"],
  [("DataFlowGraph", "sdfg/src/data_flow/data_flow_graph.cpp")], technique="random graphs and edits under ASan/UBSan, oracle: a plain edge list kept beside the graph", note="Held on every generated graph.")
p("F02", "Dataflow edits do what they say",
  "After any sequence of additions and removals of memlets and nodes, and of clearing code nodes and access nodes, the graph has exactly the nodes and memlets the edits leave, and nothing removed is touched again.",
  ["inputs", "histories"], "all sequences of edits of a block's dataflow", PW, ["sdfg/src/builder/structured_sdfg_builder.cpp", "sdfg/src/data_flow/data_flow_graph.cpp"],
  [("StructuredSDFGBuilder::clear_node, remove_memlet, remove_node", "sdfg/src/builder/structured_sdfg_builder.cpp")], technique="random edit histories under ASan/UBSan, oracle: a plain model of the graph", note="Held on every generated history.")
p("L01", "Every value read comes from a write the data dependency analysis reports",
  "Whenever a run reads a value of a container that another access in the program wrote, that write is among the definitions reported for the read; a read reported as having no definition inside the program never sees a written value.",
  ["inputs"], "all programs and inputs for which the program is defined", PW, ["sdfg/src/analysis/data_dependency_analysis.cpp", "sdfg/src/symbolic"],
  [("DataDependencyAnalysis::defines, defined_by", "sdfg/src/analysis/data_dependency_analysis.cpp")], technique=PT, note=PN + " One known finding: symbolic row widths.")
p("L02", "Loop-carried dependences are reported",
  "Whenever an iteration of a loop reads, or overwrites, what an earlier iteration of it wrote, the analysis reports a loop-carried dependence of that kind for the container, unless it reports that it cannot answer for the loop.",
  ["inputs"], "all programs, loops and inputs for which the program is defined", PW, ["sdfg/src/analysis/data_dependency_analysis.cpp", "sdfg/src/symbolic/maps.cpp"],
  [("DataDependencyAnalysis::dependencies", "sdfg/src/analysis/data_dependency_analysis.cpp")], technique=PT, note=PN + " One known finding: symbolic row widths.")
p("L03", "Uses and their order are those of the runs",
  "Every access a run makes is a reported use of its container. A use said to dominate another comes before it in every run, one said to post-dominate it after, and the uses reported between or after uses include all a run makes there.",
  ["inputs"], "all programs and inputs for which the program is defined", PW, ["sdfg/src/analysis/users.cpp", "sdfg/src/analysis/dominance_analysis.cpp"],
  [("Users, UsersView, DominanceAnalysis", "sdfg/src/analysis/users.cpp, sdfg/src/analysis/dominance_analysis.cpp")], technique=PT, note=PN)
p("L04", "Assumptions hold whenever they are claimed",
  "Every bound reported for a symbol at a point of the program holds for the values the symbols have in any run at that point; tight bounds are reached by loops that run; a symbol called constant at a point is not assigned there; an evolution reported for a symbol is the one it takes.",
  ["inputs"], "all programs and inputs for which the program is defined", PW, ["sdfg/src/analysis/assumptions_analysis.cpp"],
  [("AssumptionsAnalysis::get", "sdfg/src/analysis/assumptions_analysis.cpp")], technique=PT, note=PN + " Two known findings pinned by the unit tests (see known_findings.jsonl).")

TT = "random programs transformed by the real passes, oracle: a reference interpreter run before and after, with maps in several orders"
TN = "Held on every generated program. SymEngine's headers are not installed: docc is built against the stand-in in /verif/shim. Trusts harness/sdfg/interp.hpp (the interpreter) and gen.hpp (the programs, all free of undefined behaviour)."
TW = "The unit tests pin the shape a pass gives to a few hand-written programs; that the result computes the same is a guarantee over every program and every input."
TS = "leaves a program that is valid, and that gives the same memory contents and return value as before for every input for which the program is defined, in every order of its maps' iterations."
TQ = "all structured programs of loops, maps, branches, whiles, tasklets, references, views and allocations, and all inputs for which they are defined"
p("T01", "Dataflow passes keep the meaning of programs",
  "Each dataflow pass (constant and reference propagation, elimination of dead data, references, byte references and trivial arrays, memlet linearisation, tasklet fusion, conversion of tensors) " + TS,
  ["inputs"], TQ, TW, ["sdfg/src/passes/dataflow", "sdfg/src/analysis"], [("passes::*", "sdfg/src/passes/dataflow")], technique=TT, note=TN)
p("T02", "Control flow passes keep the meaning of programs",
  "Each control flow pass (fusion of blocks and sequences, elimination of dead code, of conditions and of common assignments, normalisation of loops, pointer evolution, conversion of whiles) " + TS,
  ["inputs"], TQ, TW, ["sdfg/src/passes/structured_control_flow", "sdfg/src/analysis"], [("passes::*", "sdfg/src/passes/structured_control_flow")], technique=TT, note=TN + " One known finding: loops tested at their end.")
p("T03", "Symbolic passes keep the meaning of programs",
  "Each symbolic pass (evolution, promotion and propagation of symbols, minimisation of types) " + TS,
  ["inputs"], TQ, TW, ["sdfg/src/passes/symbolic", "sdfg/src/analysis", "sdfg/src/symbolic"], [("passes::*", "sdfg/src/passes/symbolic")], technique=TT, note=TN)
p("T04", "Parallelisation keeps the meaning of programs",
  "A loop made a map gives the same result in every order of its iterations, and fusing maps " + TS,
  ["inputs", "schedules"], TQ + ", all orders of iterations", TW, ["sdfg/src/passes/structured_control_flow/for2map.cpp", "sdfg/src/transformations/map_fusion.cpp", "sdfg/src/analysis"],
  [("For2MapPass, MapFusionPass", "sdfg/src/passes")], technique=TT, note=TN)
p("T05", "Memory passes keep the meaning of programs",
  "Changing where memory is allocated and released " + TS + " No access touches released memory.",
  ["inputs"], TQ, TW, ["sdfg/src/passes/memory"], [("AllocationManagementPass", "sdfg/src/passes/memory")], technique=TT, note=TN)
p("T06", "Pipelines keep the meaning of programs",
  "Each predefined pipeline of passes, run to its fixed point, ends and " + TS,
  ["inputs"], TQ, TW, ["sdfg/src/passes/pipeline.cpp", "sdfg/src/passes", "sdfg/src/analysis"], [("Pipeline::*", "sdfg/src/passes/pipeline.cpp")], technique=TT, note=TN)
p("T07", "Any sequence of passes is safe",
  "Any sequence of passes and pipelines run on one program with one analysis manager never touches memory that was released, never fails with an exception, and " + TS,
  ["inputs", "histories"], TQ + ", and all sequences of passes", "The unit tests run single passes; stale analyses and dangling nodes only show in sequences.",
  ["sdfg/src/passes", "sdfg/src/analysis", "sdfg/src/builder"], [("Pass::run, AnalysisManager", "sdfg/src/passes/pass.cpp")], technique="random pass histories under ASan/UBSan, oracle: a reference interpreter run before and after", note=TN)

ET = "random programs generated as C and C++, compiled with gcc and run in a guarded process, oracle: a reference interpreter"
EN = "Held on everything generated and run. SymEngine's headers are not installed: docc is built against the stand-in in /verif/shim. Trusts harness/sdfg/interp.hpp, native.hpp and the installed gcc."
p("E01", "Generated C and C++ computes what the program does",
  "The C and the C++ generated for a program compile, and for every input for which the program is defined, running them gives the same memory contents and return value as the program, and accesses no memory that the program does not.",
  ["inputs"], TQ, "The unit tests compare the text generated for a few programs; none is compiled and run on varied inputs.",
  ["sdfg/src/codegen"], [("CCodeGenerator, CPPCodeGenerator, dispatchers", "sdfg/src/codegen")], technique=ET, note=EN)
p("E02", "Each operation computes its meaning on every type",
  "The code generated for each tasklet, math function and conversion gives, for each type it accepts and for all operands for which it is defined (extreme values, NaN, infinities and signed zeros included), the value that the operation's name and type define.",
  ["inputs"], "all operations, types and operands for which the operation is defined", "The unit tests compare the text of some operations on one type.",
  ["sdfg/src/codegen/language_extensions", "sdfg/src/data_flow/tasklet.cpp"], [("LanguageExtension::tasklet", "sdfg/src/codegen/language_extensions")],
  technique="every operation and type run natively on special and random values, oracle: an independent definition of each operation", note=EN + " One known finding: conversions to unsigned 8-bit characters.")
p("E03", "Printed symbolic expressions have their symbolic value",
  "A symbolic expression or condition, printed in C or C++ in any place where a program may use one, has for all values of its symbols the value the symbolic layer defines, wherever no intermediate value leaves the range of its type.",
  ["inputs"], "all expressions, conditions and values of their symbols", "The unit tests compare the text of a few expressions.",
  ["sdfg/src/codegen/language_extensions", "sdfg/src/symbolic"], [("LanguageExtension::expression", "sdfg/src/codegen/language_extensions")],
  technique="random expressions printed, compiled and run on random values, oracle: an independent evaluator", note=EN)

p("D01", "Programs written as JSON and read again are the same",
  "Reading the JSON written for a program gives a program with the same containers, types, structures, metadata, statements, expressions, memlets, library nodes, schedules, debug information and numbers; it writes the same JSON and runs alike, and what is added to it gets new numbers.",
  ["inputs"], "all programs, types, expressions, names and library nodes", "The unit tests round-trip a handful of elements; every analysis, search and clone relies on the round trip.",
  ["sdfg/src/serializer/json_serializer.cpp", "sdfg/src/data_flow/library_nodes", "sdfg/src/symbolic/symbolic.cpp"], [("JSONSerializer::serialize, deserialize", "sdfg/src/serializer/json_serializer.cpp")],
  technique="random decorated programs and library nodes written and read, oracle: an independent dump by accessors, plus the interpreter", note=TN)
p("D02", "Copies are equal to and independent of their originals",
  "A clone of a program, and a deep copy of all or parts of it, says and computes the same as the original, its elements have numbers of their own, and changing or releasing either leaves the other unchanged.",
  ["inputs", "histories"], "all programs and all changes to either side", "The unit tests copy a few nodes and do not change them afterwards.",
  ["sdfg/src/structured_sdfg.cpp", "sdfg/src/deepcopy", "sdfg/src/builder/structured_sdfg_builder.cpp"], [("StructuredSDFG::clone, StructuredSDFGDeepCopy", "sdfg/src/deepcopy/structured_sdfg_deep_copy.cpp")],
  technique="random programs copied and changed under ASan/UBSan, oracle: an independent dump by accessors, plus the interpreter", note=TN)

p("N01", "Offloaded programs compute the same on the device",
  "A program whose maps were moved to a GPU or to a Tenstorrent device, with the transfers that docc inserts, gives the same memory contents and return value as the program run on the host.",
  ["inputs", "schedules"], "all programs, inputs and devices", "The unit tests compare generated text only.",
  ["opt/src/passes/offloading", "opt/src/targets/cuda", "targets/et"], [("cuda_map_dispatcher, data transfer passes", "opt/src/targets/cuda")],
  na="Needs CUDA or the Tenstorrent toolchain and a device to run what was generated; neither is here, and nothing can be observed at runtime without them.")
p("N02", "Import from MLIR keeps the meaning of programs",
  "Converting an MLIR module (torch, linalg, arith) to a structured program and running it gives the results the MLIR operations define.",
  ["inputs"], "all modules of the supported dialects", "The tests convert a few modules.",
  ["mlir"], [("conversion and translation to SDFG", "mlir/lib")],
  na="The conversion is a library on top of LLVM/MLIR's headers and libraries, which are not installed, so it can be neither built nor run here.")
p("N03", "Python functions compute what numpy computes",
  "A function compiled with the docc decorator returns, for every argument, what the same function returns when Python and numpy run it.",
  ["inputs"], "all functions in the supported subset of Python and all arguments", "The tests run fixed functions on fixed arrays.",
  ["python"], [("docc.python front end, _sdfg bindings", "python")],
  na="The front end drives the compiled module _sdfg, which needs pybind11, isl and SymEngine; none of them is installed, so no execution can be observed.")
p("N04", "Polyhedral schedules keep the meaning of programs",
  "Rewriting a loop nest with the polyhedral scheduler gives a nest with the same results.",
  ["inputs", "schedules"], "all loop nests the scheduler accepts", "The tests check a few nests.",
  ["opt/src/transformations/polly_transform.cpp", "opt/src/analysis/scop_analysis.cpp"], [("PollyTransform, ScopAnalysis", "opt/src")],
  na="Needs isl, which is not installed; the code cannot be built here.")
