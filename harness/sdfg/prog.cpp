// Properties of whole programs.
#include "xform.hpp"

#include "sdfg/passes/dataflow/byte_reference_elimination.h"
#include "sdfg/passes/dataflow/constant_propagation.h"
#include "sdfg/passes/dataflow/dead_data_elimination.h"
#include "sdfg/passes/dataflow/dead_reference_elimination.h"
#include "sdfg/passes/dataflow/memlet_linearization.h"
#include "sdfg/passes/dataflow/reference_propagation.h"
#include "sdfg/passes/dataflow/tasklet_fusion.h"
#include "sdfg/passes/dataflow/tensor_to_pointer_conversion.h"
#include "sdfg/passes/dataflow/trivial_array_elimination.h"
#include "sdfg/passes/dataflow/trivial_reference_conversion.h"
#include "sdfg/passes/memory/allocation_management.h"
#include "sdfg/passes/pipeline.h"
#include "sdfg/passes/schedules/expansion_pass.h"
#include "sdfg/passes/structured_control_flow/block_fusion.h"
#include "sdfg/passes/structured_control_flow/common_assignment_elimination.h"
#include "sdfg/passes/structured_control_flow/condition_elimination.h"
#include "sdfg/passes/structured_control_flow/dead_cfg_elimination.h"
#include "sdfg/passes/structured_control_flow/for2map.h"
#include "sdfg/passes/structured_control_flow/loop_normalization.h"
#include "sdfg/passes/structured_control_flow/pointer_evolution.h"
#include "sdfg/passes/structured_control_flow/sequence_fusion.h"
#include "sdfg/passes/structured_control_flow/unify_loop_exits.h"
#include "sdfg/passes/structured_control_flow/while_to_for_conversion.h"
#include "sdfg/passes/symbolic/symbol_evolution.h"
#include "sdfg/passes/symbolic/symbol_promotion.h"
#include "sdfg/passes/symbolic/symbol_propagation.h"
#include "sdfg/passes/symbolic/type_minimization.h"
#include "sdfg/passes/transformations/map_fusion_pass.h"

using namespace sdfg;
using namespace xf;

typedef std::function<bool(builder::StructuredSDFGBuilder&, analysis::AnalysisManager&)> PassRun;
struct NamedPass {
    const char* name;
    PassRun run;
};
template<class P, class... A>
static PassRun one(A... a) {
    return [=](builder::StructuredSDFGBuilder& b, analysis::AnalysisManager& am) {
        P p(a...);
        bool any = false;
        for (int i = 0; i < 20; ++i) {
            if (!p.run(b, am)) break;
            any = true;
        }
        return any;
    };
}
static PassRun pipe(passes::Pipeline (*f)()) {
    return [=](builder::StructuredSDFGBuilder& b, analysis::AnalysisManager& am) {
        auto p = f();
        return p.run(b, am);
    };
}

static const std::vector<NamedPass>& dataflow_passes() {
    using namespace passes;
    static std::vector<NamedPass> v{
        {"ByteReferenceElimination", one<ByteReferenceElimination>()},
        {"ConstantPropagation", one<ConstantPropagation>()},
        {"DeadDataElimination", one<DeadDataElimination>()},
        {"DeadReferenceElimination", one<DeadReferenceElimination>()},
        {"MemletLinearization", one<MemletLinearizationPass>()},
        {"ReferencePropagation", one<ReferencePropagation>()},
        {"TaskletFusion", one<TaskletFusionPass>()},
        {"TrivialArrayElimination", one<TrivialArrayElimination>()},
        {"TrivialReferenceConversion", one<TrivialReferenceConversionPass>()},
        {"TensorToPointerConversion", one<TensorToPointerConversionPass>()},
    };
    return v;
}
static const std::vector<NamedPass>& control_passes() {
    using namespace passes;
    static std::vector<NamedPass> v{
        {"BlockFusion", one<BlockFusionPass>()},
        {"CommonAssignmentElimination", one<CommonAssignmentElimination>()},
        {"ConditionElimination", one<ConditionEliminationPass>()},
        {"DeadCFGElimination", one<DeadCFGElimination>()},
        {"LoopNormalization", one<LoopNormalizationPass>()},
        {"PointerEvolution", one<PointerEvolution>()},
        {"SequenceFusion", one<SequenceFusion>()},
        {"WhileToForConversion", one<WhileToForConversion>()},
    };
    return v;
}
static const std::vector<NamedPass>& symbolic_passes() {
    using namespace passes;
    static std::vector<NamedPass> v{
        {"SymbolEvolution", one<SymbolEvolution>()},
        {"SymbolPromotion", one<SymbolPromotion>()},
        {"SymbolPropagation", one<SymbolPropagation>()},
        {"TypeMinimization", one<TypeMinimizationPass>()},
    };
    return v;
}
static const std::vector<NamedPass>& parallel_passes() {
    using namespace passes;
    static std::vector<NamedPass> v{
        {"For2Map", one<For2MapPass>()},
        {"MapFusion", one<MapFusionPass>()},
    };
    return v;
}
static const std::vector<NamedPass>& memory_passes() {
    using namespace passes;
    static std::vector<NamedPass> v{
        {"AllocationManagement", one<AllocationManagementPass>()},
    };
    return v;
}
static const std::vector<NamedPass>& pipelines() {
    using namespace passes;
    static std::vector<NamedPass> v{
        {"dataflow_simplification", pipe(Pipeline::dataflow_simplification)},
        {"symbolic_simplification", pipe(Pipeline::symbolic_simplification)},
        {"dead_code_elimination", pipe(Pipeline::dead_code_elimination)},
        {"expression_combine", pipe(Pipeline::expression_combine)},
        {"memlet_combine", pipe(Pipeline::memlet_combine)},
        {"controlflow_simplification", pipe(Pipeline::controlflow_simplification)},
        {"data_parallelism", pipe(Pipeline::data_parallelism)},
        {"memory", pipe(Pipeline::memory)},
        {"map_fusion", pipe(Pipeline::map_fusion)},
    };
    return v;
}

static void pass_case(vh::Ctx& ctx, vh::Rng& rng, const std::vector<NamedPass>& list) {
    gn::Opts o;
    o.budget = (int) rng.range(2, 14);
    if (auto e = getenv("VH_BUDGET")) o.budget = atoi(e);
    o.parallel_bias = rng.chance(0.25);
    uint64_t seed = 0;
    auto c = make_case(ctx, rng, o, seed);
    if (!c) return;
    std::vector<const NamedPass*> todo;
    if (auto e = getenv("VH_PASS")) {
        for (auto& p : list)
            if (!strcmp(p.name, e)) todo.push_back(&p);
    } else
        for (auto& p : list) todo.push_back(&p);
    for (auto* p : todo) {
        Prog q = gn::make(seed, o);
        std::string before = text(*q.sdfg);
        bool applied = false;
        // Known finding (entry-test, case 0): loops that test their condition at the end are taken to fulfil it at the
        // beginning. Everything else about the loops made from them is checked.
        bool converts = !strcmp(p->name, "WhileToForConversion");
        std::set<size_t> fors, made;
        if (converts) collect_fors(q.sdfg->root(), fors);
        try {
            builder::StructuredSDFGBuilder b(q.sdfg);
            analysis::AnalysisManager am(b.subject());
            applied = p->run(b, am);
            ctx.event(std::string(p->name) + (applied ? " applied" : " not applied"));
            b.subject().validate();
            if (converts) {
                std::set<size_t> now;
                collect_fors(b.subject().root(), now);
                for (auto x : now)
                    if (!fors.count(x)) made.insert(x);
            }
            std::string d = check(ctx, *c, b.subject(), seed, true, &made);
            if (!d.empty())
                ctx.violation(p->name, vh::fmt("%s: %s\n--- before\n", p->name, d.c_str()) + before + "--- after\n" + text(b.subject()));
            if (applied) ctx.nontrivial(vh::hash_str(before + p->name));
        } catch (const std::exception& e) {
            ctx.violation(p->name, vh::fmt("%s: exception %s\n--- before\n", p->name, e.what()) + before);
        }
    }
}

// The known finding of T02: w = 5; while { A[w] = A[w] + 1; w = w + 1; if (w < N) continue else break }
static void entry_test(vh::Ctx& ctx) {
    gn::Prog p;
    builder::StructuredSDFGBuilder b("f", FunctionType_CPU);
    types::Scalar i64(types::PrimitiveType::Int64), f64(types::PrimitiveType::Double);
    types::Pointer base(f64);
    b.add_container("A", types::Pointer(), true);
    p.args["A"] = {types::PrimitiveType::Double, true};
    b.add_container("N", i64, true), p.args["N"] = {types::PrimitiveType::Int64, false};
    b.add_container("w", i64);
    auto w = symbolic::symbol("w"), n = symbolic::symbol("N");
    b.add_block(b.subject().root(), {{w, symbolic::integer(5)}});
    auto& loop = b.add_while(b.subject().root());
    auto& bl = b.add_block(loop.root(), {{w, symbolic::add(w, symbolic::one())}});
    auto& in = b.add_access(bl, "A");
    auto& out = b.add_access(bl, "A");
    auto& one = b.add_constant(bl, "1.0", f64);
    auto& t = b.add_tasklet(bl, data_flow::TaskletCode::fp_add, "_out", {"_in0", "_in1"});
    b.add_computational_memlet(bl, in, t, "_in0", {w}, base);
    b.add_computational_memlet(bl, one, t, "_in1", {}, f64);
    b.add_computational_memlet(bl, t, "_out", out, {w}, base);
    auto& test = b.add_if_else(loop.root());
    auto cond = symbolic::Lt(w, n);
    b.add_continue(b.add_case(test, cond));
    b.add_break(b.add_case(test, symbolic::Not(cond)));
    p.sdfg = b.move();
    Case c;
    c.p = std::move(p);
    vh::Rng r(5);
    for (int q = 0; q < 80 && c.args.size() < 20; ++q) {
        auto a = gn::arguments(r, c.p);
        auto res = run(*c.p.sdfg, a, true, 11, nullptr, true);
        if (!res.problem.empty()) continue;
        c.args.push_back(a), c.want.push_back(res);
    }
    builder::StructuredSDFGBuilder e(c.p.sdfg);
    analysis::AnalysisManager am(e.subject());
    passes::WhileToForConversion pass;
    pass.run(e, am);
    ctx.event("directed programs");
    std::string d = check(ctx, c, e.subject(), 1, true);
    if (!d.empty()) ctx.violation("entry-test", "WhileToForConversion: " + d + "\n" + text(e.subject()));
}

VH_PROP(T01) { pass_case(ctx, rng, dataflow_passes()); }
VH_PROP(T02) {
    if (ctx.case_no == 0) return entry_test(ctx);
    pass_case(ctx, rng, control_passes());
}
VH_PROP(T03) { pass_case(ctx, rng, symbolic_passes()); }
VH_PROP(T04) { pass_case(ctx, rng, parallel_passes()); }
VH_PROP(T05) { pass_case(ctx, rng, memory_passes()); }
VH_PROP(T06) { pass_case(ctx, rng, pipelines()); }

// A random history of passes over one program, with one builder and one analysis manager.
VH_PROP(T07) {
    static std::vector<const NamedPass*> all;
    if (all.empty())
        for (auto* l : {&dataflow_passes(), &control_passes(), &symbolic_passes(), &parallel_passes(), &memory_passes(), &pipelines()})
            for (auto& p : *l) all.push_back(&p);
    gn::Opts o;
    o.budget = (int) rng.range(2, 14);
    if (auto e = getenv("VH_BUDGET")) o.budget = atoi(e);
    o.parallel_bias = rng.chance(0.25);
    uint64_t seed = 0;
    auto c = make_case(ctx, rng, o, seed, 12, 2);
    if (!c) return;
    Prog q = gn::make(seed, o);
    std::string before = text(*q.sdfg), names;
    int n = (int) rng.range(2, 12);
    builder::StructuredSDFGBuilder b(q.sdfg);
    analysis::AnalysisManager am(b.subject());
    try {
        std::set<size_t> made;
        bool stop = false;
        for (int i = 0; i < n && !stop; ++i) {
            auto* p = rng.pick(all);
            std::set<size_t> fors, now;
            bool converts = !strcmp(p->name, "WhileToForConversion");
            if (converts) collect_fors(b.subject().root(), fors);
            names += (names.empty() ? "" : ", ") + std::string(p->name);
            bool applied = p->run(b, am);
            ctx.event(std::string(p->name) + (applied ? " applied" : " not applied"));
            b.subject().validate();
            if (getenv("VH_SHOW")) printf("--- after %s\n%s", p->name, text(b.subject()).c_str());
            if (!converts || !applied) continue;
            collect_fors(b.subject().root(), now);
            for (auto x : now)
                if (!fors.count(x)) made.insert(x);
            stop = true; // its loops are taken to be entered: see the known finding of T02
        }
        ctx.event("histories");
        std::string d = check(ctx, *c, b.subject(), seed, true, &made);
        if (!d.empty()) ctx.violation("history", names + ": " + d + "\n--- before\n" + before + "--- after\n" + text(b.subject()));
        ctx.nontrivial(vh::hash_str(before + names));
    } catch (const std::exception& e) {
        ctx.violation("history", names + vh::fmt(": exception %s\n--- before\n", e.what()) + before);
    }
}
