// D01: programs written as JSON and read again. D02: copies of programs.
#include "sdfg/codegen/utils.h"
#include "sdfg/data_flow/library_nodes/barrier_local_node.h"
#include "sdfg/data_flow/library_nodes/call_node.h"
#include "sdfg/data_flow/library_nodes/invoke_node.h"
#include "sdfg/data_flow/library_nodes/load_const_node.h"
#include "sdfg/data_flow/library_nodes/math/math.h"
#include "sdfg/data_flow/library_nodes/math/tensor/elementwise_ops/cast_node.h"
#include "sdfg/data_flow/library_nodes/math/tensor/elementwise_ops/cmath_node.h"
#include "sdfg/data_flow/library_nodes/math/tensor/elementwise_ops/tasklet_node.h"
#include "sdfg/data_flow/library_nodes/metadata_node.h"
#include "sdfg/data_flow/library_nodes/stdlib/stdlib.h"
#include "sdfg/deepcopy/structured_sdfg_deep_copy.h"
#include "sdfg/passes/pipeline.h"
#include "sdfg/serializer/json_serializer.h"
#include "sdfg/types/function.h"
#include "sdfg/types/tensor.h"
#include "symgen.hpp"
#include "xform.hpp"

namespace {
using namespace sdfg;
namespace scf = structured_control_flow;
namespace df = data_flow;
namespace ten = math::tensor;
namespace blas = math::blas;

// Everything a program says, by its accessors
struct Dump {
    std::string o;
    bool ids, infos = true;
    Dump(bool ids_ = true) : ids(ids_), infos(ids_) {}
    static std::string q(const std::string& s) { return "<" + std::to_string(s.size()) + ":" + s + ">"; }
    static std::string ex(const symbolic::Expression& e) { return e.is_null() ? "-" : std::to_string((int) e->get_type_code()) + ":" + e->__str__(); }
    template<typename C>
    static std::string exs(const C& c) {
        std::string r = "[";
        for (auto& e : c) r += ex(e) + "; ";
        return r + "]";
    }
    static std::string strs(const std::vector<std::string>& c) {
        std::string r = "[";
        for (auto& e : c) r += q(e) + "; ";
        return r + "]";
    }
    static std::string ints(const std::vector<int64_t>& c) {
        std::string r = "[";
        for (auto& e : c) r += std::to_string(e) + "; ";
        return r + "]";
    }
    static std::string storage(const types::StorageType& s) {
        return "{" + q(s.value()) + " " + ex(s.allocation_size()) + " " + std::to_string((int) s.allocation()) + std::to_string((int) s.deallocation()) + " " + ex(s.arg1()) + "}";
    }
    static std::string type(const types::IType& t) {
        std::string r = "@" + std::to_string(t.alignment()) + q(t.initializer()) + storage(t.storage_type());
        if (auto s = dynamic_cast<const types::Scalar*>(&t)) return "s" + std::to_string((int) s->primitive_type()) + r;
        if (auto s = dynamic_cast<const types::Tensor*>(&t))
            return "t(" + type(s->element_type()) + exs(s->shape()) + exs(s->strides()) + ex(s->offset()) + ")" + r;
        if (auto s = dynamic_cast<const types::Array*>(&t)) return "a(" + type(s->element_type()) + " " + ex(s->num_elements()) + ")" + r;
        if (auto s = dynamic_cast<const types::Pointer*>(&t)) return "p(" + (s->has_pointee_type() ? type(s->pointee_type()) : "") + ")" + r;
        if (auto s = dynamic_cast<const types::Structure*>(&t)) return "S" + q(s->name()) + r;
        if (auto s = dynamic_cast<const codegen::Reference*>(&t)) return "&(" + type(s->reference_type()) + ")";
        if (auto s = dynamic_cast<const types::Function*>(&t)) {
            std::string p;
            for (size_t i = 0; i < s->num_params(); ++i) p += type(s->param_type(symbolic::integer((int64_t) i))) + ", ";
            return "f(" + p + (s->is_var_arg() ? "..." : "") + " -> " + type(s->return_type()) + ")" + r;
        }
        return "?";
    }
    std::string head(const Element& e) {
        auto& d = e.debug_info();
        std::string r = ids ? "#" + std::to_string(e.element_id()) : "";
        if (!infos || !d.has()) return r + " ";
        return r + "(" + q(d.filename()) + q(d.function()) + std::to_string(d.start_line()) + "." + std::to_string(d.start_column()) + "-" + std::to_string(d.end_line()) + "." +
               std::to_string(d.end_column()) + ") ";
    }
    static std::string lib(const df::LibraryNode& n) {
        std::string r = n.code().value() + " " + n.implementation_type().value() + strs(n.outputs()) + strs(n.inputs()) + (n.side_effect() ? "!" : "");
        auto is = [&](auto* p) { return dynamic_cast<decltype(p)>(&n); };
        if (auto x = is((const stdlib::AllocaNode*) 0)) r += ex(x->size());
        if (auto x = is((const stdlib::CallocNode*) 0)) r += ex(x->num()) + "," + ex(x->size());
        if (auto x = is((const stdlib::MallocNode*) 0)) r += ex(x->size());
        if (auto x = is((const stdlib::MemcpyNode*) 0)) r += ex(x->count());
        if (auto x = is((const stdlib::MemmoveNode*) 0)) r += ex(x->count());
        if (auto x = is((const stdlib::MemsetNode*) 0)) r += ex(x->value()) + "," + ex(x->num());
        if (auto x = is((const df::CallNode*) 0)) r += q(x->callee_name());
        if (auto x = is((const df::InvokeNode*) 0)) r += q(x->callee_name());
        if (auto x = is((const df::MetadataNode*) 0)) {
            std::map<std::string, std::string> m(x->metadata().begin(), x->metadata().end());
            for (auto& e : m) r += q(e.first) + "=" + q(e.second);
        }
        if (auto x = is((const df::LoadConstNode*) 0)) {
            r += type(x->type()) + std::to_string(x->data_source().num_bytes());
            if (x->data_source().in_external_file())
                r += x->data_source().filename().string();
            else
                for (auto i = x->data_source().inline_begin(); i != x->data_source().inline_end(); ++i) r += " " + std::to_string((int) (uint8_t) *i);
        }
        if (auto x = is((const math::cmath::CMathNode*) 0)) r += std::to_string((int) x->function()) + "," + std::to_string((int) x->primitive_type());
        if (auto x = is((const blas::BLASNode*) 0)) r += std::to_string((int) x->precision());
        if (auto x = is((const blas::DotNode*) 0)) r += ex(x->n()) + "," + ex(x->incx()) + "," + ex(x->incy());
        if (auto x = is((const blas::GEMMNode*) 0))
            r += std::to_string((int) x->layout()) + std::to_string((int) x->trans_a()) + std::to_string((int) x->trans_b()) + ex(x->m()) + "," + ex(x->n()) + "," + ex(x->k()) + "," +
                 ex(x->lda()) + "," + ex(x->ldb()) + "," + ex(x->ldc());
        if (auto x = is((const ten::ElementWiseUnaryNode*) 0)) r += exs(x->shape());
        if (auto x = is((const ten::ElementWiseBinaryNode*) 0)) r += exs(x->shape());
        if (auto x = is((const ten::CastNode*) 0)) r += std::to_string((int) x->target_type());
        if (auto x = is((const ten::CMathTensorNode*) 0)) r += exs(x->shape()) + std::to_string((int) x->cmath_function());
        if (auto x = is((const ten::TaskletTensorNode*) 0)) r += exs(x->shape()) + std::to_string((int) x->tasklet_code());
        if (auto x = is((const ten::ReduceNode*) 0)) r += exs(x->shape()) + ints(x->axes()) + (x->keepdims() ? "k" : "");
        if (auto x = is((const ten::TransposeNode*) 0)) r += exs(x->shape()) + ints(x->perm());
        if (auto x = is((const ten::BroadcastNode*) 0)) r += exs(x->input_shape()) + exs(x->output_shape());
        if (auto x = is((const ten::MatMulNode*) 0))
            r += exs(x->shape_a()) + exs(x->shape_b()) + exs(x->strides_a()) + exs(x->strides_b()) + ex(x->offset_a()) + "," + ex(x->offset_b());
        if (auto x = is((const ten::ConvNode*) 0))
            r += exs(x->shape()) + exs(x->kernel_shape()) + exs(x->strides()) + exs(x->pads()) + exs(x->dilations()) + ex(x->output_channels()) + "," + ex(x->group());
        return r;
    }
    void block(scf::Block& b, const std::string& in) {
        auto& g = b.dataflow();
        std::vector<std::string> lines;
        auto node = [&](const df::DataFlowNode& n) {
            std::string r;
            if (auto t = dynamic_cast<const df::Tasklet*>(&n))
                r = "tasklet " + std::to_string((int) t->code()) + q(t->output()) + strs(t->inputs());
            else if (auto c = dynamic_cast<const df::ConstantNode*>(&n))
                r = "constant " + q(c->data()) + type(c->type());
            else if (auto a = dynamic_cast<const df::AccessNode*>(&n))
                r = "access " + q(a->data());
            else if (auto l = dynamic_cast<const df::LibraryNode*>(&n))
                r = "lib " + lib(*l);
            return r;
        };
        for (auto& n : g.nodes()) {
            auto& g2 = n.get_parent();
            lines.push_back(in + head(n) + node(n) + (&g2 == &g ? "" : " of another graph") + " " + std::to_string(g.in_degree(n)) + "/" + std::to_string(g.out_degree(n)));
        }
        for (auto& e : g.edges())
            lines.push_back(in + head(e) + "edge " + (ids ? std::to_string(e.src().element_id()) : node(e.src())) + q(e.src_conn()) + " -> " +
                            (ids ? std::to_string(e.dst().element_id()) : node(e.dst())) + q(e.dst_conn()) + exs(e.subset()) + type(e.base_type()));
        std::sort(lines.begin(), lines.end());
        for (auto& l : lines) o += l + "\n";
    }
    void walk(scf::ControlFlowNode& n, const std::string& in) {
        if (auto s = dynamic_cast<scf::Sequence*>(&n)) {
            o += in + head(n) + "seq\n";
            for (size_t i = 0; i < s->size(); ++i) {
                auto c = s->at(i);
                walk(c.first, in + "  ");
                std::string a;
                std::map<std::string, std::string> m;
                for (auto& e : c.second.assignments()) m[e.first->get_name()] = ex(e.second);
                for (auto& e : m) a += q(e.first) + " = " + e.second + ", ";
                o += in + "  " + head(c.second) + "then " + a + "\n";
            }
        } else if (auto b = dynamic_cast<scf::Block*>(&n)) {
            o += in + head(n) + "block\n";
            block(*b, in + "  ");
        } else if (auto i = dynamic_cast<scf::IfElse*>(&n)) {
            o += in + head(n) + "if\n";
            for (size_t k = 0; k < i->size(); ++k) {
                o += in + "case " + ex(i->at(k).second) + "\n";
                walk(i->at(k).first, in + "  ");
            }
        } else if (auto w = dynamic_cast<scf::While*>(&n)) {
            o += in + head(n) + "while\n";
            walk(w->root(), in + "  ");
        } else if (auto l = dynamic_cast<scf::StructuredLoop*>(&n)) {
            auto m = dynamic_cast<scf::Map*>(l);
            o += in + head(n) + (m ? "map " : "for ") + q(l->indvar()->get_name()) + ex(l->init()) + "; " + ex(l->condition()) + "; " + ex(l->update());
            if (m) {
                auto& s = m->schedule_type();
                o += q(s.value()) + std::to_string((int) s.category());
                std::map<std::string, std::string> p(s.properties().begin(), s.properties().end());
                for (auto& e : p) o += q(e.first) + "=" + q(e.second);
            }
            o += "\n";
            walk(l->root(), in + "  ");
        } else if (auto r = dynamic_cast<scf::Return*>(&n)) {
            o += in + head(n) + "return " + q(r->data()) + (r->is_constant() ? type(r->type()) : "") + "\n";
        } else
            o += in + head(n) + (dynamic_cast<scf::Break*>(&n) ? "break\n" : dynamic_cast<scf::Continue*>(&n) ? "continue\n" : "?\n");
    }
    void function(StructuredSDFG& s) {
        o += q(s.name()) + s.type().value() + " " + type(s.return_type()) + " " + std::to_string(s.element_counter()) + "\n";
        std::vector<std::string> l;
        for (auto& n : s.structures()) {
            auto& d = s.structure(n);
            std::string t = "struct " + q(d.name()) + (d.is_packed() ? "packed" : "");
            for (size_t i = 0; i < d.num_members(); ++i) t += type(d.member_type(symbolic::integer((int64_t) i))) + ", ";
            l.push_back(t);
        }
        for (auto& n : s.containers())
            l.push_back("container " + q(n) + type(s.type(n)) + (s.is_argument(n) ? " arg" : "") + (s.is_external(n) ? " external" + std::to_string((int) s.linkage_type(n)) : "") +
                        (s.is_transient(n) ? " transient" : ""));
        for (auto& e : s.metadata()) l.push_back("metadata " + q(e.first) + q(e.second));
        std::sort(l.begin(), l.end());
        for (auto& x : l) o += x + "\n";
        o += "args " + strs(s.arguments()) + "\n";
        std::vector<std::string> ext(s.externals().begin(), s.externals().end());
        o += "externals " + strs(ext) + "\n";
        walk(s.root(), "");
    }
};
std::string dump(StructuredSDFG& s) {
    Dump d;
    d.function(s);
    return d.o;
}
// JSON without the order of the elements of a graph
void order(nlohmann::json& j) {
    if (j.is_object() && j.contains("nodes") && j.contains("edges"))
        for (auto k : {"nodes", "edges"})
            std::sort(j[k].begin(), j[k].end(), [](auto& a, auto& b) { return a["element_id"].template get<size_t>() < b["element_id"].template get<size_t>(); });
    if (j.is_structured())
        for (auto& x : j) order(x);
    if (j.is_object() && j.contains("structures"))
        std::sort(j["structures"].begin(), j["structures"].end(), [](auto& a, auto& b) { return a["name"].template get<std::string>() < b["name"].template get<std::string>(); });
    if (j.is_object() && j.contains("assignments"))
        std::sort(j["assignments"].begin(), j["assignments"].end(), [](auto& a, auto& b) { return a["symbol"].template get<std::string>() < b["symbol"].template get<std::string>(); });
}
std::string body(scf::ControlFlowNode& n) {
    Dump d(false);
    d.walk(n, "");
    return d.o;
}
std::string body_ids(scf::ControlFlowNode& n) {
    Dump d;
    d.walk(n, "");
    return d.o;
}
std::string diff(const std::string& a, const std::string& b) {
    std::istringstream x(a), y(b);
    std::string l, m;
    for (int n = 1;; ++n) {
        bool i = (bool) std::getline(x, l), j = (bool) std::getline(y, m);
        if (!i && !j) return "";
        if (i != j || l != m) return vh::fmt("line %d: ", n) + (i ? l : "(end)") + "\n  became: " + (j ? m : "(end)");
    }
}

// Things no statement of the generated programs has
struct Decor {
    vh::Rng& r;
    builder::StructuredSDFGBuilder& b;
    sg::Opts so;
    Decor(vh::Rng& r_, builder::StructuredSDFGBuilder& b_) : r(r_), b(b_) { so.syms = {"N", "M", "P", "e", "I", "pi", "oo", "abs_x", "_s0", "E1"}, so.ext = false; }
    symbolic::Expression e(int d = 1) {
        if (r.chance(0.05)) return symbolic::size_of_type(types::Scalar(types::PrimitiveType::Double));
        return sg::term(r, so, (int) r.below(d + 1)).e;
    }
    std::vector<symbolic::Expression> es(int lo, int hi) {
        std::vector<symbolic::Expression> v((size_t) r.range(lo, hi));
        for (auto& x : v) x = e();
        return v;
    }
    std::string text() {
        static const std::vector<std::string> v{"", "x", "a b", "\"", "\\n", "\n", "{0}", "ä", "<&>", "a/b.c", "%d", "null", "true", "0", "\t'"};
        return r.pick(v) + (r.chance(0.5) ? std::to_string(r.below(1000)) : "");
    }
    std::string word() { return "w" + std::to_string(r.below(1000)); }
    DebugInfo info() {
        if (r.chance(0.4)) return DebugInfo();
        return DebugInfo(r.chance(0.9) ? word() + ".c" : text(), r.chance(0.5) ? "" : text(), r.range(1, 50), r.range(0, 80), r.range(51, 90), r.range(0, 80));
    }
    types::StorageType storage() {
        if (r.chance(0.5)) return types::StorageType::CPU_Stack();
        types::StorageType s(r.chance(0.7) ? r.pick({"CPU_Heap", "NV_Generic", "NV_Global", "NV_Shared"}) : text(), r.chance(0.5) ? e() : symbolic::Expression(SymEngine::null),
                             r.chance(0.5) ? types::StorageType::Managed : types::StorageType::Unmanaged, r.chance(0.5) ? types::StorageType::Managed : types::StorageType::Unmanaged);
        if (r.chance(0.4)) s.arg1(e());
        return s;
    }
    types::Scalar scalar(bool vd = false) {
        return types::Scalar(storage(), r.below(65), r.chance(0.3) ? text() : "", (types::PrimitiveType) r.range(vd ? 0 : 1, (int) types::PrimitiveType::PPC_FP128));
    }
    std::unique_ptr<types::IType> outer() {
        auto t = type();
        while (dynamic_cast<types::Tensor*>(t.get())) t = type();
        return t;
    }
    std::unique_ptr<types::IType> type(int d = 2, bool fn = true) {
        auto al = r.below(65);
        auto init = r.chance(0.3) ? text() : std::string();
        switch (d ? r.below(9) : r.below(3)) {
            case 3: return std::make_unique<types::Pointer>(storage(), al, init);
            case 4: return std::make_unique<types::Pointer>(storage(), al, init, *type(d - 1));
            case 5: return std::make_unique<types::Array>(storage(), al, init, *type(d - 1, false), e());
            case 6: {
                auto sh = es(1, 3);
                std::vector<symbolic::Expression> st;
                for (size_t i = 0; i < sh.size(); ++i) st.push_back(e());
                return std::make_unique<types::Tensor>(storage(), al, init, scalar(), sh, st, e());
            }
            case 7: return std::make_unique<types::Structure>(storage(), al, init, r.pick({"St0", "St1"}));
            case 8:
                if (fn) {
                    auto f = std::make_unique<types::Function>(storage(), al, init, r.chance(0.3) ? scalar(true) : scalar(), r.chance(0.3));
                    for (int i = (int) r.below(4); i > 0; --i) f->add_param(*type(d - 1));
                    return f;
                }
            default: return scalar().clone();
        }
    }
    std::vector<std::string> conns(const char* p, int lo, int hi) {
        std::vector<std::string> v;
        for (int i = 0, n = (int) r.range(lo, hi); i < n; ++i) v.push_back(p + std::to_string(i));
        return v;
    }
    std::vector<int64_t> axes() {
        std::vector<int64_t> v;
        for (int i = 0, n = (int) r.range(1, 3); i < n; ++i) v.push_back(r.range(-2, 3));
        return v;
    }
    df::ImplementationType impl() { return df::ImplementationType(r.pick({"", "CBLAS", "CUBLAS", "X1"})); }
    void library(scf::Block& k) {
        using P = types::PrimitiveType;
        static const std::vector<blas::BLAS_Precision> prec{blas::s, blas::d, blas::h, blas::c, blas::z};
        auto tr = [&] { return r.pick({blas::BLAS_Transpose::No, blas::BLAS_Transpose::Trans, blas::BLAS_Transpose::ConjTrans}); };
        auto i = info();
        auto un = r.below(11), bi = r.below(8), re = r.below(6);
        switch (r.below(24)) {
            case 0: b.add_library_node<stdlib::AllocaNode>(k, i, e()); break;
            case 1: b.add_library_node<stdlib::CallocNode>(k, i, e(), e()); break;
            case 2: b.add_library_node<stdlib::FreeNode>(k, i); break;
            case 3: b.add_library_node<stdlib::MallocNode>(k, i, e()); break;
            case 4: b.add_library_node<stdlib::MemcpyNode>(k, i, e()); break;
            case 5: b.add_library_node<stdlib::MemmoveNode>(k, i, e()); break;
            case 6: b.add_library_node<stdlib::MemsetNode>(k, i, e(), e()); break;
            case 7:
                if (r.chance(0.5))
                    b.add_library_node<stdlib::TrapNode>(k, i);
                else
                    b.add_library_node<stdlib::UnreachableNode>(k, i);
                break;
            case 8: {
                std::unordered_map<std::string, std::string> m;
                for (int n = (int) r.below(4); n > 0; --n) m[text()] = text();
                b.add_library_node<df::MetadataNode>(k, i, conns("_out", 0, 2), conns("_in", 0, 2), m);
                break;
            }
            case 9: b.add_library_node<df::BarrierLocalNode>(k, i); break;
            case 10: b.add_library_node<df::CallNode>(k, i, word(), conns("_out", 0, 1), conns("_in", 0, 3)); break;
            case 11: b.add_library_node<df::InvokeNode>(k, i, word(), conns("_out", 0, 1), conns("_in", 0, 3)); break;
            case 12: {
                std::unique_ptr<df::ConstSource> s;
                if (r.chance(0.5)) {
                    std::vector<uint8_t> v(r.below(40));
                    for (auto& x : v) x = (uint8_t) r.below(256);
                    s = std::make_unique<df::InMemoryConstSource>(std::move(v));
                } else
                    s = std::make_unique<df::RawFileConstSource>("/tmp/" + word() + ".bin", r.below(1 << 20));
                b.add_library_node<df::LoadConstNode>(k, i, std::make_unique<types::Pointer>(scalar())->clone(), std::move(s));
                break;
            }
            case 13: b.add_library_node<math::cmath::CMathNode>(k, i, (math::cmath::CMathFunction) r.below(20), r.pick({P::Float, P::Double})); break;
            case 14: b.add_library_node<blas::DotNode>(k, i, impl(), r.pick(prec), e(), e(), e()); break;
            case 15:
                b.add_library_node<blas::GEMMNode>(k, i, impl(), r.pick(prec), r.chance(0.5) ? blas::BLAS_Layout::RowMajor : blas::BLAS_Layout::ColMajor, tr(), tr(), e(), e(), e(), e(),
                                                   e(), e());
                break;
            case 16: case 17: {
                auto sh = es(1, 4);
                switch (un) {
                    case 0: b.add_library_node<ten::AbsNode>(k, i, sh); break;
                    case 1: b.add_library_node<ten::EluNode>(k, i, sh); break;
                    case 2: b.add_library_node<ten::ErfNode>(k, i, sh); break;
                    case 3: b.add_library_node<ten::ExpNode>(k, i, sh); break;
                    case 4: b.add_library_node<ten::FillNode>(k, i, sh); break;
                    case 5: b.add_library_node<ten::HardSigmoidNode>(k, i, sh); break;
                    case 6: b.add_library_node<ten::LeakyReLUNode>(k, i, sh); break;
                    case 7: b.add_library_node<ten::ReLUNode>(k, i, sh); break;
                    case 8: b.add_library_node<ten::SigmoidNode>(k, i, sh); break;
                    case 9: b.add_library_node<ten::SqrtNode>(k, i, sh); break;
                    case 10: b.add_library_node<ten::TanhNode>(k, i, sh); break;
                }
                break;
            }
            case 18: {
                auto sh = es(1, 4);
                switch (bi) {
                    case 0: b.add_library_node<ten::AddNode>(k, i, sh); break;
                    case 1: b.add_library_node<ten::SubNode>(k, i, sh); break;
                    case 2: b.add_library_node<ten::MulNode>(k, i, sh); break;
                    case 3: b.add_library_node<ten::DivNode>(k, i, sh); break;
                    case 4: b.add_library_node<ten::PowNode>(k, i, sh); break;
                    case 5: b.add_library_node<ten::MinimumNode>(k, i, sh); break;
                    case 6: b.add_library_node<ten::MaximumNode>(k, i, sh); break;
                    case 7: b.add_library_node<ten::CastNode>(k, i, sh, r.pick({P::Float, P::Int32, P::UInt8})); break;
                }
                break;
            }
            case 19: {
                auto sh = es(1, 4);
                auto ax = axes();
                bool kd = r.chance(0.5);
                switch (re) {
                    case 0: b.add_library_node<ten::SumNode>(k, i, sh, ax, kd); break;
                    case 1: b.add_library_node<ten::MeanNode>(k, i, sh, ax, kd); break;
                    case 2: b.add_library_node<ten::MaxNode>(k, i, sh, ax, kd); break;
                    case 3: b.add_library_node<ten::MinNode>(k, i, sh, ax, kd); break;
                    case 4: b.add_library_node<ten::StdNode>(k, i, sh, ax, kd); break;
                    case 5: b.add_library_node<ten::SoftmaxNode>(k, i, sh, ax, false); break;
                }
                break;
            }
            case 20: {
                auto sh = es(1, 4);
                std::vector<int64_t> p(sh.size());
                for (size_t n = 0; n < p.size(); ++n) p[n] = (int64_t) n;
                r.shuffle(p);
                b.add_library_node<ten::TransposeNode>(k, i, sh, p);
                break;
            }
            case 21: {
                auto x = es(1, 4), y = es(1, 4);
                b.add_library_node<ten::BroadcastNode>(k, i, x, y);
                break;
            }
            case 22: {
                auto x = es(2, 3), y = es(2, 3);
                symbolic::MultiExpression s, t;
                if (r.chance(0.5)) {
                    for (size_t n = 0; n < x.size(); ++n) s.push_back(e());
                    for (size_t n = 0; n < y.size(); ++n) t.push_back(e());
                }
                b.add_library_node<ten::MatMulNode>(k, i, x, y, s, t, e(), e());
                break;
            }
            case 23: {
                if (r.chance(0.4)) {
                    b.add_library_node<ten::TaskletTensorNode>(k, i, r.pick({df::TaskletCode::fp_add, df::TaskletCode::fp_mul}), std::vector<std::string>{"_out"},
                                                               std::vector<std::string>{"_in1", "_in2"}, es(1, 3));
                } else if (r.chance(0.4)) {
                    b.add_library_node<ten::CMathTensorNode>(k, i, r.pick({math::cmath::CMathFunction::sin, math::cmath::CMathFunction::cosh}), std::vector<std::string>{"_out"},
                                                             std::vector<std::string>{"_in"}, es(1, 3));
                } else {
                    auto d = (int) r.range(1, 3);
                    auto sh = es(d + 2, d + 2), ks = es(d, d), st = es(d, d), pa = es(2 * d, 2 * d), di = es(d, d);
                    b.add_library_node<ten::ConvNode>(k, i, sh, ks, st, pa, di, e(), e());
                }
            }
        }
        for (auto& n : k.dataflow().nodes())
            if (auto l = dynamic_cast<df::LibraryNode*>(&n))
                if (r.chance(0.3)) l->implementation_type() = impl();
    }
    void mark(scf::ControlFlowNode& n, double p) {
        if (r.chance(p)) n.set_debug_info(info());
        if (auto s = dynamic_cast<scf::Sequence*>(&n)) {
            for (size_t i = 0; i < s->size(); ++i) {
                if (r.chance(p)) s->at(i).second.set_debug_info(info());
                mark(s->at(i).first, p);
            }
        } else if (auto i = dynamic_cast<scf::IfElse*>(&n)) {
            for (size_t k = 0; k < i->size(); ++k) mark(i->at(k).first, p);
        } else if (auto w = dynamic_cast<scf::While*>(&n))
            mark(w->root(), p);
        else if (auto l = dynamic_cast<scf::StructuredLoop*>(&n)) {
            if (auto m = dynamic_cast<scf::Map*>(l); m && r.chance(0.6)) {
                scf::ScheduleType t(r.pick({"SEQUENTIAL", "CPU_PARALLEL", "CUDA", "x y"}), (scf::ScheduleTypeCategory) r.below(4));
                for (int k = (int) r.below(4); k > 0; --k) t.set_property(text(), text());
                b.update_schedule_type(*m, t);
            }
            mark(l->root(), p);
        } else if (auto k = dynamic_cast<scf::Block*>(&n)) {
            for (auto& x : k->dataflow().nodes())
                if (r.chance(p)) x.set_debug_info(info());
            for (auto& x : k->dataflow().edges())
                if (r.chance(p)) x.set_debug_info(info());
        }
    }
    void globals() {
        for (auto& n : so.syms)
            if (!b.subject().exists(n)) b.add_container(n, types::Scalar(types::PrimitiveType::Int64), r.chance(0.5));
        for (auto n : {"St0", "St1"}) {
            auto& d = b.add_structure(n, r.chance(0.5));
            for (int i = (int) r.below(4); i > 0; --i) d.add_member(*type(1, false));
        }
        for (int i = (int) r.below(5); i > 0; --i) {
            auto n = "extra" + std::to_string(i);
            switch (r.below(3)) {
                case 0: b.add_container(n, *outer()); break;
                case 1: b.add_container(n, *outer(), true); break;
                case 2: b.add_external(n, *outer(), r.chance(0.5) ? LinkageType_Internal : LinkageType_External); break;
            }
        }
        for (int i = (int) r.below(4); i > 0; --i) b.subject().add_metadata(text() + std::to_string(i), text());
    }
    // A block of library nodes, not connected to anything, written and read on its own
    std::string nodes(vh::Ctx& ctx) {
        builder::StructuredSDFGBuilder x("nodes", FunctionType_CPU), y("nodes", FunctionType_CPU);
        auto& k = x.add_block(x.subject().root(), {}, info());
        Decor d(r, x);
        for (int i = (int) r.range(1, 5); i > 0; --i) d.library(k);
        auto before = body_ids(k);
        std::string what;
        for (auto& n : k.dataflow().nodes())
            if (auto l = dynamic_cast<df::LibraryNode*>(&n)) ctx.event("library nodes"), what += l->code().value() + " ", ctx.event(l->code().value());
        serializer::JSONSerializer ser;
        try {
            nlohmann::json j;
            ser.block_to_json(j, k);
            auto q = nlohmann::json::parse(j.dump());
            control_flow::Assignments none;
            ser.json_to_block_node(q, y, y.subject().root(), none);
            auto& m = y.subject().root().at(0).first;
            auto after = body_ids(m);
            if (before != after) return diff(before, after);
            nlohmann::json j2;
            ser.block_to_json(j2, dynamic_cast<scf::Block&>(m));
            order(j), order(j2);
            if (j != j2) return "written again, the JSON differs: " + nlohmann::json::diff(j, j2).dump().substr(0, 600);
        } catch (const std::exception& e) {
            return std::string("exception ") + e.what() + " with nodes " + what;
        }
        return "";
    }
    void zoo() {
        auto& root = b.subject().root();
        if (r.chance(0.4)) {
            auto& c = b.add_if_else(root, {}, info());
            for (int i = (int) r.range(1, 3); i > 0; --i) {
                auto& s = b.add_case(c, sg::cond(r, so, 2, 1).e, info());
                if (r.chance(0.5)) b.add_block(s, {{symbolic::symbol("N"), e(2)}, {symbolic::symbol("M"), e(2)}}, info());
            }
        }
        if (r.chance(0.3)) {
            auto k = symbolic::symbol("N");
            auto& f = b.add_for(root, k, sg::cond(r, so, 2, 1).e, e(2), e(2), {}, info());
            if (r.chance(0.5)) b.add_constant_return(f.root(), text(), scalar(), {}, info());
        }
        if (r.chance(0.2)) b.add_return(root, r.chance(0.5) ? "" : "N", {}, info());
    }
};

struct Silence { // one of the readers talks
    std::streambuf* old;
    std::ostringstream s;
    Silence() : old(std::cout.rdbuf(s.rdbuf())) {}
    ~Silence() { std::cout.rdbuf(old); }
};

bool same_run(vh::Ctx& ctx, xf::Case& c, StructuredSDFG& s, uint64_t seed, std::string& d) {
    d = xf::check(ctx, c, s, seed, false, nullptr);
    return d.empty();
}
} // namespace

VH_PROP(D01) {
    Silence quiet;
    gn::Opts o;
    o.budget = (int) rng.range(1, 14);
    bool plain = rng.chance(0.4);
    uint64_t seed = rng.next();
    std::optional<xf::Case> c;
    if (plain && rng.chance(0.5)) c = xf::make_case(ctx, rng, o, seed, 12, 1);
    auto p = gn::make(seed, o);
    builder::StructuredSDFGBuilder b(p.sdfg);
    Decor dec(rng, b);
    try {
        if (!plain) {
            dec.globals();
            dec.zoo();
            dec.mark(b.subject().root(), rng.unit());
        }
    } catch (const std::exception& e) {
        ctx.violation("build", std::string("building fails: ") + e.what());
        return;
    }
    if (auto d = dec.nodes(ctx); !d.empty()) ctx.violation("nodes", d.substr(0, 1500));
    auto& s = b.subject();
    auto before = dump(s);
    ctx.event("programs");
    try {
        serializer::JSONSerializer ser;
        auto j = ser.serialize(s);
        if (dump(s) != before) ctx.violation("changed", "writing changes the program: " + diff(before, dump(s)));
        std::string text = j.dump((int) rng.below(3) - 1);
        auto k = nlohmann::json::parse(text);
        auto t = ser.deserialize(k);
        auto after = dump(*t);
        ctx.event("read back");
        for (auto w : {"lib ", "tasklet ", "map ", "for ", "if\n", "while\n", "return ", "edge ", "metadata ", "struct ", "external"})
            if (before.find(w) != std::string::npos) ctx.event(std::string("with ") + std::string(w).substr(0, strcspn(w, " \n")));
        if (after != before) {
            auto d = diff(before, after);
            ctx.violation("read", d.substr(0, 1500));
            return;
        }
        auto j2 = ser.serialize(*t);
        order(j), order(j2);
        if (j2 != j) ctx.violation("again", "written again, the JSON differs: " + nlohmann::json::diff(j, j2).dump().substr(0, 600));
        // what is added to what was read has new numbers
        std::set<size_t> ids;
        size_t most = 0;
        std::istringstream in(after);
        for (std::string l; std::getline(in, l);) {
            auto h = l.find_first_not_of(' ');
            if (h != std::string::npos && l[h] == '#') most = std::max(most, (size_t) strtoull(l.c_str() + h + 1, 0, 10));
        }
        builder::StructuredSDFGBuilder b2(t);
        auto& blk = b2.add_block(b2.subject().root());
        if (blk.element_id() <= most) ctx.violation("ids", vh::fmt("a new block gets number %zu, in use up to %zu", blk.element_id(), most));
        if (c) {
            auto t2 = ser.deserialize(k);
            std::string d;
            if (!same_run(ctx, *c, *t2, seed, d)) ctx.violation("run", d + "\n" + before);
        }
    } catch (const std::exception& e) {
        ctx.violation("exception", std::string("exception ") + e.what() + "\n" + before.substr(0, 3000));
    }
    ctx.nontrivial(vh::hash_str(before));
}

VH_PROP(D02) {
    Silence quiet;
    gn::Opts o;
    o.budget = (int) rng.range(1, 14);
    uint64_t seed = 0;
    auto c = xf::make_case(ctx, rng, o, seed, 12, 1);
    if (!c) return;
    auto p = gn::make(seed, o);
    builder::StructuredSDFGBuilder b(p.sdfg);
    Decor dec(rng, b);
    dec.mark(b.subject().root(), rng.unit());
    auto& s = b.subject();
    auto before = dump(s);
    auto mess = [&]( std::unique_ptr<StructuredSDFG>* own) { // change a program, then release it
        builder::StructuredSDFGBuilder m(*own);
        analysis::AnalysisManager am(m.subject());
        passes::Pipeline pp = rng.chance(0.5) ? passes::Pipeline::dataflow_simplification() : passes::Pipeline::symbolic_simplification();
        pp.run(m, am);
        auto n = symbolic::symbol("N");
        if (m.subject().exists("N")) m.subject().root().replace(n, symbolic::add(n, symbolic::integer(7)));
        m.add_block(m.subject().root());
    };
    try {
        { // a clone is the same, and what happens to it does not touch the original
            auto t = s.clone();
            auto d = diff(before, dump(*t));
            if (!d.empty()) ctx.violation("clone", d.substr(0, 1500));
            ctx.event("clones");
            mess(&t);
            if (dump(s) != before) ctx.violation("clone", "changing a clone changes the program: " + diff(before, dump(s)).substr(0, 1500));
        }
        // copies of parts: the whole program copied into an empty one computes the same
        builder::StructuredSDFGBuilder e("prog", FunctionType_CPU, s.return_type());
        for (auto& n : s.arguments()) e.add_container(n, s.type(n), true);
        for (auto& n : s.containers())
            if (!s.is_argument(n)) e.add_container(n, s.type(n));
        deepcopy::StructuredSDFGDeepCopy cp(e, e.subject().root(), s.root());
        auto map = rng.chance(0.5) ? cp.copy() : cp.insert();
        ctx.event("deep copies");
        if (dump(s) != before) ctx.violation("copy", "copying changes the program: " + diff(before, dump(s)).substr(0, 1500));
        for (auto& [from, to] : map) {
            auto x = body(const_cast<scf::ControlFlowNode&>(*from)), y = body(const_cast<scf::ControlFlowNode&>(*to));
            ctx.event("copied nodes");
            if (x != y) {
                ctx.violation("copy", "the copy of a node differs: " + diff(x, y).substr(0, 1500) + "\n" + before);
                break;
            }
        }
        std::set<size_t> ids;
        bool twice = false;
        std::string all;
        {
            Dump d;
            d.walk(e.subject().root(), "");
            all = d.o;
        }
        std::istringstream in(all);
        for (std::string l; std::getline(in, l);) {
            auto h = l.find_first_not_of(' ');
            if (h != std::string::npos && l[h] == '#') twice |= !ids.insert((size_t) strtoull(l.c_str() + h + 1, 0, 10)).second;
        }
        if (twice) ctx.violation("ids", "two elements of a copy have the same number\n" + all);
        e.subject().validate();
        std::string d;
        if (!same_run(ctx, *c, e.subject(), seed, d)) ctx.violation("copy-run", d + "\n" + before);
        // the copy does not depend on the original
        auto t = e.subject().clone();
        auto mine = dump(e.subject());
        auto own = b.move();
        mess(&own);
        own.reset();
        if (dump(e.subject()) != mine) ctx.violation("copy", "changing the program changes its copy: " + diff(mine, dump(e.subject())).substr(0, 1500));
    } catch (const std::exception& x) {
        ctx.violation("exception", std::string("exception ") + x.what() + "\n" + before.substr(0, 3000));
    }
    ctx.nontrivial(vh::hash_str(before));
}
