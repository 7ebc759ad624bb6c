// Compiles generated code and runs it in a child process, which may crash.
#pragma once
#include <dlfcn.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>

#include <fstream>

#include "xform.hpp"
#include "sdfg/codegen/code_generators/cpp_code_generator.h"

namespace nat {
using namespace sdfg;

struct Unit {
    std::string name; // of the function: unique in the batch
    std::vector<std::string> order; // arguments in order
    std::map<std::string, gn::ArgSpec> args;
    types::PrimitiveType ret = types::PrimitiveType::Void;
    std::string source; // includes, structures, globals, function
};

inline std::string dirname(vh::Ctx& ctx) {
    std::string d = ctx.scratch.empty() ? ctx.out : ctx.scratch;
    std::string n = d + "/native";
    static bool done = false;
    if (!done) {
        done = true;
        std::filesystem::create_directories(n);
        std::ofstream(n + "/cblas.h") << "#pragma once\n";
    }
    return n;
}

inline std::string ctype(types::PrimitiveType t) {
    using P = types::PrimitiveType;
    switch (t) {
        case P::Bool: return "_Bool_";
        case P::Int8: return "signed char";
        case P::UInt8: return "unsigned char";
        case P::Int16: return "short";
        case P::UInt16: return "unsigned short";
        case P::Int32: return "int";
        case P::UInt32: return "unsigned";
        case P::Int64: return "long long";
        case P::UInt64: return "unsigned long long";
        case P::Float: return "float";
        case P::Double: return "double";
        default: return "void";
    }
}

// Generates the code of a program the way a user does. The name of the function becomes u.name.
inline void generate(vh::Ctx& ctx, StructuredSDFG& s, bool cpp, Unit& u) {
    analysis::AnalysisManager am(s);
    auto ip = codegen::InstrumentationPlan::none(s);
    auto cp = codegen::ArgCapturePlan::none(s);
    std::unique_ptr<codegen::CodeGenerator> g;
    if (cpp)
        g = std::make_unique<codegen::CPPCodeGenerator>(s, am, *ip, *cp);
    else
        g = std::make_unique<codegen::CCodeGenerator>(s, am, *ip, *cp);
    if (!g->generate()) throw std::runtime_error("generate() failed");
    std::string d = dirname(ctx), h = d + "/h" + u.name + ".h", c = d + "/c" + u.name + ".c";
    if (!g->as_source(h, c)) throw std::runtime_error("as_source() failed");
    std::ifstream fc(c);
    std::stringstream b;
    b << "#define " << s.name() << " " << u.name << "\n" << fc.rdbuf() << "\n#undef " << s.name() << "\n";
    u.source = b.str();
    for (auto& a : s.arguments()) u.order.push_back(a);
    if (s.return_type().type_id() == types::TypeID::Scalar) u.ret = s.return_type().primitive_type();
}

// the entry point that unpacks an argument vector
inline std::string wrapper(const Unit& u, bool cpp) {
    std::string types, vals;
    for (size_t i = 0; i < u.order.size(); ++i) {
        auto& a = u.args.at(u.order[i]);
        std::string t = a.pointer ? "void*" : ctype(a.t);
        types += (i ? ", " : "") + t;
        vals += (i ? ", " : "") + (a.pointer ? "a[" + std::to_string(i) + "]" : "*(" + t + "*) a[" + std::to_string(i) + "]");
    }
    if (types.empty()) types = "void";
    std::string r = ctype(u.ret);
    std::string call = "((" + r + "(*)(" + types + ")) (void*) " + u.name + ")(" + vals + ");";
    if (u.ret != types::PrimitiveType::Void) call = "*(" + r + "*) r = " + call;
    return (cpp ? std::string("extern \"C\" ") : std::string()) + "void w_" + u.name + "(void** a, void* r) { (void) a; (void) r; " + call + " }\n";
}

struct Call {
    size_t unit;
    const xf::Args* args;
    xf::Result got; // filled by run
    bool crashed = false;
};

inline std::string sh(const std::string& cmd, int& rc) {
    std::string o;
    FILE* p = popen((cmd + " 2>&1").c_str(), "r");
    if (!p) {
        rc = -1;
        return "popen";
    }
    char b[4096];
    size_t n;
    while ((n = fread(b, 1, sizeof b, p)) > 0)
        if (o.size() < 20000) o.append(b, n);
    rc = pclose(p);
    return o;
}

// compiles the units into one library; empty or the compiler's message
inline std::string compile(vh::Ctx& ctx, const std::vector<Unit>& us, bool cpp, const std::string& flags, std::string& so) {
    std::string d = dirname(ctx), f = d + (cpp ? "/batch.cpp" : "/batch.c");
    static int serial = 0;
    so = d + "/b" + std::to_string(serial++) + ".so";
    {
        std::ofstream o(f);
        o << (cpp ? "#define _Bool_ bool\n" : "#define _Bool_ _Bool\n");
        for (auto& u : us) o << u.source;
        o << "\n";
        for (auto& u : us) o << wrapper(u, cpp);
    }
    const char* repo = getenv("VERIF_REPO");
    int rc;
    std::string m = sh(std::string(cpp ? "g++ -std=c++17" : "gcc") + " -w -fPIC -shared -ffp-contract=off " + flags + " -I" + d + " -I" + (repo ? repo : "/repo") +
                           "/rtl/include -o " + so + " " + f + " -lm",
                       rc);
    return rc == 0 ? "" : m.empty() ? "compiler failed" : m;
}

// runs all calls; the ones that do not come back are marked
inline void run(std::string so, const std::vector<Unit>& us, std::vector<Call>& calls) {
    const size_t guard = 256;
    // what each call leaves: return value, then the buffers with guards
    size_t total = 64;
    std::vector<size_t> off;
    for (auto& c : calls) {
        off.push_back(total);
        total += 32;
        for (auto& [n, a] : *c.args)
            if (a.pointer) total += a.bytes.size() + 2 * guard;
        total = (total + 63) / 64 * 64;
    }
    auto* m = (uint8_t*) mmap(nullptr, total, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (m == MAP_FAILED) throw std::runtime_error("mmap");
    size_t next = 0;
    auto* at = (volatile uint64_t*) m; // index of the running call + 1
    auto* done = (volatile uint64_t*) (m + 8);
    while (next < calls.size()) {
        *at = next + 1;
        *done = 0;
        pid_t pid = fork();
        if (pid == 0) {
            signal(SIGSEGV, SIG_DFL), signal(SIGABRT, SIG_DFL), signal(SIGFPE, SIG_DFL), signal(SIGBUS, SIG_DFL), signal(SIGILL, SIG_DFL);
            void* h = dlopen(so.c_str(), RTLD_NOW | RTLD_LOCAL);
            if (!h) {
                fprintf(stderr, "%s\n", dlerror());
                _exit(77);
            }
            for (size_t k = next; k < calls.size(); ++k) {
                *at = k + 1;
                auto& u = us[calls[k].unit];
                auto w = (void (*)(void**, void*)) dlsym(h, ("w_" + u.name).c_str());
                if (!w) _exit(77);
                uint8_t* p = m + off[k] + 32;
                std::map<std::string, uint8_t*> where;
                for (auto& [n, a] : *calls[k].args)
                    if (a.pointer) {
                        memset(p, 0xA5, guard);
                        memcpy(p + guard, a.bytes.data(), a.bytes.size());
                        memset(p + guard + a.bytes.size(), 0xA5, guard);
                        where[n] = p + guard;
                        p += a.bytes.size() + 2 * guard;
                    }
                std::vector<void*> av;
                std::list<std::array<uint8_t, 16>> scal;
                for (auto& n : u.order) {
                    auto& a = calls[k].args->at(n);
                    if (a.pointer) {
                        av.push_back(where.at(n));
                        continue;
                    }
                    scal.emplace_back();
                    auto* q = scal.back().data();
                    if (a.v.t == types::PrimitiveType::Float) {
                        float x = (float) a.v.d;
                        memcpy(q, &x, 4);
                    } else if (a.v.fp())
                        memcpy(q, &a.v.d, 8);
                    else {
                        uint64_t x = (uint64_t) a.v.i;
                        memcpy(q, &x, 8);
                    }
                    av.push_back(q);
                }
                alarm(10);
                w(av.data(), m + off[k]);
                alarm(0);
            }
            *done = 1;
            _exit(0);
        }
        int st = 0;
        if (pid < 0) throw std::runtime_error("fork");
        waitpid(pid, &st, 0);
        if (WIFEXITED(st) && WEXITSTATUS(st) == 77) {
            munmap(m, total);
            throw std::runtime_error("the compiled library cannot be loaded");
        }
        if (*done) break;
        calls[*at - 1].crashed = true;
        calls[*at - 1].got.problem = vh::fmt("ends with status %x", st);
        next = *at;
    }
    for (size_t k = 0; k < calls.size(); ++k) {
        if (calls[k].crashed) continue;
        auto& r = calls[k].got;
        auto& u = us[calls[k].unit];
        uint8_t* p = m + off[k] + 32;
        for (auto& [n, a] : *calls[k].args)
            if (a.pointer) {
                for (size_t i = 0; i < guard; ++i)
                    if (p[i] != 0xA5 || p[guard + a.bytes.size() + i] != 0xA5) r.problem = "writes outside of " + n;
                r.mem[n].assign(p + guard, p + guard + a.bytes.size());
                p += a.bytes.size() + 2 * guard;
            }
        if (u.ret != types::PrimitiveType::Void) {
            uint8_t* q = m + off[k];
            if (u.ret == types::PrimitiveType::Double) {
                double x;
                memcpy(&x, q, 8), r.ret = ip::fpv(u.ret, x);
            } else if (u.ret == types::PrimitiveType::Float) {
                float x;
                memcpy(&x, q, 4), r.ret = ip::fpv(u.ret, x);
            } else {
                uint64_t x = 0;
                memcpy(&x, q, ip::width(u.ret)), r.ret = ip::wrap(u.ret, (ev::i128) x);
            }
        }
    }
    munmap(m, total);
    unlink(so.c_str());
}
} // namespace nat
