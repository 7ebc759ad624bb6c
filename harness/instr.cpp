// Monitors for the instrumentation half of the run-time library (rtl/src/instrumentation.cpp).
//
// The library writes its trace when the process ends, so every case is a child process. PAPI is replaced by a stand-in
// whose clock and counters move only when the harness says so: what the trace has to contain is known exactly.
#include "common.hpp"
#include "daisy_rtl/daisy_rtl.h"
#include <atomic>
#include <cmath>
#include <sys/wait.h>
#include <thread>

using json = nlohmann::json;
using vh::fmt;

// ---------------------------------------------------------------- the PAPI stand-in and its state machine
namespace {
constexpr int MAXSETS = 4096;
constexpr int PAPI_VER = 0x07020000;

struct Shared { // survives the child
    uint32_t nerr;
    char err[8][200];
    uint64_t creates, destroys, starts, stops, reads, live_max, live_end, adds, evictions;
    uint64_t ids[512];
    uint64_t nids;
    uint32_t finished;
};
Shared* sh = nullptr;

struct EvSet {
    bool live = false, running = false;
    std::vector<std::string> events;
    std::vector<long long> base;
};
std::mutex papi_mu;
EvSet sets[MAXSETS];
int nsets = 0;
int live = 0;
std::atomic<long long> vclock{1};
thread_local long long last_nsec = 0;
thread_local std::vector<long long> last_read;
std::map<std::string, long long> counters;
int fail_create_at = -1, fail_add_at = -1, n_create = 0, n_add = 0, init_returns = 0;

void papi_err(const std::string& m) {
    if (sh->nerr < 8) snprintf(sh->err[sh->nerr], 200, "%s", m.c_str());
    ++sh->nerr;
}
EvSet* get(int e, const char* op) {
    if (e < 0 || e >= nsets || !sets[e].live) {
        papi_err(fmt("%s: handle %s", op, e == -1 ? "PAPI_NULL" : e >= 0 && e < nsets ? "already destroyed" : "unknown"));
        return nullptr;
    }
    return &sets[e];
}
} // namespace

extern "C" {
int vh_papi_library_init(int v) { return init_returns ? init_returns : v; }
int vh_papi_create_eventset(int* e) {
    std::lock_guard<std::mutex> g(papi_mu);
    if (n_create++ == fail_create_at) return -2;
    if (*e != -1) {
        papi_err("create_eventset: handle is not PAPI_NULL");
        return -1;
    }
    if (nsets >= MAXSETS) return -2;
    *e = nsets++;
    sets[*e].live = true;
    ++live;
    ++sh->creates;
    if ((uint64_t) live > sh->live_max) sh->live_max = live;
    return 0;
}
int vh_papi_cleanup_eventset(int e) {
    std::lock_guard<std::mutex> g(papi_mu);
    EvSet* s = get(e, "cleanup_eventset");
    if (!s) return -1;
    if (s->running) {
        papi_err("cleanup_eventset: event set is running");
        return -10;
    }
    s->events.clear();
    return 0;
}
int vh_papi_destroy_eventset(int* e) {
    std::lock_guard<std::mutex> g(papi_mu);
    EvSet* s = get(*e, "destroy_eventset");
    if (!s) return -1;
    if (s->running || !s->events.empty()) {
        papi_err(s->running ? "destroy_eventset: event set is running" : "destroy_eventset: event set not cleaned up");
        return -10;
    }
    s->live = false;
    --live;
    ++sh->destroys;
    *e = -1;
    return 0;
}
int vh_papi_add_named_event(int e, const char* n) {
    std::lock_guard<std::mutex> g(papi_mu);
    EvSet* s = get(e, "add_named_event");
    if (!s) return -1;
    if (n_add++ == fail_add_at) return -7;
    if (s->running) {
        papi_err("add_named_event: event set is running");
        return -10;
    }
    s->events.push_back(n);
    ++sh->adds;
    return 0;
}
int vh_papi_start(int e) {
    std::lock_guard<std::mutex> g(papi_mu);
    EvSet* s = get(e, "start");
    if (!s) return -1;
    if (s->events.empty()) return -1; // as PAPI: EINVAL
    if (s->running) {
        papi_err("start: event set is already running");
        return -10;
    }
    s->running = true;
    s->base.clear();
    for (auto& n : s->events) s->base.push_back(counters[n]);
    ++sh->starts;
    return 0;
}
static void values(EvSet* s, long long* v) {
    last_read.clear();
    for (size_t i = 0; i < s->events.size(); ++i) {
        v[i] = counters[s->events[i]] - s->base[i];
        last_read.push_back(v[i]);
    }
}
int vh_papi_stop(int e, long long* v) {
    std::lock_guard<std::mutex> g(papi_mu);
    EvSet* s = get(e, "stop");
    if (!s) return -1;
    if (!s->running) {
        papi_err("stop: event set is not running");
        return -9;
    }
    values(s, v);
    s->running = false;
    ++sh->stops;
    return 0;
}
int vh_papi_reset(int e) {
    std::lock_guard<std::mutex> g(papi_mu);
    EvSet* s = get(e, "reset");
    if (!s) return -1;
    for (size_t i = 0; i < s->base.size(); ++i) s->base[i] = counters[s->events[i]];
    return 0;
}
int vh_papi_read(int e, long long* v) {
    std::lock_guard<std::mutex> g(papi_mu);
    EvSet* s = get(e, "read");
    if (!s) return -1;
    if (!s->running) {
        papi_err("read: event set is not running");
        return -9;
    }
    values(s, v);
    ++sh->reads;
    return 0;
}
const char* vh_papi_strerror(int) { return "stand-in error"; }
long long vh_papi_get_real_nsec(void) { return last_nsec = vclock.load(std::memory_order_relaxed); }
}

// ---------------------------------------------------------------- programs
namespace {

struct Meta {
    bool null_name = false, null_file = false, null_target = false, null_cap = false, null_feat = false, null_rep = false;
    std::string file, func, name, sfile, cap, feat, rep, etype, target, uuid;
    long lb, le, cb, ce;
    size_t eid, loops, maps, fors, whiles, depth;
    int lnest;
    bool f1, f2, f3, f4;
    enum __daisy_event_set kind;
};

struct Op {
    enum K { INIT, ENTER, EXIT, METRIC, INCR, FINAL, CLOCK, COUNT } k;
    int r = 0;
    long long v = 0;
    double d = 0;
    std::string s;
};

struct Ev {
    long long start, end;
    bool done;
    std::vector<long long> counts;
};
struct Stat {
    std::vector<double> v;
};
struct RegModel {
    bool inited = false, active = false, entered = false;
    std::vector<Ev> evs;
    std::map<std::string, Stat> metrics;
    std::vector<long long> at_enter;
};
struct Program {
    std::vector<Meta> metas;
    std::vector<Op> ops;
    std::vector<std::string> cpu, cuda;
    bool aggregate = false;
    std::vector<RegModel> model;
    std::map<int, std::vector<int>> first_order;
    size_t evictions = 0;
    bool hostile = false;
};

// valid UTF-8, no NUL: everything a path or a name may hold
std::string hostile(vh::Rng& r, bool on) {
    static const std::vector<std::string> bits = {"a", "kernel", "_0", " ", "\"", "\\", "\n", "\t", "\x01", "\x1f", "/", "..", "%s", "%n", "{", "}",
                                                  ":", ",", "\xc3\xa9", "\xf0\x9f\x8c\xbc", "\x7f", "'", "\r", "\b", "\f", "</script>", "\\u0041", "[", "]", "null"};
    static const std::vector<std::string> tame = {"a", "kernel", "_0", "/tmp/x", ".c", "main", "gemm", "-", "__daisy"};
    std::string s;
    size_t n = r.below(8);
    for (size_t i = 0; i < n; ++i) s += r.pick(on ? bits : tame);
    if (on && r.chance(0.02)) s += std::string(5000, 'x');
    return s;
}

Meta gen_meta(vh::Rng& r, int i, bool host) {
    Meta m;
    m.file = hostile(r, host);
    if (r.chance(0.5)) m.file = "/src/" + m.file + ".c";
    m.func = hostile(r, host);
    m.name = hostile(r, host);
    m.sfile = hostile(r, host);
    m.cap = hostile(r, host);
    m.feat = hostile(r, host);
    m.rep = hostile(r, host);
    m.etype = r.pick({"for", "map", "while", "sequence", ""});
    if (host && r.chance(0.2)) m.etype = hostile(r, true);
    m.target = hostile(r, host);
    m.null_name = r.chance(0.15);
    m.null_file = r.chance(0.15);
    m.null_target = r.chance(0.2);
    m.null_cap = r.chance(0.2);
    m.null_feat = r.chance(0.2);
    m.null_rep = r.chance(0.2);
    auto lng = [&]() -> long { return r.chance(0.1) ? r.pick({0l, -1l, LONG_MAX, LONG_MIN, 2147483648l}) : (long) r.below(100000); };
    auto sz = [&]() -> size_t { return r.chance(0.1) ? r.pick({(size_t) 0, SIZE_MAX, (size_t) 1 << 40}) : r.below(1000); };
    m.lb = lng(), m.le = lng(), m.cb = lng(), m.ce = lng();
    m.eid = sz(), m.loops = sz(), m.maps = sz(), m.fors = sz(), m.whiles = sz(), m.depth = sz();
    m.lnest = r.chance(0.1) ? -1 : (int) r.below(50);
    m.f1 = r.chance(.5), m.f2 = r.chance(.5), m.f3 = r.chance(.5), m.f4 = r.chance(.5);
    m.kind = (enum __daisy_event_set) r.below(3);
    // distinct, but sharing prefixes and suffixes
    m.uuid = r.chance(0.5) ? fmt("sdfg_%d", i) : fmt("%d_sdfg", i);
    return m;
}

enum Gen { NESTED = 1, OPEN_END = 2, NAN_METRIC = 4, MANY = 8 };

Program gen_program(vh::Rng& r, int flags, int force_agg = -1) {
    Program p;
    p.hostile = r.chance(0.6);
    p.aggregate = force_agg >= 0 ? force_agg : r.chance(0.5);
    static const std::vector<std::string> names = {"PAPI_TOT_CYC", "perf::CYCLES", "perf::BRANCHES", "cuda:::dram__bytes_read.sum:device=0", "L3:MISS", "PAPI_L1_DCM"};
    auto pick_events = [&](std::vector<std::string>& v) {
        size_t n = r.below(4);
        auto c = names;
        r.shuffle(c);
        for (size_t i = 0; i < n; ++i) v.push_back(c[i]);
    };
    pick_events(p.cpu);
    pick_events(p.cuda);
    int k = (flags & MANY) ? r.range(8, 26) : r.range(1, r.chance(0.3) ? 20 : 5);
    bool host = p.hostile;
    for (int i = 0; i < k; ++i) p.metas.push_back(gen_meta(r, i, host));
    p.model.resize(k);
    std::vector<std::string> mnames = {"foo", "flop", hostile(r, host) + "m", "static:::x"};
    long long clock = 1;
    std::map<std::string, long long> cnt;
    auto emit = [&](Op o) { p.ops.push_back(o); };
    auto adv = [&] {
        if (r.chance(0.8)) {
            long long d = r.chance(0.1) ? r.pick({0ll, 1ll, 999ll, 1000ll, 3600000000000ll}) : (long long) r.below(1ull << r.range(1, 40));
            clock += d;
            Op o{Op::CLOCK};
            o.v = d;
            emit(o);
        }
        if (r.chance(0.7))
            for (auto& n : names)
                if (r.chance(0.5)) {
                    long long d = (long long) r.below(1ull << r.range(1, r.chance(0.1) ? 52 : 24));
                    cnt[n] += d;
                    Op o{Op::COUNT};
                    o.v = d;
                    o.s = n;
                    emit(o);
                }
    };
    auto evs = [&](int i) -> const std::vector<std::string>& {
        static const std::vector<std::string> none;
        return p.metas[i].kind == __DAISY_EVENT_SET_CPU ? p.cpu : p.metas[i].kind == __DAISY_EVENT_SET_CUDA ? p.cuda : none;
    };
    int n = r.range(5, r.chance(0.1) ? 600 : 120);
    std::vector<int> sleeping;
    auto fin = [&](int i) {
        Op o{Op::FINAL};
        o.r = i;
        emit(o);
        p.model[i].active = false;
        sleeping.push_back(i);
        if (sleeping.size() > 10) {
            sleeping.erase(sleeping.begin());
            ++p.evictions;
        }
    };
    auto leave = [&](int i) {
        auto& m = p.model[i];
        Op o{Op::EXIT};
        o.r = i;
        emit(o);
        m.entered = false;
        auto& e = m.evs.back();
        e.end = clock;
        e.done = true;
        for (size_t q = 0; q < evs(i).size(); ++q) e.counts.push_back(cnt[evs(i)[q]] - m.at_enter[q]);
    };
    for (int s = 0; s < n; ++s) {
        adv();
        int i = r.below(k);
        if (r.chance(0.3)) { // stay with what is active
            std::vector<int> act;
            for (int q = 0; q < k; ++q)
                if (p.model[q].active) act.push_back(q);
            if (!act.empty()) i = r.pick(act);
        }
        auto& m = p.model[i];
        if (!m.active) {
            if (!(flags & NESTED)) {
                bool any = false;
                for (auto& q : p.model) any |= q.active;
                if (any) continue;
            }
            Op o{Op::INIT};
            o.r = i;
            emit(o);
            m.inited = m.active = true;
            sleeping.erase(std::remove(sleeping.begin(), sleeping.end(), i), sleeping.end());
            continue;
        }
        if (m.entered) {
            leave(i);
            continue;
        }
        switch (r.below((flags & MANY) ? 7 : 5)) {
            case 0:
            case 1: {
                Op o{Op::ENTER};
                o.r = i;
                emit(o);
                m.entered = true;
                m.evs.push_back({clock, 0, false, {}});
                m.at_enter.clear();
                for (auto& e : evs(i)) m.at_enter.push_back(cnt[e]);
                break;
            }
            case 2: {
                bool inc = r.chance(0.5);
                Op o{inc ? Op::INCR : Op::METRIC};
                o.r = i;
                o.s = r.pick(mnames);
                if (inc) {
                    o.v = r.chance(0.1) ? r.pick({0ll, -1ll, 1ll << 52, -(1ll << 52)}) : r.range(-1000, 100000);
                    o.d = (double) o.v;
                } else {
                    o.d = (r.unit() - 0.3) * std::pow(10.0, (double) r.range(-6, 12));
                    if ((flags & NAN_METRIC) && r.chance(0.2)) o.d = r.pick({(double) NAN, (double) INFINITY, -(double) INFINITY, 1.7e308, -1.7e308, 5e-324});
                }
                emit(o);
                m.metrics[o.s].v.push_back(o.d);
                break;
            }
            default: fin(i); break;
        }
    }
    if (!(flags & OPEN_END)) {
        for (int i = 0; i < k; ++i) {
            if (p.model[i].entered) {
                adv();
                leave(i);
            }
            if (p.model[i].active) fin(i);
        }
    }
    return p;
}

std::string joined(const std::vector<std::string>& v) {
    std::string s;
    for (size_t i = 0; i < v.size(); ++i) s += (i ? "," : "") + v[i];
    return s;
}

void fill(__daisy_metadata_t& md, const Meta& m) {
    memset(&md, 0, sizeof md);
    md.file_name = m.file.c_str();
    md.function_name = m.func.c_str();
    md.line_begin = m.lb, md.line_end = m.le, md.column_begin = m.cb, md.column_end = m.ce;
    md.sdfg_name = m.null_name ? nullptr : m.name.c_str();
    md.sdfg_file = m.null_file ? nullptr : m.sfile.c_str();
    md.arg_capture_path = m.null_cap ? nullptr : m.cap.c_str();
    md.features_file = m.null_feat ? nullptr : m.feat.c_str();
    md.opt_report_file = m.null_rep ? nullptr : m.rep.c_str();
    md.element_id = m.eid;
    md.element_type = m.etype.c_str();
    md.target_type = m.null_target ? nullptr : m.target.c_str();
    md.loopnest_index = m.lnest;
    md.num_loops = m.loops, md.num_maps = m.maps, md.num_fors = m.fors, md.num_whiles = m.whiles, md.max_depth = m.depth;
    md.is_perfectly_nested = m.f1, md.is_perfectly_parallel = m.f2, md.is_elementwise = m.f3, md.has_side_effects = m.f4;
    md.region_uuid = m.uuid.c_str();
}

void set_env(const Program& p, const std::string& trace) {
    setenv("DAISY_PAPI_PATH", (std::string(getenv("VERIF_BUILD") ? getenv("VERIF_BUILD") : ".") + "/libfakepapi.so").c_str(), 1);
    setenv("__DAISY_PAPI_VERSION", "0x07020000", 1);
    setenv("__DAISY_INSTRUMENTATION_FILE", trace.c_str(), 1);
    setenv("__DAISY_INSTRUMENTATION_MODE", p.aggregate ? "aggregate" : "", 1);
    if (p.cpu.empty()) unsetenv("__DAISY_INSTRUMENTATION_EVENTS");
    else setenv("__DAISY_INSTRUMENTATION_EVENTS", joined(p.cpu).c_str(), 1);
    if (p.cuda.empty()) unsetenv("__DAISY_INSTRUMENTATION_EVENTS_CUDA");
    else setenv("__DAISY_INSTRUMENTATION_EVENTS_CUDA", joined(p.cuda).c_str(), 1);
}

// runs in the child; exits through exit(), so that the library writes its trace
void exec_program(const Program& p) {
    static std::vector<__daisy_metadata_t> md;
    md.resize(p.metas.size());
    for (size_t i = 0; i < md.size(); ++i) fill(md[i], p.metas[i]);
    std::vector<size_t> id(p.metas.size(), 0);
    for (auto& o : p.ops) {
        switch (o.k) {
            case Op::INIT: {
                // a fresh copy per call, as generated code uses a local variable; the strings live on
                __daisy_metadata_t tmp = md[o.r];
                size_t got = __daisy_instrumentation_init(&tmp, p.metas[o.r].kind);
                memset(&tmp, 0xEE, sizeof tmp);
                if (id[o.r] && id[o.r] != got) papi_err(fmt("region %s: id %zu after %zu", p.metas[o.r].uuid.c_str(), got, id[o.r]));
                for (size_t q = 0; q < id.size(); ++q)
                    if ((int) q != o.r && id[q] == got) papi_err(fmt("two regions share the id %zu", got));
                if (got == 0) papi_err("a registered region has the id 0");
                id[o.r] = got;
                if (sh->nids < 512) sh->ids[sh->nids++] = got;
                break;
            }
            case Op::ENTER: __daisy_instrumentation_enter(id[o.r]); break;
            case Op::EXIT: __daisy_instrumentation_exit(id[o.r]); break;
            case Op::METRIC: {
                std::string tmp = o.s; // the name need not outlive the call
                __daisy_instrumentation_metric(id[o.r], tmp.c_str(), o.d);
                break;
            }
            case Op::INCR: {
                std::string tmp = o.s;
                __daisy_instrumentation_increment(id[o.r], tmp.c_str(), o.v);
                break;
            }
            case Op::FINAL: __daisy_instrumentation_finalize(id[o.r]); break;
            case Op::CLOCK: vclock += o.v; break;
            case Op::COUNT: {
                std::lock_guard<std::mutex> g(papi_mu);
                counters[o.s] += o.v;
                break;
            }
        }
    }
    sh->finished = 1;
}

struct Run {
    int status = 0;
    bool timed_out = false;
    pid_t pid = 0;
    std::string trace, err;
};

template<class F>
Run in_child(vh::Ctx& ctx, const Program& p, F body) {
    Run run;
    std::string tf = ctx.scratch + "/trace.json", ef = ctx.scratch + "/child.err";
    unlink(tf.c_str());
    if (!sh) sh = (Shared*) mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    memset(sh, 0, sizeof *sh);
    fflush(nullptr);
    pid_t pid = fork();
    if (pid == 0) {
        int fd = open(ef.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
        dup2(fd, 2);
        alarm(60);
        set_env(p, tf);
        body();
        exit(0);
    }
    run.pid = pid;
    waitpid(pid, &run.status, 0);
    auto slurp = [](const std::string& f) {
        std::ifstream i(f, std::ios::binary);
        return std::string(std::istreambuf_iterator<char>(i), {});
    };
    run.trace = slurp(tf);
    run.err = slurp(ef);
    return run;
}

// The child ended because of a sanitizer: hand its report to the driver.
bool crashed(vh::Ctx& ctx, const Run& r) {
    if (WIFSIGNALED(r.status) || r.err.find("Sanitizer") != std::string::npos || r.err.find("runtime error:") != std::string::npos) {
        std::string key = "crash";
        auto pos = r.err.find("SUMMARY: ");
        if (pos != std::string::npos) {
            std::string l = r.err.substr(pos + 9, r.err.find('\n', pos) - pos - 9);
            auto in = l.find(" in ");
            key = "crash:" + l.substr(0, l.find(' ', l.find(' ') + 1)) + "@" + (in == std::string::npos ? "?" : l.substr(in + 4));
        } else if (WIFSIGNALED(r.status))
            key = fmt("crash:signal-%d", WTERMSIG(r.status));
        ctx.violation(key, "the instrumented program died: " + r.err.substr(0, 3000));
        return true;
    }
    return false;
}

bool close(double a, double b, double abs = 0) { return std::fabs(a - b) <= 2e-5 * std::max(std::fabs(a), std::fabs(b)) + abs + 1e-9; }

std::optional<json> parse_trace(vh::Ctx& ctx, const Run& r) {
    json j;
    try {
        j = json::parse(r.trace);
    } catch (const std::exception& e) {
        size_t n = r.trace.size();
        ctx.violation("trace-not-json", std::string(e.what()) + "; trace starts " + r.trace.substr(0, 1500) + (n > 1500 ? " ..." : ""));
        return {};
    }
    if (!j.is_object() || !j.contains("traceEvents") || !j["traceEvents"].is_array()) {
        ctx.violation("trace-shape", "no traceEvents array");
        return {};
    }
    return j;
}

std::string meta_mismatch(const json& e, const Meta& m, bool agg, pid_t pid) {
    auto bad = [&](const char* f, const json& want, const json& got) {
        return std::string(f) + ": expected " + want.dump(-1, ' ', true, json::error_handler_t::replace) + ", trace has " +
               got.dump(-1, ' ', true, json::error_handler_t::replace);
    };
#define EQ(f, got, want)                                \
    do {                                                \
        json g_ = got, w_ = want;                       \
        if (g_ != w_) return bad(f, w_, g_);            \
    } while (0)
    try {
        EQ("ph", e.at("ph"), "X");
        EQ("cat", e.at("cat"), agg ? "aggregated_region,daisy" : "region,daisy");
        EQ("name", e.at("name"), m.func + " [L" + std::to_string(m.lb) + "-" + std::to_string(m.le) + "]");
        EQ("pid", e.at("pid"), pid);
        auto& a = e.at("args");
        EQ("function", a.at("function"), m.func);
        auto slash = m.file.rfind('/');
        EQ("module", a.at("module"), slash == std::string::npos ? m.file : m.file.substr(slash + 1));
        EQ("file", a.at("source_ranges").at(0).at("file"), m.file);
        EQ("from.line", a.at("source_ranges").at(0).at("from").at("line"), m.lb);
        EQ("from.col", a.at("source_ranges").at(0).at("from").at("col"), m.cb);
        EQ("to.line", a.at("source_ranges").at(0).at("to").at("line"), m.le);
        EQ("to.col", a.at("source_ranges").at(0).at("to").at("col"), m.ce);
        EQ("target_type", a.at("target_type"), m.null_target ? "" : m.target);
        auto& d = a.at("docc");
        EQ("sdfg_name", d.at("sdfg_name"), m.null_name ? "" : m.name);
        EQ("sdfg_file", d.at("sdfg_file"), m.null_file ? "" : m.sfile);
        EQ("arg_capture_path", d.at("arg_capture_path"), m.null_cap ? "" : m.cap);
        EQ("features_file", d.at("features_file"), m.null_feat ? "" : m.feat);
        EQ("opt_report_file", d.at("opt_report_file"), m.null_rep ? "" : m.rep);
        if (!m.null_name && !m.null_file) {
            EQ("element_id", d.at("element_id"), m.eid);
            EQ("element_type", d.at("element_type"), m.etype);
            EQ("loopnest_index", d.at("loopnest_index"), m.lnest);
            auto& l = d.at("loop_info");
            EQ("loop_info.loopnest_index", l.at("loopnest_index"), m.lnest);
            EQ("num_loops", l.at("num_loops"), m.loops);
            EQ("num_maps", l.at("num_maps"), m.maps);
            EQ("num_fors", l.at("num_fors"), m.fors);
            EQ("num_whiles", l.at("num_whiles"), m.whiles);
            EQ("max_depth", l.at("max_depth"), m.depth);
            EQ("is_perfectly_nested", l.at("is_perfectly_nested"), m.f1);
            EQ("is_perfectly_parallel", l.at("is_perfectly_parallel"), m.f2);
            EQ("is_elementwise", l.at("is_elementwise"), m.f3);
            EQ("has_side_effects", l.at("has_side_effects"), m.f4);
        }
    } catch (const std::exception& x) {
        return std::string("missing member: ") + x.what();
    }
    return "";
}

const std::vector<std::string>& evnames(const Program& p, size_t i) {
    static const std::vector<std::string> none;
    return p.metas[i].kind == __DAISY_EVENT_SET_CPU ? p.cpu : p.metas[i].kind == __DAISY_EVENT_SET_CUDA ? p.cuda : none;
}

// Metadata is the identity of a region in the trace; make it unique per region for the attribution of events.
void make_attributable(Program& p) {
    for (size_t i = 0; i < p.metas.size(); ++i) p.metas[i].func += "#" + std::to_string(i);
}
int region_of(const Program& p, const json& e) {
    if (!e.is_object() || !e.contains("args") || !e["args"].contains("function") || !e["args"]["function"].is_string()) return -1;
    std::string f = e["args"]["function"];
    auto h = f.rfind('#');
    if (h == std::string::npos) return -1;
    int i = atoi(f.c_str() + h + 1);
    return i >= 0 && (size_t) i < p.metas.size() ? i : -1;
}

uint64_t prog_hash(const Program& p) {
    uint64_t h = p.aggregate;
    for (auto& o : p.ops) h = vh::mix(h * 31 + o.k * 64 + o.r + (uint64_t) o.v * 7);
    return h;
}

bool ok_exit(vh::Ctx& ctx, const Run& r) {
    if (crashed(ctx, r)) return false;
    if (!WIFEXITED(r.status) || WEXITSTATUS(r.status) != 0 || !sh->finished) {
        ctx.violation("run-failed", fmt("the instrumented program ended with status %d: ", r.status) + r.err.substr(0, 1500));
        return false;
    }
    return true;
}

// how many events of each region the trace has to hold
bool check_population(vh::Ctx& ctx, const Program& p, const json& j, std::vector<std::vector<json>>& per) {
    per.assign(p.metas.size(), {});
    for (auto& e : j["traceEvents"]) {
        int i = region_of(p, e);
        if (i < 0) {
            ctx.violation("foreign-event", "event of no region: " + e.dump(-1, ' ', true, json::error_handler_t::replace).substr(0, 500));
            return false;
        }
        per[i].push_back(e);
    }
    for (size_t i = 0; i < p.metas.size(); ++i) {
        size_t want = p.aggregate ? (p.model[i].inited ? 1 : 0) : p.model[i].evs.size();
        if (per[i].size() != want) {
            ctx.violation(p.aggregate ? "aggregate-event-count" : "event-count",
                          fmt("region %zu (%s): %zu events in the trace, %zu expected", i, p.metas[i].uuid.c_str(), per[i].size(), want));
            return false;
        }
    }
    return true;
}

} // namespace

// ---------------------------------------------------------------- I01: the trace is JSON, complete, with the right metadata
VH_PROP(I01) {
    Program p = gen_program(rng, NESTED | NAN_METRIC | (rng.chance(0.3) ? OPEN_END : 0));
    make_attributable(p);
    Run r = in_child(ctx, p, [&] { exec_program(p); });
    if (!ok_exit(ctx, r)) return;
    auto j = parse_trace(ctx, r);
    if (!j) return;
    std::vector<std::vector<json>> per;
    if (!check_population(ctx, p, *j, per)) return;
    size_t n = 0, empty = 0, nosdfg = 0;
    for (size_t i = 0; i < per.size(); ++i) {
        if (p.model[i].inited && p.model[i].evs.empty()) ++empty;
        for (auto& e : per[i]) {
            auto m = meta_mismatch(e, p.metas[i], p.aggregate, r.pid);
            if (!m.empty()) {
                ctx.violation("metadata", "region " + p.metas[i].uuid + ": " + m);
                return;
            }
            ++n;
            if (p.metas[i].null_name || p.metas[i].null_file) ++nosdfg;
        }
    }
    ctx.event("trace_events", n);
    ctx.event(p.aggregate ? "aggregate_traces" : "event_traces");
    if (p.hostile) ctx.event("hostile_strings");
    ctx.event("regions_without_events", empty);
    ctx.event("events_without_sdfg", nosdfg);
    if (n) ctx.nontrivial(prog_hash(p));
    if (n > 2) ctx.sample({{"ops", p.ops.size()}, {"trace_events", n}, {"aggregate", p.aggregate}, {"first", (*j)["traceEvents"][0]["name"]}});
}

// ---------------------------------------------------------------- I02: per-event measurements are exact
VH_PROP(I02) {
    Program p = gen_program(rng, NESTED | (rng.chance(0.3) ? MANY : 0), 0);
    make_attributable(p);
    Run r = in_child(ctx, p, [&] { exec_program(p); });
    if (!ok_exit(ctx, r)) return;
    auto j = parse_trace(ctx, r);
    if (!j) return;
    std::vector<std::vector<json>> per;
    if (!check_population(ctx, p, *j, per)) return;
    size_t n = 0, withc = 0;
    for (size_t i = 0; i < per.size(); ++i) {
        for (size_t k = 0; k < per[i].size(); ++k) {
            auto& e = per[i][k];
            auto& w = p.model[i].evs[k];
            auto who = fmt("region %zu event %zu: ", i, k);
            if (!e.contains("ts") || !e["ts"].is_number_integer() || e["ts"].get<long long>() != w.start / 1000) {
                ctx.violation("event-ts", who + fmt("ts %s, expected %lld", e.value("ts", json()).dump().c_str(), w.start / 1000));
                return;
            }
            if (!e.contains("dur") || !e["dur"].is_number() || !close(e["dur"].get<double>(), (w.end - w.start) / 1000.0)) {
                ctx.violation("event-dur", who + fmt("dur %s, expected %.3f us", e.value("dur", json()).dump().c_str(), (w.end - w.start) / 1000.0));
                return;
            }
            json want = json::object();
            for (size_t q = 0; q < w.counts.size(); ++q) want[evnames(p, i)[q]] = w.counts[q];
            auto got = e["args"].value("metrics", json());
            if (got != want) {
                ctx.violation("event-counters", who + "metrics " + got.dump() + ", expected " + want.dump());
                return;
            }
            ++n;
            withc += !w.counts.empty();
        }
    }
    ctx.event("trace_events", n);
    ctx.event("events_with_counters", withc);
    ctx.event("evictions", p.evictions);
    if (n) ctx.nontrivial(prog_hash(p));
    if (withc) ctx.sample({{"events", n}, {"with_counters", withc}});
}

// ---------------------------------------------------------------- I03: aggregated statistics
static std::string stat_mismatch(const json& got, const std::vector<double>& v, bool intminmax, double scale) {
    size_t n = v.size();
    long double s = 0, mx = -INFINITY, mn = INFINITY, amax = 0;
    for (double x : v) {
        s += x;
        mx = std::max<long double>(mx, x);
        mn = std::min<long double>(mn, x);
        amax = std::max<long double>(amax, std::fabs(x));
    }
    long double mean = n ? s / n : 0, var = 0;
    for (double x : v) var += (x - mean) * (x - mean);
    if (n) var /= n;
    if (!n) mn = mx = 0;
    try {
        if (got.at("count") != n) return fmt("count %s, expected %zu", got.at("count").dump().c_str(), n);
        auto num = [&](const char* k, long double w, long double abs) -> std::string {
            if (!got.at(k).is_number()) return fmt("%s is %s", k, got.at(k).dump().c_str());
            if (!close(got.at(k).get<double>(), (double) w, (double) abs)) return fmt("%s %s, expected %.10Lg", k, got.at(k).dump().c_str(), w);
            return "";
        };
        std::string m;
        if (!(m = num("mean", mean * scale, amax * scale * 1e-10L)).empty()) return m;
        if (!(m = num("variance", var * scale * scale, amax * amax * scale * scale * 1e-10L)).empty()) return m;
        if (intminmax) {
            if (got.at("min").get<long long>() != (long long) mn) return fmt("min %s, expected %lld", got.at("min").dump().c_str(), (long long) mn);
            if (got.at("max").get<long long>() != (long long) mx) return fmt("max %s, expected %lld", got.at("max").dump().c_str(), (long long) mx);
        } else {
            if (!(m = num("min", mn * scale, 0)).empty()) return m;
            if (!(m = num("max", mx * scale, 0)).empty()) return m;
        }
    } catch (const std::exception& e) {
        return std::string("malformed statistics: ") + e.what();
    }
    return "";
}

VH_PROP(I03) {
    bool nan = rng.chance(0.2);
    Program p = gen_program(rng, NESTED | (rng.chance(0.2) ? MANY : 0) | (nan ? NAN_METRIC : 0), 1);
    make_attributable(p);
    Run r = in_child(ctx, p, [&] { exec_program(p); });
    if (!ok_exit(ctx, r)) return;
    auto j = parse_trace(ctx, r);
    if (!j) return;
    std::vector<std::vector<json>> per;
    if (!check_population(ctx, p, *j, per)) return;
    size_t stats = 0, metrics = 0, never = 0;
    for (size_t i = 0; i < per.size(); ++i) {
        if (per[i].empty()) continue;
        auto& e = per[i][0];
        auto& w = p.model[i].evs;
        auto who = fmt("region %zu: ", i);
        auto ms = e["args"].value("metrics", json());
        std::vector<double> dur;
        long double total = 0;
        for (auto& x : w) dur.push_back((double) (x.end - x.start)), total += x.end - x.start;
        if (!ms.contains("runtime")) {
            ctx.violation("aggregate-runtime", who + "no runtime statistics");
            return;
        }
        auto m = stat_mismatch(ms["runtime"], dur, false, 1e-3);
        if (!m.empty()) {
            ctx.violation("aggregate-runtime", who + m);
            return;
        }
        long long first = w.empty() ? 0 : w[0].start;
        if (e.value("ts", json()) != first / 1000) {
            ctx.violation("aggregate-ts", who + "ts " + e.value("ts", json()).dump() + fmt(", expected %lld", first / 1000));
            return;
        }
        if (!e.contains("dur") || !close(e["dur"].get<double>(), (double) (total / 1000))) {
            ctx.violation("aggregate-dur", who + "dur " + e.value("dur", json()).dump() + fmt(", expected %Lg", total / 1000));
            return;
        }
        std::set<std::string> expect{"runtime"};
        auto& en = evnames(p, i);
        if (w.empty()) ++never;
        for (size_t q = 0; q < en.size(); ++q) {
            if (!w.empty()) expect.insert(en[q]);
            if (!ms.contains(en[q])) continue;
            std::vector<double> v;
            for (auto& x : w) v.push_back((double) x.counts[q]);
            auto m = stat_mismatch(ms[en[q]], v, true, 1);
            if (!m.empty()) {
                ctx.violation("aggregate-counters", who + en[q] + ": " + m);
                return;
            }
            if (w.empty()) expect.insert(en[q]); // zero statistics of a region that never ran are fine too
            ++stats;
        }
        for (auto& [name, st] : p.model[i].metrics) {
            auto key = "static:::" + name;
            expect.insert(key);
            if (!ms.contains(key)) {
                ctx.violation("aggregate-metric-missing", who + "metric " + name + " is not in the trace");
                return;
            }
            bool finite = true;
            for (double x : st.v) finite &= std::fabs(x) < 1e150 && (x == 0 || std::fabs(x) > 1e-150);
            if (!finite) {
                if (ms[key].value("count", json()) != st.v.size()) {
                    ctx.violation("aggregate-metric", who + name + ": count " + ms[key].dump());
                    return;
                }
                ctx.event("non_finite_metrics");
                continue;
            }
            auto m = stat_mismatch(ms[key], st.v, false, 1);
            if (!m.empty()) {
                ctx.violation("aggregate-metric", who + name + ": " + m + fmt(" (%zu values)", st.v.size()));
                return;
            }
            ++metrics;
        }
        for (auto& [k, v] : ms.items())
            if (!expect.count(k)) {
                ctx.violation("aggregate-foreign-metric", who + "unexpected metric " + k);
                return;
            }
    }
    ctx.event("counter_statistics", stats);
    ctx.event("metric_statistics", metrics);
    ctx.event("regions_never_entered", never);
    ctx.event("evictions", p.evictions);
    if (stats + metrics) ctx.nontrivial(prog_hash(p));
    if (metrics > 1) ctx.sample({{"counter_statistics", stats}, {"metric_statistics", metrics}});
}

// ---------------------------------------------------------------- I04: concurrent threads (built with ThreadSanitizer)
VH_PROP(I04) {
    int nt = rng.range(2, 8);
    Program p; // one region per thread, and some that are handed from thread to thread
    int shared = rng.range(0, 3);
    p.aggregate = rng.chance(0.5);
    if (rng.chance(0.7)) p.cpu = {"PAPI_TOT_CYC", "perf::CYCLES"};
    int own = rng.range(1, 4); // regions per thread
    int k = nt * own + shared;
    for (int i = 0; i < k; ++i) {
        p.metas.push_back(gen_meta(rng, i, false));
        p.metas.back().kind = rng.chance(0.7) ? __DAISY_EVENT_SET_CPU : __DAISY_EVENT_SET_NONE;
    }
    p.model.resize(k);
    make_attributable(p);
    uint64_t seed = rng.next();
    int rounds = rng.range(5, ctx.thorough ? 60 : 25);
    struct Rec {
        int region;
        long long start, end;
        std::vector<long long> delta;
    };
    std::string log = ctx.scratch + "/threads.json";
    unlink(log.c_str());
    Run r = in_child(ctx, p, [&] {
        std::vector<__daisy_metadata_t> md(k);
        for (int i = 0; i < k; ++i) fill(md[i], p.metas[i]);
        std::vector<std::vector<Rec>> recs(nt);
        std::vector<std::map<int, int>> mets(nt);
        std::vector<std::mutex> locks(std::max(shared, 1));
        std::atomic<int> ready{0};
        std::vector<std::thread> th;
        for (int t = 0; t < nt; ++t)
            th.emplace_back([&, t] {
                vh::Rng tr(seed ^ vh::mix(t));
                ++ready;
                while (ready.load() < nt) std::this_thread::yield();
                for (int q = 0; q < rounds; ++q) {
                    int region;
                    std::unique_lock<std::mutex> lk;
                    if (shared && tr.chance(0.3)) {
                        int s = tr.below(shared);
                        region = nt * own + s;
                        lk = std::unique_lock<std::mutex>(locks[s]);
                    } else
                        region = t * own + tr.below(own);
                    __daisy_metadata_t tmp = md[region];
                    size_t id = __daisy_instrumentation_init(&tmp, p.metas[region].kind);
                    int reps = tr.range(1, 3);
                    for (int x = 0; x < reps; ++x) {
                        bool ev = p.metas[region].kind == __DAISY_EVENT_SET_CPU && !p.cpu.empty();
                        __daisy_instrumentation_enter(id);
                        Rec rec{region, last_nsec, 0, {}};
                        std::vector<long long> c0;
                        if (ev) c0 = last_read;
                        vclock += (long long) tr.below(100000);
                        {
                            std::lock_guard<std::mutex> g(papi_mu);
                            counters["PAPI_TOT_CYC"] += (long long) tr.below(1000);
                            counters["perf::CYCLES"] += 1;
                        }
                        if (tr.chance(0.3)) std::this_thread::yield();
                        __daisy_instrumentation_exit(id);
                        rec.end = last_nsec;
                        if (ev)
                            for (size_t i = 0; i < c0.size(); ++i) rec.delta.push_back(last_read[i] - c0[i]);
                        recs[t].push_back(rec);
                        if (tr.chance(0.4)) {
                            __daisy_instrumentation_increment(id, "m", 1);
                            ++mets[t][region];
                        }
                    }
                    __daisy_instrumentation_finalize(id);
                }
            });
        for (auto& t : th) t.join();
        json j = json::array();
        json mj = json::object();
        for (auto& v : recs)
            for (auto& x : v) j.push_back({x.region, x.start, x.end, x.delta});
        for (auto& m : mets)
            for (auto& [reg, n] : m) mj[std::to_string(reg)] = mj.value(std::to_string(reg), 0) + n;
        std::ofstream o(log);
        o << json{{"events", j}, {"metrics", mj}}.dump();
        o.close();
        sh->finished = 1;
    });
    if (!ok_exit(ctx, r)) return;
    auto j = parse_trace(ctx, r);
    if (!j) return;
    json obs;
    {
        std::ifstream i(log);
        obs = json::parse(i, nullptr, false);
    }
    if (sh->nerr) {
        ctx.violation("papi-protocol", sh->err[0]);
        return;
    }
    std::vector<std::multiset<std::string>> want(k), got(k);
    std::vector<std::vector<double>> durs(k);
    for (auto& e : obs["events"]) {
        int reg = e[0];
        json m = json::object();
        for (size_t i = 0; i < e[3].size(); ++i) m[p.cpu[i]] = e[3][i];
        want[reg].insert(fmt("%lld %s", e[1].get<long long>() / 1000, m.dump().c_str()));
        durs[reg].push_back(e[2].get<double>() - e[1].get<double>());
    }
    size_t n = 0;
    std::vector<int> seen(k, 0);
    for (auto& e : (*j)["traceEvents"]) {
        int reg = region_of(p, e);
        if (reg < 0) {
            ctx.violation("foreign-event", e.dump().substr(0, 300));
            return;
        }
        ++seen[reg];
        if (p.aggregate) {
            auto m = stat_mismatch(e["args"]["metrics"].value("runtime", json()), durs[reg], false, 1e-3);
            if (!m.empty()) {
                ctx.violation("lost-update", fmt("region %d: runtime ", reg) + m);
                return;
            }
            int mc = obs["metrics"].value(std::to_string(reg), 0);
            auto ms = e["args"]["metrics"].value("static:::m", json());
            if ((mc == 0) != ms.is_null() || (mc && ms.value("count", -1) != mc)) {
                ctx.violation("lost-metric", fmt("region %d: metric recorded %d times, trace has ", reg, mc) + ms.dump());
                return;
            }
        } else
            got[reg].insert(fmt("%lld %s", e["ts"].get<long long>(), e["args"]["metrics"].dump().c_str()));
        ++n;
    }
    for (int i = 0; i < k; ++i) {
        if (!p.aggregate && got[i] != want[i]) {
            ctx.violation("lost-event", fmt("region %d: %zu events recorded, %zu in the trace (or other values)", i, want[i].size(), got[i].size()));
            return;
        }
        if (p.aggregate && seen[i] != (durs[i].empty() ? 0 : 1)) {
            ctx.violation("lost-event", fmt("region %d: %d aggregated events", i, seen[i]));
            return;
        }
    }
    ctx.event("thread_events", obs["events"].size());
    ctx.event("threads", nt);
    ctx.event("evictions_destroyed", sh->destroys);
    // interleaving observed: order of the events by their start
    std::vector<std::pair<long long, int>> order;
    for (auto& e : obs["events"]) order.push_back({e[1].get<long long>(), e[0].get<int>()});
    std::sort(order.begin(), order.end());
    uint64_t h = 0;
    for (auto& [a, b] : order) h = vh::mix(h ^ b);
    ctx.nontrivial(h);
    ctx.sample({{"threads", nt}, {"events", obs["events"].size()}, {"regions", k}, {"aggregate", p.aggregate}});
}

// ---------------------------------------------------------------- I05/I06: event sets, and the identity of regions
static void lifecycle(vh::Ctx& ctx, vh::Rng& rng, bool ids) {
    Program p = gen_program(rng, NESTED | (rng.chance(0.7) ? MANY : 0));
    make_attributable(p);
    Run r = in_child(ctx, p, [&] {
        // destructors run in reverse: this one, registered first, sees the state the library leaves behind
        atexit([] { sh->live_end = live; });
        exec_program(p);
    });
    if (!ok_exit(ctx, r)) return;
    size_t maxact = 0, act = 0, inits = 0;
    std::set<int> seen;
    for (auto& o : p.ops) {
        if (o.k == Op::INIT) ++act, ++inits, seen.insert(o.r);
        if (o.k == Op::FINAL) --act;
        maxact = std::max(maxact, act);
    }
    bool id_err = false;
    std::string first;
    for (uint32_t i = 0; i < std::min<uint32_t>(sh->nerr, 8); ++i) {
        std::string e = sh->err[i];
        bool isid = e.find("id ") != std::string::npos;
        if (isid == ids && first.empty()) first = e;
        id_err |= isid;
    }
    if (!first.empty()) {
        // the message up to the first detail names the violation
        ctx.violation(ids ? "region-identity" : "papi-protocol:" + first.substr(0, 60), first);
        return;
    }
    if (ids) {
        // after any history, the trace holds every completed event of every region exactly once
        auto j = parse_trace(ctx, r);
        if (!j) return;
        std::vector<std::vector<json>> per;
        if (!check_population(ctx, p, *j, per)) return;
        ctx.event("reinits", inits - seen.size());
        ctx.event("evictions", p.evictions);
        if (inits > seen.size()) ctx.nontrivial(prog_hash(p));
        ctx.sample({{"inits", inits}, {"regions", seen.size()}, {"evictions", p.evictions}});
        return;
    }
    if (sh->live_end != 0) {
        ctx.violation("eventset-leak", fmt("%lu event sets are alive after exit", (unsigned long) sh->live_end));
        return;
    }
    if (sh->creates != sh->destroys) {
        ctx.violation("eventset-leak", fmt("%lu created, %lu destroyed", (unsigned long) sh->creates, (unsigned long) sh->destroys));
        return;
    }
    // active regions plus the documented cache of ten (one more while it is evicting)
    if (sh->live_max > maxact + 11) {
        ctx.violation("eventset-bound", fmt("%lu event sets alive at once, at most %zu regions active", (unsigned long) sh->live_max, maxact));
        return;
    }
    ctx.event("eventsets", sh->creates);
    ctx.event("starts", sh->starts);
    ctx.event("stops", sh->stops);
    ctx.event("reads", sh->reads);
    ctx.event("evictions", p.evictions);
    if (sh->starts) ctx.nontrivial(prog_hash(p));
    ctx.sample({{"eventsets", sh->creates}, {"starts", sh->starts}, {"live_max", sh->live_max}, {"evictions", p.evictions}});
}
VH_PROP(I05) { lifecycle(ctx, rng, false); }
VH_PROP(I06) { lifecycle(ctx, rng, true); }

// ---------------------------------------------------------------- I07: misuse and failures end the run with a failure
VH_PROP(I07) {
    Program p = gen_program(rng, NESTED);
    make_attributable(p);
    int what = ctx.case_no % 11;
    static const char* names[] = {"unknown-enter", "unknown-exit", "unknown-finalize", "unknown-metric", "unknown-increment", "null-metadata",
                                  "no-version",    "wrong-version", "no-papi",         "create-fails",   "add-fails"};
    if (what == 10 && p.cpu.empty()) p.cpu = {"PAPI_TOT_CYC"};
    size_t cut = rng.below(p.ops.size() + 1);
    size_t bogus = rng.pick({(size_t) 0, (size_t) 9999, SIZE_MAX, (size_t) 1 << 32});
    bool did_init = false;
    for (size_t i = 0; i < cut; ++i) did_init |= p.ops[i].k == Op::INIT;
    if (what == 9) {
        p.ops.resize(cut);
        if (!did_init) {
            p.ops.clear();
            Op o{Op::INIT};
            p.ops.push_back(o);
        }
    }
    if (what == 10) {
        p.metas[0].kind = __DAISY_EVENT_SET_CPU;
        p.ops.clear();
        Op o{Op::INIT};
        p.ops.push_back(o);
    }
    Run r = in_child(ctx, p, [&] {
        auto prefix = [&] {
            Program& q = *new Program(p); // the library keeps pointers to its strings
            q.ops.resize(std::min(cut, p.ops.size()));
            exec_program(q);
            sh->finished = 0;
        };
        auto past = [&] { sh->finished = 2; };
        switch (what) {
            case 0: prefix(); __daisy_instrumentation_enter(bogus); past(); break;
            case 1: prefix(); __daisy_instrumentation_exit(bogus); past(); break;
            case 2: prefix(); __daisy_instrumentation_finalize(bogus); past(); break;
            case 3: prefix(); __daisy_instrumentation_metric(bogus, "m", 1.0); past(); break;
            case 4: prefix(); __daisy_instrumentation_increment(bogus, "m", 1); past(); break;
            case 5:
                if (__daisy_instrumentation_init(nullptr, __DAISY_EVENT_SET_CPU) == 0) sh->finished = 3;
                break;
            case 6: unsetenv("__DAISY_PAPI_VERSION"); exec_program(p); break;
            case 7: init_returns = -3; exec_program(p); break;
            case 8: setenv("DAISY_PAPI_PATH", "/nonexistent/libpapi.so", 1); exec_program(p); break;
            case 9: fail_create_at = 0; exec_program(p); break;
            case 10: fail_add_at = (int) rng.below(p.cpu.size()); exec_program(p); break;
        }
    });
    if (crashed(ctx, r)) return;
    int code = WIFEXITED(r.status) ? WEXITSTATUS(r.status) : -1;
    if (what == 5) {
        if (code != 0 || sh->finished != 3) ctx.violation("null-metadata", fmt("init(NULL) did not return 0 (status %d)", code));
    } else {
        bool any = false;
        for (auto& o : p.ops) any |= o.k == Op::INIT;
        if (what >= 6 && !any) return; // the library was never used
        if (sh->finished != 0 || code == 0) {
            ctx.violation(std::string("failure-unnoticed:") + names[what], fmt("the run went on (finished=%u, exit status %d)", sh->finished, code));
            return;
        }
        if (r.err.find("[daisy-rtl]") == std::string::npos) {
            ctx.violation(std::string("failure-undiagnosed:") + names[what], "no diagnostic on stderr");
            return;
        }
        // what was measured before the misuse is still written, and is JSON
        if (what < 5 && !r.trace.empty()) {
            if (!parse_trace(ctx, r)) return;
            ctx.event("traces_after_misuse");
        }
    }
    ctx.event(names[what]);
    ctx.nontrivial(vh::mix(what * 1000003ull + cut) ^ bogus);
    ctx.sample({{"fault", names[what]}, {"status", code}, {"stderr", r.err.substr(0, 200)}});
}

// ---------------------------------------------------------------- M01: arithmetic helpers of generated code
VH_PROP(M01) {
    __int128 lim = (__int128) 1 << 63;
    for (int q = 0; q < 200; ++q) {
        // power: exact whenever the result fits
        long long b = rng.chance(0.5) ? rng.range(-12, 12) : rng.range(-3037000499ll, 3037000499ll);
        int e = rng.chance(0.1) ? -(int) rng.below(5) : (int) rng.below(64);
        __int128 want = 1;
        bool fits = true;
        if (e < 0) want = 0;
        else
            for (int i = 0; i < e && fits; ++i) {
                want *= b;
                fits = want < lim && want >= -lim;
            }
        if (fits) {
            long long got = __daisy_sym_pow(b, e);
            ctx.event("pow");
            if (e > 1 && b != 0 && b != 1 && b != -1) ctx.nontrivial(vh::mix((uint64_t) b * 64 + e));
            if (got != (long long) want) {
                ctx.violation("sym_pow", fmt("%lld ** %d is %lld, expected %lld", b, e, got, (long long) want));
                return;
            }
        }
        long long x = (long long) rng.next() >> rng.below(60), y = (long long) rng.next() >> rng.below(60), z = rng.range(-5, 5);
        if (__daisy_min(x, y) != (x < y ? x : y) || __daisy_max(x, y) != (x > y ? x : y)) {
            ctx.violation("minmax", fmt("min/max of %lld and %lld", x, y));
            return;
        }
        // as operands of a larger expression, and with expressions as arguments
        if (2 * __daisy_min(z + 1, z - 1) + 1 != 2 * (z - 1) + 1 || __daisy_max(z, z | 1) - __daisy_min(z, z | 1) != (z | 1) - z ||
            __daisy_min(z ? 3 : 4, 5 - __daisy_max(1, 2)) != 3 || 10 - __daisy_fma(z + 1, 2, z - 1) * 2 != 10 - ((z + 1) * 2 + z - 1) * 2) {
            ctx.violation("macro-hygiene", fmt("min/max/fma inside an expression, z=%lld", z));
            return;
        }
        ctx.event("minmax");
    }
    ctx.sample({{"pow_checked", ctx.events["pow"]}});
}

VH_MAIN
