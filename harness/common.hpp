// Shared scaffolding of every native harness in /verif/harness.
//
// A harness registers one function per property (VH_PROP). The driver (bin/check.py) starts it as
//   harness --prop ID --seed S --first A --last B --step K --out DIR
// and it runs the cases A, A+K, ... < B. Every random choice of a case comes from a generator seeded with
// (seed, property, case number): `--first N --last N+1` replays exactly one case.
// Before a case starts its number is stored in a shared mapping (DIR/status), so that the driver knows which
// case was running when a sanitizer ended the process.
#pragma once
#include <cinttypes>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <filesystem>
#include <fstream>
#include <functional>
#include <map>
#include <mutex>
#include <nlohmann/json.hpp>
#include <set>
#include <sstream>
#include <string>
#include <sys/mman.h>
#include <unistd.h>
#include <unordered_set>
#include <vector>

namespace vh {

inline uint64_t mix(uint64_t z) {
    z += 0x9e3779b97f4a7c15ull;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}

inline uint64_t hash_bytes(const void* p, size_t n, uint64_t h = 1469598103934665603ull) {
    auto* b = static_cast<const unsigned char*>(p);
    for (size_t i = 0; i < n; ++i) h = (h ^ b[i]) * 1099511628211ull;
    return h;
}
inline uint64_t hash_str(const std::string& s, uint64_t h = 1469598103934665603ull) {
    return hash_bytes(s.data(), s.size(), h);
}

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed) : s(mix(seed)) {}
    uint64_t next() {
        s += 0x9e3779b97f4a7c15ull;
        uint64_t z = s;
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
        return z ^ (z >> 31);
    }
    // [0, n)
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    // [a, b]
    int64_t range(int64_t a, int64_t b) { return a + (int64_t) below((uint64_t) (b - a) + 1); }
    bool chance(double p) { return (next() >> 11) * (1.0 / 9007199254740992.0) < p; }
    double unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
    template<class T>
    const T& pick(const std::vector<T>& v) {
        return v[below(v.size())];
    }
    template<class T>
    T pick(std::initializer_list<T> v) {
        return *(v.begin() + below(v.size()));
    }
    template<class T>
    void shuffle(std::vector<T>& v) {
        for (size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[below(i)]);
    }
    void bytes(void* p, size_t n) {
        auto* b = static_cast<unsigned char*>(p);
        for (size_t i = 0; i < n; ++i) b[i] = (unsigned char) next();
    }
};

struct Ctx {
    std::string prop;
    uint64_t seed = 1;
    uint64_t case_no = 0;
    std::string out; // output directory of this shard
    std::string scratch; // scratch directory of this shard, emptied by the driver
    bool replay = false;
    bool thorough = false;

    uint64_t evaluations = 0;
    std::map<std::string, uint64_t> events;
    std::unordered_set<uint64_t> distinct;
    std::vector<nlohmann::json> samples;
    uint64_t violations = 0;
    std::map<std::string, int> per_key;
    std::mutex mu;

    // The oracle refuted the property. `key` names what failed, stable across inputs.
    void violation(const std::string& key, const std::string& msg) {
        std::lock_guard<std::mutex> g(mu);
        ++violations;
        if (per_key[key]++ >= 3) return;
        nlohmann::json j;
        j["case"] = case_no;
        j["key"] = key;
        j["msg"] = msg.substr(0, 4000);
        std::ofstream o(out + "/violations.jsonl", std::ios::app);
        o << j.dump(-1, ' ', true, nlohmann::json::error_handler_t::replace) << "\n";
        o.flush();
        if (replay) fprintf(stderr, "VIOLATED %s: %s\n", key.c_str(), msg.c_str());
    }
    void event(const std::string& name, uint64_t n = 1) {
        std::lock_guard<std::mutex> g(mu);
        events[name] += n;
    }
    // This execution was non-trivial; h identifies what was observed.
    void nontrivial(uint64_t h) {
        std::lock_guard<std::mutex> g(mu);
        distinct.insert(h);
    }
    void sample(const nlohmann::json& j) {
        std::lock_guard<std::mutex> g(mu);
        if (samples.size() < 2) samples.push_back(j);
    }
};

using PropFn = void (*)(Ctx&, Rng&);
inline std::map<std::string, PropFn>& registry() {
    static std::map<std::string, PropFn> r;
    return r;
}
struct Reg {
    Reg(const char* id, PropFn f) { registry()[id] = f; }
};
#define VH_CAT2(a, b) a##b
#define VH_CAT(a, b) VH_CAT2(a, b)
#define VH_PROP(id) \
    static void VH_CAT(vh_prop_, id)(vh::Ctx & ctx, vh::Rng & rng); \
    static vh::Reg VH_CAT(vh_reg_, id)(#id, VH_CAT(vh_prop_, id)); \
    static void VH_CAT(vh_prop_, id)([[maybe_unused]] vh::Ctx & ctx, [[maybe_unused]] vh::Rng & rng)

inline std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));
inline std::string fmt(const char* f, ...) {
    char buf[4096];
    va_list ap;
    va_start(ap, f);
    vsnprintf(buf, sizeof buf, f, ap);
    va_end(ap);
    return buf;
}

inline uint64_t* status_map = nullptr;

inline int main_loop(int argc, char** argv) {
    Ctx ctx;
    uint64_t first = 0, last = 1, step = 1;
    for (int i = 1; i + 1 < argc; i += 2) {
        std::string a = argv[i], v = argv[i + 1];
        if (a == "--prop") ctx.prop = v;
        else if (a == "--seed") ctx.seed = strtoull(v.c_str(), nullptr, 10);
        else if (a == "--first") first = strtoull(v.c_str(), nullptr, 10);
        else if (a == "--last") last = strtoull(v.c_str(), nullptr, 10);
        else if (a == "--step") step = strtoull(v.c_str(), nullptr, 10);
        else if (a == "--out") ctx.out = v;
        else if (a == "--scratch") ctx.scratch = v;
        else if (a == "--replay") ctx.replay = v == "1";
        else if (a == "--thorough") ctx.thorough = v == "1";
        else {
            fprintf(stderr, "unknown argument %s\n", a.c_str());
            return 2;
        }
    }
    if (!registry().count(ctx.prop)) {
        fprintf(stderr, "unknown property %s\n", ctx.prop.c_str());
        return 2;
    }
    if (ctx.out.empty()) ctx.out = ".";
    if (ctx.scratch.empty()) ctx.scratch = ctx.out + "/scratch";
    std::filesystem::create_directories(ctx.scratch);
    int fd = open((ctx.out + "/status").c_str(), O_RDWR | O_CREAT | O_CLOEXEC, 0644);
    if (fd < 0 || ftruncate(fd, 4096) != 0) return 2;
    status_map = (uint64_t*) mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    if (status_map == MAP_FAILED) return 2;

    auto fn = registry()[ctx.prop];
    uint64_t pseed = mix(ctx.seed * 0x100000001b3ull ^ hash_str(ctx.prop));
    const char* until = getenv("VH_DEADLINE"); // stop here, in order, rather than being ended
    for (uint64_t c = first; c < last; c += step) {
        if (until && (double) time(nullptr) > atof(until)) break;
        ctx.case_no = c;
        status_map[0] = c;
        status_map[1] += 1;
        Rng rng(pseed ^ mix(c + 1));
        try {
            fn(ctx, rng);
        } catch (const std::exception& e) {
            // A harness is expected to handle the exceptions its property allows.
            ctx.violation("unexpected-exception", std::string("unexpected exception: ") + e.what());
        } catch (...) {
            ctx.violation("unexpected-exception", "unexpected exception of unknown type");
        }
        ++ctx.evaluations;
    }
    nlohmann::json j;
    j["evaluations"] = ctx.evaluations;
    j["events"] = ctx.events;
    j["samples"] = ctx.samples;
    j["violations"] = ctx.violations;
    {
        std::ofstream h(ctx.out + "/hashes.bin", std::ios::binary | std::ios::app);
        for (auto x : ctx.distinct) h.write((const char*) &x, 8);
    }
    std::ofstream o(ctx.out + "/summary.jsonl", std::ios::app);
    o << j.dump(-1, ' ', true, nlohmann::json::error_handler_t::replace) << "\n";
    o.flush();
    return o.good() ? 0 : 2;
}

} // namespace vh

#define VH_MAIN                                                          \
    int main(int argc, char** argv) {                                    \
        int rc = vh::main_loop(argc, argv);                              \
        fflush(nullptr);                                                 \
        _exit(rc);                                                       \
    }
