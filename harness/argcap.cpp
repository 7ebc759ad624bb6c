// Oracles for the argument-capture library (arg-capture-io) and the capture half of the runtime (rtl).
#include "common.hpp"

#include <algorithm>
#include <cerrno>
#include <dirent.h>
#include <dlfcn.h>
#include <numeric>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>

#include "daisy_rtl/arg_capture_io.h"
#include "daisy_rtl/base64.h"
#include "daisy_rtl/daisy_rtl.h"
#include "daisy_rtl/primitive_types.h"

using namespace vh;
namespace fs = std::filesystem;
using arg_capture::ArgCapture;
using arg_capture::ArgCaptureIO;
using Bytes = std::vector<uint8_t>;

// ---- injected faults ---------------------------------------------------------------------------------------------
// The file operations of libstdc++ and std::filesystem go through these symbols. Only files below `root` are touched.
namespace flt {
enum Kind { OPENW, OPENR, WRITE, CLOSE, MKDIR, READ, KINDS };
const char* names[KINDS] = {"open-for-writing", "open-for-reading", "write", "close", "mkdir", "read"};
std::string root; // empty: off
int fail_kind = -1; // which operation
long fail_at = -1; // which occurrence of it
int fail_errno = ENOSPC;
bool fail_forever = false; // and all later ones of this kind
long short_bytes = -1; // WRITE/READ: that many bytes are transferred first
long budget = -1; // disk capacity left, in bytes
long counts[KINDS];
long injected = 0;
std::map<int, std::string> fds;
std::map<FILE*, std::string> files;
bool mine(const char* p) { return !root.empty() && p && strncmp(p, root.c_str(), root.size()) == 0; }
bool hit(Kind k) {
    long c = counts[k]++;
    if (fail_kind == k && (c == fail_at || (fail_forever && c > fail_at))) {
        ++injected;
        return true;
    }
    return false;
}
void reset(const std::string& r) {
    root = r;
    fail_kind = -1;
    fail_at = -1;
    fail_forever = false;
    short_bytes = -1;
    budget = -1;
    injected = 0;
    memset(counts, 0, sizeof counts);
    fds.clear();
    files.clear();
}
} // namespace flt

extern "C" {
static FILE* real_fopen(const char* sym, const char* p, const char* m) {
    using F = FILE* (*) (const char*, const char*);
    static F f = (F) dlsym(RTLD_NEXT, "fopen64");
    return f(p, m);
}
static FILE* my_fopen(const char* p, const char* m) {
    if (!flt::mine(p)) return real_fopen("fopen64", p, m);
    bool w = strpbrk(m, "wa+") != nullptr;
    if (flt::hit(w ? flt::OPENW : flt::OPENR)) {
        errno = flt::fail_errno;
        return nullptr;
    }
    FILE* f = real_fopen("fopen64", p, m);
    if (f) {
        flt::fds[fileno(f)] = p;
        flt::files[f] = p;
    }
    return f;
}
FILE* fopen64(const char* p, const char* m) { return my_fopen(p, m); }
FILE* fopen(const char* p, const char* m) { return my_fopen(p, m); }

int fclose(FILE* f) {
    using F = int (*)(FILE*);
    static F real = (F) dlsym(RTLD_NEXT, "fclose");
    if (flt::root.empty() || !flt::files.count(f)) return real(f);
    std::string p = flt::files[f];
    flt::fds.erase(fileno(f));
    flt::files.erase(f);
    bool h = flt::hit(flt::CLOSE);
    int rc = real(f);
    if (h) { // what had been buffered is lost
        struct stat st;
        if (stat(p.c_str(), &st) == 0 && st.st_size > 0) (void) !truncate(p.c_str(), st.st_size / 2);
        errno = flt::fail_errno;
        return EOF;
    }
    return rc;
}
static ssize_t faulty_write(int fd, const struct iovec* iov, int n) {
    size_t total = 0;
    for (int i = 0; i < n; ++i) total += iov[i].iov_len;
    size_t allow = total;
    if (flt::hit(flt::WRITE)) {
        if (flt::short_bytes <= 0) {
            errno = flt::fail_errno;
            return -1;
        }
        allow = std::min(total, (size_t) flt::short_bytes); // a short count; the caller will come back for the rest
    }
    if (flt::budget >= 0) {
        if (flt::budget == 0 && total > 0) {
            ++flt::injected;
            errno = ENOSPC;
            return -1;
        }
        if ((long) allow > flt::budget) allow = flt::budget, ++flt::injected;
        flt::budget -= allow;
    }
    size_t done = 0;
    for (int i = 0; i < n && done < allow; ++i) {
        size_t k = std::min(iov[i].iov_len, allow - done);
        ssize_t r = syscall(SYS_write, fd, iov[i].iov_base, k);
        if (r < 0) return done ? (ssize_t) done : r;
        done += r;
        if ((size_t) r < k) break;
    }
    return done;
}
ssize_t write(int fd, const void* b, size_t n) {
    if (flt::root.empty() || !flt::fds.count(fd)) return syscall(SYS_write, fd, b, n);
    struct iovec v = {const_cast<void*>(b), n};
    return faulty_write(fd, &v, 1);
}
ssize_t writev(int fd, const struct iovec* iov, int n) {
    if (flt::root.empty() || !flt::fds.count(fd)) return syscall(SYS_writev, fd, iov, n);
    return faulty_write(fd, iov, n);
}
ssize_t read(int fd, void* b, size_t n) {
    if (!flt::root.empty() && flt::fds.count(fd) && flt::hit(flt::READ)) {
        if (flt::short_bytes > 0 && (size_t) flt::short_bytes < n) n = flt::short_bytes;
        else {
            errno = flt::fail_errno;
            return -1;
        }
    }
    return syscall(SYS_read, fd, b, n);
}
int mkdir(const char* p, mode_t m) {
    if (flt::mine(p) && flt::hit(flt::MKDIR)) {
        errno = flt::fail_errno;
        return -1;
    }
    return (int) syscall(SYS_mkdirat, AT_FDCWD, p, m);
}
}

namespace {

struct Tmp {
    fs::path p;
    explicit Tmp(Ctx& ctx) : p(fs::path(ctx.scratch) / ("c" + std::to_string(ctx.case_no))) {
        fs::remove_all(p);
        fs::create_directories(p);
    }
    ~Tmp() {
        flt::reset("");
        std::error_code ec;
        fs::remove_all(p, ec);
    }
};

Bytes slurp(const fs::path& p) {
    Bytes r;
    int fd = (int) syscall(SYS_openat, AT_FDCWD, p.c_str(), O_RDONLY);
    if (fd < 0) return r;
    char buf[65536];
    ssize_t k;
    while ((k = syscall(SYS_read, fd, buf, sizeof buf)) > 0) r.insert(r.end(), buf, buf + k);
    syscall(SYS_close, fd);
    return r;
}
void spit(const fs::path& p, const std::string& s) {
    int fd = (int) syscall(SYS_openat, AT_FDCWD, p.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
    size_t o = 0;
    while (o < s.size()) {
        ssize_t k = syscall(SYS_write, fd, s.data() + o, s.size() - o);
        if (k <= 0) break;
        o += k;
    }
    syscall(SYS_close, fd);
}

// Lengths around everything a buffer or a counter may be sized by.
size_t pick_size(Rng& rng, bool big = true) {
    switch (rng.below(big ? 12 : 10)) {
        case 0: return 0;
        case 1: return 1 + rng.below(8);
        case 2: return 28 + rng.below(9); // 32 is where the runtime goes from inline to files
        case 3: return rng.below(70);
        case 4: return 250 + rng.below(12);
        case 5: return 1018 + rng.below(12);
        case 6: return rng.below(3000);
        case 7: return 4090 + rng.below(12);
        case 8: return 8186 + rng.below(12);
        case 9: return 16380 + rng.below(10);
        case 10: return 65530 + rng.below(12);
        default: return rng.chance(0.1) ? 1048570 + rng.below(12) : 32760 + rng.below(16);
    }
}

std::vector<size_t> pick_dims(Rng& rng, bool big = true) {
    int k = 1 + (int) rng.below(4);
    if (rng.chance(0.05)) k = 5 + (int) rng.below(4);
    if (k == 1) return {pick_size(rng, big)};
    std::vector<size_t> d{rng.pick({(size_t) 1, (size_t) 2, (size_t) 4, (size_t) 8, (size_t) 16, (size_t) 3})};
    size_t prod = d[0], lim = big ? 200000 : 20000;
    for (int i = 1; i < k; ++i) {
        size_t x = rng.chance(0.06) ? 0 : 1 + rng.below(rng.chance(0.2) ? 300 : 9);
        if (prod * x > lim) x = 1;
        d.push_back(x);
        prod *= x;
    }
    return d;
}
size_t product(const std::vector<size_t>& d) {
    size_t p = 1;
    for (auto x : d) p *= x;
    return p;
}

std::string pick_name(Rng& rng, bool hostile = true) {
    static const std::vector<std::string> plain = {"test", "__daisy_gemm_0", "a", "kernel.name-1", "main", "x_inv0", "x_inv0_arg1_in_0", "r"};
    static const std::vector<std::string> odd = {"q\"uote", "back\\slash", "sp ace", "tab\there", "newline\nhere", "\xc3\xa4\xc3\xb6\xe2\x82\xac", "{}[],:", "%s%n%d", "\x01\x1f", "'", "..x", "-", "a.index.json"};
    if (hostile && rng.chance(0.3)) return rng.pick(odd);
    if (rng.chance(0.2)) return std::string(1 + rng.below(90), 'n');
    return rng.pick(plain);
}
std::string pick_eid(Rng& rng) {
    switch (rng.below(6)) {
        case 0: return std::to_string(rng.below(4));
        case 1: return std::to_string(rng.next());
        case 2: return "18446744073709551615";
        case 3: return pick_name(rng);
        case 4: return "0";
        default: return std::to_string(rng.below(100000));
    }
}
// a number that is easily taken for another one: truncated, cut, or mixed up digit by digit
uint64_t sibling(Rng& rng, uint64_t x) {
    switch (rng.below(8)) {
        case 0: return x + 1 + rng.below(9);
        case 1: return x ^ (1ull << rng.below(64));
        case 2: return x + (1ull << 32) * (1 + rng.below(5));
        case 3: return x * 10 + rng.below(10);
        case 4: return x / 10;
        case 5: return x + 10000000000ull * (1 + rng.below(99)); // the same last digits
        case 6: return x + (1ull << (8 * (1 + rng.below(7))));
        default: return ~x;
    }
}
int pick_arg(Rng& rng) {
    switch (rng.below(8)) {
        case 0: return -1;
        case 1: return 2147483647;
        case 2: return -2147483647 - 1;
        case 3: return 255 + (int) rng.below(3);
        case 4: return 65535 + (int) rng.below(3);
        default: return (int) rng.below(12);
    }
}

struct Want {
    int arg;
    bool after;
    int ptype;
    std::vector<size_t> dims;
    Bytes data;
    bool file;
};

std::string describe(const Want& w) {
    std::string s = fmt("arg %d %s type %d dims", w.arg, w.after ? "after" : "before", w.ptype);
    for (auto d : w.dims) s += fmt(" %zu", d);
    return s + (w.file ? " file" : " inline");
}

// The bytes a capture stands for, whatever way they are stored.
bool resolve(const ArgCapture& c, Bytes& out, std::string& err) {
    if (c.data) {
        out = *c.data;
        return true;
    }
    if (c.ext_file) {
        if (!fs::exists(*c.ext_file)) {
            err = "external file " + c.ext_file->string() + " does not exist";
            return false;
        }
        out = slurp(*c.ext_file);
        return true;
    }
    err = "neither inline data nor an external file";
    return false;
}

// what the capture set of one region must hold
template<class Map>
void compare_captures(Ctx& ctx, const Map& got, const std::map<std::pair<int, bool>, Want>& want, const std::string& where, bool must_file = true) {
    if (got.size() != want.size()) ctx.violation("capture-count", fmt("%zu captures, want %zu; ", got.size(), want.size()) + where);
    for (auto& [k, w] : want) {
        auto it = got.find(std::make_pair((int32_t) k.first, k.second));
        if (it == got.end()) {
            ctx.violation("capture-missing", describe(w) + " " + where);
            continue;
        }
        const ArgCapture& c = it->second;
        if (c.arg_idx != w.arg) ctx.violation("wrong-argument-index", fmt("%d; ", c.arg_idx) + describe(w) + " " + where);
        if (c.after != w.after) ctx.violation("wrong-direction", describe(w) + " " + where);
        if (c.primitive_type != w.ptype) ctx.violation("wrong-primitive-type", fmt("%d; ", c.primitive_type) + describe(w) + " " + where);
        if (c.dims != w.dims) {
            std::string d;
            for (auto x : c.dims) d += fmt("%zu ", x);
            ctx.violation("wrong-dims", "got " + d + describe(w) + " " + where);
        }
        Bytes b;
        std::string err;
        if (!resolve(c, b, err)) {
            ctx.violation("data-missing", err + " " + describe(w) + " " + where);
            continue;
        }
        if (b != w.data) {
            size_t i = 0;
            while (i < b.size() && i < w.data.size() && b[i] == w.data[i]) ++i;
            ctx.violation("wrong-data", fmt("%zu bytes, want %zu, first difference at %zu; ", b.size(), w.data.size(), i) + describe(w) + " " + where);
        }
        if (c.ext_file && !c.data) {
            // the library's own reader
            Bytes r(w.data.size() + 16, 0xEE);
            try {
                ArgCaptureIO::read_data_from_raw_file(*c.ext_file, r.data(), w.data.size());
                if (memcmp(r.data(), w.data.data(), w.data.size()) != 0) ctx.violation("wrong-data-read", describe(w) + " " + where);
                for (size_t i = w.data.size(); i < r.size(); ++i)
                    if (r[i] != 0xEE) {
                        ctx.violation("read-past-size", describe(w) + " " + where);
                        break;
                    }
            } catch (const std::exception& e) {
                ctx.violation("read-throws", std::string(e.what()) + " " + describe(w) + " " + where);
            }
        }
    }
}

std::vector<fs::path> index_files(const fs::path& d) {
    std::vector<fs::path> r;
    if (!fs::exists(d)) return r;
    for (auto& e : fs::recursive_directory_iterator(d))
        if (e.is_regular_file()) {
            std::string n = e.path().filename().string();
            if (n.size() > 11 && n.substr(n.size() - 11) == ".index.json") r.push_back(e.path());
        }
    std::sort(r.begin(), r.end());
    return r;
}

nlohmann::json jsample(const std::string& name, const std::vector<Want>& ws) {
    nlohmann::json a = nlohmann::json::array();
    for (auto& w : ws) a.push_back(describe(w));
    return {{"name", name}, {"captures", a}};
}

Want random_want(Rng& rng, bool big) {
    Want w;
    w.arg = pick_arg(rng);
    w.after = rng.chance(0.5);
    w.ptype = (int) rng.below(19);
    w.dims = pick_dims(rng, big);
    w.data.resize(product(w.dims));
    int fill = (int) rng.below(5);
    if (fill == 0) std::fill(w.data.begin(), w.data.end(), 0);
    else if (fill == 1) std::fill(w.data.begin(), w.data.end(), 0xff);
    else if (fill == 2)
        for (size_t i = 0; i < w.data.size(); ++i) w.data[i] = "\n\r\x1a\0\"\\"[i % 6];
    else rng.bytes(w.data.data(), w.data.size());
    w.file = rng.chance(0.5);
    return w;
}

} // namespace

// ---- A01: what was captured is what is loaded ---------------------------------------------------------------------

VH_PROP(A01) {
    if (ctx.case_no == 0) {
        // one inline capture beyond 2^31 bytes
        size_t n = ((size_t) 1 << 31) + 7;
        auto* src = (uint8_t*) mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (src == MAP_FAILED) return;
        src[0] = 1, src[n - 1] = 2, src[(size_t) 1 << 31] = 3;
        ArgCaptureIO io("large");
        io.invocation("0");
        try {
            io.create_and_capture_inline(0, false, 2, {1, n}, src, "0");
            auto& c = io.get_captures().at("0").at({0, false});
            if (!c.data || c.data->size() != n || c.data->at(n - 1) != 2 || c.data->at((size_t) 1 << 31) != 3)
                ctx.violation("large-inline-capture", fmt("%zu bytes captured of %zu", c.data ? c.data->size() : 0, n));
        } catch (const std::exception& e) {
            ctx.violation("large-inline-capture", std::string("capture of 2^31+7 bytes: ") + e.what());
        }
        munmap(src, n);
        ctx.event("beyond-2GiB");
        return;
    }
    Tmp tmp(ctx);
    bool runtime = rng.chance(0.5);
    fs::path dir = tmp.p / "cap";
    if (rng.chance(0.3)) dir /= "deep/er";
    std::string name = pick_name(rng);
    std::vector<Want> log;
    std::map<std::pair<int, bool>, Want> want;
    uint32_t inv = (uint32_t) rng.below(rng.chance(0.1) ? 300 : 3);
    std::string where;

    if (!runtime) {
        std::string eid = pick_eid(rng);
        ArgCaptureIO io(name.c_str());
        for (uint32_t i = 0; i <= inv; ++i) io.invocation(eid);
        int k = (int) rng.below(6) + (rng.chance(0.02) ? 40 : 0);
        for (int i = 0; i < k; ++i) {
            Want w = random_want(rng, i == 0);
            Bytes src = w.data;
            bool ok;
            if (w.file) {
                fs::path f = dir / fmt("d%d_%d.bin", i, (int) w.after);
                if (rng.chance(0.2)) f = dir / (fmt("%d", i) + pick_name(rng) + ".bin");
                ok = io.create_and_capture_to_file(w.arg, w.after, w.ptype, w.dims, f, src.data(), eid);
            } else {
                ok = io.create_and_capture_inline(w.arg, w.after, w.ptype, w.dims, src.data(), eid);
            }
            if (!ok && !(w.file && w.data.empty())) ctx.violation("capture-rejected", describe(w));
            // the program goes on and overwrites its buffer
            for (auto& b : src) b = (uint8_t) ~b;
            want[{w.arg, w.after}] = w;
            log.push_back(w);
        }
        if (k) compare_captures(ctx, io.get_captures().at(eid), want, "in memory, name " + name + " element " + eid);
        io.write_index(dir);
        auto idx = index_files(dir);
        if (idx.size() != (k ? 1u : 0u)) ctx.violation("index-count", fmt("%zu index files for %d captures, name %s", idx.size(), k, name.c_str()));
        for (auto& f : idx) {
            auto l = ArgCaptureIO::from_index(f);
            where = "reloaded, name " + name + " element " + eid;
            if (l->get_name() != name) ctx.violation("wrong-target-name", l->get_name() + " " + where);
            if (l->get_captures().size() != 1 || !l->get_captures().count(eid)) {
                ctx.violation("wrong-element", where);
                continue;
            }
            if (l->get_current_invocation(eid) != inv) ctx.violation("wrong-invocation", fmt("%u want %u; ", l->get_current_invocation(eid), inv) + where);
            compare_captures(ctx, l->get_captures().at(eid), want, where);
            // and once more through a second generation
            fs::path d2 = dir;
            bool all_inline = true;
            for (auto& [kk, w] : want) all_inline = all_inline && !w.file;
            if (all_inline) d2 = tmp.p / "second";
            l->write_index(d2);
            for (auto& g : index_files(d2)) {
                auto l2 = ArgCaptureIO::from_index(g);
                if (l2->get_captures().count(eid)) compare_captures(ctx, l2->get_captures().at(eid), want, "second generation, " + where);
                else ctx.violation("wrong-element", "second generation, " + where);
            }
        }
        ctx.event("library-captures", k);
    } else {
        setenv("__DAISY_CAPTURE_STRATEGY_DEFAULT", "all", 1);
        unsetenv("__DAISY_CAPTURE_BASE_DIR");
        size_t eid = rng.chance(0.3) ? rng.next() : rng.below(50);
        if (rng.chance(0.05)) eid = SIZE_MAX;
        auto* c = __daisy_capture_init(name.c_str(), dir.c_str());
        for (uint32_t i = 0; i < inv; ++i) {
            __daisy_capture_enter(c, eid);
            __daisy_capture_end(c);
        }
        if (!__daisy_capture_enter(c, eid)) ctx.violation("capture-rejected", "strategy all");
        int k = (int) rng.below(6) + (rng.chance(0.02) ? 40 : 0);
        for (int i = 0; i < k; ++i) {
            Want w = random_want(rng, i == 0);
            w.file = true;
            Bytes src = w.data;
            if (w.dims.size() > 4) w.dims = {w.data.size()};
            auto& d = w.dims;
            if (d.size() == 1) __daisy_capture_raw(c, w.arg, src.data(), d[0], w.ptype, w.after, eid);
            else if (d.size() == 2) __daisy_capture_1d(c, w.arg, src.data(), d[0], w.ptype, d[1], w.after, eid);
            else if (d.size() == 3) __daisy_capture_2d(c, w.arg, src.data(), d[0], w.ptype, d[1], d[2], w.after, eid);
            else __daisy_capture_3d(c, w.arg, src.data(), d[0], w.ptype, d[1], d[2], d[3], w.after, eid);
            for (auto& b : src) b = (uint8_t) ~b;
            want[{w.arg, w.after}] = w;
            log.push_back(w);
        }
        __daisy_capture_end(c);
        where = "runtime, name " + name + fmt(" element %zu invocation %u", eid, inv);
        auto idx = index_files(dir);
        if (idx.size() != (k ? 1u : 0u)) ctx.violation("index-count", fmt("%zu index files for %d captures; ", idx.size(), k) + where);
        for (auto& f : idx) {
            auto l = ArgCaptureIO::from_index(f);
            std::string e = std::to_string(eid);
            if (l->get_name() != name) ctx.violation("wrong-target-name", l->get_name() + " " + where);
            if (!l->get_captures().count(e)) {
                ctx.violation("wrong-element", where);
                continue;
            }
            if (l->get_current_invocation(e) != inv) ctx.violation("wrong-invocation", where);
            compare_captures(ctx, l->get_captures().at(e), want, where);
        }
        ctx.event("runtime-captures", k);
    }
    uint64_t h = hash_str(name);
    for (auto& w : log) {
        ctx.event("bytes", w.data.size());
        h = hash_bytes(w.data.data(), w.data.size(), h ^ mix((uint64_t) w.arg * 2 + w.after + w.ptype * 1000));
    }
    if (!log.empty()) ctx.nontrivial(h);
    if (ctx.case_no < 4 && !log.empty()) ctx.sample(jsample(name, log));
}

// ---- A02: an index stands for exactly one region and moves with its files -----------------------------------------

VH_PROP(A02) {
    Tmp tmp(ctx);
    fs::path dir = tmp.p / "cap";
    std::string name = pick_name(rng);
    ArgCaptureIO io(name.c_str());
    std::map<std::string, std::map<std::pair<int, bool>, Want>> want;
    std::map<std::string, uint32_t> inv;
    int regions = 1 + (int) rng.below(5);
    std::vector<std::string> ids;
    for (int i = 0; i < regions; ++i) {
        std::string e = pick_eid(rng);
        if (inv.count(e)) continue;
        // an id that ends in another's must not be mixed up with it
        if (i && rng.chance(0.2)) e = ids[0] + "_" + e;
        else if (i && rng.chance(0.3) && ids[0].find_first_not_of("0123456789") == std::string::npos) e = std::to_string(sibling(rng, std::stoull(ids[0])));
        if (inv.count(e)) continue;
        ids.push_back(e);
        uint32_t k = (uint32_t) rng.below(4);
        for (uint32_t j = 0; j <= k; ++j) io.invocation(e);
        inv[e] = k;
    }
    int k = (int) rng.below(10) + 1;
    uint64_t h = hash_str(name);
    std::vector<Want> log;
    for (int i = 0; i < k; ++i) {
        std::string e = rng.pick(ids);
        Want w = random_want(rng, false);
        if (w.data.size() > 3000) w.dims = {100}, w.data.resize(100);
        if (w.file) {
            fs::path f = dir / fmt("f%d.bin", i);
            io.create_and_capture_to_file(w.arg, w.after, w.ptype, w.dims, f, w.data.data(), e);
        } else io.create_and_capture_inline(w.arg, w.after, w.ptype, w.dims, w.data.data(), e);
        want[e][{w.arg, w.after}] = w;
        h = hash_bytes(w.data.data(), w.data.size(), hash_str(e, h));
        log.push_back(w);
    }
    // captures of one region leave the others alone
    for (auto& [e, ws] : want) {
        if (!io.get_captures().count(e)) ctx.violation("wrong-element", "in memory");
        else compare_captures(ctx, io.get_captures().at(e), ws, "in memory, element " + e);
        if (io.get_current_invocation(e) != inv[e]) ctx.violation("wrong-invocation", "in memory, element " + e);
    }
    io.write_index(dir);
    int gens = 1 + (int) rng.below(2);
    for (int g = 0; g < gens; ++g) {
        fs::path moved = tmp.p / fmt("moved%d%s", g, rng.chance(0.3) ? " to a place" : "");
        fs::rename(dir, moved);
        dir = moved;
        auto idx = index_files(dir);
        if (idx.size() != want.size()) ctx.violation("index-count", fmt("%zu index files for %zu regions", idx.size(), want.size()));
        std::set<std::string> seen;
        bool relative = rng.chance(0.3);
        fs::path old = fs::current_path();
        if (relative) fs::current_path(dir);
        for (auto& f : idx) {
            auto l = ArgCaptureIO::from_index(relative ? f.filename() : f);
            if (l->get_captures().size() != 1) {
                ctx.violation("index-of-several-regions", f.filename().string());
                continue;
            }
            std::string e = l->get_captures().begin()->first;
            if (!want.count(e) || !seen.insert(e).second) {
                ctx.violation("wrong-element", e);
                continue;
            }
            if (l->get_name() != name) ctx.violation("wrong-target-name", l->get_name());
            if (l->get_current_invocation(e) != inv[e]) ctx.violation("wrong-invocation", "element " + e);
            compare_captures(ctx, l->get_captures().at(e), want[e], "moved, element " + e);
            for (auto& [kk, c] : l->get_captures().at(e))
                if (c.ext_file && fs::absolute(*c.ext_file).lexically_normal().parent_path() != fs::absolute(dir).lexically_normal())
                    ctx.violation("file-reference-not-relocated", c.ext_file->string());
        }
        fs::current_path(old);
        ctx.event("indexes-loaded", idx.size());
    }
    if (want.size() > 1) ctx.event("several-regions");
    ctx.nontrivial(h);
    if (ctx.case_no < 2) ctx.sample(jsample(name, log));
}

// ---- A03 / A04: which invocations are captured, and that none is lost ----------------------------------------------

namespace {
void strategy_case(Ctx& ctx, Rng& rng, bool retention) {
    Tmp tmp(ctx);
    static const std::vector<std::string> strats = {"", "all", "once", "never", "ALL", "Once", "every", " all", "all ", "0", "2", "on", "onc", "oncee", "neve"};
    bool set_env = retention || rng.chance(0.8);
    std::string strat = retention ? "all" : rng.chance(0.75) ? strats[1 + rng.below(3)] : rng.pick(strats);
    if (set_env) setenv("__DAISY_CAPTURE_STRATEGY_DEFAULT", strat.c_str(), 1);
    else unsetenv("__DAISY_CAPTURE_STRATEGY_DEFAULT");
    enum { ALL, ONCE, NEVER } mode = !set_env ? ONCE : strat == "all" ? ALL : strat == "never" ? NEVER : ONCE;

    // where: the environment wins over the argument, and that over ./arg_captures
    bool env_dir = rng.chance(0.4), arg_dir = rng.chance(0.6);
    fs::path cwd = tmp.p / "cwd", d_env = tmp.p / "from_env", d_arg = tmp.p / "from_arg" / "x";
    fs::create_directories(cwd);
    if (env_dir) setenv("__DAISY_CAPTURE_BASE_DIR", d_env.c_str(), 1);
    else unsetenv("__DAISY_CAPTURE_BASE_DIR");
    fs::path dir = env_dir ? d_env : arg_dir ? d_arg : cwd / "arg_captures";
    fs::path old = fs::current_path();
    fs::current_path(cwd);

    int nctx = 1 + (int) rng.below(retention ? 3 : 2);
    std::vector<std::string> names;
    std::vector<__daisy_capture_t*> cs;
    for (int i = 0; i < nctx; ++i) {
        std::string n = pick_name(rng, false) + fmt("_%d", i);
        names.push_back(n);
        auto* c = __daisy_capture_init(n.c_str(), arg_dir ? d_arg.c_str() : nullptr);
        if (mode == NEVER && c) ctx.violation("strategy-never-gives-a-context", strat);
        if (mode != NEVER && !c) ctx.violation("no-context", strat);
        cs.push_back(c);
    }
    // names that could be taken for one another
    std::vector<size_t> eids;
    int ne = 1 + (int) rng.below(4);
    for (int i = 0; i < ne; ++i) {
        if (i && rng.chance(0.4)) eids.push_back(sibling(rng, eids[rng.below(eids.size())]));
        else eids.push_back(rng.chance(0.4) ? rng.next() >> rng.below(60) : rng.below(13));
    }
    if (rng.chance(0.1)) eids.push_back(SIZE_MAX);

    std::map<std::tuple<std::string, std::string, uint32_t>, std::map<std::pair<int, bool>, Want>> want;
    std::map<std::pair<int, size_t>, uint64_t> count;
    uint64_t serial = 0, enters = 0;
    long steps = retention ? 1 + (long) rng.below(24) : 1 + (long) rng.below(40);
    bool longrun = !retention && ctx.case_no % 200 == 7;
    if (longrun) steps = 66000 + (long) rng.below(500); // beyond 16-bit counters
    bool sparse = longrun || (mode == ALL && rng.chance(0.1));
    if (sparse && !longrun) steps = 260 + (long) rng.below(300); // beyond 8-bit counters
    for (long s = 0; s < steps; ++s) {
        int ci = (int) rng.below(nctx);
        size_t e = rng.pick(eids);
        if (sparse) ci = 0, e = eids[0];
        uint64_t n = count[{ci, e}]++;
        bool en = __daisy_capture_enter(cs[ci], e);
        ++enters;
        bool w_en = mode == ALL || (mode == ONCE && n == 0);
        if (en != w_en)
            ctx.violation("wrong-invocation-selected", fmt("strategy '%s'%s, invocation %" PRIu64 " of element %zu: %s", strat.c_str(), set_env ? "" : " (unset)", n, e, en ? "captured" : "not captured"));
        bool do_cap = en && (!sparse || n < 2 || rng.chance(20.0 / (double) steps) || (n >= 254 && n <= 258) || (n >= 65534 && n <= 65538));
        if (do_cap) {
            int k = 1 + (int) rng.below(3);
            for (int phase = 0; phase < 2; ++phase)
                for (int a = 0; a < k; ++a) {
                    if (rng.chance(0.15)) continue;
                    Want w;
                    w.arg = rng.chance(0.05) ? pick_arg(rng) : a + (rng.chance(0.1) ? 10 : 0);
                    w.after = phase == 1;
                    w.ptype = (int) rng.below(19);
                    size_t len = rng.pick({(size_t) 8, (size_t) 16, (size_t) 31, (size_t) 32, (size_t) 33, (size_t) 40, (size_t) 100});
                    w.data.resize(len);
                    rng.bytes(w.data.data(), len);
                    ++serial;
                    memcpy(w.data.data(), &serial, 8); // every payload is unique
                    w.file = true;
                    int form = (int) rng.below(4);
                    if (form == 0) w.dims = {len}, __daisy_capture_raw(cs[ci], w.arg, w.data.data(), len, w.ptype, w.after, e);
                    else if (form == 1) w.dims = {1, len}, __daisy_capture_1d(cs[ci], w.arg, w.data.data(), 1, w.ptype, len, w.after, e);
                    else if (form == 2) w.dims = {1, 1, len}, __daisy_capture_2d(cs[ci], w.arg, w.data.data(), 1, w.ptype, 1, len, w.after, e);
                    else w.dims = {1, len, 1, 1}, __daisy_capture_3d(cs[ci], w.arg, w.data.data(), 1, w.ptype, len, 1, 1, w.after, e);
                    want[{names[ci], std::to_string(e), (uint32_t) n}][{w.arg, w.after}] = w;
                }
        }
        __daisy_capture_end(cs[ci]);
    }
    fs::current_path(old);

    // what is on disk
    std::set<std::string> refs;
    std::map<std::tuple<std::string, std::string, uint32_t>, int> found;
    for (auto& f : index_files(tmp.p)) {
        if (f.parent_path() != dir) ctx.violation("wrong-directory", f.string() + ", want " + dir.string());
        auto l = ArgCaptureIO::from_index(f);
        for (auto& [e, caps] : l->get_captures()) {
            auto key = std::make_tuple(l->get_name(), e, l->get_current_invocation(e));
            found[key]++;
            auto it = want.find(key);
            std::string where = fmt("%s element %s invocation %u, strategy '%s'", l->get_name().c_str(), e.c_str(), l->get_current_invocation(e), strat.c_str());
            if (it == want.end()) {
                ctx.violation("capture-not-asked-for", where);
                continue;
            }
            compare_captures(ctx, caps, it->second, where);
            for (auto& [k, c] : caps)
                if (c.ext_file && !refs.insert(c.ext_file->string()).second) ctx.violation("file-of-two-captures", c.ext_file->string() + " " + where);
        }
    }
    for (auto& [key, w] : want)
        if (found[key] != 1)
            ctx.violation(found[key] ? "index-twice" : "capture-lost", fmt("%s element %s invocation %u, strategy '%s'", std::get<0>(key).c_str(), std::get<1>(key).c_str(), std::get<2>(key), strat.c_str()));
    if (mode == NEVER)
        for (auto& e : fs::recursive_directory_iterator(tmp.p))
            if (e.is_regular_file()) ctx.violation("strategy-never-writes", e.path().string());
    unsetenv("__DAISY_CAPTURE_BASE_DIR");
    ctx.event("invocations", enters);
    ctx.event(mode == ALL ? "strategy-all" : mode == ONCE ? "strategy-once" : "strategy-never");
    ctx.event("captures-retained", refs.size());
    if (longrun) ctx.event("runs-beyond-65536-invocations");
    if (enters > 1) ctx.nontrivial(mix(rng.next()) ^ hash_str(strat));
    if (ctx.case_no < 3) ctx.sample({{"strategy", set_env ? strat : "(unset)"}, {"contexts", names}, {"elements", eids}, {"invocations", enters}, {"captures", refs.size()}});
}
} // namespace
VH_PROP(A03) { strategy_case(ctx, rng, false); }
VH_PROP(A04) { strategy_case(ctx, rng, true); }

// ---- A05: a failing file operation is reported ---------------------------------------------------------------------

namespace {
struct Step {
    Want w;
    int form;
};
struct Scenario {
    bool runtime;
    std::string name;
    std::vector<Step> steps;
    std::string eid;
    fs::path sub;
};
// Runs the scenario below root; returns whether any call reported a failure.
bool run_scenario(const Scenario& sc, const fs::path& root, std::string& what) {
    fs::path dir = root / sc.sub;
    bool reported = false;
    try {
        if (!sc.runtime) {
            ArgCaptureIO io(sc.name.c_str());
            io.invocation(sc.eid);
            int i = 0;
            for (auto& s : sc.steps) {
                bool ok;
                fs::path f = dir / fmt("f%d.bin", i++);
                if (s.w.file) ok = io.create_and_capture_to_file(s.w.arg, s.w.after, s.w.ptype, s.w.dims, f, s.w.data.data(), sc.eid);
                else ok = io.create_and_capture_inline(s.w.arg, s.w.after, s.w.ptype, s.w.dims, s.w.data.data(), sc.eid);
                if (!ok) reported = true, what = "returned false";
            }
            io.write_index(dir);
        } else {
            setenv("__DAISY_CAPTURE_STRATEGY_DEFAULT", "all", 1);
            unsetenv("__DAISY_CAPTURE_BASE_DIR");
            size_t e = strtoull(sc.eid.c_str(), nullptr, 10);
            auto* c = __daisy_capture_init(sc.name.c_str(), dir.c_str());
            __daisy_capture_enter(c, e);
            for (auto& s : sc.steps) {
                auto& d = s.w.dims;
                auto* p = s.w.data.data();
                if (d.size() == 1) __daisy_capture_raw(c, s.w.arg, p, d[0], s.w.ptype, s.w.after, e);
                else if (d.size() == 2) __daisy_capture_1d(c, s.w.arg, p, d[0], s.w.ptype, d[1], s.w.after, e);
                else if (d.size() == 3) __daisy_capture_2d(c, s.w.arg, p, d[0], s.w.ptype, d[1], d[2], s.w.after, e);
                else __daisy_capture_3d(c, s.w.arg, p, d[0], s.w.ptype, d[1], d[2], d[3], s.w.after, e);
            }
            __daisy_capture_end(c);
        }
    } catch (const std::exception& e) {
        reported = true;
        what = e.what();
    }
    return reported;
}
// Whether everything the scenario captured is on disk, complete.
std::string complete(const Scenario& sc, const fs::path& root) {
    std::map<std::pair<int, bool>, Want> want;
    for (auto& s : sc.steps) want[{s.w.arg, s.w.after}] = s.w;
    auto idx = index_files(root);
    if (idx.size() != 1) return fmt("%zu index files", idx.size());
    try {
        auto l = ArgCaptureIO::from_index(idx[0]);
        if (!l->get_captures().count(sc.eid)) return "index of another element";
        auto& caps = l->get_captures().at(sc.eid);
        if (caps.size() != want.size()) return fmt("%zu captures of %zu", caps.size(), want.size());
        for (auto& [k, w] : want) {
            auto it = caps.find({k.first, k.second});
            if (it == caps.end()) return "capture missing: " + describe(w);
            Bytes b;
            std::string err;
            if (!resolve(it->second, b, err)) return err;
            if (b != w.data) return fmt("%zu bytes of %zu: ", b.size(), w.data.size()) + describe(w);
        }
    } catch (const std::exception& e) {
        return std::string("index unreadable: ") + e.what();
    }
    return "";
}
} // namespace

VH_PROP(A05) {
    Tmp tmp(ctx);
    Scenario sc;
    sc.runtime = rng.chance(0.5);
    sc.name = pick_name(rng, false);
    sc.eid = std::to_string(rng.below(100));
    sc.sub = rng.chance(0.5) ? "cap" : "a/b/c";
    int k = 1 + (int) rng.below(3);
    std::set<std::pair<int, bool>> used;
    for (int i = 0; i < k; ++i) {
        Step s;
        s.w = random_want(rng, rng.chance(0.3));
        if (s.w.dims.size() > 4) s.w.dims = {s.w.data.size()};
        if (s.w.data.empty()) s.w.dims = {40}, s.w.data.assign(40, 7);
        if (sc.runtime) s.w.file = true;
        if (!used.insert({s.w.arg, s.w.after}).second) continue;
        sc.steps.push_back(s);
    }
    // without faults: counts the operations, and must succeed
    std::string what;
    fs::path root = tmp.p / "plain";
    fs::create_directories(root);
    flt::reset(root.string());
    bool rep = run_scenario(sc, root, what);
    long n[flt::KINDS];
    memcpy(n, flt::counts, sizeof n);
    flt::reset("");
    if (rep) {
        ctx.violation("failure-without-fault", what);
        return;
    }
    std::string c = complete(sc, root);
    if (!c.empty()) ctx.violation("incomplete-without-fault", c);
    long total = 0;
    for (auto& e : fs::recursive_directory_iterator(root))
        if (e.is_regular_file()) total += (long) e.file_size();
    if (n[flt::OPENW] < 1 || n[flt::WRITE] < 1) {
        ctx.violation("no-operation-seen", "the fault monitor saw no file operation");
        return;
    }

    struct Plan {
        int kind;
        long at;
        int err;
        bool forever;
        long shortb;
        long budget;
    };
    std::vector<Plan> plans;
    for (int kd : {(int) flt::OPENW, (int) flt::WRITE, (int) flt::CLOSE, (int) flt::MKDIR})
        for (long i = 0; i < n[kd]; ++i) {
            static const std::vector<int> errs[] = {{EACCES, ENOSPC, EMFILE, EROFS, EIO}, {}, {ENOSPC, EIO, EDQUOT, EFBIG}, {EIO, ENOSPC, EDQUOT}, {EACCES, ENOSPC, EROFS}};
            plans.push_back({kd, i, rng.pick(errs[kd]), rng.chance(0.4), -1, -1});
            if (kd == flt::WRITE) {
                plans.push_back({kd, i, ENOSPC, true, -1, -1});
                plans.push_back({kd, i, 0, false, 1 + (long) rng.below(20), -1}); // short write, must be continued
            }
        }
    for (int i = 0; i < 6; ++i) plans.push_back({-1, -1, 0, false, -1, (long) rng.below(total + 1)}); // the disk fills up
    plans.push_back({-1, -1, 0, false, -1, total > 0 ? total - 1 : 0});
    plans.push_back({-1, -1, 0, false, -1, 0});
    if (plans.size() > 60) {
        rng.shuffle(plans);
        plans.resize(60);
    }

    for (auto& p : plans) {
        fs::path r = tmp.p / "faulty";
        fs::remove_all(r);
        fs::create_directories(r);
        flt::reset(r.string());
        flt::fail_kind = p.kind;
        flt::fail_at = p.at;
        flt::fail_errno = p.err;
        flt::fail_forever = p.forever;
        flt::short_bytes = p.shortb;
        flt::budget = p.budget;
        std::string what;
        bool reported = run_scenario(sc, r, what);
        long inj = flt::injected;
        flt::reset("");
        if (!inj) {
            ctx.event("fault-not-reached");
            continue;
        }
        std::string kind = p.kind >= 0 ? (p.shortb > 0 ? "short-write" : flt::names[p.kind]) : "disk-full";
        ctx.event("fault:" + kind);
        std::string miss = complete(sc, r);
        std::string d = fmt("%s, occurrence %ld, %s%s, budget %ld: ", kind.c_str(), p.at, strerror(p.err), p.forever ? " from then on" : "", p.budget) + (sc.runtime ? "runtime: " : "library: ");
        if (!reported && !miss.empty()) ctx.violation("silent-loss:" + kind, d + miss);
        if (reported) ctx.event("reported");
        else ctx.event("tolerated");
        if (reported && p.shortb > 0) ctx.violation("short-write-not-continued", d + what);
        ctx.nontrivial(hash_str(kind) ^ mix(p.at * 7 + p.err * 1000 + p.forever) ^ mix(p.budget) ^ hash_str(sc.name) ^ mix(ctx.case_no));
    }

    // reading back: a file that cannot be read in full is not passed off as read
    if (true) {
        fs::path f = tmp.p / "r.bin";
        size_t len = 1 + pick_size(rng, false);
        std::string data(len, 'x');
        rng.bytes(data.data(), len);
        spit(f, data);
        size_t ask = len;
        int mode = (int) rng.below(4);
        flt::reset(tmp.p.string());
        if (mode == 0) ask = len + 1 + rng.below(100); // the file is too short
        if (mode == 1) flt::fail_kind = flt::READ, flt::fail_at = (long) rng.below(2), flt::fail_errno = EIO, flt::fail_forever = true;
        if (mode == 2) flt::fail_kind = flt::OPENR, flt::fail_at = 0, flt::fail_errno = EACCES;
        if (mode == 3) fs::remove(f);
        Bytes out(ask + 8, 0xEE);
        bool threw = false;
        try {
            ArgCaptureIO::read_data_from_raw_file(f, out.data(), ask);
        } catch (const std::exception&) {
            threw = true;
        }
        long inj = flt::injected;
        flt::reset("");
        bool same = ask == len && memcmp(out.data(), data.data(), len) == 0;
        static const char* mn[] = {"short-file", "read-error", "open-error", "missing-file"};
        if (!threw && !same) ctx.violation(std::string("silent-read-loss:") + mn[mode], fmt("%zu bytes asked, %zu there", ask, len));
        if (mode == 0 || mode == 3 || inj) ctx.event(std::string("read-fault:") + mn[mode]);
    }
    if (ctx.case_no < 3) ctx.sample({{"runtime", sc.runtime}, {"operations", {{"open", n[flt::OPENW]}, {"write", n[flt::WRITE]}, {"close", n[flt::CLOSE]}, {"mkdir", n[flt::MKDIR]}}}, {"faults", plans.size()}});
}

// ---- A06: base64 ---------------------------------------------------------------------------------------------------

namespace {
std::string ref_b64(const Bytes& b) {
    static const char* T = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    std::string r;
    uint32_t acc = 0;
    int bits = 0;
    for (uint8_t x : b) {
        acc = (acc << 8) | x;
        bits += 8;
        while (bits >= 6) {
            bits -= 6;
            r += T[(acc >> bits) & 63];
        }
        acc &= (1u << bits) - 1;
    }
    if (bits) r += T[(acc << (6 - bits)) & 63];
    while (r.size() % 4) r += '=';
    return r;
}
} // namespace

VH_PROP(A06) {
    Bytes b;
    uint64_t c = ctx.case_no;
    bool hostile = false;
    if (c < 257) { // every byte, alone and doubled, and the empty string
        if (c) b = {(uint8_t) (c - 1)};
        if (c && rng.chance(0.5)) b.push_back((uint8_t) rng.next());
    } else if (c < 600) b.resize(c - 257), rng.bytes(b.data(), b.size()); // every length to 342
    else if (c % 50 == 0) b.resize(pick_size(rng)), rng.bytes(b.data(), b.size());
    else if (c % 50 == 1) b.resize(65530 + rng.below(16)), rng.bytes(b.data(), b.size());
    else if (c % 997 == 0) b.resize((ctx.thorough ? 20000000 : 3000000) + rng.below(7)), rng.bytes(b.data(), b.size());
    else if (c % 3 == 0) hostile = true;
    else {
        b.resize(rng.below(40));
        rng.bytes(b.data(), b.size());
        if (rng.chance(0.3)) std::fill(b.begin(), b.end(), rng.pick({(uint8_t) 0, (uint8_t) 0xff, (uint8_t) 0x3f, (uint8_t) 0xfb, (uint8_t) 0xfe}));
    }
    if (!hostile) {
        auto heap = std::make_unique<uint8_t[]>(b.size()); // exactly sized, so that a read past the end is seen
        memcpy(heap.get(), b.data(), b.size());
        std::string e = base64_encode(heap.get(), (unsigned) b.size());
        std::string w = ref_b64(b);
        if (e != w) ctx.violation("wrong-encoding", fmt("%zu bytes, first %02x: %.60s, want %.60s", b.size(), b.empty() ? 0 : b[0], e.c_str(), w.c_str()));
        Bytes d = base64_decode(w);
        if (d != b) ctx.violation("wrong-decoding", fmt("%zu bytes decoded to %zu: %.60s", b.size(), d.size(), w.c_str()));
        Bytes d2 = base64_decode(e);
        if (d2 != b) ctx.violation("decode-of-encode", fmt("%zu bytes: %.60s", b.size(), e.c_str()));
        ctx.event("round-trips");
        ctx.event("bytes", b.size());
        if (!b.empty()) ctx.nontrivial(hash_bytes(b.data(), b.size()));
    } else {
        std::string s(rng.below(60), 0);
        int style = (int) rng.below(4);
        for (auto& ch : s) ch = style == 0 ? (char) rng.next() : style == 1 ? "AZaz09+/=\n -_"[rng.below(13)] : (char) (32 + rng.below(95));
        if (style == 3) {
            Bytes x(rng.below(40));
            rng.bytes(x.data(), x.size());
            s = ref_b64(x);
            if (!s.empty()) s[rng.below(s.size())] = (char) rng.next();
            if (rng.chance(0.5)) s.resize(rng.below(s.size() + 1));
        }
        Bytes d = base64_decode(s); // memory safe, and no longer than its input allows
        if (d.size() > s.size() / 4 * 3 + 3) ctx.violation("decode-too-long", fmt("%zu characters to %zu bytes", s.size(), d.size()));
        // up to the first foreign character the text is decoded as usual
        size_t good = 0;
        while (good < s.size() && (isalnum((unsigned char) s[good]) || s[good] == '+' || s[good] == '/') && (unsigned char) s[good] < 128) ++good;
        std::string g = s.substr(0, good / 4 * 4);
        Bytes dg = base64_decode(g);
        if (dg.size() != g.size() / 4 * 3 || ref_b64(dg) != g) ctx.violation("wrong-decoding", "prefix " + g);
        if (d.size() < dg.size() || !std::equal(dg.begin(), dg.end(), d.begin())) ctx.violation("hostile-decode-prefix", s);
        ctx.event("hostile-decodes");
        if (!s.empty()) ctx.nontrivial(hash_str(s));
    }
    if (c > 600 && c < 620) ctx.sample({{"bytes", b.size()}, {"hostile", hostile}});
}

// ---- A07: the capture state is a map with counters -----------------------------------------------------------------

VH_PROP(A07) {
    Tmp tmp(ctx);
    fs::path dir = tmp.p / "cap";
    std::string name = pick_name(rng);
    ArgCaptureIO io(name.c_str());
    std::map<std::string, uint32_t> inv;
    std::map<std::string, std::map<std::pair<int, bool>, Want>> model;
    std::vector<std::string> ids;
    for (int i = 0; i < 3; ++i) ids.push_back(pick_eid(rng));
    int steps = 3 + (int) rng.below(30);
    std::string trace;
    uint64_t h = 0;
    int fileno_ = 0;
    // as the runtime names them: a file of its own per capture key, written again by a recapture; or a new one each time
    auto file_for = [&](const std::string& e, const Want& w) {
        size_t ei = 0;
        while (ids[ei] != e) ++ei;
        return rng.chance(0.6) ? dir / fmt("k%zu_%d_%d", ei, w.arg, (int) w.after) : dir / fmt("g%d", fileno_++);
    };
    auto check = [&](const std::string& at) {
        if (io.get_name() != name) ctx.violation("name-changed", at);
        size_t nonempty = 0;
        for (auto& [e, caps] : io.get_captures()) {
            if (caps.empty()) continue;
            ++nonempty;
            if (!model.count(e)) ctx.violation("stale-captures", "element " + e + " after " + at);
            else compare_captures(ctx, caps, model[e], "after " + at);
        }
        if (nonempty != model.size()) ctx.violation("captures-lost", fmt("%zu regions, want %zu; after ", nonempty, model.size()) + at);
        for (auto& e : ids) {
            bool threw = false;
            uint32_t v = 0;
            try {
                v = io.get_current_invocation(e);
            } catch (const std::out_of_range&) {
                threw = true;
            }
            if (threw != !inv.count(e)) ctx.violation("unknown-region", "element " + e + " after " + at);
            else if (!threw && v != inv[e]) ctx.violation("wrong-invocation", fmt("%u want %u, after ", v, inv[e]) + at);
        }
    };
    check("construction");
    for (int s = 0; s < steps; ++s) {
        std::string e = rng.pick(ids);
        int op = (int) rng.below(12);
        if (!inv.count(e)) op = 0;
        if (op <= 2) {
            int k = rng.chance(0.05) ? 260 : 1;
            for (int i = 0; i < k; ++i) {
                io.invocation(e);
                inv[e] = inv.count(e) ? inv[e] + 1 : 0;
            }
            trace += "I";
        } else if (op == 3) {
            io.clear();
            model.clear();
            trace += "C";
        } else if (op == 11) {
            // recapture of a key that is there, with other dims and in another form
            if (!model.count(e)) continue;
            auto it = model[e].begin();
            std::advance(it, rng.below(model[e].size()));
            Want w = random_want(rng, false);
            w.arg = it->first.first, w.after = it->first.second;
            if (w.file) {
                fs::path f = file_for(e, w);
                io.create_and_capture_to_file(w.arg, w.after, w.ptype, w.dims, f, w.data.data(), e);
            } else io.create_and_capture_inline(w.arg, w.after, w.ptype, w.dims, w.data.data(), e);
            model[e][{w.arg, w.after}] = w;
            trace += "R";
        } else if (op == 10) {
            fs::path d2 = dir / fmt("ix%d", s);
            if (!model.empty()) {
                io.write_index(d2); // reading the state does not change it
                size_t n = 0;
                for (auto& f : index_files(d2)) {
                    auto l = ArgCaptureIO::from_index(f);
                    for (auto& [el, caps] : l->get_captures()) {
                        if (!model.count(el)) ctx.violation("stale-index", el);
                        else if (caps.size() != model[el].size()) ctx.violation("stale-index", fmt("%zu captures, want %zu", caps.size(), model[el].size()));
                        ++n;
                    }
                }
                if (n < model.size()) ctx.violation("index-count", fmt("%zu of %zu", n, model.size()));
            }
            trace += "W";
        } else {
            Want w = random_want(rng, false);
            if (rng.chance(0.6)) w.arg = (int) rng.below(3);
            if (w.file) {
                fs::path f = file_for(e, w);
                io.create_and_capture_to_file(w.arg, w.after, w.ptype, w.dims, f, w.data.data(), e);
            } else io.create_and_capture_inline(w.arg, w.after, w.ptype, w.dims, w.data.data(), e);
            model[e][{w.arg, w.after}] = w;
            trace += w.file ? "F" : "D";
            h = mix(h ^ w.data.size() ^ ((uint64_t) w.arg * 8));
        }
        check(trace);
    }
    ctx.event("operations", steps);
    ctx.event("state-checks", steps);
    ctx.nontrivial(hash_str(trace) ^ h);
    if (ctx.case_no < 2) ctx.sample({{"operations", trace}, {"elements", ids}});
}

// ---- A08: a damaged index is refused, not obeyed -------------------------------------------------------------------

namespace {
void mutate(nlohmann::json& j, Rng& rng, int depth = 0) {
    auto junk = [&]() -> nlohmann::json {
        switch (rng.below(11)) {
            case 0: return nullptr;
            case 1: return true;
            case 2: return -1;
            case 3: return 2.5;
            case 4: return "text";
            case 5: return nlohmann::json::array();
            case 6: return nlohmann::json::object();
            case 7: return 18446744073709551615ull;
            case 8: return nlohmann::json::array({1, "x", nullptr});
            case 9: return "";
            default: return (int64_t) rng.next();
        }
    };
    if (j.is_object() && !j.empty()) {
        auto it = j.begin();
        std::advance(it, rng.below(j.size()));
        std::string k = it.key();
        switch (rng.below(4)) {
            case 0: j.erase(k); return;
            case 1: j[k] = junk(); return;
            case 2:
                if (depth < 4) mutate(j[k], rng, depth + 1);
                else j.erase(k);
                return;
            default:
                if (j[k].is_structured() && depth < 4) mutate(j[k], rng, depth + 1);
                else j[k] = junk();
        }
    } else if (j.is_array() && !j.empty()) {
        size_t i = rng.below(j.size());
        switch (rng.below(4)) {
            case 0: j.erase(i); return;
            case 1: j[i] = junk(); return;
            case 2: j.push_back(junk()); return;
            default: mutate(j[i], rng, depth + 1);
        }
    } else j = junk();
}
} // namespace

VH_PROP(A08) {
    Tmp tmp(ctx);
    nlohmann::json j;
    j["format"] = 1;
    j["target"] = pick_name(rng);
    j["invocation"] = rng.below(5);
    j["element_id"] = "3";
    auto arr = nlohmann::json::array();
    int k = 1 + (int) rng.below(3);
    for (int i = 0; i < k; ++i) {
        nlohmann::json e;
        e["arg_idx"] = i;
        e["after"] = rng.chance(0.5);
        e["primitive_type"] = 14;
        e["dims"] = {4, 2};
        if (rng.chance(0.5)) e["data"] = "AAECAwQFBgc=";
        else e["ext_file"] = "f.bin";
        arr.push_back(e);
    }
    j["captures"] = arr;
    int mode = (int) rng.below(10);
    bool must_throw = false;
    std::string text, kind;
    if (mode < 5) {
        int m = 1 + (int) rng.below(3);
        for (int i = 0; i < m; ++i) mutate(j, rng);
        text = j.dump();
        kind = "mutated";
    } else if (mode == 5) {
        text = j.dump();
        text.resize(rng.below(text.size()));
        must_throw = true;
        kind = "truncated";
    } else if (mode == 6) {
        text = j.dump();
        int m = 1 + (int) rng.below(4);
        for (int i = 0; i < m; ++i) text[rng.below(text.size())] = (char) rng.next();
        kind = "corrupted";
    } else if (mode == 7) {
        j["format"] = rng.pick({0, 2, 3, 255, 256, 257, 65537, 2147483647});
        text = j.dump();
        must_throw = true;
        kind = "other-version";
    } else if (mode == 8) {
        // a missing member
        static const std::vector<std::string> top = {"format", "target", "invocation", "element_id"};
        static const std::vector<std::string> sub = {"arg_idx", "after", "primitive_type", "dims"};
        if (rng.chance(0.5)) j.erase(rng.pick(top));
        else j["captures"][rng.below(j["captures"].size())].erase(rng.pick(sub));
        text = j.dump();
        must_throw = true;
        kind = "member-missing";
    } else {
        kind = "not-there";
        must_throw = true;
    }
    fs::path f = tmp.p / "x.index.json";
    if (mode != 9) spit(f, text);
    bool threw = false;
    std::shared_ptr<ArgCaptureIO> l;
    try {
        l = ArgCaptureIO::from_index(f);
        // what was accepted can be used
        for (auto& [e, caps] : l->get_captures()) {
            (void) l->get_current_invocation(e);
            for (auto& [key, c] : caps) {
                nlohmann::json o = nlohmann::json::array();
                c.serialize_into(o);
            }
        }
    } catch (const std::exception&) {
        threw = true;
    }
    if (must_throw && !threw) ctx.violation("accepts-damaged-index:" + kind, text);
    ctx.event(kind);
    ctx.event(threw ? "refused" : "accepted");
    ctx.nontrivial(hash_str(text) ^ mode);
    if (ctx.case_no < 3) ctx.sample({{"kind", kind}, {"text", text.substr(0, 200)}, {"refused", threw}});
}

VH_MAIN
