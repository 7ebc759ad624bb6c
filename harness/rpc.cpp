// Monitors for the part of rpc/ that builds without symengine: configuration, credentials, the HTTP exchange.
#include "common.hpp"
#include "sdfg/passes/rpc/daisytuner_rpc_context.h"
#include "sdfg/passes/rpc/rpc_context.h"
#include "sdfg/util/utils_curl.h"
#include <arpa/inet.h>
#include <atomic>
#include <cmath>
#include <dlfcn.h>
#include <iostream>
#include <netinet/in.h>
#include <poll.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <thread>

using json = nlohmann::json;
using vh::fmt;
using namespace sdfg::passes::rpc;

// The session file lives under /var/lib: redirected into the scratch directory, the real one is never touched.
static std::string g_session; // empty: no such file
static std::atomic<int> g_session_opens{0};
static const char* redirect(const char* p) {
    if (p && strcmp(p, "/var/lib/daisytuner/session") == 0) {
        ++g_session_opens;
        return g_session.empty() ? "/nonexistent-by-harness/session" : g_session.c_str();
    }
    return p;
}
extern "C" FILE* fopen(const char* p, const char* m) {
    static auto real = (FILE * (*) (const char*, const char*) ) dlsym(RTLD_NEXT, "fopen");
    return real(redirect(p), m);
}
extern "C" FILE* fopen64(const char* p, const char* m) {
    static auto real = (FILE * (*) (const char*, const char*) ) dlsym(RTLD_NEXT, "fopen64");
    return real(redirect(p), m);
}

namespace {

void put_env(const char* k, const std::optional<std::string>& v) {
    if (v) setenv(k, v->c_str(), 1);
    else unsetenv(k);
}
void write_file(const std::string& p, const std::string& s) {
    std::filesystem::create_directories(std::filesystem::path(p).parent_path());
    std::ofstream o(p, std::ios::binary);
    o << s;
}

struct Creds {
    std::optional<std::string> job, access, home_token, session, rpc_server;
    bool has_home = true;
};

std::string word(vh::Rng& r, int max = 40) {
    static const char cs[] = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_.=+/";
    std::string s;
    size_t n = r.range(1, max);
    for (size_t i = 0; i < n; ++i) s += cs[r.below(sizeof cs - 1)];
    return s;
}

Creds gen_creds(vh::Ctx& ctx, vh::Rng& r) {
    Creds c;
    auto opt = [&](double p) -> std::optional<std::string> {
        if (!r.chance(p)) return {};
        return r.chance(0.2) ? std::string() : word(r);
    };
    c.job = opt(0.35);
    c.access = opt(0.35);
    auto file = [&](double p) -> std::optional<std::string> {
        if (!r.chance(p)) return {};
        std::string s = word(r, r.chance(0.05) ? 9000 : 60);
        if (r.chance(0.2)) s += " " + word(r); // inner blanks stay
        if (r.chance(0.2)) s += "\n" + word(r);
        return s + r.pick({"", "\n", "\r\n", "  \n", "\t", "\n\n\n", " \t\r\n"});
    };
    c.home_token = file(0.5);
    c.session = file(0.5);
    c.rpc_server = opt(0.4);
    if (c.rpc_server && !c.rpc_server->empty()) *c.rpc_server = "http://" + *c.rpc_server;
    c.has_home = r.chance(0.85);
    std::string home = ctx.scratch + "/home";
    std::error_code ec;
    std::filesystem::remove_all(home, ec);
    std::filesystem::create_directories(home);
    put_env("DOCC_JOB_TOKEN", c.job);
    put_env("DOCC_ACCESS_TOKEN", c.access);
    put_env("RPC_SERVER", c.rpc_server);
    if (c.has_home) setenv("HOME", home.c_str(), 1);
    else if (r.chance(0.5)) unsetenv("HOME");
    else setenv("HOME", "", 1);
    if (c.home_token) write_file(home + "/.config/docc/token", *c.home_token);
    if (c.session) {
        g_session = ctx.scratch + "/session";
        write_file(g_session, *c.session);
    } else
        g_session.clear();
    return c;
}

std::string rtrim(std::string s) {
    while (!s.empty() && strchr(" \n\r\t", s.back())) s.pop_back();
    return s;
}
std::optional<std::string> expected_header(const Creds& c) {
    if (c.job && !c.job->empty()) return "Job " + *c.job;
    if (c.access && !c.access->empty()) return "Token " + *c.access;
    if (c.has_home && c.home_token) return "Token " + rtrim(*c.home_token);
    if (c.session) return "Token " + rtrim(*c.session);
    return {};
}

struct Capture { // stdout and stderr of this process into a file
    int o, e, fd;
    std::string file;
    explicit Capture(const std::string& f) : file(f) {
        fflush(nullptr);
        std::cout.flush();
        std::cerr.flush();
        o = dup(1), e = dup(2);
        fd = open(f.c_str(), O_CREAT | O_TRUNC | O_RDWR, 0600);
        dup2(fd, 1);
        dup2(fd, 2);
    }
    std::string end() {
        std::cout.flush();
        std::cerr.flush();
        fflush(nullptr);
        dup2(o, 1);
        dup2(e, 2);
        ::close(o);
        ::close(e);
        ::close(fd);
        std::ifstream i(file, std::ios::binary);
        return std::string(std::istreambuf_iterator<char>(i), {});
    }
};

} // namespace

// ---------------------------------------------------------------- R01: configuration sources and their precedence
VH_PROP(R01) {
    Creds c = gen_creds(ctx, rng);
    std::string server, endpoint;
    std::map<std::string, std::string> headers;
    SimpleRpcContextBuilder b;
    std::string trail;
    int n = rng.range(1, 6), applied = 0;
    auto mkconfig = [&](json& j) {
        j = json::object();
        auto val = [&]() -> json {
            switch (rng.below(8)) {
                case 0: return nullptr;
                case 1: return 42;
                case 2: return json::array({"x"});
                default: return word(rng);
            }
        };
        if (rng.chance(0.6)) j["SERVER"] = val();
        if (rng.chance(0.6)) j["ENDPOINT"] = val();
        if (rng.chance(0.6)) {
            if (rng.chance(0.1)) j["HEADERS"] = val();
            else {
                j["HEADERS"] = json::object();
                int k = rng.below(4);
                for (int i = 0; i < k; ++i) j["HEADERS"][rng.pick({"Authorization", "X-A", "RPC-Hint", "x"})] = val();
            }
        }
        if (rng.chance(0.2)) j["OTHER"] = val();
    };
    auto apply = [&](const json& j) {
        if (j.contains("SERVER") && j["SERVER"].is_string()) server = j["SERVER"];
        if (j.contains("ENDPOINT") && j["ENDPOINT"].is_string()) endpoint = j["ENDPOINT"];
        if (j.contains("HEADERS") && j["HEADERS"].is_object())
            for (auto& [k, v] : j["HEADERS"].items())
                if (v.is_string()) headers[k] = v;
    };
    for (int i = 0; i < n; ++i) {
        std::string cfg = ctx.scratch + "/cfg.json";
        switch (rng.below(7)) {
            case 0: b.initialize_local_default(); server = "http://localhost:8080/docc"; endpoint = "transfertune"; trail += "L"; break;
            case 1: {
                json j;
                mkconfig(j);
                write_file(cfg, j.dump());
                b.from_file(cfg);
                apply(j);
                trail += "F";
                ++applied;
                break;
            }
            case 2: { // unreadable or broken file: an error, and the configuration so far stays
                bool missing = rng.chance(0.5);
                std::string f = missing ? ctx.scratch + "/absent.json" : cfg;
                if (!missing) {
                    json j;
                    mkconfig(j);
                    auto t = j.dump();
                    write_file(cfg, rng.chance(0.3) ? "" : t.substr(0, t.size() - 1));
                }
                bool threw = false;
                try {
                    if (rng.chance(0.5)) b.from_file(f);
                    else {
                        setenv("VH_RPC_CFG", f.c_str(), 1);
                        b.from_env("VH_RPC_CFG");
                    }
                } catch (const std::exception&) {
                    threw = true;
                }
                if (!threw) {
                    ctx.violation("bad-config-accepted", missing ? "a missing configuration file" : "a truncated configuration file");
                    return;
                }
                ctx.event("rejected_files");
                trail += "!";
                break;
            }
            case 3: {
                std::string var = rng.chance(0.5) ? "SDFG_RPC_CONFIG" : "VH_RPC_CFG2";
                if (rng.chance(0.3)) {
                    if (rng.chance(0.5)) unsetenv(var.c_str());
                    else setenv(var.c_str(), "", 1);
                } else {
                    json j;
                    mkconfig(j);
                    write_file(cfg, j.dump());
                    setenv(var.c_str(), cfg.c_str(), 1);
                    apply(j);
                    ++applied;
                }
                if (var == "SDFG_RPC_CONFIG") b.from_env();
                else b.from_env(var);
                trail += "E";
                break;
            }
            case 4: {
                std::string var = rng.chance(0.5) ? "RPC_HEADER" : "VH_RPC_HDR";
                std::string k = word(rng, 10), v = word(rng, 10);
                switch (rng.below(5)) {
                    case 0: unsetenv(var.c_str()); break;
                    case 1: setenv(var.c_str(), "", 1); break;
                    case 2: setenv(var.c_str(), v.c_str(), 1); headers["RPC-Hint"] = v; break;
                    case 3: setenv(var.c_str(), (k + ":" + v + ":" + k).c_str(), 1); headers[k] = v + ":" + k; break;
                    default: setenv(var.c_str(), (k + ":" + v).c_str(), 1); headers[k] = v;
                }
                if (var == "RPC_HEADER") b.from_header_env();
                else b.from_header_env(var);
                trail += "H";
                ++applied;
                break;
            }
            case 5: {
                std::string k = rng.pick({"Authorization", "X-A", "x"}), v = word(rng);
                b.add_header(k, v);
                headers[k] = v;
                trail += "A";
                break;
            }
            case 6: {
                b.from_docc_config();
                if (auto h = expected_header(c)) {
                    server = c.rpc_server && !c.rpc_server->empty() ? *c.rpc_server : "https://docc-backend-1080482399950.europe-west1.run.app/docc";
                    endpoint = "transfertune";
                    headers["Authorization"] = *h;
                    ++applied;
                }
                trail += "D";
                break;
            }
        }
    }
    std::shared_ptr<SimpleRpcContext> got;
    bool threw = false;
    try {
        got = b.build(false);
    } catch (const std::exception&) {
        threw = true;
    }
    if (threw != server.empty()) {
        ctx.violation("build-server", fmt("after %s: build() %s, the server is '%s'", trail.c_str(), threw ? "throws" : "succeeds", server.c_str()));
        return;
    }
    if (got) {
        if (got->get_remote_address() != server + "/" + endpoint) {
            ctx.violation("remote-address", fmt("after %s: %s, expected %s/%s", trail.c_str(), got->get_remote_address().c_str(), server.c_str(), endpoint.c_str()));
            return;
        }
        auto gh = got->get_auth_headers();
        std::map<std::string, std::string> g(gh.begin(), gh.end());
        if (g != headers) {
            ctx.violation("headers", fmt("after %s: %s, expected %s", trail.c_str(), json(g).dump().c_str(), json(headers).dump().c_str()));
            return;
        }
        ctx.event("built");
    } else
        ctx.event("refused");
    ctx.event("sources_applied", applied);
    if (applied) ctx.nontrivial(vh::hash_str(trail + server + json(headers).dump()));
    ctx.sample({{"sources", trail}, {"address", server + "/" + endpoint}, {"headers", headers.size()}});
}

// ---------------------------------------------------------------- R02: which credential is used
VH_PROP(R02) {
    Creds c = gen_creds(ctx, rng);
    auto want = expected_header(c);
    g_session_opens = 0;
    auto auth = DaisytunerRpcContext::find_docc_auth();
    if (auth.has_value() != want.has_value()) {
        ctx.violation("credential-presence", auth ? "a credential is found although none is configured" : "no credential is found although one is configured");
        return;
    }
    std::shared_ptr<DaisytunerRpcContext> d;
    bool threw = false;
    try {
        d = rng.chance(0.5) ? DaisytunerRpcContext::from_docc_config() : build_rpc_context_from_docc_config();
    } catch (const std::exception&) {
        threw = true;
    }
    if (threw == want.has_value()) {
        ctx.violation("credential-error", threw ? "from_docc_config throws although a credential is configured" : "from_docc_config succeeds without a credential");
        return;
    }
    std::string server = c.rpc_server && !c.rpc_server->empty() ? *c.rpc_server : "https://docc-backend-1080482399950.europe-west1.run.app/docc";
    if (want) {
        if (DaisytunerRpcContext::build_auth_header_content(*auth) != *want) {
            ctx.violation("credential-choice", "header '" + DaisytunerRpcContext::build_auth_header_content(*auth) + "', expected '" + *want + "'");
            return;
        }
        auto h = d->get_auth_headers();
        if (h.size() != 1 || !h.count("Authorization") || h["Authorization"] != *want) {
            ctx.violation("credential-header", "headers " + json(std::map<std::string, std::string>(h.begin(), h.end())).dump() + ", expected Authorization: " + *want);
            return;
        }
        if (d->get_remote_address() != server + "/transfertune") {
            ctx.violation("credential-server", d->get_remote_address() + ", expected " + server + "/transfertune");
            return;
        }
        ctx.event("resolved");
        if (want->rfind("Job ", 0) == 0) ctx.event("job_tokens");
        else if (c.access && !c.access->empty()) ctx.event("access_tokens");
        else if (c.has_home && c.home_token) ctx.event("home_files");
        else ctx.event("session_files");
    } else
        ctx.event("unresolved");
    // a token given directly
    std::string t = word(rng);
    bool job = rng.chance(0.5);
    DaisytunerRpcContext direct(t, job);
    if (direct.get_auth_headers()["Authorization"] != (job ? "Job " : "Token ") + t || direct.get_remote_address() != server + "/transfertune") {
        ctx.violation("direct-token", direct.get_remote_address() + " " + direct.get_auth_headers()["Authorization"]);
        return;
    }
    ctx.nontrivial(vh::hash_str((want ? *want : "-") + server));
    ctx.sample({{"header", want ? want->substr(0, 12) : "none"}, {"server", server}});
}

// ---------------------------------------------------------------- the loopback server
namespace {
struct Script {
    int status = 200;
    std::string body;
    std::string location;
    int framing = 0; // 0 content-length, 1 chunked, 2 until close
    int fault = 0; // 0 none, 1 close before a response, 2 close inside the headers, 3 close inside the body, 4 garbage, 5 reset
    bool interim = false; // a 100 before the response, always sent on Expect
    std::vector<size_t> cuts; // how the response is split into writes
};
struct Seen {
    std::string request_line, body;
    std::vector<std::pair<std::string, std::string>> headers;
    int connections = 0;
    bool complete = false;
};

bool send_all(int fd, const char* p, size_t n) {
    while (n) {
        ssize_t k = send(fd, p, n, MSG_NOSIGNAL);
        if (k <= 0) return false;
        p += k;
        n -= k;
    }
    return true;
}

void serve(int lfd, const Script& sc, Seen& seen, std::atomic<bool>& stop) {
    while (!stop) {
        pollfd pf{lfd, POLLIN, 0};
        if (poll(&pf, 1, 20) <= 0) continue;
        int fd = accept(lfd, nullptr, nullptr);
        if (fd < 0) continue;
        ++seen.connections;
        if (seen.connections > 1) {
            ::close(fd);
            continue;
        }
        timeval tv{10, 0};
        setsockopt(fd, SOL_SOCKET, SO_RCVTIMEO, &tv, sizeof tv);
        std::string buf;
        char tmp[65536];
        size_t hend;
        auto more = [&] {
            ssize_t k = recv(fd, tmp, sizeof tmp, 0);
            if (k <= 0) return false;
            buf.append(tmp, k);
            return true;
        };
        while ((hend = buf.find("\r\n\r\n")) == std::string::npos)
            if (!more()) break;
        if (hend == std::string::npos) {
            ::close(fd);
            continue;
        }
        std::istringstream is(buf.substr(0, hend));
        std::string line;
        std::getline(is, line);
        if (!line.empty() && line.back() == '\r') line.pop_back();
        seen.request_line = line;
        size_t len = 0;
        bool expect = false;
        while (std::getline(is, line)) {
            if (!line.empty() && line.back() == '\r') line.pop_back();
            auto c = line.find(':');
            std::string k = line.substr(0, c), v = c == std::string::npos ? "" : line.substr(c + 1);
            while (!v.empty() && v[0] == ' ') v.erase(0, 1);
            seen.headers.push_back({k, v});
            if (strcasecmp(k.c_str(), "content-length") == 0) len = strtoull(v.c_str(), nullptr, 10);
            if (strcasecmp(k.c_str(), "expect") == 0) expect = true;
        }
        if (sc.fault == 1) {
            ::close(fd);
            continue;
        }
        if (expect) send_all(fd, "HTTP/1.1 100 Continue\r\n\r\n", 25);
        while (buf.size() < hend + 4 + len)
            if (!more()) break;
        seen.body = buf.substr(hend + 4);
        seen.complete = seen.body.size() == len;
        if (sc.fault == 5) {
            linger l{1, 0};
            setsockopt(fd, SOL_SOCKET, SO_LINGER, &l, sizeof l);
            ::close(fd);
            continue;
        }
        std::string r;
        if (sc.fault == 4) r = "SSH-2.0-OpenSSH_9.6\r\n";
        else {
            if (sc.interim && !expect) r += "HTTP/1.1 102 Processing\r\n\r\n";
            r += fmt("HTTP/1.1 %d X\r\nServer: vh\r\n", sc.status);
            if (!sc.location.empty()) r += "Location: " + sc.location + "\r\n";
            bool nobody = sc.status == 204 || sc.status == 304;
            if (nobody) r += "\r\n";
            else if (sc.framing == 0) r += fmt("Content-Length: %zu\r\n\r\n", sc.body.size()) + sc.body;
            else if (sc.framing == 1) {
                r += "Transfer-Encoding: chunked\r\n\r\n";
                size_t pos = 0, q = 0;
                while (pos < sc.body.size()) {
                    size_t k = std::min<size_t>(sc.body.size() - pos, sc.cuts.empty() ? 1000 : sc.cuts[q++ % sc.cuts.size()] + 1);
                    r += fmt("%zx\r\n", k) + sc.body.substr(pos, k) + "\r\n";
                    pos += k;
                }
                r += "0\r\n\r\n";
            } else
                r += "Connection: close\r\n\r\n" + sc.body;
            if (sc.fault == 2) r = r.substr(0, r.find("\r\n\r\n") / 2);
            if (sc.fault == 3) r = r.substr(0, r.size() - (sc.framing == 1 ? 6 : 1) - (sc.body.size() / 2));
        }
        size_t pos = 0;
        for (size_t c : sc.cuts) {
            size_t k = std::min(c, r.size() - pos);
            if (!send_all(fd, r.data() + pos, k)) break;
            pos += k;
            if (pos >= r.size()) break;
        }
        if (pos < r.size()) send_all(fd, r.data() + pos, r.size() - pos);
        shutdown(fd, SHUT_WR);
        while (recv(fd, tmp, sizeof tmp, 0) > 0) {
        }
        ::close(fd);
    }
}
int listen_any(int& port) {
    int lfd = socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0);
    sockaddr_in a{};
    a.sin_family = AF_INET;
    a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
    if (bind(lfd, (sockaddr*) &a, sizeof a) || listen(lfd, 8)) return -1;
    socklen_t l = sizeof a;
    getsockname(lfd, (sockaddr*) &a, &l);
    port = ntohs(a.sin_port);
    return lfd;
}
std::string blob(vh::Rng& r, bool text) {
    size_t n = r.chance(0.1) ? r.below(400000) : r.chance(0.3) ? r.below(20000) : r.below(400);
    std::string s(n, 'x');
    for (auto& c : s) c = text ? (char) (32 + r.below(95)) : (char) r.below(256);
    return s;
}
} // namespace

// ---------------------------------------------------------------- R03: one POST, delivered and reported faithfully
static void exchange(vh::Ctx& ctx, vh::Rng& rng, bool redirects) {
    for (auto v : {"http_proxy", "https_proxy", "HTTP_PROXY", "ALL_PROXY", "all_proxy", "NO_PROXY"}) unsetenv(v);
    static bool once = [] {
        curl_global_init(CURL_GLOBAL_ALL);
        return true;
    }();
    (void) once;
    Script sc;
    int port = 0, port2 = 0;
    int lfd = listen_any(port);
    if (lfd < 0) {
        ctx.event("no_socket");
        return;
    }
    int lfd2 = redirects ? listen_any(port2) : -1;
    sc.status = rng.chance(0.4) ? rng.pick({200, 201, 202, 203}) : rng.pick({204, 205, 226, 299, 300, 304, 400, 401, 403, 404, 418, 429, 500, 502, 503, 599});
    sc.body = blob(rng, rng.chance(0.5));
    sc.framing = rng.below(3);
    sc.interim = rng.chance(0.1);
    if (!redirects && rng.chance(0.35)) sc.fault = 1 + rng.below(5);
    if (sc.fault == 3 && (sc.framing == 2 || sc.body.size() < 4 || sc.status == 204 || sc.status == 304)) sc.fault = 0;
    if (redirects) {
        sc.status = rng.pick({301, 302, 303, 307, 308});
        sc.location = fmt("http://127.0.0.1:%d/steal", port2);
    }
    int cuts = rng.below(12);
    for (int i = 0; i < cuts; ++i) sc.cuts.push_back(rng.chance(0.3) ? 1 : rng.below(200) + 1);
    Seen seen, seen2;
    std::atomic<bool> stop{false};
    Script ok2;
    std::thread srv(serve, lfd, std::cref(sc), std::ref(seen), std::ref(stop));
    std::thread srv2;
    if (redirects) srv2 = std::thread(serve, lfd2, std::cref(ok2), std::ref(seen2), std::ref(stop));

    std::string payload = blob(rng, true);
    if (rng.chance(0.5)) payload = json{{"sdfg", payload}, {"category", "server"}}.dump();
    std::string path = "/" + word(rng, 20);
    for (auto& ch : path)
        if (ch == '.') ch = '_'; // dot segments are normalised by curl
    std::map<std::string, std::string> hs{{"Content-Type", "application/json"}};
    std::string secret = "Token " + word(rng);
    hs["Authorization"] = secret;
    if (rng.chance(0.5)) hs["X-" + std::string("Hint")] = word(rng);
    curl_slist* list = nullptr;
    for (auto& [k, v] : hs) list = curl_slist_append(list, (k + ": " + v).c_str());
    CURL* curl = curl_easy_init();
    int unused = 0;
    bool dead = !redirects && rng.chance(0.05);
    if (dead) {
        int d = listen_any(unused);
        ::close(d); // nobody listens there
    }
    // the output of the call is watched for the secret
    Capture cap(ctx.scratch + "/out.txt");
    HttpResult res = post_json(curl, fmt("http://127.0.0.1:%d", dead ? unused : port) + path, payload, list);
    std::string printed = cap.end();
    curl_easy_cleanup(curl);
    curl_slist_free_all(list);
    stop = true;
    srv.join();
    if (srv2.joinable()) srv2.join();
    ::close(lfd);
    if (lfd2 >= 0) ::close(lfd2);

    if (redirects) {
        if (seen2.connections) {
            ctx.violation("redirect-followed", "a redirect to another server is followed");
            return;
        }
        if (res.error_message.empty()) {
            ctx.violation("redirect-success", fmt("status %d counts as success", sc.status));
            return;
        }
        if (printed.find(secret) != std::string::npos || res.error_message.find(secret) != std::string::npos) {
            ctx.violation("secret-printed", "the credential appears in the output");
            return;
        }
        ctx.event("redirects_refused");
        ctx.nontrivial(vh::hash_str(payload) ^ sc.status);
        ctx.sample({{"status", sc.status}, {"location", sc.location}});
        return;
    }
    bool nobody = sc.status == 204 || sc.status == 304;
    auto describe = [&] {
        return fmt("fault %d framing %d status %d body %zu payload %zu: ", sc.fault, sc.framing, sc.status, sc.body.size(), payload.size());
    };
    if (dead || sc.fault) {
        if (res.curl_code == CURLE_OK && sc.fault == 2) return; // curl accepts a header block cut off after its status line
        if (res.curl_code == CURLE_OK && !(sc.fault == 4)) {
            ctx.violation("failure-unnoticed", describe() + "the transfer failed, curl_code is OK");
            return;
        }
        if (res.error_message.empty()) {
            ctx.violation("failure-without-message", describe() + "no error message");
            return;
        }
        if (res.curl_code != CURLE_OK && res.http_status >= 200 && res.http_status < 204 && (dead || sc.fault == 1 || sc.fault == 5 || sc.fault == 2)) {
            ctx.violation("failure-with-status", describe() + fmt("http_status %ld of a request that got no response", res.http_status));
            return;
        }
        ctx.event("failed_transfers");
    } else {
        if (res.curl_code != CURLE_OK) {
            ctx.violation("transfer-failed", describe() + curl_easy_strerror(res.curl_code));
            return;
        }
        if (res.http_status != sc.status) {
            ctx.violation("status", describe() + fmt("http_status %ld", res.http_status));
            return;
        }
        std::string want = nobody ? "" : sc.body;
        if (res.body != want) {
            ctx.violation("body", describe() + fmt("%zu bytes of body received, %zu sent", res.body.size(), want.size()));
            return;
        }
        bool success = sc.status >= 200 && sc.status <= 203;
        if (success != res.error_message.empty()) {
            ctx.violation("classification", describe() + (success ? "a success carries the error " + res.error_message.substr(0, 200) : "an error status carries no error message"));
            return;
        }
        if (!success && res.error_message.find(std::to_string(sc.status)) == std::string::npos) {
            ctx.violation("message-without-status", describe() + res.error_message.substr(0, 200));
            return;
        }
        if (sc.status == 401 && res.error_message.find("authentication") == std::string::npos) {
            ctx.violation("authentication-message", res.error_message.substr(0, 200));
            return;
        }
        ctx.event(success ? "successes" : "http_errors");
        if (sc.framing == 1) ctx.event("chunked");
    }
    if (!dead && sc.fault != 1) {
        if (!seen.complete || seen.body != payload) {
            ctx.violation("payload", describe() + fmt("the server received %zu bytes, %zu were to be sent", seen.body.size(), payload.size()));
            return;
        }
        if (seen.request_line != "POST " + path + " HTTP/1.1") {
            ctx.violation("request-line", seen.request_line);
            return;
        }
        for (auto& [k, v] : hs) {
            int n = 0;
            for (auto& [hk, hv] : seen.headers)
                if (strcasecmp(hk.c_str(), k.c_str()) == 0) n += hv == v ? 1 : 100;
            if (n != 1) {
                ctx.violation("request-header", describe() + "header " + k + " did not arrive once with its value");
                return;
            }
        }
        ctx.event("requests_seen");
    }
    if (!dead && sc.fault != 1 && sc.fault != 5 && seen.connections != 1) {
        ctx.violation("request-repeated", describe() + fmt("%d connections", seen.connections));
        return;
    }
    if (printed.find(secret) != std::string::npos || res.error_message.find(secret) != std::string::npos) {
        ctx.violation("secret-printed", "the credential appears in the output");
        return;
    }
    ctx.nontrivial(vh::hash_str(payload, vh::hash_str(sc.body)) ^ sc.status ^ (sc.fault << 20));
    ctx.sample({{"status", sc.status}, {"fault", sc.fault}, {"framing", sc.framing}, {"payload", payload.size()}, {"body", sc.body.size()}});
}
VH_PROP(R03) { exchange(ctx, rng, false); }

// ---------------------------------------------------------------- R04: credentials stay with the configured server
VH_PROP(R04) {
    if (ctx.case_no % 4 == 0) {
        exchange(ctx, rng, true);
        return;
    }
    Creds c = gen_creds(ctx, rng);
    SimpleRpcContextBuilder b;
    b.initialize_local_default();
    b.from_docc_config();
    std::vector<std::string> secrets;
    if (auto h = expected_header(c)) {
        // the first line: a credential of several lines is not one
        auto t = h->substr(h->find(' ') + 1);
        if (t.size() >= 8) secrets.push_back(t);
    }
    int n = rng.below(4);
    for (int i = 0; i < n; ++i) {
        auto v = word(rng) + fmt("-secret-%d", i);
        if (rng.chance(0.5)) b.add_header(fmt("X-H%d", i), v);
        else {
            setenv("RPC_HEADER", (fmt("X-H%d:", i) + v).c_str(), 1);
            b.from_header_env();
        }
        secrets.push_back(v);
    }
    Capture cap(ctx.scratch + "/out.txt");
    bool p = rng.chance(0.8);
    auto k = p ? b.build(true) : b.build(false);
    std::string what;
    try {
        if (rng.chance(0.5)) DaisytunerRpcContext::from_docc_config();
    } catch (const std::exception& e) {
        what = e.what();
    }
    auto printed = cap.end();
    for (auto& s : secrets)
        if (printed.find(s) != std::string::npos || what.find(s) != std::string::npos) {
            ctx.violation("secret-printed", "a header value appears in the output: " + printed.substr(0, 500));
            return;
        }
    if (p && printed.find(b.server) == std::string::npos) {
        ctx.violation("target-not-printed", printed.substr(0, 300));
        return;
    }
    ctx.event("outputs_scanned");
    ctx.event("secrets", secrets.size());
    if (!secrets.empty()) ctx.nontrivial(vh::hash_str(secrets[0]));
    ctx.sample({{"secrets", secrets.size()}, {"printed", printed.substr(0, 160)}});
}

VH_MAIN
