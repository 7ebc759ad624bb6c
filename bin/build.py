"""Builds the harnesses from /repo's working tree. Everything goes through ccache (in /verif/.cache), so an unchanged
file costs milliseconds and a changed one is always recompiled; no build output is trusted by its date."""
import fcntl, glob, hashlib, os, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
CACHE = os.path.join(VERIF, ".cache")
CXX = next((c for c in ("clang++-19", "clang++-18", "clang++") if shutil.which(c)), "clang++")
CC = CXX.replace("clang++", "clang")

SAN = {
    "asan": ["-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-sanitize=vptr,nonnull-attribute"],
    "tsan": ["-fsanitize=thread"],
    "plain": [],
}
COMMON = ["-std=c++20", "-g1", "-fno-omit-frame-pointer", "-fPIC", "-w"]
BASE = ["-O1"] + COMMON


class BuildError(Exception):
    pass


def run_env():
    return {
        "ASAN_OPTIONS": "abort_on_error=1:detect_leaks=0:allocator_may_return_null=0:handle_abort=1:detect_stack_use_after_return=1"
                        ":max_allocation_size_mb=8192:detect_odr_violation=0",
        "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:abort_on_error=1",
        "TSAN_OPTIONS": "halt_on_error=1:abort_on_error=1:report_signal_unsafe=0:second_deadlock_stack=1",
        "ASAN_SYMBOLIZER_PATH": shutil.which("llvm-symbolizer-19") or shutil.which("llvm-symbolizer-18") or "",
    }


def _env():
    e = dict(os.environ)
    e["CCACHE_DIR"] = os.path.join(CACHE, "ccache")
    e["CCACHE_MAXSIZE"] = "6G"
    e["CCACHE_NOHASHDIR"] = "1"
    e["CCACHE_COMPRESS"] = "1"
    e["CCACHE_SLOPPINESS"] = "pch_defines,time_macros,include_file_mtime,include_file_ctime"
    for k in ("CCACHE_DISABLE", "CCACHE_BASEDIR", "CPATH", "CPLUS_INCLUDE_PATH", "LIBRARY_PATH", "C_INCLUDE_PATH"):
        e.pop(k, None)
    return e


def _run(cmd, cwd=CACHE):
    p = subprocess.run(cmd, cwd=cwd, env=_env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode != 0:
        raise BuildError("%s\n%s" % (" ".join(cmd), p.stdout.decode("utf-8", "replace")[-6000:]))


def compile_all(srcs, flags, objdir, jobs=None):
    """srcs: absolute paths. Returns the objects, in the same order."""
    os.makedirs(objdir, exist_ok=True)
    cc = shutil.which("ccache")

    def one(src):
        tag = hashlib.sha1((src + " ".join(flags)).encode()).hexdigest()[:12]
        obj = os.path.join(objdir, os.path.basename(src) + "." + tag + ".o")
        isc = src.endswith(".c")
        fl = [f for f in flags if not (isc and f.startswith("-std="))]
        _run(([cc] if cc else []) + [CC if isc else CXX] + fl + ["-c", src, "-o", obj])
        return obj

    with ThreadPoolExecutor(jobs or os.cpu_count() or 4) as ex:
        return list(ex.map(one, srcs))


def make_pch(header, flags, deps):
    """The precompiled header for these flags, named by the contents it is made from."""
    h = hashlib.sha1(" ".join([CXX] + flags).encode())
    for f in [header] + sorted(deps):
        h.update(open(f, "rb").read())
    h.update(subprocess.run([CXX, "--version"], stdout=subprocess.PIPE).stdout)
    d = os.path.join(CACHE, "pch")
    os.makedirs(d, exist_ok=True)
    out = os.path.join(d, h.hexdigest()[:16] + ".pch")
    with open(out + ".lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.exists(out):
            for old in glob.glob(os.path.join(d, "*.pch")):
                if os.path.getmtime(old) < time.time() - 86400:
                    os.unlink(old)
            _run([CXX] + flags + ["-x", "c++-header", header, "-o", out + ".new", "-Xclang", "-fno-pch-timestamp", "-fpch-instantiate-templates"])
            os.replace(out + ".new", out)
    return out


def expand(paths, root):
    out = []
    for p in paths:
        g = sorted(glob.glob(os.path.join(root, p), recursive=True)) if any(c in p for c in "*?[") else [os.path.join(root, p)]
        out += g
    return out


def build_target(name, variant=None, log=lambda *a: None):
    import targets
    t = targets.TARGETS[name]
    variant = variant or t.get("variant", "asan")
    bdir = os.path.join(CACHE, "build", "%s-%s" % (name, variant))
    os.makedirs(bdir, exist_ok=True)
    with open(os.path.join(CACHE, "build", "%s-%s.lock" % (name, variant)), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        inc = ["-I" + os.path.join(REPO, i) for i in t.get("inc", [])] + \
              ["-I" + os.path.join(VERIF, i) for i in t.get("vinc", [])] + ["-I" + os.path.join(VERIF, "harness")]
        flags = BASE + SAN[variant] + t.get("flags", []) + inc
        rsan = t.get("repo_flags", [])
        objs = compile_all(expand(t.get("repo", []), REPO), flags + rsan, os.path.join(bdir, "repo"))
        objs += compile_all(expand(t["srcs"], VERIF), flags, os.path.join(bdir, "own"))
        for dep in t.get("deps", []):
            objs += build_lib(dep, variant, log)
        exe = os.path.join(bdir, name)
        link = [CXX, "-fuse-ld=lld"] if shutil.which("ld.lld") or shutil.which("ld.lld-19") else [CXX]
        _run(link + SAN[variant] + ["-rdynamic"] * bool(t.get("rdynamic")) + objs + ["-o", exe + ".new"] + t.get("libs", []) + ["-ldl", "-lpthread"])
        os.replace(exe + ".new", exe)
        for so, spec in t.get("so", {}).items():
            o = compile_all(expand(spec["srcs"], VERIF), BASE + inc + spec.get("flags", []), os.path.join(bdir, "so"))
            _run([CXX, "-shared"] + o + ["-o", os.path.join(bdir, so + ".new")] + spec.get("libs", []))
            os.replace(os.path.join(bdir, so + ".new"), os.path.join(bdir, so))
    return exe


def build_lib(name, variant, log):
    import targets
    t = targets.LIBS[name]
    bdir = os.path.join(CACHE, "build", "lib-%s-%s" % (name, variant))
    os.makedirs(bdir, exist_ok=True)
    inc = ["-I" + os.path.join(REPO, i) for i in t.get("inc", [])] + ["-I" + os.path.join(VERIF, i) for i in t.get("vinc", [])]
    objs = []
    with open(os.path.join(CACHE, "build", "lib-%s-%s.lock" % (name, variant)), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if t.get("srcs"):
            objs += compile_all(expand(t["srcs"], VERIF), BASE + SAN[variant] + t.get("flags", []) + inc, os.path.join(bdir, "own"))
        if "pch" in t:
            flags = ["-O0"] + COMMON + SAN[variant] + t.get("flags", [])
            deps = [f for d in t["vinc"] for f in glob.glob(os.path.join(VERIF, d, "**", "*.h*"), recursive=True)]
            pch = make_pch(os.path.join(VERIF, t["pch"]), flags + inc[len(t.get("inc", [])):], deps)
            flags += inc + ["-include-pch", pch]
        else:
            flags = BASE + SAN[variant] + t.get("flags", []) + inc
        objs += compile_all(repo_sources(t), flags, os.path.join(bdir, "repo"))
    return objs


def repo_sources(t):
    """The library's sources: those its own CMakeLists.txt names, so that added and removed files are followed."""
    out = expand(t.get("repo", []), REPO)
    for d in t.get("cmake", []):
        txt = re.sub(r"#.*", "", open(os.path.join(REPO, d, "CMakeLists.txt")).read())
        out += [os.path.join(REPO, d, f) for f in re.findall(r"\bsrc/[\w/.+-]+\.cpp", txt)]
    return sorted(set(f for f in out if os.path.exists(f)))


if __name__ == "__main__":
    # setup: build every target, so that the checks find a warm compiler cache
    import targets
    import registry
    os.makedirs(CACHE, exist_ok=True)
    bad = 0
    seen = set()
    for cfg in registry.CHECKS.values():
        if "target" not in cfg:
            continue
        key = (cfg["target"], cfg.get("variant"))
        if key in seen:
            continue
        seen.add(key)
        try:
            build_target(*key, log=print)
            print("built", key, flush=True)
        except BuildError as e:
            bad += 1
            print("FAILED", key, str(e)[-3000:], flush=True)
    sys.exit(1 if bad else 0)
