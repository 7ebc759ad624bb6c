#!/usr/bin/env python3
"""Runs one check:  check.py ID [--seed N] [--tier quick|thorough] [--cases N] [--replay FILE] [--jobs N]

Builds the harness of the property from /repo's working tree, runs its cases in parallel processes, collects what the
monitors observed, and gives the verdict: exit 0 held on everything explored, 1 + VIOLATION line refuted, other
values: error of the check (build failure, nothing observed, harness failure)."""
import argparse, json, os, re, shutil, signal, subprocess, sys, time, tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import build  # noqa: E402
import registry  # noqa: E402


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def read_jsonl(path):
    out = []
    if os.path.exists(path):
        for line in open(path, encoding="utf-8", errors="replace"):
            line = line.strip()
            if line:
                try:
                    out.append(json.loads(line))
                except ValueError:
                    pass
    return out


def known_findings(prop):
    return [k for k in read_jsonl(os.path.join(VERIF, "known_findings.jsonl"))
            if k.get("property") == prop and k.get("status") == "known"]


def crash_key(rc, err):
    """A key that names a crash without line numbers or addresses."""
    m = re.search(r"SUMMARY: (\w+): ([\w-]+)(?: \(.*?\))?(?: \S+)?(?: in (.*))?", err)
    kind = func = None
    if m:
        kind = m.group(1) + ":" + m.group(2)
        func = m.group(3)
    m2 = re.search(r"runtime error: (.*)", err)
    if m2 and (not m or "undefined-behavior" in (kind or "")):
        what = re.sub(r"0x[0-9a-f]+|-?\d+(\.\d+)?(e[+-]?\d+)?", "N", m2.group(1))
        kind = "UBSan:" + what[:80].strip()
    if not func or not kind:
        frames = re.findall(r"#\d+ 0x[0-9a-f]+ in (.+?) (/\S+)", err)
        for f, p in frames:
            if p.startswith("/repo/"):
                func = f
                break
    m3 = re.search(r"Assertion [`'](.*?)' failed", err)
    if m3:
        kind = "assert:" + m3.group(1)[:80]
    m4 = re.search(r"terminate called after throwing an instance of '(.*?)'", err)
    if m4:
        kind = "terminate:" + m4.group(1)
    if not kind:
        kind = "signal-%d" % -rc if rc < 0 else "exit-%d" % rc
    func = re.sub(r"\(.*", "", func or "?")
    return "crash:%s@%s" % (kind, func)


def salt(idx):
    """Hash order of the symbolic expressions: differs between the shards."""
    return "s%d" % idx


class Shard:
    """One harness process at a time, over the cases first, first+step, ... < last."""

    def __init__(self, cfg, exe, prop, seed, tier, idx, step, last, workdir, env, deadline):
        self.cfg, self.exe, self.prop, self.seed, self.tier = cfg, exe, prop, seed, tier
        self.idx, self.step, self.last, self.env, self.deadline = idx, step, last, dict(env, SYMSHIM_SALT=salt(idx), VH_DEADLINE="%d" % deadline), deadline + 60
        self.out = os.path.join(workdir, "s%d" % idx)
        self.scratch = os.path.join(self.out, "scratch")
        os.makedirs(self.scratch)
        self.crashes = []
        self.errors = []
        self.extra_evals = 0
        self.cut = False

    def cmd(self, first, last, step, replay=False):
        return [self.exe, "--prop", self.prop, "--seed", str(self.seed), "--first", str(first), "--last", str(last),
                "--step", str(step), "--out", self.out, "--scratch", self.scratch, "--replay", "1" if replay else "0",
                "--thorough", "1" if self.tier == "thorough" else "0"]

    def status(self):
        try:
            with open(os.path.join(self.out, "status"), "rb") as f:
                b = f.read(16)
            return int.from_bytes(b[:8], "little"), int.from_bytes(b[8:16], "little")
        except OSError:
            return None, 0

    def spawn(self, cmd, stall):
        """Returns (rc, stderr text, stalled)."""
        errp = os.path.join(self.out, "stderr")
        with open(errp, "wb") as ef:
            p = subprocess.Popen(cmd, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=ef, env=self.env,
                                 start_new_session=True, cwd=self.scratch)
        lastst, lastt, stalled = None, time.time(), False
        while True:
            try:
                p.wait(0.2)
                break
            except subprocess.TimeoutExpired:
                pass
            st = self.status()
            now = time.time()
            if st != lastst:
                lastst, lastt = st, now
            if now - lastt > stall:
                stalled = True
            if stalled or now > self.deadline:
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except OSError:
                    pass
                p.wait()
                if not stalled:
                    self.cut = True
                break
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        with open(errp, "rb") as f:
            data = f.read()
        if len(data) > 400000:
            data = data[:200000] + b"\n...\n" + data[-200000:]
        return p.returncode, data.decode("utf-8", "replace"), stalled

    def run(self):
        first = self.idx
        restarts = 0
        stall = self.cfg.get("stall", 60)
        while first < self.last and not self.cut:
            before = self.status()[1]
            rc, err, stalled = self.spawn(self.cmd(first, self.last, self.step), stall)
            cur, n = self.status()
            done = n - before
            if self.cut:
                self.extra_evals += max(0, done - 1)
                return
            if rc == 0:
                self.cut = time.time() > self.deadline - 60
                return
            if cur is None or done == 0:
                self.errors.append("harness did not start: rc=%s %s" % (rc, err[-2000:]))
                return
            self.extra_evals += done - 1
            if stalled:
                # once more, alone and with more time: only a second stall is reported
                rc2, err2, st2 = self.spawn(self.cmd(cur, cur + 1, 1), stall * 2)
                if st2:
                    self.crashes.append({"case": cur, "key": "hang", "msg": "case %d makes no progress" % cur})
                elif rc2 not in (0, None) and not self.cut:
                    self.crashes.append({"case": cur, "key": crash_key(rc2, err2), "msg": err2[-6000:]})
            elif rc == 2 and "ERROR: " not in err and "runtime error" not in err:
                self.errors.append("harness error: %s" % err[-2000:])
                return
            else:
                i = max(err.find("ERROR: "), 0)
                m = re.search(r"runtime error:|Assertion |terminate called|WARNING: ThreadSanitizer", err)
                if m:
                    i = min(i, m.start()) if i else max(0, m.start() - 200)
                self.crashes.append({"case": cur, "key": crash_key(rc, err), "msg": err[i:i + 6000]})
            restarts += 1
            if restarts > 12:
                return
            first = cur + self.step


def run_native(prop, cfg, seed, tier, args):
    t0 = time.time()
    exe = build.build_target(cfg["target"], cfg.get("variant"), log)
    t1 = time.time()
    n = args.cases or cfg["cases"][0 if tier == "quick" else 1]
    jobs = args.jobs or cfg.get("jobs") or os.cpu_count() or 4
    jobs = min(jobs, n)
    limit = cfg.get("limit", (420, 3000))[0 if tier == "quick" else 1]
    workdir = tempfile.mkdtemp(prefix="vchk-%s-" % prop, dir=os.environ.get("VERIF_TMP", "/tmp"))
    env = {k: v for k, v in os.environ.items()
           if not k.startswith(("__DAISY", "DAISY", "DOCC", "RPC", "SDFG_RPC", "LD_PRELOAD"))}
    env.update(build.run_env())
    env.update(cfg.get("env", {}))
    env["VERIF_BUILD"] = os.path.dirname(exe)
    shards = [Shard(cfg, exe, prop, seed, tier, i, jobs, n, workdir, env, time.time() + limit) for i in range(jobs)]
    try:
        with ThreadPoolExecutor(jobs) as ex:
            list(ex.map(lambda s: s.run(), shards))
        viols, errors, hashes = [], [], set()
        ev, events, samples, cut = 0, {}, [], False
        for s in shards:
            viols += [dict(v, salt=salt(s.idx)) for v in read_jsonl(os.path.join(s.out, "violations.jsonl")) + s.crashes]
            errors += s.errors
            ev += s.extra_evals
            cut = cut or s.cut
            for summ in read_jsonl(os.path.join(s.out, "summary.jsonl")):
                ev += summ["evaluations"]
                for k, v in summ["events"].items():
                    events[k] = events.get(k, 0) + v
                samples += summ["samples"]
            hp = os.path.join(s.out, "hashes.bin")
            if os.path.exists(hp):
                data = open(hp, "rb").read()
                hashes.update(data[i:i + 8] for i in range(0, len(data) - 7, 8))
    finally:
        shutil.rmtree(workdir, ignore_errors=True)
    return dict(viols=viols, errors=errors, evaluations=ev, distinct=len(hashes), events=events, samples=samples[:4],
                cut=cut, build_s=round(t1 - t0, 1), planned=n)


def replay(path):
    r = json.load(open(path))
    cfg = registry.CHECKS[r["property"]]
    if "run" in cfg:
        return cfg["run"](r["property"], cfg, r["seed"], r["tier"], argparse.Namespace(cases=None, jobs=None, only=r["case"]), log)
    exe = build.build_target(cfg["target"], cfg.get("variant"), log)
    d = tempfile.mkdtemp(prefix="vreplay-", dir=os.environ.get("VERIF_TMP", "/tmp"))
    env = dict(os.environ)
    env.update(build.run_env())
    env.update(cfg.get("env", {}))
    env["VERIF_BUILD"] = os.path.dirname(exe)
    env["SYMSHIM_SALT"] = r.get("salt", "")
    try:
        p = subprocess.run([exe, "--prop", r["property"], "--seed", str(r["seed"]), "--first", str(r["case"]), "--last",
                            str(r["case"] + 1), "--step", "1", "--out", d, "--scratch", d + "/scratch", "--replay", "1",
                            "--thorough", "1" if r["tier"] == "thorough" else "0"], env=env, cwd=d,
                           stdout=subprocess.DEVNULL)
        v = read_jsonl(d + "/violations.jsonl")
        for x in v:
            print(json.dumps(x))
        print("replay: rc=%d, %d violation(s)" % (p.returncode, len(v)))
        return 1 if v or p.returncode else 0
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--cases", type=int)
    ap.add_argument("--jobs", type=int)
    ap.add_argument("--replay")
    args = ap.parse_args()
    if args.replay:
        return replay(args.replay)
    prop = args.prop
    tier = "thorough" if args.tier == "thorough" else "quick"
    cfg = registry.CHECKS[prop]
    t0 = time.time()
    try:
        if "run" in cfg:
            args.only = None
            r = cfg["run"](prop, cfg, args.seed, tier, args, log)
        else:
            r = run_native(prop, cfg, args.seed, tier, args)
    except build.BuildError as e:
        log("ERROR: build failed: %s" % e)
        return 3

    known = known_findings(prop)
    seen_known, fresh, keys = {}, [], {}
    for v in r["viols"]:
        keys.setdefault(v["key"], []).append(v)
    for key, vs in sorted(keys.items()):
        hit = next((k for k in known if k["key"] == key), None)
        if hit:
            seen_known[key] = hit
        else:
            fresh.append((key, min(vs, key=lambda x: x["case"])))

    cov = {"evaluations": r["evaluations"], "distinct_nontrivial": r["distinct"], "rule": cfg["rule"],
           "samples": r["samples"] or [{"note": "no sample recorded"}], "events": r["events"],
           "planned_cases": r["planned"], "build_s": r["build_s"]}
    if r.get("extra"):
        cov.update(r["extra"])
    evid = {"property": prop, "tier": tier, "seed": args.seed, "level": cfg["level"], "coverage": cov,
            "assumptions": cfg.get("assumptions", []), "wall_s": round(time.time() - t0, 2),
            "violations": len(fresh)}
    evdir = os.path.join(VERIF, "evidence")
    os.makedirs(evdir, exist_ok=True)
    with open(os.path.join(evdir, prop + ".json"), "w") as f:
        json.dump(evid, f, indent=1, sort_keys=True)
        f.write("\n")

    # every listed finding is shown, whether or not this run met it
    for k in known:
        print("KNOWN-FINDING: property=%s %s%s" % (prop, k["what"], "" if k["key"] in seen_known else " (not met in this run)"))
    if fresh:
        rdir = os.path.join(evdir, "replay")
        os.makedirs(rdir, exist_ok=True)
        for i, (key, v) in enumerate(fresh[:5]):
            path = os.path.join(rdir, "%s-%d.json" % (prop, i))
            with open(path, "w") as f:
                json.dump({"property": prop, "seed": args.seed, "tier": tier, "case": v["case"], "key": key, "msg": v["msg"],
                           "salt": v.get("salt", ""), "how": "python3 bin/check.py --replay " + path}, f, indent=1)
            print("VIOLATION property=%s replay=%s" % (prop, path))
            print("  key=%s case=%s\n  %s" % (key, v["case"], v["msg"][:1500].replace("\n", "\n  ")))
        return 1
    if r["errors"]:
        log("ERROR: " + "; ".join(r["errors"][:3]))
        return 3
    missing = [k for k, m in cfg.get("require", {}).items() if r["events"].get(k, 0) < m]
    if not args.cases and (missing or r["distinct"] < 2):
        log("ERROR: inconclusive, too little observed: missing %s, distinct %d, events %s" % (missing, r["distinct"], r["events"]))
        return 4
    if r["cut"]:
        log("note: stopped at the wall limit after %d of %d cases" % (r["evaluations"], r["planned"]))
        if r["evaluations"] * 10 < r["planned"]:
            return 4
    print("held: property=%s tier=%s seed=%d evaluations=%d distinct=%d wall=%.1fs (build %.1fs) events=%s" % (
        prop, tier, args.seed, r["evaluations"], r["distinct"], time.time() - t0, r["build_s"], json.dumps(r["events"], sort_keys=True)))
    return 0


if __name__ == "__main__":
    sys.exit(main())
