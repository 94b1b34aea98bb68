#!/usr/bin/env python3
"""check.py <ID>: decide one property by running the library under monitors.

Builds the harness from /repo's current working tree (instrumented by a build
overlay, with and without the race detector), runs it in several processes at
different GOMAXPROCS values, merges what the monitors observed, writes
evidence/<ID>.json and reports.

  check.py <ID>                     quick or thorough by VERIF_TIER
  check.py <ID> --thorough
  check.py <ID> --replay FILE       run the cases of a violation file again
  check.py --list
"""
import json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, os.path.join(VERIF, "tools"))
from config import CONFIG, ASSUMPTIONS

PROCS = [8, 4, 2, 1, 16, 8, 3, 5]
JOB_TIMEOUT = 600
MEMORY_LIMIT = 4 << 30  # bytes of one process

def goenv():
    e = dict(os.environ)
    e.update(GOTOOLCHAIN="local", GOSUMDB="off", GOPROXY="off", GOFLAGS="-mod=readonly", GOENV="off", GOWORK="off",
             GO111MODULE="on", CGO_ENABLED="1")
    e.setdefault("HOME", "/root")
    e.setdefault("GOPATH", "/root/go")
    if not e.get("PATH"):
        e["PATH"] = "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
    for k in ("GOMAXPROCS", "GODEBUG", "GORACE", "GOGC", "GOMEMLIMIT"):
        e.pop(k, None)
    return e

class BuildError(Exception):
    pass

def run(cmd, cwd, timeout=600):
    p = subprocess.run(cmd, cwd=cwd, env=goenv(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return p.returncode, p.stdout

def harness_dir(tmp):
    """The harness module, with its replace directive pointing at REPO."""
    src = os.path.join(VERIF, "harness")
    if REPO == "/repo":
        return src
    dst = os.path.join(tmp, "harness")
    shutil.copytree(src, dst)
    p = os.path.join(dst, "go.mod")
    with open(p) as f:
        s = f.read()
    with open(p, "w") as f:
        f.write(s.replace("=> /repo", "=> " + REPO))
    return dst

def build(tmp, kinds):
    """Builds the instrumenter, the overlay and the harness. Returns ({kind: binary}, instrumented)."""
    h = harness_dir(tmp)
    instr = os.path.join(tmp, "instr")
    rc, out = run(["go", "build", "-o", instr, "./cmd/instr"], h)
    if rc:
        raise BuildError("instrumenter does not build:\n" + out)
    hook = os.path.join(h, "hook", "hook.go")
    def overlay(name, *flags):
        d = os.path.join(tmp, name)
        os.mkdir(d)
        rc, out = run([instr, "-repo", REPO, "-hook", hook, "-out", d, *flags], h)
        return d if rc == 0 else None, out
    def compile(ov):
        bins, errs, ths = {}, [], []
        def one(kind):
            exe = os.path.join(tmp, "vh-" + kind)
            cmd = ["go", "build", "-overlay", os.path.join(ov, "overlay.json"), "-o", exe]
            if kind == "race":
                cmd.append("-race")
            rc, out = run(cmd + ["./cmd/vh"], h)
            if rc:
                errs.append(out)
            else:
                bins[kind] = exe
        for k in kinds:
            t = threading.Thread(target=one, args=(k,))
            t.start()
            ths.append(t)
        for t in ths:
            t.join()
        return bins, errs
    ov, out = overlay("ov", "-rewrite")
    errs = [out]
    if ov:
        bins, errs = compile(ov)
        if not errs:
            return bins, os.path.join(ov, "sites.json")
    # the sources cannot be instrumented: watch them as they are
    note = errs[0][:2000]
    ov, out = overlay("ov-plain")
    if not ov:
        raise BuildError(out)
    bins, errs = compile(ov)
    if errs:
        raise BuildError("the harness does not build against the working tree:\n" + errs[0])
    print("note: running without schedule instrumentation:", note.splitlines()[0] if note else "")
    return bins, None

# With VERIF_FAST set (used to measure the checks) the first violation ends all processes.
FAST = os.environ.get("VERIF_FAST")
ENOUGH = threading.Event()

class Job:
    def __init__(self, tmp, name, prop, kind, exe, sites, procs, lo, hi, seed, deep, stall=-1):
        self.__dict__.update(stall=stall, tmp=tmp, name=name, prop=prop, kind=kind, exe=exe, sites=sites, procs=procs, lo=lo, hi=hi, seed=seed, deep=deep)
        self.results, self.violations, self.inconclusive, self.races, self.rss = [], [], [], [], 0

    def run(self):
        at, part = self.lo, 0
        while at < self.hi and len(self.violations) < 3 and part < 6:
            nxt = self.once(at, part)
            if nxt is None or nxt <= at:
                return
            at, part = nxt, part + 1

    def hurry(self, p):
        ENOUGH.wait()
        if p.poll() is None:
            os.killpg(p.pid, signal.SIGKILL)

    def wait(self, p, limit):
        """Waits for the process; ends it when it takes up the sandbox's memory (it watches itself as well)."""
        end = time.time() + limit
        while True:
            try:
                return p.wait(timeout=1)
            except subprocess.TimeoutExpired:
                if time.time() > end:
                    raise
            try:
                with open("/proc/%d/statm" % p.pid) as f:
                    rss = int(f.read().split()[1]) * 4096
            except (OSError, ValueError, IndexError):
                continue
            self.rss = max(self.rss, rss)
            if rss > MEMORY_LIMIT:
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
                return "memory"

    def once(self, at, part):
        base = os.path.join(self.tmp, "%s-%d" % (self.name, part))
        out, prog, log = base + ".json", base + ".progress", base + ".race"
        cmd = [self.exe, "-prop", self.prop, "-seed", str(self.seed), "-from", str(at), "-to", str(self.hi), "-out", out, "-progress", prog]
        if self.sites:
            cmd += ["-sites", self.sites]
        if self.stall >= 0:
            cmd += ["-stall", str(self.stall)]
        if self.kind == "race":
            cmd.append("-race")
        if self.deep:
            cmd.append("-deep")
        env = goenv()
        env["GOMAXPROCS"] = str(self.procs)
        env["GOTRACEBACK"] = "all"
        env["GORACE"] = "halt_on_error=0 exitcode=0 history_size=3 log_path=" + log
        with open(base + ".err", "w") as err:
            p = subprocess.Popen(cmd, cwd=self.tmp, env=env, stdout=err, stderr=err, stdin=subprocess.DEVNULL, start_new_session=True)
            try:
                if FAST:
                    threading.Thread(target=self.hurry, args=(p,), daemon=True).start()
                rc = self.wait(p, JOB_TIMEOUT if not self.deep else 7200)
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
                rc = None
        if FAST and ENOUGH.is_set():
            return None
        replay = lambda case: {"prop": self.prop, "kind": self.kind, "procs": self.procs, "seed": self.seed, "case": case, "deep": self.deep}
        try:
            with open(prog) as f:
                case = int(f.read().split()[0])
        except (OSError, ValueError, IndexError):
            case = at
        for fn in sorted(os.listdir(self.tmp)):
            if fn.startswith(os.path.basename(log) + "."):
                with open(os.path.join(self.tmp, fn), errors="replace") as f:
                    text = f.read()
                for block in re.findall(r"WARNING: DATA RACE\n.*?(?=\n==================|\Z)", text, re.S):
                    self.races.append((block, replay(case)))
        if rc == "memory":
            ENOUGH.set()
            self.violations.append({"desc": "runaway memory", "msgs": ["case %d takes up more than %d MB of memory" % (case, MEMORY_LIMIT >> 20)], "stacks": "", "replay": replay(case)})
            return None
        if rc is None:
            self.inconclusive.append("%s: no end within the time limit at case %d" % (self.name, case))
            return None
        res = None
        try:
            with open(out) as f:
                res = json.load(f)
        except (OSError, ValueError):
            pass
        if res is None or rc != 0:
            with open(base + ".err", errors="replace") as f:
                text = f.read()
            m = re.search(r"^(panic: |fatal error: |runtime: goroutine stack exceeds|SIG)", text, re.M)
            if m:
                text = text[m.start():]
                ENOUGH.set()
                self.violations.append({"desc": "the process crashed", "msgs": ["the whole process crashed in case %d: %s" % (case, " ".join(text[:400].split()))], "stacks": text[:20000], "replay": replay(case)})
                return case + 1
            self.inconclusive.append("%s: exit status %s at case %d: %s" % (self.name, rc, case, text[-500:]))
            return case + 1 if rc is not None and rc > 0 else None
        self.results.append(res)
        for v in res["violations"] or []:
            v["replay"] = dict(replay(v["case"]), stall=v.get("stall", -1))
            self.violations.append(v)
        if self.violations:
            ENOUGH.set()
        self.inconclusive += res["inconclusive"] or []
        return None if res["done"] else res["next"]

def race_key(block):
    """Names of the functions involved, so that equal races are reported once."""
    return tuple(re.findall(r"^  (\S+)\(", block, re.M)[:6])

def load_findings():
    try:
        with open(os.path.join(VERIF, "known_findings.json")) as f:
            return [e for e in json.load(f)["findings"] if e.get("status") == "known"]
    except OSError:
        return []

def check(prop, deep, replay=None):
    t0 = time.time()
    cfg = CONFIG[prop]
    seed = int(os.environ.get("VERIF_SEED", "1") or "1") & (2**63 - 1)
    tier = "thorough" if deep else "quick"
    tmp = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    try:
        if replay:
            todo = [replay]
            bins, sites = build(tmp, [replay["kind"]])
        else:
            plan = cfg["thorough" if deep else "quick"]
            bins, sites = build(tmp, [k for k in ("race", "plain") if plan.get(k)])
        tb = time.time()
        jobs = []
        if replay:
            for k in range(int(os.environ.get("VERIF_REPEAT", "10"))):
                jobs.append(Job(tmp, "replay-%d" % k, prop, replay["kind"], bins[replay["kind"]], sites, replay["procs"], replay["case"], replay["case"] + 1, replay["seed"], replay.get("deep", False), replay.get("stall", -1)))
        else:
            for kind in ("race", "plain"):
                n = plan.get(kind, 0)
                if not n:
                    continue
                m = cfg.get("jobs", {}).get(kind, 8 if (kind == "race") != (bool(plan.get("race")) and bool(plan.get("plain"))) else 4)
                if deep:
                    m = max(m, 16)
                base = 0 if kind == "race" else 10_000_000
                for j in range(m):
                    lo, hi = base + n * j // m, base + n * (j + 1) // m
                    if hi > lo:
                        # both kinds see different GOMAXPROCS values
                        procs = PROCS[(j + (4 if kind == "plain" and m <= 4 else 0)) % len(PROCS)]
                        procs = cfg.get("procs", procs)
                        jobs.append(Job(tmp, "%s-%d" % (kind, j), prop, kind, bins[kind], sites, procs, lo, hi, seed, deep))
        sem = threading.Semaphore(8)
        def runjob(j):
            with sem:
                j.run()
        ths = [threading.Thread(target=runjob, args=(j,)) for j in jobs]
        for t in ths:
            t.start()
        for t in ths:
            t.join()
        return report(prop, cfg, tier, seed, jobs, sites, tmp, t0, tb, replay)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

def report(prop, cfg, tier, seed, jobs, sites_file, tmp, t0, tb, replay):
    violations, inconclusive, races = [], [], {}
    evaluations = nontrivial = perturbations = 0
    distinct, reached, obs, samples = set(), set(), {}, []
    for j in jobs:
        violations += [(v, j) for v in j.violations]
        inconclusive += j.inconclusive
        for block, rep in j.races:
            races.setdefault(race_key(block), (block, rep))
        for r in j.results:
            evaluations += r["cases"]
            nontrivial += r["nontrivial"]
            perturbations += r["perturbations"]
            distinct.update(r["distinct"] or [])
            reached.update(r["sites_reached"] or [])
            for s in r["samples"] or []:
                if len(samples) < 12 and len(samples) < 2 * (jobs.index(j) + 1):
                    samples.append(s)
            for k, n in (r["obs"] or {}).items():
                obs[k] = max(obs.get(k, 0), n) if k.startswith("max:") else obs.get(k, 0) + n
    nsites = max([r["sites"] for j in jobs for r in j.results] or [0])
    for block, rep in races.values():
        violations.append(({"desc": "data race", "msgs": ["data race: " + " / ".join(race_key(block))], "stacks": block[:8000], "replay": rep}, None))
    findings = [f for f in load_findings() if f["property"] == prop]
    unlisted, known = [], set()
    for v, j in violations:
        text = v["desc"] + "\n" + "\n".join(v["msgs"])
        hit = [f for f in findings if re.search(f["match"], text)]
        if hit:
            known.add(hit[0]["what"])
        else:
            unlisted.append(v)
    for k in sorted(known):
        print("KNOWN-FINDING: property=%s %s" % (prop, k))
    wall = time.time() - t0
    names = {}
    if sites_file:
        with open(sites_file) as f:
            names = {s["id"]: s for s in json.load(f)}
    evidence = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration", "wall_s": round(wall, 2),
        "violations": len(unlisted),
        "assumptions": ASSUMPTIONS + cfg.get("assumptions", []),
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": len(distinct),
            "rule": cfg["rule"],
            "samples": samples[:12],
            "observed": {k: obs[k] for k in sorted(obs)},
            "nontrivial_cases": nontrivial,
            "instrumented_statements": {"in_scope": nsites, "reached_while_perturbing": len(reached), "schedule_perturbations": perturbations,
                                        "note": "statements of the library before which the schedule can be disturbed; counted only in cases with perturbation on",
                                        "never_reached": sorted({names[i]["pos"] for i in names if any(names[i]["pos"].startswith(p + "/") for p in cfg.get("pkgs", [])) } - {names[i]["pos"] for i in reached if i in names})[:40] if names and cfg.get("pkgs") else []},
            "processes": [{"build": j.kind, "gomaxprocs": j.procs, "cases": [j.lo, j.hi], "wall_s": [round(r["wall_s"], 2) for r in j.results], "max_rss_mb": j.rss >> 20} for j in jobs],
            "race_reports": len(races), "inconclusive": inconclusive[:10], "inconclusive_count": len(inconclusive),
            "known_findings_seen": sorted(known),
            "build_s": round(tb - t0, 2),
        },
    }
    if not replay:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        path = os.path.join(VERIF, "evidence", prop + ".json")
        with open("%s.%d.tmp" % (path, os.getpid()), "w") as f:
            json.dump(evidence, f, indent=1)
        os.replace("%s.%d.tmp" % (path, os.getpid()), path)
    print("%s %s: %d cases, %d distinct non-trivial, %d statements reached of %d, %d perturbations, %d race reports, %d inconclusive, build %.1fs, total %.1fs" %
          (prop, tier, evaluations, len(distinct), len(reached), nsites, perturbations, len(races), len(inconclusive), tb - t0, wall))
    for s in inconclusive[:5]:
        print("inconclusive:", s[:500])
    if unlisted:
        d = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, prop + ".json")
        with open(path, "w") as f:
            json.dump({"property": prop, "how": "python3 check.py %s --replay %s" % (prop, path), "violations": unlisted[:10]}, f, indent=1)
        for v in unlisted[:5]:
            print("  case %s: %s" % (v["replay"].get("case"), v["desc"][:300]))
            for m in v["msgs"][:3]:
                print("     ", m[:1500])
            if v["desc"] == "data race":
                print("\n".join("        " + l for l in v["stacks"].splitlines()[:40]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    floor = cfg.get("floor", 50)
    if not replay and (evaluations == 0 or len(distinct) < floor):
        print("inconclusive: only %d distinct non-trivial cases were observed (at least %d needed)" % (len(distinct), floor))
        return 2
    for k, n in cfg.get("need", {}).items():
        if not replay and obs.get(k, 0) < n:
            print("inconclusive: %r observed %d times (at least %d needed)" % (k, obs.get(k, 0), n))
            return 2
    return 0

def main():
    args = sys.argv[1:]
    if not args or args[0] == "--list":
        print("\n".join(CONFIG))
        return 0
    if args[0] == "--setup":
        tmp = tempfile.mkdtemp(prefix="verif-setup-")
        try:
            build(tmp, ["race", "plain"])
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
        print("the harness builds")
        return 0
    prop = args[0]
    deep = "--thorough" in args or os.environ.get("VERIF_TIER") == "thorough"
    try:
        if "--replay" in args:
            with open(args[args.index("--replay") + 1]) as f:
                data = json.load(f)
            rc = 0
            for v in data["violations"]:
                rc = max(rc, check(prop, deep, v["replay"]))
            return rc
        return check(prop, deep)
    except BuildError as e:
        print("cannot build:", e)
        return 2

if __name__ == "__main__":
    sys.exit(main())
