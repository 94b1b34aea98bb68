#!/usr/bin/env python3
"""Mutation campaign: how many small changes of the library do the checks notice?

  mutate.py screen PKG N [SEED]   samples N changes of /repo/PKG that compile
  mutate.py check PKG             runs the checks of the package on each, until one notices it, then the tests
  mutate.py report                what was not noticed

Works in scratch copies; the state is kept under $MUT (default /tmp/mut).
"""
import json, os, random, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
STATE = os.environ.get("MUT", "/tmp/mut")
CHECKS = {
    "parallel": "D04 D03 D02 D01 D05 G01 R01 Q01 O02 M05",
    "speculative": "S01 S02 D01 D05 G01 R01 O03",
    "sequential": "Q01 D01 R01",
    "internal": "D01 D04 D05 S01 R01",
    "sort": "O01 O02 O03 O04 O05 G01 R01",
    "sync": "M01 M04 M05 M06 M07 M02 M03 G01 R01",
    "pipeline": "L01 L10 L12 L04 L06 L11 L08 L09 L13 L02 L03 L07 L05 G01 R01",
}
ENV = dict(os.environ, GOFLAGS="-mod=readonly", GOPROXY="off", GOTOOLCHAIN="local", GOWORK="off", GOMEMLIMIT="6GiB")

def sh(cmd, cwd, timeout, env=ENV):
    p = subprocess.Popen(cmd, cwd=cwd, env=env, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.communicate()
        return 124, "timeout"

def mut():
    exe = os.path.join(STATE, "mut")
    if not os.path.exists(exe):
        os.makedirs(STATE, exist_ok=True)
        subprocess.check_call(["go", "build", "-o", exe, "./cmd/mut"], cwd=os.path.join(VERIF, "harness"), env=dict(os.environ, GOFLAGS="-mod=mod", GOPROXY="off"))
    return exe

def tree():
    d = tempfile.mkdtemp(prefix="mutree-", dir="/tmp")
    subprocess.check_call("git -C /repo archive HEAD | tar -x -C " + d, shell=True)
    return d

def load(pkg):
    p = os.path.join(STATE, pkg + ".json")
    return json.load(open(p)) if os.path.exists(p) else {}

def save(pkg, d):
    p = os.path.join(STATE, pkg + ".json")
    json.dump(d, open(p + ".tmp", "w"), indent=1)
    os.replace(p + ".tmp", p)

def screen(pkg, n, seed):
    exe = mut()
    lines = [l.split("\t") for l in subprocess.check_output([exe, "list", "/repo/" + pkg], text=True).splitlines()]
    random.Random(seed).shuffle(lines)
    d = load(pkg)
    todo = [l for l in lines if l[0] not in d][:n]
    def one(l):
        t = tree()
        try:
            subprocess.check_call([exe, "apply", os.path.join(t, pkg), l[0]])
            rc, out = sh("go build ./...", t, 120)
            return l, "no build" if rc else "builds"
        finally:
            shutil.rmtree(t, ignore_errors=True)
    with ThreadPoolExecutor(int(os.environ.get("J", "3"))) as ex:
        for l, r in ex.map(one, todo):
            d[l[0]] = {"file": l[1], "line": int(l[2]), "desc": l[3], "status": r}
            save(pkg, d)
    print(pkg, {s: sum(1 for x in d.values() if x["status"] == s) for s in ("no build", "builds")})

def one(pkg, tree_, scales=tuple(float(x) for x in os.environ.get("SCALES", "0.04 0.3 1").split())):
    """Runs in its own process: the checks of pkg on tree_, first with few cases; prints who noticed."""
    os.environ.update(VERIF_REPO=tree_, VERIF_TIER="quick", VERIF_SEED="1", VERIF_FAST="1")
    sys.path.insert(0, VERIF)
    import check as c
    tmp = tempfile.mkdtemp(prefix="mutb-", dir="/tmp")
    try:
        try:
            bins, sites = c.build(tmp, ["race", "plain"])
        except c.BuildError as e:
            print("BY\tbuild no answer\t" + str(e)[:200].replace("\n", " "))
            return
        c.build = lambda t, kinds: (bins, sites)
        import io, contextlib, copy
        base = copy.deepcopy(c.CONFIG)
        for scale in scales:
            for p in CHECKS[pkg].split():
                q = dict(base[p]["quick"])
                if scale < 1:
                    c.CONFIG[p] = dict(base[p], quick={k: max(24, int(n * scale)) for k, n in q.items()}, floor=0, need={})
                else:
                    c.CONFIG[p] = base[p]
                c.ENOUGH.clear()
                out = io.StringIO()
                with contextlib.redirect_stdout(out):
                    rc = c.check(p, False)
                if rc == 1 or (rc and scale == 1):
                    lines = [l.strip() for l in out.getvalue().splitlines()]
                    msg = next((l for l in lines if l and not l.startswith(("case", p, "VIOLATION", "inconclusive"))), lines[-1] if lines else "")
                    print("BY\t%s\t%s" % (p if rc == 1 else "%s no answer (%d)" % (p, rc), msg[:200]))
                    return
        print("BY\tnothing\t")
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

def check(pkg):
    exe = mut()
    d = load(pkg)
    v = tempfile.mkdtemp(prefix="mutv-", dir="/tmp")
    subprocess.check_call(f"cp -a {VERIF}/check.py {VERIF}/tools {VERIF}/harness {VERIF}/known_findings.json {v}/", shell=True)
    todo = [k for k in d if d[k]["status"] == "builds" and "by" not in d[k]]
    limit = int(os.environ.get("N", "100000"))
    random.Random(7).shuffle(todo)
    def go(k):
        t = tree()
        t0 = time.time()
        try:
            subprocess.check_call([exe, "apply", os.path.join(t, pkg), k])
            rc, out = sh([sys.executable, os.path.join(v, "tools", "mutate.py"), "one", pkg, t], v, 3000)
            m = [l for l in out.splitlines() if l.startswith("BY\t")]
            by, msg = m[-1].split("\t")[1:3] if m else ("no answer (%s)" % rc, out[-200:])
            if by == "nothing":
                rc, out = sh("ulimit -v 14000000; go test -vet=off -count=1 -timeout 100s ./... ", t, 160)
                if rc:
                    by = "only tests"
            return k, by, msg, time.time() - t0
        finally:
            shutil.rmtree(t, ignore_errors=True)
    with ThreadPoolExecutor(int(os.environ.get("J", "2"))) as ex:
        for k, by, msg, wall in ex.map(go, todo[:limit]):
            d[k].update(by=by, msg=msg)
            save(pkg, d)
            print(pkg, k, by, d[k]["file"], d[k]["line"], d[k]["desc"], "%.0fs" % wall, flush=True)
    shutil.rmtree(v, ignore_errors=True)

def report():
    for pkg in CHECKS:
        d = load(pkg)
        by = {}
        for k in d:
            s = d[k].get("by") or d[k]["status"]
            by[s] = by.get(s, 0) + 1
        print(pkg, by)
        for k in sorted(d, key=lambda k: (d[k]["file"], d[k]["line"])):
            if d[k].get("by", "").startswith("nothing") or "no answer" in d[k].get("by", ""):
                print("   ", k, d[k]["file"], d[k]["line"], d[k]["desc"], "" if d[k]["by"] == "nothing" else d[k]["by"], d[k].get("note", ""))

if __name__ == "__main__":
    if sys.argv[1] == "screen":
        screen(sys.argv[2], int(sys.argv[3]), int(sys.argv[4]) if len(sys.argv) > 4 else 1)
    elif sys.argv[1] == "one":
        one(sys.argv[2], sys.argv[3])
    elif sys.argv[1] == "check":
        check(sys.argv[2])
    else:
        report()
