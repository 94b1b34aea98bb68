#!/usr/bin/env python3
"""Writes, confirms and checks the planted bugs under /verif/seeded.

  plant.py write [ID...]     write seeded/<id>/ from tools/bugs*.py (against /repo's HEAD)
  plant.py confirm [ID...]   in scratch worktrees: builds, stable tests pass, demo tells the trees apart
  plant.py check [ID...]     run the property's check against each planted bug
"""
import glob, importlib, json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(VERIF, "seeded")
sys.path.insert(0, os.path.join(VERIF, "tools"))
BUGS = {}

UTIL = '''package main

import (
	"fmt"
	"os"
	"time"
)

func fail(format string, args ...interface{}) {
	fmt.Printf("BROKEN: "+format+"\\n", args...)
	os.Exit(1)
}

// within reports whether f ended within a generous time.
func within(f func()) bool {
	done := make(chan struct{})
	go func() { defer close(done); f() }()
	select {
	case <-done:
		return true
	case <-time.After(20 * time.Second):
		return false
	}
}

// panics returns what f panics with.
func panics(f func()) (p interface{}) {
	defer func() { p = recover() }()
	f()
	return nil
}
'''
DEMO = '''#!/bin/bash
# exit 0: the property holds here; nonzero: it is broken
export HOME=/root PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOPATH=/root/go GOENV=off GOWORK=off GOTOOLCHAIN=local GOSUMDB=off GOPROXY=off GOFLAGS=-mod=readonly
here=$(cd "$(dirname "$0")" && pwd)
%sexec timeout 250 go run %s"$here/main.go" "$here/util.go"
'''

def B(id, prop, edits, needs, breaks, demo, race=False, procs=None, imports=()):
    """edits: [(file, within or None, old, new)]"""
    for i in imports:
        demo = demo.replace('import (\n', 'import (\n\t"%s"\n' % i, 1)
    BUGS[id] = dict(prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo, race=race, procs=procs)

def load():
    for f in sorted(glob.glob(os.path.join(VERIF, "tools", "bugs*.py"))):
        importlib.import_module(os.path.basename(f)[:-3])

def sh(cmd, cwd=None, timeout=900, env=None):
    p = subprocess.run(cmd, cwd=cwd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, env=env)
    return p.returncode, p.stdout

def goenv():
    e = dict(os.environ)
    e.update(HOME="/root", GOPATH="/root/go", GOENV="off", GOWORK="off", GOTOOLCHAIN="local", GOSUMDB="off", GOPROXY="off", GOFLAGS="-mod=readonly")
    return e

class Tree:
    def __enter__(self):
        self.dir = tempfile.mkdtemp(prefix="plant-", dir="/tmp")
        sh(f"git -C /repo archive HEAD | tar -x -C {self.dir} && cd {self.dir} && git init -q && git add -A && git -c user.name=x -c user.email=x@x commit -qm x")
        return self.dir
    def __exit__(self, *a):
        shutil.rmtree(self.dir, ignore_errors=True)

def apply_edits(d, edits):
    for file, scope, old, new in edits:
        p = os.path.join(d, file)
        s = open(p).read()
        lo, hi = 0, len(s)
        if scope:
            lo = s.index(scope)
            m = re.compile(r"^}\n", re.M).search(s, lo)
            hi = m.end()
        part = s[lo:hi]
        if part.count(old) != 1:
            raise SystemExit("%s: %d matches of %r in %r" % (file, part.count(old), old, scope))
        open(p, "w").write(s[:lo] + part.replace(old, new) + s[hi:])

def write(id):
    b = BUGS[id]
    out = os.path.join(SEEDED, id)
    os.makedirs(out, exist_ok=True)
    with Tree() as t:
        apply_edits(t, b["edits"])
        rc, diff = sh("gofmt -l . | grep -v _test; git diff", cwd=t)
        i = diff.index("diff --git")
        open(os.path.join(out, "patch.diff"), "w").write(diff[i:])
    main = b["demo"]
    open(os.path.join(out, "main.go"), "w").write(main)
    open(os.path.join(out, "util.go"), "w").write(UTIL)
    demo = os.path.join(out, "demo.sh")
    open(demo, "w").write(DEMO % ("export GOMAXPROCS=%d\n" % b["procs"] if b["procs"] else "", "-race " if b["race"] else ""))
    os.chmod(demo, 0o755)
    json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(os.path.join(out, "meta.json"), "w"), indent=1)
    # the changed lines must be original ones
    return "written"

def stable():
    d = json.load(open("/opt/vp/BASELINE.json"))
    for k in ("stable", "stable_pass", "passed", "pass", "tests"):
        if k in d:
            return set(d[k])
    raise SystemExit("BASELINE.json: " + str(list(d)))

def demo(id, t):
    tmp = tempfile.mkdtemp(prefix="demo-", dir="/tmp")
    try:
        for f in os.listdir(os.path.join(SEEDED, id)):
            if not f.endswith((".diff", ".json")):
                shutil.copy(os.path.join(SEEDED, id, f), tmp)
        t0 = time.time()
        rc, out = sh(["bash", os.path.join(tmp, "demo.sh")], cwd=t)
        return rc, out, time.time() - t0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

def confirm(id):
    with Tree() as t:
        good = [demo(id, t) for _ in range(2)]
        rc, out = sh(["git", "apply", os.path.join(SEEDED, id, "patch.diff")], cwd=t)
        if rc:
            return "does not apply: " + out
        rc, out = sh("go build ./... && go vet -copylocks=false ./... 2>&1 | head -5", cwd=t, env=goenv())
        if rc:
            return "does not build: " + out
        fails = []
        for k in range(2):
            rc, out = sh("go test -vet=off -count=1 ./...", cwd=t, env=goenv())
            if rc:
                fails.append(out[-600:])
        bad = [demo(id, t) for _ in range(3)]
    r = []
    if fails:
        r.append("TESTS FAIL " + fails[0])
    if any(g[0] for g in good):
        r.append("DEMO FAILS ON THE UNCHANGED TREE " + good[0][1][-400:])
    if not all(b[0] for b in bad):
        r.append("DEMO PASSES WITH THE BUG (%d of 3)" % sum(1 for b in bad if not b[0]))
    return "; ".join(r) if r else "ok (%.0fs, %.0fs) %s" % (max(g[2] for g in good), max(b[2] for b in bad), (bad[0][1].strip().splitlines() or [""])[0][:110])

def check(id, props=None):
    meta = json.load(open(os.path.join(SEEDED, id, "meta.json")))
    res = []
    with Tree() as t:
        rc, out = sh(["git", "apply", os.path.join(SEEDED, id, "patch.diff")], cwd=t)
        if rc:
            return "does not apply"
        for p in props or [meta["property"]]:
            e = dict(os.environ, VERIF_REPO=t, VERIF_TIER="quick", VERIF_SEED=os.environ.get("VERIF_SEED", "1"))
            v = tempfile.mkdtemp(prefix="vcopy-", dir="/tmp")
            try:
                sh(f"cp -a {VERIF}/check.py {VERIF}/tools {VERIF}/harness {VERIF}/known_findings.json {v}/")
                rc, out = sh([sys.executable, os.path.join(v, "check.py"), p], cwd=v, env=e, timeout=1800)
            finally:
                shutil.rmtree(v, ignore_errors=True)
            lines = [l.strip() for l in out.splitlines()]
            msg = next((l for l in lines if l and not l.startswith(("case", p, "VIOLATION", "inconclusive"))), "")
            res.append("%s: %s %s" % (p, {0: "MISSED", 1: "caught"}.get(rc, "NO ANSWER"), msg[:150] if rc == 1 else out[-300:] if rc else ""))
    return " | ".join(res)

def main():
    load()
    cmd, ids = sys.argv[1], sys.argv[2:]
    props = None
    if "--props" in ids:
        k = ids.index("--props")
        props, ids = ids[k + 1].split(","), ids[:k]
    ids = ids or (sorted(BUGS) if cmd == "write" else sorted(os.listdir(SEEDED)))
    f = {"write": write, "confirm": confirm, "check": lambda i: check(i, props)}[cmd]
    with ThreadPoolExecutor(int(os.environ.get("J", "3" if cmd != "check" else "1"))) as ex:
        for id, r in zip(ids, ex.map(f, ids)):
            print(id, r, flush=True)

if __name__ == "__main__":
    sys.modules["plant"] = sys.modules["__main__"]
    main()
