#!/usr/bin/env python3
"""Trial changes: probe.py FILE [NAME...] applies the edits of P("name", "pkg", [(file, scope, old, new)...]) in FILE
to scratch copies of /repo and prints which check of the package notices (no demonstration needed)."""
import os, runpy, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import mutate
from plant import apply_edits

def main():
    probes = []
    names = sys.argv[2:]
    runpy.run_path(sys.argv[1], {"P": lambda name, pkg, edits: probes.append((name, pkg, edits))})
    v = tempfile.mkdtemp(prefix="mutv-", dir="/tmp")
    subprocess.check_call(f"cp -a {mutate.VERIF}/check.py {mutate.VERIF}/tools {mutate.VERIF}/harness {mutate.VERIF}/known_findings.json {v}/", shell=True)
    def go(p):
        name, pkg, edits = p
        t = mutate.tree()
        try:
            try:
                apply_edits(t, edits)
            except (SystemExit, ValueError) as e:
                return name, "bad edit: %s" % e, ""
            rc, out = mutate.sh("go build ./... && go vet ./" + pkg, t, 120)
            if rc:
                return name, "no build", out[:300]
            rc, out = mutate.sh([sys.executable, os.path.join(v, "tools", "mutate.py"), "one", pkg, t], v, 3000)
            m = [l for l in out.splitlines() if l.startswith("BY\t")]
            by, msg = m[-1].split("\t")[1:3] if m else ("no answer (%s)" % rc, out[-300:])
            if by == "nothing":
                rc, out = mutate.sh("ulimit -v 14000000; go test -vet=off -count=1 -timeout 100s ./... ", t, 160)
                if rc:
                    by = "only tests"
            return name, by, msg
        finally:
            shutil.rmtree(t, ignore_errors=True)
    with ThreadPoolExecutor(int(os.environ.get("J", "2"))) as ex:
        for name, by, msg in ex.map(go, [p for p in probes if not names or p[0] in names]):
            print("%-22s %-8s %s" % (name, by, msg), flush=True)
    shutil.rmtree(v, ignore_errors=True)
main()
