#!/usr/bin/env python3
"""plant.py FILE...: makes /verif/seeded/<id>/ from a bug description and checks it.

A description is a Python file that sets id, property, edits [(file, old, new), ...],
demo (Go test source, uses tools/helper_test.go.txt unless helper = False; package
directory pkg, default "."), needs, breaks; race = True runs the demo with -race.
"""
import json, os, shutil, subprocess, sys, tempfile
V = "/verif"
DEMO = '''#!/bin/bash
# Exit 0 when the property holds in the case of demo_test.go.
here=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
repo=$(pwd)
ov=$(mktemp)
trap 'rm -f "$ov"' EXIT
echo "{\\"Replace\\": {%s}}" > "$ov"
timeout 250 go test -vet=off -count=1 -timeout 200s %s-overlay "$ov" -run '^TestDemo$' ./%s
'''


def sh(cmd, cwd, **k):
    return subprocess.run(cmd, cwd=cwd, shell=isinstance(cmd, str), capture_output=True, text=True, **k)


for path in sys.argv[1:]:
    b = {}
    exec(open(path).read(), b)
    pkg = b.get("pkg", ".")
    d = os.path.join(V, "seeded", b["id"])
    tmp = tempfile.mkdtemp(prefix="plant")
    work = os.path.join(tmp, "repo")
    try:
        sh(["git", "worktree", "prune"], "/repo")
        sh(["git", "clone", "-q", "/repo", work], "/")
        for f, old, new in b["edits"]:
            p = os.path.join(work, f)
            s = open(p).read()
            if s.count(old) != 1:
                sys.exit("%s: %s has %d times %r" % (b["id"], f, s.count(old), old))
            open(p, "w").write(s.replace(old, new))
        if sh("gofmt -l " + " ".join(sorted({e[0] for e in b["edits"]})), work).stdout:
            sh("gofmt -w " + " ".join(sorted({e[0] for e in b["edits"]})), work)
        diff = sh(["git", "diff"], work).stdout
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        files = []
        open(os.path.join(d, "demo_test.go"), "w").write(b["demo"].lstrip())
        files.append("demo_test.go")
        if b.get("helper", True):
            shutil.copy(os.path.join(V, "tools/helper_test.go.txt"), os.path.join(d, "helper_test.go"))
            files.append("helper_test.go")
        sub = "" if pkg == "." else pkg + "/"
        rep = ", ".join('\\"$repo/%szz_%s\\": \\"$here/%s\\"' % (sub, f, f) for f in files)
        open(os.path.join(d, "demo.sh"), "w").write(DEMO % (rep, "-race " if b.get("race") else "", pkg if pkg != "." else ""))
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
        # original lines?
        base = sh(["git", "rev-list", "--max-parents=0", "HEAD"], work).stdout.strip()
        orig = 0
        for f in sorted({e[0] for e in b["edits"]}):
            hunks = sh(["git", "diff", "-U0", "--", f], work).stdout
            bl = sh(["git", "blame", "-s", "-l", "HEAD", "--", f], work).stdout.splitlines()
            import re
            for m in re.finditer(r"^@@ -(\d+)(?:,(\d+))? ", hunks, re.M):
                a, n = int(m.group(1)), int(m.group(2) or 1)
                for i in range(a, a + n):
                    if bl[i - 1].lstrip("^").startswith(base[:39]):
                        orig += 1
        env = dict(os.environ)
        r = sh("bash -c '. /opt/vp/env.sh; go build $(go list -e ./... | grep -v /cmd) && go test -vet=off -count=1 ./... 2>&1'", work)
        bad = [l for l in r.stdout.splitlines() if l.startswith("--- FAIL") or "panic:" in l]
        want = sh("bash -c '. /opt/vp/env.sh; go test -vet=off -count=1 ./... 2>&1'", "/repo").stdout
        wbad = [l for l in want.splitlines() if l.startswith("--- FAIL") or "panic:" in l]
        key = lambda ls: sorted(l.split(" (")[0] for l in ls)
        ok = sh(["bash", os.path.join(d, "demo.sh")], "/repo")
        ko = [sh(["bash", os.path.join(d, "demo.sh")], work) for _ in range(2)]
        verdict = []
        if key(bad) != key(wbad) or "build failed" in r.stdout.replace("cmd [build failed]", "") or r.stderr.strip():
            verdict.append("tests: %s %s" % (key(bad), r.stderr[-500:]))
        if ok.returncode != 0:
            verdict.append("demo fails on the unchanged tree: " + (ok.stdout + ok.stderr)[-1500:])
        if any(k.returncode == 0 for k in ko):
            verdict.append("demo passes with the patch " + str([k.returncode for k in ko]))
        if any("build failed" in k.stdout for k in ko):
            verdict.append("demo does not build: " + ko[0].stdout[-800:])
        if not orig:
            verdict.append("no original line changed")
        print(b["id"], b["property"], "OK" if not verdict else "BAD " + "; ".join(verdict), "| fails with:", " ".join(ko[0].stdout.split())[:160])
    finally:
        shutil.rmtree(tmp)
