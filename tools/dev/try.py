#!/usr/bin/env python3
"""try.py FILE [BUDGET] [ONLY...]: FILE sets BUGS = {id: (checks, [(file, old, new), ...])}. Runs the
checks on a copy of /repo with each change (after the repository's tests) and prints what they say."""
import json, os, subprocess, sys, tempfile, shutil
ns = {}
exec(open(sys.argv[1]).read(), ns)
budget = sys.argv[2] if len(sys.argv) > 2 else "40"
only = sys.argv[3:]
for k, (checks, edits) in ns["BUGS"].items():
    if only and k not in only:
        continue
    d = tempfile.mkdtemp(prefix="try")
    try:
        r = d + "/repo"
        subprocess.run(["git", "clone", "-q", "/repo", r], check=True)
        bad = None
        for f, old, new in edits:
            s = open(r + "/" + f).read()
            if s.count(old) != 1:
                bad = "%s: %d times %r" % (f, s.count(old), old[:60])
            open(r + "/" + f, "w").write(s.replace(old, new))
        if bad:
            print(k, "BAD", bad, flush=True)
            continue
        t = subprocess.run(["unshare", "-Urmn", "bash", "-c", ". /opt/vp/env.sh; mount --bind %s /repo; bash /opt/vp/build.sh && bash /opt/vp/test.sh %s/t.json" % (r, d)], capture_output=True, text=True)
        try:
            res = json.load(open(d + "/t.json"))
        except Exception:
            res = None
        base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
        if res is None:
            print(k, "BUILD", (t.stdout + t.stderr)[-400:], flush=True)
            continue
        ok = set(res["passed"])
        if base - ok:
            print(k, "TESTS FAIL", sorted(base - ok)[:3], list(res)[:3], flush=True)
            if len(base - ok) < 16:
                continue
        p = d + "/" + k
        os.mkdir(p)
        open(p + "/patch.diff", "w").write(subprocess.run(["git", "diff"], cwd=r, capture_output=True, text=True).stdout)
        o = subprocess.run(["/verif/tools/dev/on.sh", p + "/patch.diff", budget] + checks.split(), capture_output=True, text=True)
        print(k, o.stdout.strip().replace("\n", "\n   "), o.stderr[-300:], flush=True)
    finally:
        shutil.rmtree(d, ignore_errors=True)
