#!/usr/bin/env python3
"""mutrun.py OUT LANES SECONDS [FILES...]: for every small source change that builds and passes the
tests, runs every check for SECONDS on one worker until one reports. Lines "ALIVE" are the survivors."""
import json, os, random, re, shutil, subprocess, sys, tempfile, threading, queue
out, lanes, secs = sys.argv[1], int(sys.argv[2]), float(sys.argv[3])
files = sys.argv[4:] or "stream.go frame.go dialect.go message.go x25.go util/udpreadwritecloser.go util/util.go".split()
sample = int(os.environ.get("SAMPLE", "0"))
checks = os.environ.get("CHECKS", "C01 C17 C04 C06 C07 C11 C08 C19 C09 C10 C02 C03 C05 C12 C13 C14 C15 C18 C20 C22 C23").split()
muts = [json.loads(l) for l in subprocess.run(["/tmp/mutate"] + files, cwd="/repo", capture_output=True, text=True).stdout.splitlines()]
if os.environ.get("DONE"):  # leave out what an earlier output file lists
    done = {l.split(" ", 1)[1].split(" | ")[0].strip() for l in open(os.environ["DONE"]) if " " in l}
    muts = [m for m in muts if ("%s:%d %s" % (m["f"], m["L"] if "L" in m else m["l"], m["d"])).strip() not in done]
if sample:
    random.Random(int(os.environ.get("SAMPLESEED", "1"))).shuffle(muts)
    muts = muts[:sample]
q = queue.Queue()
for m in muts:
    q.put(m)
lock = threading.Lock()
fo = open(out, "a")
stat = {}


def say(kind, m, extra=""):
    with lock:
        stat[kind] = stat.get(kind, 0) + 1
        fo.write("%s %s:%d %s %s\n" % (kind, m["f"], m["L"] if "L" in m else m["l"], m["d"], extra))
        fo.flush()


def sh(cmd, timeout=300, **k):
    try:
        return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, errors="replace", **k)
    except subprocess.TimeoutExpired:
        return None


def lane(n):
    d = tempfile.mkdtemp(prefix="mut")
    repo, ver = d + "/repo", d + "/verif"
    sh(["cp", "-a", "/repo", repo])
    os.mkdir(ver)
    sh("cd /verif && tar cf - --exclude=./seeded --exclude=./.git --exclude=./evidence --exclude=./build/work-* . | (cd %s && tar xf -)" % ver, shell=True)
    script = d + "/run.sh"
    open(script, "w").write('''. /opt/vp/env.sh
mount --bind %s /repo; mount --bind %s /verif; cd /repo
case $1 in
test) go test -json -vet=off -count=1 -timeout 60s $(go list ./... | grep -v /cmd) ;;
build) bash /verif/build.sh plain ;;
run) exec /verif/build/simworker -check $2 -seed 1 -sites /verif/build/ov/sites.json -from 0 -to 4000000000 -budget-ms $3 -out %s/out.json -maxviol 1 ;;
esac
''' % (repo, ver, d))
    while True:
        try:
            m = q.get_nowait()
        except queue.Empty:
            break
        src = open("/repo/" + m["f"], "rb").read()
        new = src[:m["a"]] + m["s"].encode() + src[m["b"]:]
        try:
            open(repo + "/" + m["f"], "wb").write(new)
            if sh(". /opt/vp/env.sh; cd %s && go build ./ ./util ./common ./%s" % (repo, os.path.dirname(m["f"]) or "util"), shell=True).returncode != 0:
                stat["nobuild"] = stat.get("nobuild", 0) + 1
                continue
            r = sh(["timeout", "-k", "1", "120", "unshare", "-Urmn", "bash", script, "test"])
            ok = set()
            for l in (r.stdout if r else "").splitlines():
                try:
                    e = json.loads(l)
                except ValueError:
                    continue
                if e.get("Action") == "pass" and e.get("Test"):
                    ok.add(e["Test"])
            if not BASE <= ok:
                stat["tests"] = stat.get("tests", 0) + 1
                continue
            r = sh(["unshare", "-Urm", "bash", script, "build"])
            if r is None or r.returncode != 0:
                say("SIMBUILD", m, (r.stdout if r else "")[-300:])
                continue
            hit = None
            for c in checks:
                try:
                    os.unlink(d + "/out.json")
                except OSError:
                    pass
                r = sh(["timeout", "-k", "1", "60", "unshare", "-Urm", "bash", script, "run", c, str(int(secs * 1000))])
                if r is None or r.returncode != 0:
                    x = "" if r is None else r.stdout
                    hit = c + " rc=%s %s" % (r and r.returncode, " ".join(x.split())[:100])
                    break
                o = json.load(open(d + "/out.json"))
                if o["viol"]:
                    v = json.dumps(o["viol"][0])
                    mm = re.search(r'"(?:what|kind|msg|detail)": ?"([^"]*)"', v)
                    hit = c + " " + (mm.group(1) if mm else v[:120])
                    break
            say("KILLED" if hit else "ALIVE", m, "| " + (hit or "")[:160])
        finally:
            open(repo + "/" + m["f"], "wb").write(src)
    shutil.rmtree(d)


BASE = set()
d0 = sh("bash -c '. /opt/vp/env.sh; cd /repo; go test -json -vet=off -count=1 $(go list ./... | grep -v /cmd)'", shell=True)
for l in d0.stdout.splitlines():
    try:
        e = json.loads(l)
    except ValueError:
        continue
    if e.get("Action") == "pass" and e.get("Test"):
        BASE.add(e["Test"])
print("tests", len(BASE), "mutants", len(muts))
ts = [threading.Thread(target=lane, args=(i,)) for i in range(lanes)]
[t.start() for t in ts]
[t.join() for t in ts]
fo.write("END %s\n" % stat)
