#!/usr/bin/env python3
"""Runs the seeded simulation that decides one property.

check.py ID            explore (VERIF_SEED, VERIF_TIER=quick|thorough)
check.py --replay FILE replay a recorded violation
Exit 0: held on everything explored. 1: VIOLATION line. 2: no answer.
"""
import fcntl, json, os, re, shutil, signal, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
BUILD = os.path.join(HERE, "build")
WORKER = os.path.join(BUILD, "simworker")
SITES = os.path.join(BUILD, "ov", "sites.json")
sys.path.insert(0, HERE)
from checkinfo import INFO, REAL, STUB, ASSUME

CRASH = re.compile(r"^(panic: |fatal error: |SIGSEGV|unexpected fault|runtime: goroutine stack exceeds)", re.M)


def log(*a):
    print(*a, flush=True)


def build(target):
    with open(os.path.join(HERE, ".build.lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        r = subprocess.run(["bash", os.path.join(HERE, "build.sh"), target], capture_output=True, text=True)
    if r.returncode != 0:
        log("the simulator could not be built from /repo's working tree:")
        log(r.stdout[-3000:], r.stderr[-6000:])
        sys.exit(2)


def run_one(args, timeout=120, env=None):
    """Runs a worker to its end. Returns (rc, stdout, stderr); rc None on timeout.
    The worker's stderr is a file, in which it finds the race detector's reports."""
    with tempfile.TemporaryFile("w+", errors="replace") as ef:
        try:
            r = subprocess.run(args, stdout=subprocess.PIPE, stderr=ef, text=True, timeout=timeout, env=env, errors="replace")
        except subprocess.TimeoutExpired:
            return None, "", ""
        ef.seek(0)
        return r.returncode, r.stdout, ef.read()


def summary_of_crash(err):
    m = CRASH.search(err)
    ls = err[m.start():].splitlines() if m else err.splitlines()
    head = ls[0][:300] if ls else "?"
    fr = [l.strip().split(" +0x")[0] for l in ls if l.startswith("\t") and ("/repo/" in l or "go-mavlink2" in l)][:4]
    return head + (" at " + " < ".join(fr) if fr else "")


class Check:
    def __init__(self, pid):
        self.id = pid
        self.info = INFO[pid]
        self.seed = int(os.environ.get("VERIF_SEED", "1") or "1")
        self.tier = os.environ.get("VERIF_TIER", "quick") or "quick"
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.n = min(8, os.cpu_count() or 8)
        self.deep = ["-deep"] if self.tier == "thorough" else []
        b = os.environ.get("VERIF_BUDGET_S")
        self.budget = int(b) if b else self.info["budget"][0 if self.tier == "quick" else 1]
        self.dir = os.path.join(BUILD, "work-%s-%d" % (pid, os.getpid()))
        self.notes = []
        self.fresh_runs = 0
        self.crashes = []
        self.env = dict(os.environ)
        self.race = self.info.get("race", False)
        self.worker = WORKER + ("-race" if self.race else "")
        if self.race:
            self.env["GORACE"] = "halt_on_error=0 exitcode=0 atexit_sleep_ms=0"

    def base(self):
        return [self.worker, "-check", self.id, "-seed", str(self.seed), "-sites", SITES] + self.deep

    def bad_exit(self, rc, err):
        if rc is None:
            return "hang"
        if rc != 0 and CRASH.search(err):
            return "crash"
        return None

    def confirm_single(self, idx):
        """Runs one index alone, twice. Returns (kind, detail) when both end badly."""
        kinds = []
        for _ in range(2):
            rc, out, err = run_one(self.base() + ["-from", str(idx), "-to", str(idx + 1), "-out", os.path.join(self.dir, "single.json")], 150, self.env)
            k = self.bad_exit(rc, err)
            kinds.append((k, summary_of_crash(err) if k == "crash" else "one simulated run does not end (150 s)"))
        if kinds[0][0] and kinds[1][0]:
            return kinds[0]
        return None, None

    def explore(self):
        os.makedirs(self.dir, exist_ok=True)
        t0 = time.time()
        span = 1 << 32
        outs, viol = [], None
        state = []
        fresh = self.info.get("fresh", 0)  # workers that run every plan in a new process
        for k in range(self.n):
            state.append({"k": k, "next": k * span, "part": 0, "proc": None, "fresh": k >= self.n - fresh})

        def start(s, left):
            s["part"] += 1
            s["first"] = s["next"]
            tag = "%d.%d" % (s["k"], s["part"])
            s["out"] = os.path.join(self.dir, "out" + tag)
            s["prog"] = os.path.join(self.dir, "prog" + tag)
            s["hash"] = os.path.join(self.dir, "hash" + tag)
            s["err"] = open(os.path.join(self.dir, "err" + tag), "w+", errors="replace")
            cmd = self.base() + ["-from", str(s["next"]), "-to", str(s["next"] + 1 if s["fresh"] else (s["k"] + 1) * span), "-budget-ms", str(int(left * 1000)),
                                 "-out", s["out"], "-progress", s["prog"], "-hashes", s["hash"], "-selfcheck", str(self.info.get("selfcheck", 97))]
            s["proc"] = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=s["err"], env=self.env, start_new_session=True)
            s["dead"] = time.time() + left + 90

        def stop(s):
            if s["proc"] is not None:
                try:
                    os.killpg(s["proc"].pid, signal.SIGKILL)
                except OSError:
                    pass
                s["proc"].wait()
                s["proc"] = None

        for s in state:
            start(s, self.budget)
        try:
            while viol is None and any(s["proc"] for s in state):
                time.sleep(0.005 if fresh else 0.05)
                for s in state:
                    p = s["proc"]
                    if p is None:
                        continue
                    rc = p.poll()
                    if rc is None:
                        if time.time() < s["dead"]:
                            continue
                        stop(s)
                    s["proc"] = None
                    if rc == 0:
                        o = json.load(open(s["out"]))
                        outs.append(o)
                        if o["viol"]:
                            viol = ("plan", o["viol"][0], s["first"])
                            break
                        if s["fresh"]:
                            self.fresh_runs += o["runs"]
                            s["err"].close()
                            for x in ("out", "prog"):
                                os.path.exists(s[x]) and os.unlink(s[x])
                            s["next"] += 1
                            left = self.budget - (time.time() - t0)
                            if left > 0:
                                start(s, left)
                        continue
                    s["err"].seek(0)
                    err = s["err"].read()
                    kind = self.bad_exit(rc, err)
                    try:
                        idx = int(open(s["prog"]).read().strip() or s["next"])
                    except (OSError, ValueError):
                        idx = s["next"]
                    if kind is None:
                        log("worker %d ended with %s: %s" % (s["k"], rc, err[-2000:]))
                        self.notes.append("worker ended with %s" % rc)
                        continue
                    k2, detail = self.confirm_single(idx)
                    if k2:
                        viol = ("index", {"index": idx, "kind": k2, "detail": detail})
                        break
                    self.notes.append("worker %d ended with %s at run %d, which a fresh process does not repeat: %s" % (s["k"], kind, idx, summary_of_crash(err)))
                    s["next"] = idx + 1
                    left = self.budget - (time.time() - t0)
                    if left > 5:
                        start(s, left)
        finally:
            for s in state:
                stop(s)
        self.wall = time.time() - t0
        # A worker that was stopped has written nothing; only finished ones count.
        self.outs = outs
        return viol

    def replay_dir(self):
        d = os.path.join(HERE, "evidence", "replays")
        os.makedirs(d, exist_ok=True)
        return d

    def path_for(self, index):
        return os.path.join(self.replay_dir(), "%s-seed%d-run%d.json" % (self.id, self.seed, index))

    def report_plan(self, fv, first):
        """Confirms a violation by replay in a fresh process, minimises it and
        writes the replay file."""
        raw = os.path.join(self.dir, "raw.json")
        plan = fv["plan"]
        json.dump(plan, open(raw, "w"))
        if not self.reproduces(raw):
            q, rc = None, None
            # The decisions do not reproduce it; the seed must.
            rc, out, err = run_one([self.worker, "-check", self.id, "-seed", str(self.seed), "-from", str(fv["index"]), "-plan"] + self.deep, 60, self.env)
            open(raw, "w").write(out)
            if not self.reproduces(raw):
                return self.report_history(fv, first)
        small = os.path.join(self.dir, "small.json")
        final = raw
        cmd = [self.worker, "-minimise", raw, "-out", small, "-budget-ms", "40000"]
        if self.race:
            cmd += ["-external", os.path.join(self.dir, "min")]
        rc, out, err = run_one(cmd, 120, self.env)
        if rc == 0 and os.path.exists(small) and self.reproduces(small):
            final = small
        path = self.path_for(fv["index"])
        shutil.copyfile(final, path)
        rc, out, err = run_one([self.worker, "-replay", path, "-sites", SITES], 120, self.env)
        return path, [l for l in out.splitlines() if l.startswith("VIOL")]

    def reproduces(self, path):
        for _ in range(2):
            rc, out, err = run_one([self.worker, "-replay", path], 150, self.env)
            if rc != 0 or not re.search(r"^VIOL %s " % self.id, out, re.M):
                return False
        return True

    def history_cmd(self, seed, first, last):
        return [self.worker, "-check", self.id, "-seed", str(seed), "-from", str(first), "-to", str(last + 1), "-maxviol", "1"] + self.deep

    def report_history(self, fv, first):
        """A violation that needs what earlier runs left behind in the library's
        global state: the replay file names the runs that lead to it."""
        last = fv["index"]
        for n in (2, 10, 100, 1000, None):
            if n and last - n + 1 < first:
                n = None
            a = first if n is None else last - n + 1
            ok = 0
            for _ in range(2):
                rc, out, err = run_one(self.history_cmd(self.seed, a, last), 200, self.env)
                try:
                    o = json.loads(out)
                except ValueError:
                    break
                if not o["viol"]:
                    break
                ok += 1
            if ok == 2:
                path = self.path_for(last)
                json.dump({"property": self.id, "history": {"seed": self.seed, "from": a, "to": last, "deep": bool(self.deep)}, "violation": fv["v"], "plan": fv["plan"]}, open(path, "w"))
                return path, ["VIOL %s (after the runs from %d on in the same process) %s: %s" % (self.id, a, fv["v"]["class"], fv["v"]["detail"])]
            if n is None:
                return None

    def report_index(self, v):
        rc, out, err = run_one([self.worker, "-check", self.id, "-seed", str(self.seed), "-from", str(v["index"]), "-plan"] + self.deep, 60, self.env)
        path = self.path_for(v["index"])
        open(path, "w").write(out)
        if v["kind"] == "crash":
            small = os.path.join(self.dir, "small.json")
            rc, out, err = run_one([self.worker, "-minimise", path, "-out", small, "-budget-ms", "30000", "-external", os.path.join(self.dir, "min")], 120, self.env)
            if rc == 0 and os.path.exists(small):
                ks = [self.bad_exit(*run_one([self.worker, "-replay", small], 150, self.env)[::2]) for _ in range(2)]
                if ks == ["crash", "crash"]:
                    shutil.copyfile(small, path)
        return path

    def main(self):
        build("race" if self.race else "plain")
        known_findings(self.id)
        rc = 0
        try:
            v = self.explore()
            if v is None and not self.outs:
                log("no worker finished: %s" % self.notes)
                rc = 2
            elif v is not None:
                if v[0] == "plan":
                    r = self.report_plan(v[1], v[2])
                    if r is None:
                        log("a violation was seen but replaying it shows none: %s" % json.dumps(v[1]["v"]))
                        rc = 2
                    else:
                        path, lines = r
                        for l in lines or ["VIOL %s" % v[1]["v"]]:
                            log(l)
                        log("seed %d run %d; replay with: %s --replay %s" % (self.seed, v[1]["index"], sys.argv[0], path))
                        log("VIOLATION property=%s replay=%s" % (self.id, path))
                        rc = 1
                else:
                    path = self.report_index(v[1])
                    log("VIOL %s %s: %s" % (self.id, v[1]["kind"], v[1]["detail"]))
                    log("seed %d run %d" % (self.seed, v[1]["index"]))
                    log("VIOLATION property=%s replay=%s" % (self.id, path))
                    rc = 1
            self.evidence(rc)
        finally:
            shutil.rmtree(self.dir, ignore_errors=True)
        return rc

    def evidence(self, rc):
        tot = {k: 0 for k in ("runs", "sim_ns", "steps", "switches", "preempts", "events", "replayed")}
        faults, reach, samples, hits, div = {}, {}, [], set(), []
        wall = 0
        for o in self.outs:
            for k in tot:
                tot[k] += o[k]
            for k, n in (o["faults"] or {}).items():
                faults[k] = faults.get(k, 0) + n
            for k, n in (o["reach"] or {}).items():
                reach[k] = reach.get(k, 0) + n
            if len(samples) < 3:
                samples += (o["samples"] or [])[:1]
            hits |= set(o["hits"] or [])
            div += o["diverged"] or []
            wall = max(wall, o["wall_ns"] / 1e9)
        distinct = 0
        files = [os.path.join(self.dir, f) for f in os.listdir(self.dir) if f.startswith("hash")]
        if files:
            r, out, err = run_one([self.worker, "-count"] + files, 300)
            distinct = int(out.strip() or 0)
        sites = []
        try:
            sites = json.load(open(SITES))
        except (OSError, ValueError):
            pass
        lib = [i for i, s in enumerate(sites) if s and ("/" not in s.split(":")[0] or s.startswith("util/"))]
        wall = wall or self.wall
        cov = {
            "evaluations": tot["runs"],
            "distinct_nontrivial": distinct,
            "rule": "one evaluation is one simulated execution of the plan generated from (seed, run index): " + self.info["rule"] +
                    " Distinct: different hash over the sequence of (goroutine, statement) pairs at every context switch. Non-trivial: more than four context switches.",
            "samples": samples,
            "runs_per_hour": int(tot["runs"] / max(wall, 1e-9) * 3600),
            "seeds": {"VERIF_SEED": self.seed, "run_seeds": tot["runs"], "workers": self.n, "runs_in_a_process_of_their_own": self.fresh_runs},
            "simulated_seconds": round(tot["sim_ns"] / 1e9, 3),
            "statements_executed": tot["steps"],
            "context_switches": tot["switches"],
            "preemptions_injected": tot["preempts"],
            "recorded_events": tot["events"],
            "faults_and_inputs_injected": dict(sorted(faults.items())),
            "states_reached": dict(sorted(reach.items())),
            "distinct_interleavings": distinct,
            "instrumented_statements_executed": {"library": len([i for i in lib if i in hits]), "library_total": len(lib), "all": len(hits), "all_total": len(sites)},
            "determinism_self_check": {"runs_replayed_from_their_recorded_decisions": tot["replayed"], "diverged": len(div)},
            "real_components": self.info.get("real", REAL),
            "stubbed_components": self.info.get("stub", STUB),
        }
        if self.notes:
            cov["notes"] = self.notes
        ev = {"property": self.id, "tier": self.tier, "seed": self.seed, "level": "exploration", "coverage": cov,
              "assumptions": ASSUME + self.info.get("assume", []), "wall_s": round(self.wall, 2), "violations": 1 if rc == 1 else 0}
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", self.id + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        log("%s: %d runs, %d distinct interleavings, %.0f simulated seconds, %d replayed, %d diverged, %.1f s" %
            (self.id, tot["runs"], distinct, tot["sim_ns"] / 1e9, tot["replayed"], len(div), self.wall))


def known_findings(pid):
    try:
        for l in open(os.path.join(HERE, "known_findings.txt")):
            m = re.match(r"known: property=(\S+) (.*)", l)
            if m and m.group(1) == pid:
                log("KNOWN-FINDING: property=%s %s" % (pid, m.group(2)))
    except OSError:
        pass


def replay(path):
    plan = json.load(open(path))
    pid = plan["property"]
    c = Check(pid)
    build("race" if c.race else "plain")
    if "history" in plan:
        h = plan["history"]
        c.deep = ["-deep"] if h.get("deep") else []
        rc, out, err = run_one(c.history_cmd(h["seed"], h["from"], h["to"]), 300, c.env)
        o = json.loads(out)
        for v in o["viol"] or []:
            log("VIOL %s %s: %s" % (pid, v["v"]["class"], v["v"]["detail"]))
        if o["viol"]:
            log("VIOLATION property=%s replay=%s" % (pid, path))
            return 1
        return 0
    rc, out, err = run_one([c.worker, "-replay", path, "-v", "-sites", SITES], 300, c.env)
    sys.stdout.write(out)
    bad = c.bad_exit(rc, err)
    if bad:
        log(err[:8000])
    if bad or re.search(r"^VIOL %s " % pid, out, re.M):
        log("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    return 0 if rc == 0 else 2


if __name__ == "__main__":
    if len(sys.argv) == 3 and sys.argv[1] == "--replay":
        sys.exit(replay(sys.argv[2]))
    if len(sys.argv) != 2 or sys.argv[1] not in INFO:
        log(__doc__)
        sys.exit(2)
    sys.exit(Check(sys.argv[1]).main())
