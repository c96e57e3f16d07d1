#!/usr/bin/env python3
"""check.py PROP quick|thorough        run the check of one property
   check.py replay FILE                 re-execute a replay file and print its trace
   check.py run PROP INDEX [--log]      execute one run (development aid)"""
import json, os, re, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "lib"))
import build as B
import props as P

SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
NPROC = int(os.environ.get("FDOSIM_WORKERS", "8"))
GODEBUG = "asyncpreemptoff=1,randseednop=0,cryptocustomrand=0"


def worker_env(scratch):
    e = {"PATH": "/usr/bin:/bin", "HOME": scratch, "GOMAXPROCS": "1", "GODEBUG": GODEBUG, "GOTRACEBACK": "all", "TMPDIR": scratch}
    return e


class Worker:
    def __init__(self, binp, scratch, name, job):
        self.name = name
        self.dir = os.path.join(scratch, name)
        os.makedirs(self.dir, exist_ok=True)
        self.out = os.path.join(self.dir, "out.jsonl")
        job = dict(job, out=self.out)
        self.job = job
        jp = os.path.join(self.dir, "job.json")
        json.dump(job, open(jp, "w"))
        env = worker_env(self.dir)
        env["FDOSIM_JOB"] = jp
        if os.environ.get("FDOSIM_DIFF"): env["FDOSIM_DIFF"] = os.environ["FDOSIM_DIFF"]
        self.errp = os.path.join(self.dir, "stderr")
        self.outp = os.path.join(self.dir, "stdout")
        self.p = subprocess.Popen([binp, "-test.run", "^TestWorker$", "-test.timeout", "0"], cwd=self.dir, env=env,
                                  stdout=open(self.outp, "w"), stderr=open(self.errp, "w"), start_new_session=True)
        self.t0 = time.time()
        self.lastsize = -1
        self.lastchange = time.time()
        self.hung = False

    def poll(self, stall):
        rc = self.p.poll()
        if rc is not None:
            return rc
        sz = os.path.getsize(self.errp) + (os.path.getsize(self.out) if os.path.exists(self.out) else 0)
        if sz != self.lastsize:
            self.lastsize, self.lastchange = sz, time.time()
        elif time.time() - self.lastchange > stall:
            self.hung = True
            self.p.send_signal(signal.SIGQUIT)
            try:
                self.p.wait(20)
            except subprocess.TimeoutExpired:
                self.p.kill()
                self.p.wait()
            return self.p.returncode
        return None

    def lines(self):
        if not os.path.exists(self.out):
            return []
        r = []
        for l in open(self.out):
            try:
                r.append(json.loads(l))
            except ValueError:
                pass
        return r

    def stderr(self):
        return open(self.errp, errors="replace").read()

    def stdout(self):
        return open(self.outp, errors="replace").read()


def wait_all(ws, stall=120, limit=None):
    t0 = time.time()
    while True:
        alive = [w for w in ws if w.poll(stall) is None]
        if not alive:
            return
        if limit and time.time() - t0 > limit:
            for w in alive:
                w.p.kill()
                w.p.wait()
            return
        time.sleep(0.05)


def abort_class(w):
    """What killed a worker, as a stable class, or None when it is the harness."""
    txt = w.stderr() + "\n" + w.stdout()
    if w.hung:
        return "process-hang", txt[-6000:]
    m = re.search(r"(?m)^(panic: .*|fatal error: .*)$", txt)
    if m is None:
        return "process-exit", txt[-3000:]
    head = m.group(1)
    if "deadlock: " in head or "harness:" in head:
        return None, txt[m.start():m.start() + 6000]
    rest = txt[m.start():]
    site = re.search(r"(?m)^(?:github\.com/fido-alliance/iot-fdo-conformance-tools|fdosim/fdomain)([^\s(]*[./][A-Za-z0-9_.()*]+)\(", rest)
    head = re.sub(r"0x[0-9a-f]+", "", head)
    return "process-abort " + (site.group(1).split("/")[-1] if site else head[:80]), rest[:6000]


def make_pool(binp, scratch):
    ws = [Worker(binp, scratch, "pool%d" % k, dict(mode="pool", seed=SEED, pool_part=k, pool_n=8, pool_per=2)) for k in range(8)]
    wait_all(ws, stall=120)
    paths = []
    for w in ws:
        p = w.out + ".pool"
        if w.p.returncode != 0 or not os.path.exists(p):
            return None, w
        paths.append(p)
    return paths, None


def load_known():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return json.load(open(p))["findings"]


def run_one(binp, scratch, name, job, limit=300):
    w = Worker(binp, scratch, name, job)
    wait_all([w], stall=120, limit=limit)
    ls = w.lines()
    return w, (ls[-1] if ls else None)


def shared_value(firsts):
    seen = {}
    for l in firsts:
        for v in l["values"]:
            if v in seen and seen[v] is not l:
                return seen[v], l, v
            seen[v] = l
    return None


def replay_pair(binp, scratch, job, runs):
    """The two runs in two fresh processes: a value both of them make, or None."""
    res = []
    for k, r in enumerate(runs):
        _, x = run_one(binp, scratch, "pair%d" % k, dict(job, run=r), limit=150)
        if not x:
            return None
        res.append(x)
    got = shared_value([dict(values=x.get("values") or []) for x in res])
    return got[2] if got else None


def with_history(binp, scratch, job, index, verify, good):
    """A violation that needs what earlier runs left in the process: the shortest
    series of earlier runs of the same worker after which it comes again."""
    first = index % NPROC
    total = (index - first) // NPROC
    counts = sorted(set([min(total, c) for c in (1, 8, 64)] + [total]))
    t0 = time.time()
    for n, c in enumerate(counts):
        if c < 1 or time.time() - t0 > 150:
            break
        b = dict(First=index - c * NPROC, Stride=NPROC, Count=c, Verify=verify if c == total else 0)
        run = dict(job["run"], choices=[], fixed=False)
        w, rep = run_one(binp, scratch, "hist%d-%d-%d" % (index, n, len(os.listdir(scratch))), dict(job, before=b, run=run), limit=150)
        if good(rep):
            job["run"] = run
            return b, rep
    return None, None


def write_replay(prop, tier, res, cls, extra):
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    path = os.path.join(VERIF, "replays", "%s-%s.json" % (prop, re.sub(r"[^A-Za-z0-9]+", "-", cls)[:60].strip("-")))
    d = dict(property=prop, tier=tier, violation_class=cls, pool_seed=SEED, **extra)
    if res:
        d["violations"] = res.get("violations")
        d["run"] = dict(run_seed=res["run_seed"], index=res["index"], choices=res.get("choices") or [], fixed="before" not in extra)
        d["log_hash"] = res.get("log_hash")
        d["trace"] = (res.get("log") or "").split("\n")[-1500:]
    json.dump(d, open(path, "w"), indent=1)
    return path


def check(prop, tier):
    t0 = time.time()
    conf = P.PROPS[prop]
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    evp = os.path.join(VERIF, "evidence", prop + ".json")
    scratch = tempfile.mkdtemp(prefix="fdosim-")
    try:
        try:
            binp = B.build()
        except B.BuildError as e:
            print("BUILD-ERROR:", e)
            return 2
        tb = time.time()
        pool, bad = make_pool(binp, scratch)
        if pool is None:
            # the generators themselves failed: devices and vouchers cannot be made
            cls, txt = abort_class(bad)
            print(txt)
            if cls and "panic" in txt and prop in ("C08", "C17"):
                path = write_replay(prop, tier, None, "pool " + cls, dict(detail=txt))
                print("VIOLATION property=%s replay=%s" % (prop, path))
                return 1
            return 3
        tp = time.time()
        known = [k for k in load_known() if k["property"] == prop]
        budget = conf.get(tier + "_s", 40 if tier == "quick" else 480)
        ov = os.environ.get("FDOSIM_BUDGET_S")
        if ov:
            budget = float(ov)
        base = dict(mode="search", prop=prop, tier=tier, seed=SEED, pool=pool, budget_ms=int(budget * 1000), stride=NPROC,
                    known=[k["class"] for k in known], verify=23)
        ws = [Worker(binp, scratch, "w%d" % k, dict(base, first=k)) for k in range(NPROC)]
        wait_all(ws, stall=150, limit=budget + 200)
        sums, viols, harness, aborts, firsts = [], [], [], [], []
        for w in ws:
            for l in w.lines():
                if l.get("first"):
                    firsts.append(l)
                elif l.get("summary"):
                    sums.append(l)
                elif l.get("harness"):
                    harness.append(l)
                elif l.get("violations"):
                    viols.append(l)
            if w.p.returncode != 0 or w.hung:
                m = re.findall(r"(?m)^run (\d+) seed (\d+)$", w.stderr())
                aborts.append((w, m[-1] if m else None))
        known_cls = {k["class"]: k for k in known}
        found = {}
        for r in viols:
            for v in r["violations"]:
                if v["class"] not in known_cls and v["class"] not in found:
                    found[v["class"]] = r
        out_viol = []
        trouble = []
        abort_known = {}
        for w, last in aborts:
            cls, txt = abort_class(w)
            if cls is None or last is None:
                trouble.append("worker died: " + txt[:1500] + "\n...\n" + txt[-1500:])
                continue
            if cls in known_cls:
                abort_known[cls] = abort_known.get(cls, 0) + 1
                continue
            if any(c == cls for c, _, _ in out_viol):
                continue
            job = dict(mode="replay", prop=prop, tier=tier, seed=SEED, pool=pool, run=dict(run_seed=int(last[1]), index=int(last[0]), choices=[], fixed=False))
            w2, _ = run_one(binp, scratch, "abort-" + w.name, job, limit=200)
            cls2, txt2 = (None, "") if (w2.p.returncode == 0 and not w2.hung) else abort_class(w2)
            if cls2 == cls:
                path = os.path.join(VERIF, "replays")
                os.makedirs(path, exist_ok=True)
                path = write_replay(prop, tier, None, cls, dict(detail=txt2, run=job["run"]))
                out_viol.append((cls, path, "server process aborts: " + txt2[:300]))
            else:
                trouble.append("worker died and the run does not repeat it (%s / %s): %s" % (cls, cls2, txt[-2500:]))
        for cls, r in list(found.items())[:4]:
            job = dict(mode="minimise", prop=prop, tier=tier, seed=SEED, pool=pool, budget_ms=25000 if tier == "quick" else 60000,
                       run=dict(run_seed=r["run_seed"], index=r["index"], choices=r["choices"], fixed=True), **{"class": cls})
            w, res = run_one(binp, scratch, "min-" + re.sub(r"\W+", "-", cls)[:40], job, limit=150)
            if not res or not any(v["class"] == cls for v in (res.get("violations") or [])):
                res = r
            # reproduce in a fresh process
            job = dict(mode="replay", prop=prop, tier=tier, seed=SEED, pool=pool,
                       run=dict(run_seed=res["run_seed"], index=res["index"], choices=res.get("choices") or [], fixed=True))
            w, rep = run_one(binp, scratch, "rep-" + re.sub(r"\W+", "-", cls)[:40], job, limit=150)
            if not rep or not any(v["class"] == cls for v in (rep.get("violations") or [])):
                trouble.append("violation %s did not reproduce in a fresh process" % cls)
                # fall back to the unminimised choices
                job["run"]["choices"] = r["choices"]
                w, rep = run_one(binp, scratch, "rep2-" + re.sub(r"\W+", "-", cls)[:40], job, limit=150)
                if not rep or not any(v["class"] == cls for v in (rep.get("violations") or [])):
                    job["before"], rep = with_history(binp, scratch, job, r["index"], base["verify"], lambda x: x is not None and any(v["class"] == cls for v in (x.get("violations") or [])))
                    if rep is None:
                        continue
                trouble.pop()
                res = r
            rep["choices"] = res.get("choices")
            path = write_replay(prop, tier, rep, cls, dict(before=job["before"]) if "before" in job else {})
            det = [v["detail"] for v in rep["violations"] if v["class"] == cls][0]
            out_viol.append((cls, path, det))
        pair = shared_value(firsts)
        if pair and "reused-across-processes" not in known_cls:
            a, b, v = pair
            runs2 = [dict(run_seed=x["run_seed"], index=x["index"], choices=[], fixed=False) for x in (a, b)]
            got = replay_pair(binp, scratch, dict(mode="replay", prop=prop, tier=tier, seed=SEED, pool=pool), runs2)
            if got:
                path = write_replay(prop, tier, None, "reused-across-processes", dict(pair=runs2, value=got))
                out_viol.append(("reused-across-processes", path, "two processes, started independently (runs %d and %d), made the same value: %s" % (a["index"], b["index"], got[:200])))
            else:
                trouble.append("the same value in runs %d and %d, not repeated: %s" % (a["index"], b["index"], v[:200]))
        hits = {}
        for s in sums:
            for k, v in (s.get("known_hits") or {}).items():
                hits[k] = hits.get(k, 0) + v
        for k, v in abort_known.items():
            hits[k] = hits.get(k, 0) + v
        for k in known:
            print("KNOWN-FINDING: property=%s %s (%s; met %d times in this run)" % (prop, k["what"], k["class"], hits.get(k["class"], 0)))
        # ---- evidence
        agg = lambda f: sum(s.get(f) or 0 for s in sums)
        stats, notes, ends = {}, {}, {}
        dist, sigs = set(), set()
        mism = []
        for s in sums:
            for k, v in (s["stats"] or {}).items():
                stats[k] = stats.get(k, 0) + v
            for k, v in (s["notes"] or {}).items():
                notes[k] = notes.get(k, 0) + v
            for k, v in (s["end_errs"] or {}).items():
                ends[k] = ends.get(k, 0) + v
            dist.update(s["distinct"] or [])
            sigs.update(s["sigs"] or [])
            mism += s.get("mismatch") or []
        wall = max([s["wall_ms"] for s in sums] + [1]) / 1000.0
        runs = agg("runs")
        cov = dict(evaluations=agg("evals"), distinct_nontrivial=len(dist), rule=conf["rule"],
                   samples=["run index %d = seed derived from VERIF_SEED=%d" % (i, SEED) for i in range(3)],
                   runs=runs, runs_per_hour=int(runs / wall * 3600), seeds_per_hour=int(runs / wall * 3600), scheduler_steps=agg("steps"),
                   simulated_seconds=agg("sim_ms") / 1000.0, distinct_interleavings=len(sigs),
                   interleaving_measure="hash of the sequence of scheduling decisions with more than one alternative and of all injected faults",
                   faults_injected={k[6:]: v for k, v in sorted(stats.items()) if k.startswith("fault.")},
                   reach={k: v for k, v in sorted(stats.items()) if not k.startswith("fault.")}, oracle_evaluations=notes, run_end_anomalies=ends,
                   real_components=conf.get("real", P.REAL), stubbed_components=conf.get("stub", P.STUB),
                   determinism_checked_runs=agg("verified"), determinism_mismatches=mism[:5],
                   build_s=round(tb - t0, 1), pool_s=round(tp - tb, 1), search_s=round(wall, 1), workers=len(sums))
        ev = dict(property=prop, tier=tier, seed=SEED, level=conf["level"], coverage=cov, wall_s=round(time.time() - t0, 1),
                  assumptions=conf.get("assume", []) + P.ASSUME,
                  violations=[dict(**{"class": c}, replay=p, detail=d[:600]) for c, p, d in out_viol])
        json.dump(ev, open(evp, "w"), indent=1)
        for h in harness[:2]:
            trouble.append("harness failure in run %s: %s" % (h.get("index"), h["harness"][:3000]))
        print("%s %s: %d runs, %d evaluations, %d distinct, %.0f simulated s, %.1f s wall" % (prop, tier, runs, cov["evaluations"], len(dist), cov["simulated_seconds"], ev["wall_s"]))
        for m in mism[:3]:
            print("NONDETERMINISM:", m)
        for c, p, d in out_viol:
            print("%s: %s" % (c, d[:600]))
            print("VIOLATION property=%s replay=%s" % (prop, p))
        for t in trouble:
            print("TROUBLE:", t)
        if out_viol:
            return 1
        if runs == 0 or cov["evaluations"] == 0:
            print("nothing explored")
            return 3
        if trouble:
            return 4
        return 0
    finally:
        if not os.environ.get("FDOSIM_KEEP"):
            shutil.rmtree(scratch, ignore_errors=True)
        else:
            print("kept", scratch)


def replay(path):
    d = json.load(open(path))
    global SEED
    SEED = d.get("pool_seed", 1)
    scratch = tempfile.mkdtemp(prefix="fdosim-")
    try:
        binp = B.build()
        pool, bad = make_pool(binp, scratch)
        if pool is None:
            print(bad.stderr())
            return 3
        job = dict(mode="replay", prop=d["property"], tier=d.get("tier", "quick"), seed=SEED, pool=pool)
        if d.get("pair"):
            got = replay_pair(binp, scratch, job, d["pair"])
            print("reproduced " + got if got else "NOT reproduced")
            return 1 if got else 0
        job["run"] = d["run"]
        if d.get("before"):
            job["before"] = d["before"]
        w, r = run_one(binp, scratch, "replay", job)
        if r is None:
            cls, txt = abort_class(w)
            print(txt)
            print("reproduced" if cls == d["violation_class"] else "NOT reproduced", cls)
            return 1
        print(r.get("log", ""))
        for v in r.get("violations") or []:
            print("VIOLATED", v["class"], v["detail"])
        same = any(v["class"] == d["violation_class"] for v in r.get("violations") or [])
        print("reproduced" if same else "NOT reproduced", "log hash", r["log_hash"], "recorded", d.get("log_hash"))
        return 1 if same else 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def dev_run(prop, idx):
    scratch = os.environ.get("FDOSIM_SCRATCH") or "/tmp/fdosim-dev"
    os.makedirs(scratch, exist_ok=True)
    binp = B.build()
    paths = [os.path.join(scratch, "pool%d" % k, "out.jsonl.pool") for k in range(8)]
    if not all(os.path.exists(p) for p in paths):
        paths, bad = make_pool(binp, scratch)
        if paths is None:
            print(bad.stderr(), bad.stdout())
            return 3
    if idx == "search":
        job = dict(mode="search", prop=prop, tier="quick", seed=SEED, pool=paths, budget_ms=10000, stride=1, first=0, verify=int(os.environ.get("V", "5")), max_runs=int(os.environ.get("N", "50")),
                   known=[k["class"] for k in load_known() if k["property"] == prop])
        w, r = run_one(binp, scratch, "dev", job)
        for l in w.lines():
            l.pop("distinct", None), l.pop("sigs", None), l.pop("choices", None)
            print(json.dumps(l, indent=1)[:6000])
        if w.p.returncode:
            print(w.stderr()[-6000:], w.stdout()[-6000:])
        return
    job = dict(mode="search", prop=prop, tier="quick", seed=SEED, pool=paths, stride=1, first=int(idx), max_runs=1)
    w, r = run_one(binp, scratch, "dev", job)
    m = re.findall(r"(?m)^run (\d+) seed (\d+)$", w.stderr())
    job = dict(mode="replay", prop=prop, tier="quick", seed=SEED, pool=paths, run=dict(run_seed=int(m[-1][1]), index=int(idx), choices=[], fixed=False))
    w, r = run_one(binp, scratch, "dev", job)
    if r is None:
        print(w.stderr()[-8000:], w.stdout()[-8000:])
        return
    print(r.get("log"))
    print({k: v for k, v in r.items() if k not in ("log", "choices")})


if __name__ == "__main__":
    if len(sys.argv) >= 3 and sys.argv[1] == "replay":
        sys.exit(replay(sys.argv[2]))
    if len(sys.argv) >= 4 and sys.argv[1] == "run":
        sys.exit(dev_run(sys.argv[2], sys.argv[3]))
    if len(sys.argv) != 3 or sys.argv[1] not in P.PROPS:
        print(__doc__)
        sys.exit(2)
    sys.exit(check(sys.argv[1], sys.argv[2]))
