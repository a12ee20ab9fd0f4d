#!/usr/bin/env python3
"""check.py <property> [quick|thorough]: decides one property.

Exit 0: the property held on everything explored. Exit 1 and a VIOLATION line: it is broken.
Exit 2: the check itself could not run.
"""
import itertools, json, os, re, shutil, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT)
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
GOROOT = "/opt/veriftools/go1.27.3"

class CheckError(Exception):
    pass

def goenv():
    e = dict(os.environ)
    e.update(GOROOT=GOROOT, PATH=GOROOT + "/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
             GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=readonly", GOWORK="off", GOSUMDB="off",
             GOPATH="/root/go", GOMODCACHE="/root/go/pkg/mod", HOME="/root")
    e.setdefault("GOCACHE", "/root/.cache/go-build")
    return e

def build(tmp, race=False):
    out = os.path.join(tmp, "drv.race" if race else "drv")
    cmd = ["go", "test", "-c", "-o", out] + (["-race"] if race else []) + ["./drv"]
    r = subprocess.run(cmd, cwd=os.path.join(ROOT, "harness"), env=goenv(), capture_output=True, text=True)
    if r.returncode != 0:
        raise CheckError("driver build failed:\n" + r.stdout + r.stderr)
    return out

def tlaval(v):
    if isinstance(v, bool): return "TRUE" if v else "FALSE"
    if isinstance(v, int): return str(v)
    if isinstance(v, str): return v           # raw TLA+ text
    if isinstance(v, (set, frozenset)): return "{" + ",".join(sorted(map(tlaval, v))) + "}"
    if isinstance(v, (list, tuple)): return "<<" + ",".join(map(tlaval, v)) + ">>"
    raise ValueError(v)

def q(s):
    return '"' + s.replace("\\", "\\\\").replace('"', '\\"') + '"'
def qs(*xs):
    return "{" + ",".join(q(x) for x in xs) + "}"

def make_cfg(st):
    l = []
    if st.get("spec"): l.append("SPECIFICATION " + st["spec"])
    else: l += ["INIT " + st.get("init", "Init"), "NEXT " + st.get("next", "Next")]
    if st.get("constants"):
        l.append("CONSTANTS")
        for k, v in st["constants"].items(): l.append(" %s = %s" % (k, tlaval(v)))
    if st.get("invariants"): l.append("INVARIANTS " + " ".join(st["invariants"]))
    if st.get("properties"): l.append("PROPERTIES " + " ".join(st["properties"]))
    if st.get("constraint"): l.append("CONSTRAINT " + st["constraint"])
    if st.get("action_constraint"): l.append("ACTION_CONSTRAINT " + st["action_constraint"])
    if st.get("view"): l.append("VIEW " + st["view"])
    if st.get("postcondition"): l.append("POSTCONDITION " + st["postcondition"])
    l.append("CHECK_DEADLOCK " + ("TRUE" if st.get("deadlock") else "FALSE"))
    return "\n".join(l) + "\n"

def run_tlc(st, tmp, seed, name, env=None, expect_ok=True, timeout=840):
    """Runs TLC; returns dict(states, distinct, cases=path, ncases, rc, log)."""
    d = os.path.join(tmp, name); os.makedirs(d, exist_ok=True)
    for f in os.listdir(os.path.join(ROOT, "spec")):
        if f.endswith(".tla"): shutil.copy(os.path.join(ROOT, "spec", f), d)
    with open(os.path.join(d, "MC.cfg"), "w") as f: f.write(make_cfg(st))
    cmd = ["java", "-Xmx%s" % st.get("mem", "4g"), "-Xss16m", "-XX:+UseParallelGC", "-cp", JAR, "tlc2.TLC",
           "-config", "MC.cfg", "-metadir", os.path.join(d, "meta"), "-seed", str(seed),
           "-workers", str(st.get("workers", 1)), "-noGenerateSpecTE"]
    if st.get("sim"):
        cmd += ["-simulate", "num=%d" % st["sim"], "-depth", str(st.get("depth", 20))]
    cmd.append(st["module"] + ".tla")
    e = dict(os.environ); e.update(env or {})
    cases, log = os.path.join(d, "cases.jsonl"), []
    p = subprocess.Popen(cmd, cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    tm = threading.Timer(timeout, p.kill); tm.start()
    n, seen, cap = 0, set(), st.get("max_cases", 10**9)
    dedup = st.get("dedup", False)
    with open(cases, "w") as out:
        for line in p.stdout:
            if line.startswith('"TR '):
                if n < cap:
                    body = json.loads(line)[3:]
                    if dedup:
                        h = hash(body)
                        if h in seen: continue
                        seen.add(h)
                    out.write(body + "\n"); n += 1
            else:
                log.append(line)
                if len(log) > 4000: del log[1000:2000]
    rc = p.wait(); tm.cancel()
    text = "".join(log)
    shutil.rmtree(os.path.join(d, "meta"), ignore_errors=True)
    m = re.findall(r"([\d,]+) states generated.*?([\d,]+) distinct", text)
    gen, dis = (int(m[-1][0].replace(",", "")), int(m[-1][1].replace(",", ""))) if m else (0, 0)
    if not m:
        m2 = re.findall(r"The number of states generated: ([\d,]+)", text)
        if m2: gen = dis = int(m2[-1].replace(",", ""))
        m3 = re.findall(r"Progress: ([\d,]+) states", text)
        if not gen and m3: gen = dis = int(m3[-1].replace(",", ""))
    res = dict(generated=gen, distinct=dis, cases=cases, ncases=n, rc=rc, log=text, dir=d)
    if expect_ok and rc != 0:
        raise CheckError("TLC failed on %s (rc %s):\n%s" % (st["module"], rc, text[-6000:]))
    return res

def crash_frames(err):
    """The stack of the goroutine that panicked."""
    i = err.find("panic:")
    j = err.find("fatal error:")
    k = min(x for x in (i, j) if x >= 0) if max(i, j) >= 0 else -1
    if k < 0: return None
    s = err[k:]
    parts = s.split("\ngoroutine ")
    return parts[0] + ("\ngoroutine " + parts[1] if len(parts) > 1 else "")

# drivers whose behaviours need the process for themselves
SEQUENTIAL = {"snapshot", "mergerace", "checkconc", "interrupt", "logging", "hostile"}

# drivers of which several goroutines can share the objects under test
SHARED = {"rotation", "roletok", "access", "rolecert", "http", "decision", "translator"}

_seq = itertools.count()
def run_driver(exe, stage, cases, tmp, seed, tier, env=None, timeout=700, stuck=150):
    """Runs a driver stage; returns (records, crash) where crash is a violation record or None."""
    out = os.path.join(tmp, "out-%s-%d.jsonl" % (stage, next(_seq)))
    e = goenv(); e.update(VP_STAGE=stage, VP_IN=cases or "/dev/null", VP_OUT=out, VERIF_SEED=str(seed), VERIF_TIER=tier, VP_TMP=tmp)
    e.update(env or {})
    errp = out + ".err"
    hung = False
    with open(errp, "w") as ef:
        p = subprocess.Popen([exe, "-test.run", "^TestDrive$", "-test.timeout", "0"], env=e, stdout=ef, stderr=ef, cwd=tmp)
        t0, last, lastt = time.time(), None, time.time()
        while True:
            try:
                p.wait(0.2); break
            except subprocess.TimeoutExpired: pass
            try: cur = open(out + ".prog").read().strip()
            except OSError: cur = ""
            if cur != last: last, lastt = cur, time.time()
            if time.time() - lastt > stuck or time.time() - t0 > timeout:
                hung = time.time() - lastt > stuck
                p.send_signal(3); 
                try: p.wait(10)
                except subprocess.TimeoutExpired: p.kill(); p.wait()
                if not hung: raise CheckError("driver stage %s timed out" % stage)
                break
    recs = []
    if os.path.exists(out):
        with open(out) as f:
            for l in f:
                try: recs.append(json.loads(l))
                except ValueError: pass
    summ = [r for r in recs if r.get("t") == "sum"]
    if summ: return recs, None
    err = open(errp).read()
    idx = last
    try: idx = int(open(out + ".prog").read().strip())
    except (OSError, ValueError): idx = None
    inp = None
    if idx is not None and cases:
        with open(cases) as f:
            for i, l in enumerate(f):
                if i == idx: inp = l.strip(); break
    if hung:
        return recs, dict(t="viol", case=idx, input=inp, msg="the code under test does not return (stuck in this case)", detail=err[-4000:])
    fr = crash_frames(err)
    if fr and any(x in fr for x in ("athenz-authorizer/v5", "/repo/", "kpango/gache")):
        return recs, dict(t="viol", case=idx, input=inp, msg="the process crashed: " + fr.split("\n")[0], detail=fr[:4000])
    raise CheckError("driver stage %s died:\n%s" % (stage, err[-4000:]))

def load_known():
    k = {}
    p = os.path.join(ROOT, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\w+) key=(\S+) (.*)", l)
            if m: k[(m.group(1), m.group(2))] = m.group(3)
    return k

class Run:
    def __init__(self, prop, tier, seed, tmp):
        self.prop, self.tier, self.seed, self.tmp = prop, tier, seed, tmp
        self.states = self.transitions = self.replayed = self.steps = 0
        self.violations, self.known, self.samples, self.stages, self.notes = [], {}, [], [], []
        self._exe = {}
        self.lock = threading.Lock()
        self.builders = {}
    def exe(self, race=False):
        with self.lock:
            if race not in self._exe: self._exe[race] = build(self.tmp, race)
            return self._exe[race]
    def tlc(self, st, name, **kw):
        t = time.time()
        r = run_tlc(st, self.tmp, kw.pop("seed", self.seed), name, **kw)
        self.states += r["distinct"]; self.transitions += r["generated"]
        self.stages.append({"tlc": st["module"], "name": name, "states": r["distinct"], "generated": r["generated"], "cases": r["ncases"], "wall": round(time.time() - t, 1)})
        return r
    def drive(self, stage, cases, name, env=None, race=False, timeout=700):
        t = time.time()
        recs, crash = run_driver(self.exe(race), stage, cases, self.tmp, self.seed, self.tier, env, timeout)
        for r in recs:
            if r.get("t") == "viol": self.violation(r, stage)
            if r.get("t") == "sum":
                self.replayed += r["n"]; self.steps += r["steps"]
                for k, v in (r.get("known") or {}).items(): self.known[k] = self.known.get(k, 0) + v
                self.stages.append({"driver": stage, "name": name, "replayed": r["n"], "steps": r["steps"], "stats": r.get("stats"), "wall": round(time.time() - t, 1)})
        if crash: self.violation(crash, stage)
        if cases and os.path.exists(cases):
            with open(cases) as f: ls = f.readlines()
            for i in sorted({len(ls) // 3, len(ls) - 1}):
                if 0 <= i < len(ls) and len(self.samples) < 8: self.samples.append({"stage": name, "behaviour": json.loads(ls[i]) if len(ls[i]) < 6000 else ls[i][:3000]})
        return recs
    def violation(self, r, stage):
        r = dict(r); r["stage"] = stage
        self.violations.append(r)
    def model_and_replay(self, st, name=None):
        """TLC on the model, then the driver on every emitted behaviour."""
        name = name or st.get("name") or st["module"]
        r = self.tlc(st, name)
        if st.get("driver"):
            if r["ncases"] == 0: raise CheckError("%s produced no behaviours" % name)
            n = st.get("shards", 1)
            if n == 1:
                self.drive(st["driver"], r["cases"], name, st.get("env"), timeout=st.get("timeout", 700))
            else: # the same behaviours, split over several driver processes
                with open(r["cases"]) as f: ls = f.readlines()
                parts = []
                for i in range(n):
                    p = "%s.%d" % (r["cases"], i)
                    with open(p, "w") as f: f.writelines(ls[i::n])
                    parts.append(p)
                self.exe()
                with ThreadPoolExecutor(max_workers=n) as ex:
                    for f in [ex.submit(self.drive, st["driver"], p, name, st.get("env"), timeout=st.get("timeout", 700)) for p in parts]: f.result()
            par = st.get("par", 0 if st["driver"] in SEQUENTIAL or "VP_CONC" in (st.get("env") or {}) else 8)
            if par and not self.violations: # the same behaviours, several at a time
                self.drive(st["driver"], r["cases"], name + "-par", dict(st.get("env") or {}, **{"VP_SHARE" if st["driver"] in SHARED else "VP_PAR": str(par)}), timeout=st.get("timeout", 700))
        return r

    def validate(self, module, events, name, timeout=600):
        """Checks a recorded history against a trace specification."""
        if not events: raise CheckError("%s: empty history" % name)
        p = os.path.join(self.tmp, name + ".trace.json")
        with open(p, "w") as f: json.dump(events, f)
        t = time.time()
        r = run_tlc(dict(module=module, postcondition="Accepted", mem="6g"), self.tmp, self.seed, name, env={"TRACE": p}, expect_ok=False, timeout=timeout)
        self.states += r["distinct"]; self.transitions += r["generated"]
        self.replayed += 1; self.steps += len(events)
        self.stages.append({"trace": module, "name": name, "events": len(events), "states": r["distinct"], "wall": round(time.time() - t, 1)})
        m = re.search(r'^"REJECTED .*$', r["log"], re.M)
        if m:
            at = json.loads(json.loads(m.group(0))[9:])
            i = at["at"]
            self.violation({"msg": "recorded history is not a behaviour of the specification: event %d %s" % (i, at["event"]),
                            "input": events[max(0, i - 40):i + 3]}, name)
        elif r["rc"] != 0:
            raise CheckError("TLC failed on trace %s (rc %s):\n%s" % (name, r["rc"], r["log"][-3000:]))

def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    only = os.environ.get("VP_ONLY")
    t0 = time.time()
    import plans
    tmp = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    run = Run(prop, tier, seed, tmp)
    rc = 0
    try:
        plan = plans.PLANS[prop](run, tier)
        # build in parallel with the first TLC runs
        th = threading.Thread(target=lambda: _try(run.exe)); th.start()
        jobs = [j for j in plan if not only or only in j.__name__ or only == getattr(j, "stage_name", None)]
        with ThreadPoolExecutor(max_workers=plans.PARALLEL.get(prop, 3)) as ex:
            fs = [ex.submit(j) for j in jobs]
            for f in fs: f.result()
        th.join()
        known = load_known()
        for k, n in sorted(run.known.items()):
            if (prop, k) in known: print("KNOWN-FINDING: property=%s %s (observed %d times)" % (prop, known[(prop, k)], n))
            else: run.violation({"msg": "unlisted finding %s" % k, "input": None}, "known")
        outdir = os.path.join(ROOT, "out", prop)
        shutil.rmtree(outdir, ignore_errors=True)
        if run.violations:
            os.makedirs(outdir, exist_ok=True)
            for i, v in enumerate(run.violations[:10]):
                p = os.path.join(outdir, "violation-%d.json" % i)
                with open(p, "w") as f: json.dump(v, f, indent=1)
                print("VIOLATION property=%s replay=%s" % (prop, p))
                print("  " + str(v.get("msg"))[:600])
            rc = 1
        ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking",
              "coverage": {"states": run.states, "transitions": run.transitions, "traces_validated_against_impl": run.replayed,
                           "steps_compared": run.steps, "samples": run.samples[:8], "stages": run.stages},
              "assumptions": plans.ASSUMPTIONS.get(prop, []) + plans.COMMON_ASSUMPTIONS,
              "wall_s": round(time.time() - t0, 2), "violations": len(run.violations)}
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        with open(os.path.join(ROOT, "evidence", prop + ".json"), "w") as f: json.dump(ev, f, indent=1)
        print("%s %s: %d states, %d transitions, %d behaviours replayed (%d comparisons), %d violations, %.1fs" %
              (prop, tier, run.states, run.transitions, run.replayed, run.steps, len(run.violations), time.time() - t0))
    except CheckError as e:
        print("ERROR: %s" % e); rc = 2
    finally:
        if not os.environ.get("VP_KEEP"): shutil.rmtree(tmp, ignore_errors=True)
        else: print("kept", tmp)
    sys.exit(rc)

def _try(f):
    try: f()
    except CheckError: pass

if __name__ == "__main__":
    main()
