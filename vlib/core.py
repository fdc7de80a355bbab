"""Skeleton shared by all checks: design model, scenarios, conformance, verdict, evidence."""
import hashlib, json, os, random, signal, subprocess, sys, tempfile, time, traceback
from concurrent.futures import ThreadPoolExecutor
from . import build, tlc

VERIF = build.VERIF
EVID = os.path.join(VERIF, "evidence")


class Ctx:
    def __init__(self, prop):
        self.prop = prop
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.thorough = self.tier == "thorough"
        self.seed = int(os.environ.get("VERIF_SEED", "1") or "1")
        self.rng = random.Random("%s/%d" % (prop, self.seed))
        self.t0 = time.time()
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.events = 0
        self.samples = []
        self.extra = {}
        self.assumptions = []
        self.violations = []      # dicts: what, run, event, detail
        self.known = []
        self.tmp = tempfile.mkdtemp(prefix="chk-", dir=_mk(build.BUILD))

    def path(self, name):
        return os.path.join(self.tmp, name)

    def subseed(self, *what):
        return hashlib.sha256(("%d/%s/%s" % (self.seed, self.prop, "/".join(map(str, what)))).encode()).digest()

    # ------------------------------------------------------------ design level
    def model(self, module, cfg=None, workers=6, timeout=600, env=None, mem="6g"):
        """Exhaustive check of a closed model. A failure here is a defect of the specification."""
        r = tlc.run(module, cfg, env=env, workers=workers, timeout=timeout, mem=mem)
        if not r.ok:
            raise RuntimeError("design model %s/%s violates %s\n%s" % (module, cfg, r.violated, r.output[-4000:]))
        self.states += r.distinct
        self.transitions += r.generated
        self.extra.setdefault("models", []).append(
            {"module": cfg or module, "distinct": r.distinct, "generated": r.generated, "depth": r.depth, "wall_s": round(r.wall, 1)})
        return r

    def generate(self, module, cfg=None, env=None, timeout=300, workers=1):
        """Let TLC write scenarios to $OUT (ndjson); returns the list."""
        out = self.path("gen-%s-%s.ndjson" % (module, cfg or ""))
        e = {"OUT": out}
        e.update(env or {})
        r = tlc.run(module, cfg, env=e, workers=workers, timeout=timeout)
        if not r.ok:
            raise RuntimeError("generator %s failed\n%s" % (module, r.output[-3000:]))
        self.states += r.distinct
        self.transitions += r.generated
        with open(out) as f:
            return [json.loads(x) for x in f if x.strip()]

    # ------------------------------------------------------------ conformance
    def validate(self, module, runs, cfg=None, env=None, chunk=None, par=4, timeout=700, workers=2, mem="3g"):
        """Check recorded runs against a trace specification. A run is {"id":..., "ev":[...], ...}.

        The trace specifications keep (r, l, bad): run number, events consumed and the property ids
        the last event violates. A run is accepted when all its events are consumed with the focus
        property never in `bad`.
        """
        if not runs:
            return
        pending = list(enumerate(runs))
        rejected = 0
        n = max(1, min(par, (len(pending) + 7) // 8)) if chunk is None else max(1, (len(pending) + chunk - 1) // chunk)
        parts = [pending[i::n] for i in range(n)]

        def one(k):
            part = parts[k]
            bad = []
            while part:
                f = self.path("trace-%s-%d-%d.ndjson" % (module, k, len(bad)))
                with open(f, "w") as h:
                    for _, run in part:
                        h.write(json.dumps(run) + "\n")
                e = {"TRACE": f, "FOCUS": self.prop}
                e.update(env or {})
                r = tlc.run(module, cfg, env=e, workers=workers, timeout=timeout, mem=mem)
                if r.ok:
                    want = sum(len(run["ev"]) + 1 for _, run in part)
                    if r.distinct != want:
                        raise RuntimeError("%s: %d states for %d recorded events: trace not consumed\n%s" % (
                            module, r.distinct, want, r.output[-3000:]))
                    os.unlink(f)
                    return bad, part, r
                ri, li = int(r.final["rn"]), int(r.final["ln"])
                idx, run = part[ri - 1]
                # a rejection counts only if it repeats
                g = self.path("retrace-%s-%d-%d.ndjson" % (module, k, len(bad)))
                with open(g, "w") as h:
                    h.write(json.dumps(run) + "\n")
                r2 = tlc.run(module, cfg, env=dict(e, TRACE=g), workers=1, timeout=timeout, mem=mem)
                if r2.ok or r2.final.get("ln") != r.final["ln"]:
                    raise RuntimeError("%s: rejection of run %s not repeatable" % (module, run.get("id")))
                bad.append((run, li, r.final.get("bad", ""), r.final.get("why", "")))
                part = [x for x in part if x[0] != idx]
                if len(bad) >= 6 or not self.listed(run):
                    return bad, [], r
            return bad, [], None

        with ThreadPoolExecutor(max_workers=par) as ex:
            for bad, acc, r in ex.map(one, range(n)):
                if r is not None:
                    self.states += r.distinct
                    self.transitions += r.generated
                self.traces += len(acc)
                self.events += sum(len(run["ev"]) for _, run in acc)
                for run, li, b, why in bad:
                    self.violation(run, li, b, why, module)
        if not self.samples and runs:
            for run in (runs[0], runs[len(runs) // 2]):
                s = json.dumps(run)
                self.samples.append(run if len(s) < 3000 else {"id": run.get("id"), "head": s[:3000]})

    def listed(self, run):
        """The known finding a rejected run belongs to."""
        key = run.get("key") or str(run.get("id"))
        for line in known_findings():
            if line.get("property") == self.prop and line.get("key") and line["key"] in key:
                return line

    def violation(self, run, li, bad, why, module):
        ev = run["ev"][li - 1] if 0 < li <= len(run["ev"]) else None
        key = run.get("key") or str(run.get("id"))
        line = self.listed(run)
        if line:
            self.known.append((line, key))
            return
        self.violations.append({"module": module, "run": run, "event_no": li, "event": ev, "bad": bad, "why": why, "key": key})

    # ------------------------------------------------------------ end
    def finish(self):
        os.makedirs(EVID, exist_ok=True)
        cov = {"states": self.states, "transitions": self.transitions, "traces_validated_against_impl": self.traces,
               "events_validated": self.events, "samples": self.samples[:3]}
        cov.update(self.extra)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": "model_checking", "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        with open(os.path.join(EVID, self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for line, key in self.known[:20]:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, line.get("text", key)))
        if self.violations:
            d = os.path.join(EVID, "replay")
            os.makedirs(d, exist_ok=True)
            for i, v in enumerate(self.violations[:6]):
                p = os.path.join(d, "%s-%d.json" % (self.prop, i))
                with open(p, "w") as f:
                    json.dump(v, f, indent=1)
                print("VIOLATION property=%s replay=%s" % (self.prop, p))
                print("  run %s event %s: %s %s" % (v["key"], v["event_no"], v["bad"], v["why"]))
                e = json.dumps(v["event"])
                print("  " + (e if len(e) < 1500 else e[:1500] + " ..."))
            return 1
        print("%s: held (%s tier, seed %d): %d runs / %d events conform, %d states, %d transitions, %.1fs" % (
            self.prop, self.tier, self.seed, self.traces, self.events, self.states, self.transitions, time.time() - self.t0))
        return 0


def _mk(d):
    os.makedirs(d, exist_ok=True)
    return d


_kf = None


def known_findings():
    """Entries of /verif/KNOWN_FINDINGS that suppress: `known: property=<id> key=<substring of run key> <text>`."""
    global _kf
    if _kf is None:
        _kf = []
        p = os.path.join(VERIF, "KNOWN_FINDINGS")
        if os.path.exists(p):
            for ln in open(p):
                if ln.startswith("known:"):
                    w = ln.split()
                    d = {"text": " ".join(w[3:])}
                    for x in w[1:3]:
                        k, _, v = x.partition("=")
                        d[k] = v
                    _kf.append(d)
    return _kf


# ---------------------------------------------------------------- running drivers in isolation
def drive(module, jobs, procs=6, timeout=600, env=None, python=sys.executable, tmp=None):
    """Run `python -m vlib.<module>` on job lists in parallel processes; returns the runs they record.

    Each worker writes one JSON line per finished job and announces the job it is about to start, so
    a crash of the code under test is attributed to a job and recorded as a run ending in a crash.
    """
    n = max(1, min(procs, len(jobs)))
    parts = [jobs[i::n] for i in range(n)]

    def one(part):
        res = []
        todo = list(part)
        while todo:
            inp = json.dumps(todo)
            e = dict(os.environ)
            e["PYTHONPATH"] = VERIF
            e["PYTHONDONTWRITEBYTECODE"] = "1"
            e.update(env or {})
            fd, of = tempfile.mkstemp(prefix="drv-", dir=tmp or build.BUILD)
            os.close(fd)
            try:
                try:
                    p = subprocess.run([python, "-m", "vlib." + module, of], input=inp, cwd=VERIF, env=e, capture_output=True,
                                       text=True, timeout=timeout, errors="replace")
                    rc, err = p.returncode, p.stderr
                except subprocess.TimeoutExpired as x:
                    rc, err = "timeout", ""
                done, started = [], None
                for ln in open(of):
                    try:
                        o = json.loads(ln)
                    except ValueError:
                        continue
                    if "start" in o:
                        started = o["start"]
                    else:
                        done.append(o)
                        started = None
            finally:
                os.unlink(of)
            res += done
            if rc == 0 and started is None:
                return res
            if started is None and done and isinstance(rc, int) and rc < 0:
                # the process did not survive its end: memory damaged by one of its jobs
                res.append({"id": "crash", "key": "end of a process", "job": todo[0], "crash": True, "rc": str(rc),
                            "stderr": err[-1500:], "ev": [{"op": "crash", "rc": str(rc)}]})
                return res
            if started is None:
                raise RuntimeError("driver %s failed without a job in progress: rc=%s\n%s" % (module, rc, err[-3000:]))
            # the job `started` (index into todo) ended the process
            if rc != "timeout" and (not isinstance(rc, int) or rc > 0) and "Traceback" in err and "AddressSanitizer" not in err:
                raise RuntimeError("driver %s: harness error in job %s\n%s" % (module, json.dumps(todo[started])[:500], err[-3000:]))
            res.append({"id": "crash", "key": todo[started].get("key", "job"), "job": todo[started], "crash": True, "rc": str(rc),
                        "stderr": err[-1500:], "ev": [{"op": "crash", "rc": str(rc)}]})
            todo = todo[started + 1:]
        return res

    with ThreadPoolExecutor(max_workers=n) as ex:
        out = []
        for r in ex.map(one, parts):
            out += r
    return out


def driver_main(run_job):
    """Entry point of a driver module: read jobs, run each, write results as they finish."""
    jobs = json.load(sys.stdin)
    with open(sys.argv[1], "w") as f:
        for i, j in enumerate(jobs):
            f.write(json.dumps({"start": i}) + "\n")
            f.flush()
            signal.alarm(int(os.environ.get("JOB_TIMEOUT", "40")))    # a call that does not return ends the process
            r = run_job(j)
            signal.alarm(0)
            for x in (r if isinstance(r, list) else [r]):
                f.write(json.dumps(x) + "\n")
            f.flush()
