"""Driver: two programs of other drivers in two threads, under imposed schedules, compared with each alone."""
import ctypes, hashlib, json, os, random, signal, sys, threading, traceback
from . import core, d_alg, d_noise, d_tp, lib

V = "sched"
os.environ["VLIB_VARIANT"] = V


def program(p):
    """What the calls of a program yield, one text per call or event."""
    if p["mod"] == "alg":
        ev = d_alg.run_job(p)["ev"]
    elif p["mod"] == "noise":
        ev = [e for r in d_noise.run_job(dict(p, variant=V)) for e in r["ev"]]
    else:
        ev = d_tp.run_job(dict(p, variant=V))["ev"]
    return [hashlib.sha256(json.dumps(e, sort_keys=True).encode()).hexdigest()[:8] + str(e.get("op", "")) for e in ev]


def child(progs, plan, first, watch=0):
    """In a process of its own, in which the library has not been used before.  watch: note the places passed."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        rc = 1
        try:
            signal.alarm(60)
            os.close(r)
            L = lib.load(V)
            L.sched_count.restype = ctypes.c_uint64
            L.sched_plan((ctypes.c_uint64 * max(len(plan), 1))(*plan), len(plan), first)
            res, errs = [None, None], []

            def run(i):
                L.sched_begin(i)
                try:
                    res[i] = program(progs[i])
                except BaseException:
                    errs.append(traceback.format_exc())
                L.sched_end()
            ts = [threading.Thread(target=run, args=(i,)) for i in range(len(progs)) if progs[i]]
            if len(ts) < 2:
                L.sched_absent(1 - first)
            if watch:
                L.sched_watch(ctypes.c_uint64(watch))
            for t in ts:
                t.start()
            for t in ts:
                t.join()
            sites = (ctypes.c_uint64 * 16384)()
            k = L.sched_sites(sites, 16384) if watch else 0
            out = json.dumps({"sites": sorted(sites[:k]), "res": res, "count": [L.sched_count(0), L.sched_count(1)], "loose": L.sched_loose(), "errs": errs}).encode()
            while out:
                out = out[os.write(w, out):]
            rc = 0
        finally:
            os._exit(rc)
    os.close(w)
    data = b""
    while True:
        b = os.read(r, 1 << 16)
        if not b:
            break
        data += b
    os.close(r)
    _, st = os.waitpid(pid, 0)
    if st != 0 or not data:
        return {"crash": st, "res": [None, None]}
    return json.loads(data)


def run_job(job):
    """Each pair: both alone, then together under the schedules.  One event per schedule."""
    rng = random.Random(job["seed"])
    A, B = job["progs"]
    sd = rng.randrange(1, 2 ** 60)
    alone = [child([A, None], [], 0, sd), child([A, None], [], 0), child([None, B], [], 1, sd), child([None, B], [], 1)]
    lone = [alone[0]["res"][0], alone[2]["res"][1]]
    if any(x.get("crash") is not None or x["errs"] for x in alone) or lone != [alone[1]["res"][0], alone[3]["res"][1]]:
        return {"id": job["key"], "key": job["key"], "alone": [[], []], "ev": [], "unsteady": True}      # nothing to compare with
    n = [alone[0]["count"][0], alone[2]["count"][1]]
    plans = []
    for s in job["plans"]:
        if s["kind"] == "places":                # once at (almost) every place in the code
            at = alone[2 * s["first"]]["sites"]
            plans += [(s["first"], [k]) for k in sorted(rng.sample(at, min(len(at), s["max"])))]
        else:                                    # switches at random, with pieces of about the given size
            f = rng.randrange(2)
            plans.append((f, [max(1, int(rng.expovariate(1) * s["piece"] * max(n) / 100)) for _ in range(200)]))
    ev = []
    for f, p in plans:
        t = child([A, B], p, f)
        if t.get("crash") is not None:
            ev.append({"op": "crash", "rc": str(t["crash"])})
        else:                                    # a program that could not go on yields nothing
            ev.append({"op": "both", "first": f, "plan": p[:4], "loose": t["loose"], "got": [r or [] for r in t["res"]]})
    return {"id": job["key"], "key": job["key"], "points": n, "alone": lone, "ev": ev}


if __name__ == "__main__":
    lib.load(V)
    core.driver_main(run_job)
