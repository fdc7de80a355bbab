"""Driver: programs of other drivers on a build that keeps account of memory and locks."""
import hashlib, os, random
from . import core, d_alg, d_noise, d_tp, lib, tp

V = "track"
os.environ["VLIB_VARIANT"] = V
PLAIN = [f for f in dir(lib.Alg) if not f.startswith("_") and f not in ("seed", "script")]


def load():
    L = lib.load(V)
    for f in ("track_blocks", "track_bytes", "track_locked"):
        getattr(L, f).restype = tp.c_size_t
    L.track_locks.restype = tp.c_uint64
    L.track_fail.argtypes = [tp.c_uint64]
    L.track_free.argtypes = [tp.c_void_p]
    tp._free = L.track_free          # what the library returned goes back where it is accounted for
    return L


def held(L):
    return [L.track_blocks(), L.track_locked()]


class Watched(lib.Alg):
    """Every call is recorded, and repeated with each of its locks failing."""
    log = None

    def __getattribute__(self, name):
        f = super().__getattribute__(name)
        if name not in PLAIN:
            return f

        def g(*a):
            L, log = self.L, Watched.log
            sd = hashlib.sha256(b"%d" % len(log) + Watched.key).digest()

            def once(k):
                self.seed(sd)
                L.track_fail(k)
                b = held(L)
                r = f(*a)
                n = L.track_locks()
                L.track_fail(0)
                c = held(L)
                L.track_forget()
                return r, n, [c[0] - b[0], c[1] - b[1]]
            r, n, left = once(0)
            e = {"op": "call", "f": name, "ok": not isinstance(r, tuple) or r[0] == 0, "left": left, "locks": n, "faults": []}
            for k in range(1, min(n, 5) + 1):
                x, _, lf = once(k)
                e["faults"].append({"k": k, "ok": not isinstance(x, tuple) or x[0] == 0, "same": x == r, "left": lf})
            log.append(e)
            return r
        return g


def alg(job):
    Watched.log, Watched.key = [], job["seed"].encode()
    A = Watched(V)
    d_alg.__dict__["j_" + job["kind"]](A, job, random.Random(job["seed"]))
    return Watched.log


def session(job, k=0):
    L = load()
    if job.get("other"):
        d_tp.other(job["n"], job["t"], job["seed"], V)
    L.track_fail(k)
    b = held(L)
    S = d_tp.session(dict(job, variant=V), None)
    n = L.track_locks()
    L.track_fail(0)
    c = held(L)
    L.track_forget()
    rets = [e["ret"] for e in S.ev if e["op"] in ("tpstart", "peerstart", "step")]
    res = [(e["tp"], e["peers"]) for e in S.ev if e["op"] == "end"] + [e["share"] for e in S.ev if e.get("share")][-S.n:]
    return n, {"op": "session", "ok": all(r == 0 for r in rets), "res": hashlib.sha256(repr(res).encode()).hexdigest(), "left": [c[0] - b[0], c[1] - b[1]]}


def run_job(job):
    L = load()
    rng = random.Random(job["seed"])
    if job["mod"] == "alg":
        ev = alg(job)
    elif job["mod"] == "noise":
        ev = []
        for i, p in job["progs"]:
            b = held(L)
            d_noise.run_job({"variant": V, "seed": job["seed"], "key": "x", "progs": [[i, p]]})
            c = held(L)
            L.track_forget()
            ev.append({"op": "closed", "left": [c[0] - b[0], c[1] - b[1]]})
    else:
        n, e = session(job)
        e["faults"] = []
        ks = sorted(rng.sample(range(1, n + 1), min(n, job.get("faults", 0))))
        for k in ks:
            _, x = session(job, k)
            e["faults"].append({"k": k, "ok": x["ok"], "same": x["res"] == e["res"], "left": x["left"]})
        e["locks"] = n
        ev = [e]
    return {"id": job["key"], "key": job["key"], "ev": ev}


if __name__ == "__main__":
    core.driver_main(run_job)
