"""Driver: key generation sessions, honest or with the deviations listed in the job."""
import hashlib, json, os
from . import build, core, tp

_lib = {}
_other = {}


def getlib(variant):
    if variant not in _lib:
        _lib[variant] = tp.Lib(variant)
    return _lib[variant]


def other(n, t, seed, variant):
    """A finished session between the same parties, as a source of replayed messages."""
    k = (n, t, variant)
    if k not in _other:
        S = tp.Session(n, t, "%s/other" % seed, L=getlib(variant))
        S.run(extra=False)
        _other[k] = S
    return _other[k]


def probes(job):
    by = {}
    for d in job["probes"]:
        by.setdefault((d["devs"][0]["at"][0], d["devs"][0]["at"][1]), []).append(d)

    def f(S, p, st, data, slots):
        mods = list(by.get((p.who, st), []))
        for b in job.get("bytes", []):
            if b["at"] == [p.who, st] and data:
                for k in range(b["phase"], len(data), b["step"]):
                    x = 1 << S.rng.randrange(8)
                    owner = [s[4] for s in slots if s[1] <= k < s[1] + s[2]]
                    if p.who == 0 and not owner:      # long-term signature behind the message
                        owner = [s[4] for s in slots if s[1] + s[2] <= k < s[1] + s[2] + 64]
                    mods.append({"in": data[:k] + bytes([data[k] ^ x]) + data[k + 1:], "dis": [owner[0]] if p.who == 0 and owner else [0],
                                 "what": "byte %d ^ %d" % (k, x)})
        for d in job.get("sizes", []):
            if d["at"] == [p.who, st]:
                for k in d.get("outs", []):
                    mods.append({"in": data, "outlen": max(0, p.outsize() + k), "dis": [], "what": "output buffer %+d" % k})
                for k in sorted({max(0, len(data) + x) for x in d["lens"]}):
                    x = (data + b"\0" * k)[:k]
                    if x != data:
                        mods.append({"in": x, "dis": [0] if p.who else list(range(0, S.n + 1)), "what": "%d bytes" % k})
        return mods
    return f


def session(job, log):
    v = job.get("variant", "real")
    n, t = job["n"], job["t"]
    oth = other(n, t, job["seed"], v) if job.get("other") else None
    S = tp.Session(n, t, job["seed"], L=getlib(v), eps=job.get("eps", 120), cap=job.get("cap"), log=log,
                   devs=job.get("devs", ()), probes=probes(job) if job.get("probes") is not None else None, other=oth,
                   name=bytes(job.get("name", b"verif")))
    S.ticks = job.get("ticks", 0)
    S.run()
    S.release()
    return S


def digests(ev):
    """What the calls did, without the texts."""
    keep = ("op", "who", "ret", "out", "done", "share", "split", "inszs", "insz", "outsz", "nblame", "tp", "peers", "again", "crash")
    return [hashlib.sha256(json.dumps([e.get(k) for k in keep] + [[b["idx"] for b in e.get("blame", [])]]).encode()).hexdigest()[:12]
            for e in ev]


def run_job(job):
    S = session(job, None)
    dis = sorted({x for d in job.get("devs", ()) for x in d.get("dis", [])})
    r = {"id": job.get("id", job["key"]), "key": job["key"], "tphonest": 0 not in dis, "deviants": [x for x in dis if x],
         "honest": bool(job.get("honest")), "devs": job.get("devs", []), "ev": S.ev}
    if job.get("twin"):               # the same with logging enabled
        T = session(job, os.path.join(build.BUILD, "log-%d" % os.getpid()))
        S.ev.append({"op": "twin", "a": digests(S.ev), "b": digests(T.ev)})
        os.unlink(os.path.join(build.BUILD, "log-%d" % os.getpid()))
    return r


if __name__ == "__main__":
    core.driver_main(run_job)
