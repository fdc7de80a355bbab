"""Driver: samples of what the code draws at random, over a small group and over the real one."""
import collections, hashlib, random
from . import core, lib

ELL = 2**252 + 27742317777372353535851937790883648493


def le(v):
    return v.to_bytes(32, "little")


def num(b):
    return int.from_bytes(b, "little")


def coefs(pts, q):
    """Coefficients of the polynomial through the points (x, y) modulo q."""
    n = len(pts)
    xs = [p[0] for p in pts]
    d = [p[1] % q for p in pts]
    for k in range(1, n):
        for i in range(n - 1, k - 1, -1):
            d[i] = (d[i] - d[i - 1]) * pow(xs[i] - xs[i - k], -1, q) % q
    p = [0] * n
    for k in range(n - 1, -1, -1):
        p = [(d[k] - xs[k] * p[0]) % q] + [(p[i - 1] - xs[k] * p[i]) % q for i in range(1, n)]
    return p


def deal(A, op, n, t, secret, rng=None, q=None):
    """Shares dealt by one of the three dealing operations; secret: a number or None."""
    if op == "create":
        return A.create_shares(le(secret), n, t)
    if op == "start":
        rc, com, s = A.dkg_start(n, t)
        assert rc == 0
        return s
    i = 1 + rng.randrange(n)
    a = 1 + rng.randrange(q - 1)
    b = secret * pow(a, -1, q) % q
    rc, s = A.mul_start(bytes([i]) + le(a), bytes([i]) + le(b), n, t)
    assert rc == 0
    return s


def j_dist(A, job, rng):
    q, t, n = job["q"], job["t"], job["n"]
    A.L.toy_set_order(q)
    ev = []
    for sec in job["secrets"]:
        c = collections.Counter()
        for _ in range(job["m"]):
            s = deal(A, job["what"], n, t, sec, rng, q)
            c[tuple(num(x[1:]) for x in s[:t])] += 1
        ev.append({"op": "dist", "q": q, "t": t, "secret": -1 if sec is None else sec, "what": job["what"],
                   "counts": [{"s": list(k), "m": v} for k, v in sorted(c.items())]})
    return ev


def j_values(A, job, rng):
    """key, blinding factor and blinded element of given inputs, in the small group"""
    q = job["q"]
    A.L.toy_set_order(q)
    ev = []

    def out(what, c, lo):
        ev.append({"op": "values", "prop": "C29", "what": what, "q": q, "lo": lo, "counts": [{"v": k, "m": v} for k, v in sorted(c.items())]})
    # zero is possible for the stand-in group's generator but not for the real one: not judged
    k = collections.Counter(num(A.keygen()) for _ in range(job["m"]))
    k.pop(0, None)
    out("key", k, 1)
    for ln in job["lens"]:
        r, a = collections.Counter(), collections.Counter()
        x = rng.randbytes(ln)
        while sum(r.values()) < job["m"]:
            rc, rr, al = A.blind(x)
            if rc == 0:
                r[num(rr)] += 1
                a[num(al)] += 1
        r.pop(0, None)
        a.pop(0, None)
        out("blinding factor", r, 1)
        out("blinded element", a, 1)
    return ev


def j_coefs(A, job, rng):
    """coefficients of dealt polynomials over the real field"""
    rows, ev = [], []
    for _ in range(job["m"]):
        n, t = job["n"], job["t"]
        sec = None if job["what"] == "start" else job["secret"] if "secret" in job else rng.randrange(1, ELL)
        s = deal(A, job["what"], n, t, sec, rng, ELL)
        c = coefs([(x[0], num(x[1:])) for x in s[:t]], ELL)
        rows.append(c if sec is None else c[1:])
        pts = s if t <= 20 else rng.sample(s, 4)
        ev.append({"op": "fits", "prop": "C05", "c": [le(x).hex() for x in c], "shares": [{"i": x[0], "v": x[1:].hex()} for x in pts]})
    ev = ev[:job.get("fits", 6)]
    ev.append({"op": "scalars", "prop": "C05", "what": "coefficients", "rows": [[le(x).hex() for x in r] for r in rows]})
    return ev


def j_fresh(A, job, rng):
    rows, als = [], []
    for i in range(job["m"]):
        rc, r, a = A.blind(job["x"].encode() * (i % 3))
        rows.append([A.keygen().hex(), r.hex()])
        als.append(a.hex())
    return [{"op": "scalars", "prop": "C29", "what": "key and blinding factor", "rows": rows},
            {"op": "elements", "prop": "C29", "what": "blinded element", "vals": als}]


def run_job(job):
    A = lib.Alg(job.get("variant", "real"))
    A.seed(hashlib.sha256(job["seed"].encode()).digest())
    rng = random.Random(job["seed"])
    return {"id": job["seed"], "key": job["key"], "ev": globals()["j_" + job["kind"]](A, job, rng)}


if __name__ == "__main__":
    core.driver_main(run_job)
