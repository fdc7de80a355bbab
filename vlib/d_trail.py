"""Driver: what calls leave behind in the memory they used."""
import ctypes, hashlib, os, random
from . import core, lib, tp

DST = b"HashToGroup-OPRFV1-\x00-ristretto255-SHA512"
ELL = 2**252 + 27742317777372353535851937790883648493


class Apart:
    """The library, every call on a stack of its own that is searched afterwards."""

    def __init__(self, L):
        self.L = L
        L.shim_apart.argtypes = [ctypes.c_void_p, ctypes.c_void_p]
        L.shim_left.argtypes = [ctypes.c_char_p, ctypes.c_size_t]

    def __getattr__(self, name):
        f = getattr(self.L, name)
        if name.startswith("shim"):
            return f
        at = ctypes.cast(f, ctypes.c_void_p).value

        def g(*args):
            keep, v = [], []
            for a in args:
                if isinstance(a, bytes):
                    a = ctypes.create_string_buffer(a, max(1, len(a)))
                    keep.append(a)
                if isinstance(a, ctypes.Array):
                    v.append(ctypes.addressof(a))
                elif hasattr(a, "_obj"):
                    v.append(ctypes.addressof(a._obj))
                elif isinstance(a, ctypes._SimpleCData):
                    v.append(a.value or 0)
                else:
                    v.append(a or 0)
            arr = (ctypes.c_long * 8)(*v)
            return self.L.shim_apart(at, arr)
        return g

    def left(self, **secrets):
        """Names of those secrets of which a whole copy is found."""
        out = []
        for k, v in secrets.items():
            for i, x in enumerate(v if isinstance(v, list) else [v]):
                if len(x) >= 24 and len(set(x)) > 8 and self.L.shim_left(x, len(x)):
                    out.append("%s" % k)
        return sorted(set(out))


def scalar(rng):
    return rng.randrange(2**200, 2**252).to_bytes(32, "little")


def mul(*xs):
    r = 1
    for x in xs:
        r = r * (int.from_bytes(x, "little") if isinstance(x, bytes) else x) % ELL
    return r.to_bytes(32, "little")


def lagrange(i, q):
    r = 1
    for j in q:
        if j != i:
            r = r * j * pow(j - i, -1, ELL) % ELL
    return r


def alg(job, rng):
    A = lib.Alg("real")
    A.seed(hashlib.sha256(job["seed"].encode()).digest())
    P = Apart(A.L)
    A.L = P
    ev = []

    def add(op, rc, **secrets):
        ev.append({"op": "call", "what": op, "ok": rc == 0, "left": P.left(**secrets), "known": sorted(secrets)})

    for _ in range(job["reps"]):
        x = rng.randbytes(rng.choice([24, 32, 40, 63, 64, 65, 100, 128, 200, 255]))
        ln = rng.choice([64, 64, 65, 128, 200, 255])
        rc, e, _ok = A.expand(x, rng.randbytes(rng.randint(1, 254)), ln)
        add("expand", rc, input=x, expanded=[e[i:i + 64] for i in range(0, ln, 64)])
        e = A.expand(x, DST, 64)[1]
        h = A.h2g(x)[1]
        add("hash", 0, input=x, expanded=e)
        rb = scalar(rng)
        A.script(rb)
        rc, r, a = A.blind(x)
        A.script(b"")
        add("blind", rc, input=x, expanded=e, hashed=h, factor=r)
        k = scalar(rng)
        rc, z = A.evaluate(k, a)
        inv = pow(int.from_bytes(r, "little"), -1, ELL).to_bytes(32, "little")
        rc, n = A.unblind(r, z)
        add("unblind", rc, inverse=inv)
        for bad in (bytes(32), b"\xff" * 32, z[:31] + bytes([z[31] | 128]), bytes([1]) + bytes(31)):
            rc, _n = A.unblind(r, bad)
            add("unblind", rc, inverse=inv)
        rc, o = A.finalize(x, n)
        add("finalize", rc, input=x)
        nn = rng.choice([2, 3, 5, 9, 20, 60])
        t = rng.randint(2, nn)
        co = [scalar(rng) for _ in range(t)]
        A.script(b"".join(co))
        rc, c, s = A.dkg_start(nn, t)
        A.script(b"")
        add("deal", rc, coefficients=co)
        co = [scalar(rng) for _ in range(t - 1)]
        A.script(b"".join(co))
        sh = A.create_shares(k, nn, t)
        A.script(b"")
        add("share", 0, coefficients=co)
        q = rng.sample(range(1, nn + 1), t)
        i = rng.choice(q)
        v = sh[i - 1][1:]
        w = mul(v, lagrange(i, q))
        w = w if w != v else []
        rc, z = A.teval(sh[i - 1], a, q)
        add("evaluate share", rc, weighted=w)
        rc, z = A.teval(sh[i - 1], b"\xff" * 32, q)
        add("evaluate share", rc, weighted=w)
        co = [scalar(rng) for _ in range(t - 1)]
        s2 = scalar(rng)
        A.script(b"".join(co))
        rc, s = A.mul_start(sh[i - 1], bytes([i]) + s2, nn, t)
        A.script(b"")
        add("multiply", rc, product=mul(v, s2), coefficients=co)
    return ev


def sess(job, rng):
    S = tp.Session(job["n"], job["t"], job["seed"], eps=job["eps"], devs=job.get("devs", ()))
    P = Apart(S.L)
    L = S.L
    L.shim_peer_holds.argtypes = [ctypes.c_void_p, ctypes.c_char_p, ctypes.c_size_t]
    for p in S.peers:
        p.L = P
        call = p.call

        def go(data, outlen=None, p=p, call=call):
            lt = S.lt[p.who - 1][1][:32]
            before = bool(L.shim_peer_holds(p.h, lt, 32))
            r = call(data, outlen)
            out = bytes.fromhex(r["out"])
            S.trail.append({"op": "peer", "who": p.who, "msgno": out[64] if r["ret"] == 0 and len(out) > 64 else 255, "ok": r["ret"] == 0,
                            "before": before, "holds": bool(L.shim_peer_holds(p.h, lt, 32)), "left": P.left(key=lt)})
            return r
        p.call = go
    S.trail = []
    S.run()
    return S.trail


def run_job(job):
    rng = random.Random(job["seed"])
    return {"id": job["seed"], "key": job["key"], "ev": (sess if job["mod"] == "tp" else alg)(job, rng)}


if __name__ == "__main__":
    core.driver_main(run_job)
