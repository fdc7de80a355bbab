"""Driver: the Python binding of the working tree, on calls planned by PyGen, on the programs of the
other drivers, in key generation sessions and on programs of PyNoiseGen."""
import ctypes, os, random, sys
sys.path.insert(0, os.environ["PY_REPO"])
os.environ.setdefault("BYZANTINE_DKG", os.environ["PY_LIB"])
import pyoprf
from . import core, d_alg, d_noise

ELL = d_alg.ELL
L = pyoprf.liboprf


# ------------------------------------------------------------------ values
def ty(v):
    if isinstance(v, bool):
        return {"t": "odd", "as": ty(int(v))}
    if isinstance(v, bytes):
        return {"t": "bytes", "v": v.hex()}
    if isinstance(v, str):
        return {"t": "str", "v": v.encode("utf8").hex()}
    if isinstance(v, int):
        return {"t": "int", "v": max(-1000000, min(1000000, v)), "h": "%016x" % v if 0 <= v < 2**64 else ""}
    if isinstance(v, (list, tuple)):
        return {"t": "list", "v": [ty(x) for x in v]}
    if isinstance(v, (bytearray, memoryview)):
        return {"t": "odd", "as": ty(bytes(v))}
    if isinstance(v, float):
        return {"t": "odd", "as": ty(int(v))}
    return {"t": "none"}


def hx(v):
    return v.hex() if isinstance(v, bytes) else [hx(x) for x in v]


def attempt(f, *a):
    try:
        return {"ok": True, "v": f(*a)}
    except Exception as e:
        return {"ok": False, "v": "", "e": type(e).__name__}


class Maker:
    """Concrete arguments."""

    def __init__(self, rng, n, t):
        self.r, self.n, self.t = rng, n, t
        self.N, self.T = n, t       # as passed
        self.A = PyAlg()

    def scalar(self):
        return self.r.randrange(1, ELL).to_bytes(32, "little")

    def elem(self):
        return self.A.h2g(self.r.randbytes(5))[1]

    def text(self, k, wide=False):
        return "".join(self.r.choice("abcdefghijklmnop" + ("é€\U0001f600" if wide else "")) for _ in range(k))

    def sized(self, v, d):
        """Deviations of a byte string."""
        if d == "ok":
            return v
        if d in ("len0", "len-1", "len+1", "len*2", "len32"):
            return {"len0": b"", "len-1": v[:-1], "len+1": v + self.r.randbytes(1), "len*2": v + v, "len32": v[:32]}[d]
        if d == "str":
            return self.text(len(v))
        if d == "ustr":
            return self.text(len(v), True)
        return {"bytearray": bytearray(v), "memoryview": memoryview(v), "none": None, "int": len(v), "list": [v]}[d]

    def make(self, kind, d):
        return getattr(self, "k_" + kind)(d)

    def k_in255(self, d):
        if d[0] == "n" and d != "none":
            return self.r.randbytes(int(d[1:]))
        return self.sized(self.r.randbytes(self.r.randrange(256)), d)

    def k_in64k(self, d):
        if d[0] == "n" and d != "none":
            return self.r.randbytes(int(d[1:]))
        return self.sized(self.r.randbytes(self.r.randrange(400)), d)

    def k_scalar(self, d):
        return bytes(32) if d == "zero" else self.sized(self.scalar(), d)

    def k_elem(self, d):
        e = self.elem()
        if d == "identity":
            return bytes(32)
        if d == "bad":
            return self.r.choice([b"\xff" * 32, b"\1" + bytes(31), (d_alg.PRIME + 4).to_bytes(32, "little"), e[:1] + self.r.randbytes(31)])
        if d == "top":
            return e[:31] + bytes([e[31] | 0x80])
        return self.sized(e, d)

    def k_share(self, d):
        return self.sized(bytes([self.me()]) + self.scalar(), d)

    def me(self):
        if not hasattr(self, "_me"):
            self._me = self.r.randint(1, self.n)
        return self._me

    def num(self, v, d):
        """Deviations of a number whose proper value is v."""
        if d.startswith("+2^"):
            return v + 2**int(d[3:])
        if d.startswith("+"):
            return v + int(d[1:])
        if d == "-256+":
            return v - 256
        if d == "-255":
            return -255
        if d == "float":
            return float(v)
        if d == "str":
            return str(v)
        if d == "none":
            return None
        if d == "bool":
            return True
        return int(d)

    def k_i(self, d):
        return self.me() if d == "ok" else self.num(self.me(), d)

    def k_n(self, d):
        v = {"ok": self.n, "=t": self.t, "<t": self.t - 1}
        self.N = v[d] if d in v else self.num(self.n, d)
        return self.N

    def k_t(self, d):
        v = {"ok": self.t, "=n": self.n, ">n": self.n + 1}
        self.T = v[d] if d in v else self.num(self.t, d)
        return self.T

    def k_self(self, d):
        v = {"ok": self.me(), "n": self.n, "n+1": self.n + 1}
        return v[d] if d in v else self.num(self.me(), d)

    def k_idxs(self, d):
        q = self.r.sample([i for i in range(1, 256) if i != self.me()], self.t - 1) + [self.me()]
        self.r.shuffle(q)
        at = self.r.randrange(len(q))
        if d in ("has0", "has256", "has-1", "big"):
            q[at] = {"has0": 0, "has256": 256, "has-1": -1, "big": 2**32 + 1}[d]
        return {"tuple": tuple(q), "256": (q * 256)[:256], "65537": (q * 65537)[:65537], "bytes": bytes(x % 256 for x in q), "str": "".join(map(chr, q)) if d == "str" else "",
                "none": None, "floats": [float(x) for x in q], "empty": [], "without": [x for x in q if x != self.me()], "one": [self.me()]}.get(d, q)

    k_peers = k_idxs

    def bend(self, v, d):
        """Deviations of a list of byte strings of equal size."""
        v = list(v)
        at = self.r.randrange(len(v)) if v else 0
        oth = (at + 1) % len(v) if v else 0
        if d == "tuple":
            return tuple(v)
        if d == "fewer":
            return v[:-1]
        if d == "more":
            return v + v[:1]
        if d == "short":
            v[at] = v[at][:-1]
        elif d == "long":
            v[at] += b"\0"
        elif d == "moved":
            # the same bytes altogether, divided at another place
            at = min(at, len(v) - 2) if len(v) > 1 else 0
            w = b"".join(v[at:at + 2])
            cut = self.r.choice([len(v[at]) - 1, len(v[at]) + 1, 0, 1, len(w)])
            v[at:at + 2] = [w[:cut], w[cut:]]
        elif d == "strpart":
            v[at] = self.text(len(v[at]))
        elif d == "bytearraypart":
            v[at] = bytearray(v[at])
        elif d == "nonepart":
            v[at] = None
        elif d == "badpart":
            v[at] = v[at][:1] + b"\xff" * 32
        elif d == "dup":
            v[at] = v[oth]
        elif d in ("bytes", "str", "none", "empty"):
            return {"bytes": b"".join(v), "str": self.text(sum(map(len, v))), "none": None, "empty": []}[d]
        elif d == "wrong":
            v[at] = v[at][:1] + self.scalar()
        return v

    def k_parts(self, d):
        m = int(d) if d.isdigit() else self.n
        e = [self.elem() for _ in range(min(m, 3))]
        idx = self.r.sample(range(1, 256), min(m, 255)) + [1, 2][:max(0, m - 255)]
        return self.bend([bytes([idx[i]]) + e[i % 3] for i in range(m)], d)

    def k_rshares(self, d):
        m = int(d) if d.isdigit() else self.t
        idx = self.r.sample(range(1, 256), min(m, 255)) + [1][:max(0, m - 255)]
        return self.bend([bytes([i]) + self.scalar() for i in idx], d)

    def group(self):
        """Size of the group, as the function would take it, within bounds of reason."""
        n = int(self.N) if isinstance(self.N, (int, float)) and 0 < self.N < 300 else self.n
        t = int(self.T) if isinstance(self.T, (int, float)) and 0 < self.T < 300 else self.t
        return n, t

    def deal(self):
        if not hasattr(self, "_deal"):
            n, t = self.group()
            if n > 16:
                com, sh = [self.elem() for _ in range(t)] * n, [bytes([self.me()]) + self.scalar() for i in range(n)]
            else:
                com, sh = [], []
                for i in range(n):
                    c = [self.r.randrange(1, ELL) for _ in range(t)]
                    com += [self.A.base(x.to_bytes(32, "little")) for x in c]
                    sh.append(bytes([self.me()]) + (sum(x * self.me()**k for k, x in enumerate(c)) % ELL).to_bytes(32, "little"))
            self._deal = com, sh
        return self._deal

    def k_shares(self, d):
        return self.bend(self.deal()[1], d)

    def k_coms(self, d):
        c = list(self.deal()[0])
        if d == "wrong":
            c[self.r.randrange(len(c))] = self.elem()
        b = b"".join(c)
        if d in ("fewer", "more"):
            return b[:-32] if d == "fewer" else b + b[:32]
        if d == "list":
            return c
        return b if d == "wrong" else self.sized(b, d)

    def k_eps(self, d):
        if d[0] == "2":
            return eval(d.replace("^", "**"))
        return self.r.choice([5, 600]) if d == "ok" else self.num(5, d)

    def k_name(self, d):
        if d == "ok":
            d = self.r.choice(["b17", "s17"])
        if d[:2] == "su":
            return self.text(int(d[2:]), True)
        if d[0] == "s":
            return self.text(int(d[1:]))
        if d[0] == "b" and d[1:].isdigit():
            return self.r.randbytes(int(d[1:]))
        return {"bytearray": bytearray(b"name"), "none": None, "int": 5}[d]

    def k_pks(self, d):
        return self.bend([self.r.randbytes(32) for _ in range(self.group()[0])], d)

    def k_sk(self, d):
        return self.sized(pyoprf.pysodium.crypto_sign_seed_keypair(self.r.randbytes(32))[1], d)

    def k_msg0(self, d):
        if d == "other":
            return self.r.randbytes(177)
        n, t = max(self.n, 3), min(self.t, max(self.n, 3) - 1)
        o = call("start_tp", [n, t, 5, b"x", [self.r.randbytes(32) for _ in range(n)]])
        self.before = [o]
        return self.sized(bytes.fromhex(o["out"]["v"]["msg"]), d)


def _start_tp(n, t, eps, name, pks):
    ctx, msg = pyoprf.tpdkg_start_tp(n, t, eps, name, pks)
    s = ctx[0]
    return {"msg": msg.hex(), "eps": "%016x" % s.ts_epsilon, "n": s.n, "t": s.t, "sid": bytes(s.sessionid).hex(), "pk": bytes(s.sig_pk).hex()}


def _peer_start(eps, sk, msg):
    ctx = pyoprf.tpdkg_peer_start(eps, sk, msg)
    s = ctx[0]
    r = {"eps": "%016x" % s.ts_epsilon, "n": s.n, "t": s.t, "sid": bytes(s.sessionid).hex(), "sk": bytes(s.lt_sk).hex()}
    pyoprf.tpdkg_peer_free(ctx)
    return r


def _dkg_start(n, t):
    com, sh = pyoprf.dkg_start(n, t)
    return {"com": com.hex(), "shares": hx(sh)}


def _pubkey(k):
    from pyoprf import noisexk
    return noisexk.pubkey(k).hex()


SPECIAL = {"start_tp": _start_tp, "peer_start": _peer_start, "dkg_start": _dkg_start, "pubkey": _pubkey,
           "dkg_verify_commitments": lambda *a: list(pyoprf.dkg_verify_commitments(*a)),
           "thtdh": lambda *a: hx(pyoprf._3hashtdh(*a))}


def call(f, args):
    g = SPECIAL.get(f) or (lambda *a: hx(getattr(pyoprf, f)(*a)))
    return {"op": "call", "f": "3hashtdh" if f == "thtdh" else f, "a": [ty(x) for x in args], "out": attempt(g, *args)}


def j_plan(job, rng):
    ev = []
    for p in job["plans"]:
        m = Maker(rng, p["n"], p["t"])
        if p["f"] == "start_tp":
            m.n, m.t = max(p["n"], 3), min(p["t"], max(p["n"], 3) - 1)
        args = [m.make(k, d) for k, d in zip(p["kinds"], p["dev"])]
        ev += getattr(m, "before", []) + [call(p["f"], args)]
    return ev


# ------------------------------------------------------------------ the programs of the other driver
class PyAlg:
    """The interface of lib.Alg, through the binding. An exception counts as failure."""

    def __init__(self):
        self.L = L

    def seed(self, s):
        L.shim_rng_seed(s)

    def script(self, b):
        L.shim_rng_script(b, ctypes.c_size_t(len(b)))

    def keygen(self):
        return pyoprf.keygen()

    def h2g(self, m):
        o = ctypes.create_string_buffer(32)
        L.voprf_hash_to_group(m, ctypes.c_uint8(len(m)), o)
        return 0, o.raw

    def base(self, s):
        return pyoprf.pysodium.crypto_scalarmult_ristretto255_base(s)

    def _t(self, f, n, *a):
        try:
            return 0, f(*a)
        except Exception:
            return 1, bytes(n)

    def blind(self, x):
        rc, v = self._t(pyoprf.blind, 64, x)
        return (0,) + v if rc == 0 else (1, bytes(32), bytes(32))

    def evaluate(self, k, a):
        return self._t(pyoprf.evaluate, 32, k, a)

    def unblind(self, r, z):
        return self._t(pyoprf.unblind, 32, r, z)

    def finalize(self, x, n):
        return self._t(pyoprf.finalize, 64, x, n)

    def create_shares(self, k, n, t):
        return list(pyoprf.create_shares(k, n, t))

    def reconstruct(self, s):
        return pyoprf.dkg_reconstruct(s)

    def coeff(self, i, q):
        return pyoprf.coeff(i, q)

    def tmult(self, p):
        return self._t(pyoprf.thresholdmult, 32, p)

    def teval(self, s, a, idx):
        return self._t(pyoprf.threshold_evaluate, 33, s, a, s[0], idx)

    def tcomb(self, p):
        return self._t(pyoprf.threshold_combine, 32, p)

    def tdh(self, k, z, a, ssid):
        return self._t(pyoprf._3hashtdh, 33, k, z, a, ssid)

    def dkg_start(self, n, t):
        c, s = pyoprf.dkg_start(n, t)
        return 0, [c[32 * i:32 * i + 32] for i in range(t)], list(s)

    def dkg_verify(self, n, t, me, coms, shares):
        try:
            f = list(pyoprf.dkg_verify_commitments(n, t, me, b"".join(b"".join(c) for c in coms), shares))
            return len(f), f
        except Exception:
            return 1, [999]

    def dkg_finish(self, n, s, me):
        return pyoprf.dkg_finish(n, s, me)


def j_alg(job, rng):
    A = PyAlg()
    A.seed(rng.randbytes(32))
    return getattr(d_alg, "j_" + job["what"])(A, job, rng)


# ------------------------------------------------------------------ key generation sessions
def j_session(job, rng):
    n, t = job["n"], job["t"]
    L.shim_rng_seed(rng.randbytes(32))
    keys = [pyoprf.pysodium.crypto_sign_seed_keypair(rng.randbytes(32)) for _ in range(n)]
    name = rng.choice(["session", b"session"])
    tp, msg0 = pyoprf.tpdkg_start_tp(n, t, 5, name, [k[0] for k in keys])
    peers = [pyoprf.tpdkg_peer_start(5, k[1], msg0) for k in keys]
    ev = []

    def rec(f, need, arg, fn, *a, **kw):
        o = attempt(fn, *a)
        ev.append(dict({"op": "tpcall", "f": f, "a": ty(arg), "need": need, "out": {"ok": o["ok"]}}, **kw))
        return o["v"] if o["ok"] else None

    def wrong(m):
        """Arguments that are not the message m."""
        c = [m[:-1] if m else b"\0", m + b"\0", "".join(chr(97 + x % 26) for x in m) if m else "a", None, 5, m + m if m else b"ab", "€" * len(m) if m else "€"]
        return rng.choice(c)

    msgs, step, bad, spoiled = b"", 0, job.get("cheat"), set()
    spoilt = 0
    out = None

    def texts():
        """What the library says about each reported peer."""
        r = []
        for i in range(tp[0].cheater_len):
            b = ctypes.create_string_buffer(300)
            p = L.tpdkg_cheater_msg(ctypes.byref(tp[1][i]), b, 300)
            if 1 <= p <= n:
                r.append(b.value.decode("utf8"))
        return r

    def verdict(o):
        s, l = pyoprf.tpdkg_get_cheaters(tp)
        ev.append({"op": "cheaters", "n": n, "who": bad["who"] if spoiled else [bad["who"]], "t": t, "complaints": spoilt, "raised": not o["ok"], "set": sorted(s), "list": [x[0] for x in l], "said": [x[1] for x in l], "text": texts()})

    while pyoprf.tpdkg_tp_not_done(tp):
        _, sizes = pyoprf.tpdkg_tp_input_sizes(tp)
        if bad and step == bad["step"] and sum(sizes) > 0:
            at = sum(sizes[:bad["who"] - 1]) + rng.randrange(64)        # within the signature
            m = bytearray(msgs)
            m[at] ^= 1 << rng.randrange(8)
            o = attempt(pyoprf.tpdkg_tp_next, tp, bytes(m))
            verdict(o)
            break
        if rng.random() < job["probe"]:
            w = wrong(msgs)
            rec("tp_next", len(msgs), w, pyoprf.tpdkg_tp_next, tp, w)
        if spoiled:
            o = attempt(pyoprf.tpdkg_tp_next, tp, msgs)
            if not o["ok"]:
                verdict(o)
                break
            out = o["v"]
        else:
            out = rec("tp_next", len(msgs), msgs, pyoprf.tpdkg_tp_next, tp, msgs)
        if out is None:
            break
        got = []
        first = True
        while not b"".join(got) and pyoprf.tpdkg_peer_not_done(peers[0]):
            for i in range(n):
                if first and len(out) > 0:
                    if rng.random() < job["probe"]:
                        w = rng.choice([n, -1, 256, 256 + i, 2**32 + i, 255, n + 1, None, "0", -256 + i])
                        rec("tp_peer_msg", 0, w, pyoprf.tpdkg_tp_peer_msg, tp, out, w, n=n)
                    m = rec("tp_peer_msg", 0, i, pyoprf.tpdkg_tp_peer_msg, tp, out, i, n=n)
                    if m is None:
                        return ev
                else:
                    m = rng.choice(["", b""])
                if rng.random() < job["probe"]:
                    w = wrong(m if m else b"")
                    rec("peer_next", len(m), w, pyoprf.tpdkg_peer_next, peers[i], w)
                o = rec("peer_next", len(m), m, pyoprf.tpdkg_peer_next, peers[i], m)
                if o is None:
                    return ev
                if bad and bad["step"] == "deal" and i + 1 in bad["who"] and len(o) > 64 and o[64] == 6 and i not in spoiled:
                    spoiled.add(i)
                    # the commitments are out, the shares are not: spoil those for some others
                    for j in bad["victims"] if "victims" in bad else rng.sample([j for j in range(n) if j != i], rng.choice([n - 1, rng.randint(1, n - 1)])):
                        spoilt += 1
                        k = 33 * j + 1 + rng.randrange(31)
                        peers[i][5][k] = (peers[i][5][k][0] + 1) % 256
                got.append(o)
            first = False
        msgs = b"".join(got)
        step += 1
    else:
        if spoiled:
            verdict({"ok": True})
        ev.append({"op": "tpend", "n": n, "t": t, "shares": [bytes(p[0].share).hex() for p in peers]})
    for p in peers:
        pyoprf.tpdkg_peer_free(p)
    return ev


# ------------------------------------------------------------------ secure channel
def j_noise(job, rng):
    from pyoprf import noisexk as X
    priv = {i: rng.randbytes(32) for i in (1, 2, 3)}
    pub = {i: X.pubkey(priv[i]) for i in priv}
    text = "".join(rng.choice("abcdefgh") for _ in range(rng.choice([4, 20, 64])))
    pro = {0: None, 1: text, 2: text[:-1] + ("z" if rng.random() < .5 else "é"), 3: text + rng.choice(["x", "\0"])}
    dv, se, ms, ev = [], [], [], []

    def form(s):
        return s if s is None or rng.random() < .5 else s.encode("utf8")

    for o in job["ops"]:
        e = dict(o, op="noise", what=o["op"])
        op = o["op"]
        s = se[o["s"] - 1] if "s" in o else None
        m = None
        if "m" in o:
            m = d_noise.alter(ms[o["m"] - 1], o["alt"], rng)
            e["mlen"] = len(m)
        if op == "dev":
            r = attempt(X.create_device, form(pro[o["pro"]]), form("d%d" % o["name"]), priv[o["key"]])
            dv.append([r["v"] if r["ok"] else None, {}])
        elif op == "add":
            d = dv[o["d"] - 1]
            r = attempt(X.add_peer, d[0], form("p%d" % o["name"]), pub[o["key"]])
            if r["ok"]:
                d[1][len(d[1]) + 1] = X.get_peerid(r["v"])
        elif op == "init":
            d = dv[o["d"] - 1]
            r = attempt(X.create_session_initiator, d[0], d[1].get(o["id"], o["id"]))
            se.append(r["v"] if r["ok"] else None)
        elif op == "resp":
            r = attempt(X.create_session_responder, dv[o["d"] - 1][0])
            se.append(r["v"] if r["ok"] else None)
        elif op == "isess":
            kw = {} if o["pro"] == 0 else {"dst": form(pro[o["pro"]])}
            r = attempt(lambda: X.initiator_session(priv[o["key"]], pub[o["rkey"]], **kw))
            dv.append([None, {}])
            se.append(r["v"][0] if r["ok"] else None)
            ms.append(r["v"][1] if r["ok"] else b"")
        elif op == "rsess":
            kw = {} if o["pro"] == 0 else {"dst": form(pro[o["pro"]])}
            r = attempt(lambda: X.responder_session(priv[o["key"]], [(pub[k], form("k%d" % k)) for k in o["keys"]], m, **kw))
            dv.append([None, {}])
            se.append(r["v"][0] if r["ok"] else None)
            ms.append(r["v"][1] if r["ok"] else b"")
        elif op in ("first", "reply", "done", "send", "recv", "who"):
            if s is None or (op == "who" and dv[o["d"] - 1][0] is None):
                # the session could not be made: nothing to call
                if op in ("first", "reply", "send"):
                    ms.append(b"")
                e["pt"], e["key"] = "", 0
                e["ok"] = False
                if op != "who":
                    ev.append(e)
                continue
            if op == "first":
                r = attempt(X.initiator_1st_msg, s)
            elif op == "reply":
                r = attempt(X.responder_1st_msg, s, m)
            elif op == "done":
                r = attempt(X.initiator_session_complete if rng.random() < .5 else X.initiator_handshake_finish, s, m)
            elif op == "send":
                pt = "".join(rng.choice("abcé€") for _ in range(o["len"])) if rng.random() < .5 else rng.randbytes(o["len"])
                e["pt"] = (pt if isinstance(pt, bytes) else pt.encode("utf8")).hex()
                r = attempt(X.send_msg, s, pt)
            elif op == "recv":
                r = attempt(X.read_msg, s, m)
                e["pt"] = r["v"].hex() if r["ok"] else ""
            else:
                r = attempt(X.get_pubkey, s, dv[o["d"] - 1][0])
                e["key"] = next((k for k in pub if pub[k] == r["v"]), -1)
            if op in ("first", "reply", "send"):
                ms.append(r["v"] if r["ok"] else b"")
        e["ok"] = r["ok"]
        ev.append(e)
    return ev


def run_job(job):
    rng = random.Random(job["seed"])
    try:
        ev = globals()["j_" + job["kind"]](job, rng)
    except Exception as e:
        # proper use that raises within the binding; anything else is a defect of this driver
        tb, inside = e.__traceback__, False
        while tb:
            inside |= tb.tb_frame.f_code.co_filename.startswith(os.path.join(os.environ["PY_REPO"], "pyoprf"))
            tb = tb.tb_next
        if not inside:
            raise
        ev = [{"op": "crash", "rc": "%s: %s" % (type(e).__name__, e)}]
    return {"id": job["seed"], "key": job.get("key", job["kind"]), "ev": ev}


if __name__ == "__main__":
    core.driver_main(run_job)
