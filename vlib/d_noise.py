"""Driver: runs programs generated from NoiseGen on the secure channel and records what is visible."""
import ctypes, hashlib, random
from . import core, noise

_N = {}
TOP = {1: 2**8 - 2, 2: 2**16 - 2, 3: 2**31 - 2, 4: 2**32 - 2, 5: 2**63 - 2, 6: 2**64 - 3}
_AT = {}
_usable = ctypes.CDLL(None).malloc_usable_size
_usable.restype, _usable.argtypes = ctypes.c_size_t, [ctypes.c_void_p]


def counters(N):
    """Where the message counters lie in session objects, as word numbers: the only word that goes up by one
    with every message.  Found by watching two sessions; a counter that cannot be found is left out."""
    if id(N) in _AT:
        return _AT[id(N)]
    at = _AT[id(N)] = {}
    ks = [b"\1" * 32, b"\2" * 32]
    dv = [N.device(b"", b"a", b"\3" * 32, k) for k in ks]
    p = N.add(dv[0], b"b", N.pub(ks[1]))
    N.add(dv[1], b"a", N.pub(ks[0]))

    def halves(d):
        return list((ctypes.c_uint32 * (_usable(d) // 4)).from_address(d))
    snap, extra = [halves(dv[0])], []
    for i in range(3):
        N.add(dv[0], b"x", bytes([9 + i]) * 32)
        snap.append(halves(dv[0]))
    for i in range(3):
        extra.append(N._session_create_responder(dv[0]))
        snap.append(halves(dv[0]))
    for what, want in (("peers", [0, 1, 2, 3, 3, 3, 3]), ("sessions", [0, 0, 0, 0, 1, 2, 3])):
        hit = [i for i in range(len(snap[0])) if [x[i] - snap[0][i] for x in snap] == want]
        if len(hit) == 1:
            at[what] = hit[0]
    for s in extra:
        N._session_free(s)
    se = [N._session_create_initiator(dv[0], N._peer_get_id(p)), N._session_create_responder(dv[1])]

    def words(s):
        n = _usable(s) // 8
        return list((ctypes.c_uint64 * n).from_address(s))
    for k in range(3):
        N.read(se[1 - k % 2], N.write(se[k % 2], 0, b"")[0])
    for w in (0, 1):
        a, b = [words(se[w])], [words(se[1 - w])]
        for _ in range(4):
            N.read(se[1 - w], N.write(se[w], 0, b"x")[0])
            a.append(words(se[w]))
            b.append(words(se[1 - w]))
        for who, snap, what in ((w == 0, a, "send"), (w == 1, b, "recv")):
            hit = [i for i in range(len(snap[0])) if [x[i] for x in snap] == [0, 1, 2, 3, 4]]
            if len(hit) == 1:
                at[who, what] = hit[0]
    for s in se:
        N._session_free(s)
    for d in dv:
        N._device_free(d)
    return at


def flip(b, i):
    b = bytearray(b)
    b[i // 8] ^= 1 << (i % 8)
    return bytes(b)


def alter(b, a, rng):
    """The alterations of NoiseGen; never the same bytes."""
    n = len(b)
    if a == 0 or n == 0:
        return b if a == 0 else b"\0" * 7
    if a == 1:
        return flip(b, rng.randrange(8 * min(32, n)))
    if a == 2:
        return flip(b, 8 * n - 1 - rng.randrange(8 * min(16, n)))
    if a == 3:
        return flip(b, rng.randrange(8 * n))
    if a == 4:
        return b[:-1]
    if a == 5:
        return b + bytes([rng.randrange(256)])
    if a == 6:
        return b""
    if a == 7:
        return b[:15]
    if a == 8:
        c = bytes(min(32, n)) + b[32:]
        return c if c != b else flip(b, 0)
    return flip(b, 255 if n >= 32 else 0)


class Run:
    def __init__(self, N, seed):
        self.N = N
        self.rng = random.Random(seed)
        N.L.shim_rng_seed(hashlib.sha256(seed.encode()).digest())
        r = self.rng
        self.priv = {i: r.randbytes(32) for i in (1, 2, 3)}
        self.pub = {i: N.pub(self.priv[i]) for i in self.priv}
        self.pub[4] = flip(self.pub[2], r.randrange(8))                  # close relatives of other keys
        self.pub[5] = flip(self.pub[2], 248 + r.randrange(8))
        self.pub[6] = flip(self.pub[1], r.choice([r.randrange(8), 8 + r.randrange(240), 247, 248 + r.randrange(7), 255, 255]))
        self.sk = {1: r.randbytes(32)}
        self.sk[2] = flip(self.sk[1], r.randrange(256))
        self.sk[3] = r.randbytes(32)
        base = bytes(r.randrange(1, 256) for _ in range(r.choice([3, 8, 40])))
        self.names = {0: None, 1: base, 2: base + b"x", 3: flip(base, 0) if base[0] != 1 else b"\2" + base[1:], 4: base[:-1]}
        if r.random() < 0.5:
            self.names[0] = b""
        self.pro = {0: b"", 1: r.randbytes(r.choice([1, 15, 64, 200]))}
        self.pro[2] = self.pro[1] + b"\0" if r.random() < 0.5 else flip(self.pro[1], 8 * len(self.pro[1]) - 1)
        self.dv, self.se, self.ms, self.bl = [], [], [], []
        self.ids = []        # per device: abstract id -> id
        self.next = []
        self.owner, self.initiator = [], []

    def key(self, b):
        return next((i for i, k in self.pub.items() if k == b), -1)

    def name(self, b):
        if not b:
            return 0
        return next((i for i, n in self.names.items() if n == b), -1)

    def aid(self, d, real):
        return 0 if real == 0 else next((a for a, x in self.ids[d].items() if x == real), -1)

    def real(self, d, a):
        if a == 0:
            return 0
        m = self.ids[d]
        return m[a] if a in m else min(max(list(m.values()) + [0]) + a, 0xffffffff)

    def row(self, d, p):
        if not p:
            return [0, 0, 0]
        i, k, n = self.N.peer(p)
        return [self.aid(d, i), self.key(k), self.name(n)]

    def registry(self, d, e):
        N, h = self.N, self.dv[d]
        qs = sorted(set([0] + list(self.ids[d])))
        e["byid"] = [{"q": q, "r": self.row(d, N._device_lookup_peer_by_id(h, self.real(d, q)))} for q in qs]
        top = max(list(self.ids[d].values()) + [0])
        e["byid"] += [{"q": 900 + i, "r": self.row(d, N._device_lookup_peer_by_id(h, x))} for i, x in enumerate((min(top + 1, 0xffffffff), 0xffffffff))]
        e["bykey"] = [{"q": k, "r": self.row(d, N.by_key(h, b))} for k, b in self.pub.items()]
        priv, pub, name = N.own(h)
        k = self.key(pub)
        e["own"] = [k if self.priv.get(k) == priv else -1, self.name(name)]
        e["sat"] = [bool(N._device_peers_counter_is_saturated(h)), bool(N._device_sessions_counter_is_saturated(h))]
        return e

    def admit(self, d, p):
        """A peer was returned: give its identifier the next number unless it was handed out before."""
        if not p:
            return 0
        real = self.N.peer(p)[0]
        a = self.aid(d, real)
        if a <= 0:
            a = self.next[d]
            self.ids[d][a] = real
            self.next[d] += 1
        return a

    def view(self, s):
        h, d = self.se[s], self.owner[s]
        if not h:
            return {"status": -1, "max": False, "pid": 0, "pname": 0, "hash": "", "sid": 0}
        v = self.N.view(h)
        v["pid"] = self.aid(d, v["pid"])
        v["pname"] = self.name(v["pname"])
        return v

    def step(self, o):
        N, op = self.N, o["op"]
        e = dict(o)
        d = o["d"] - 1 if "d" in o else None
        e["id"] = o.get("id", 0)
        if op in ("dev", "loaddev"):
            if op == "dev":
                h = N.device(self.pro[o["pro"]], self.names[o["name"]], self.sk[o["sk"]], self.priv[o["key"]])
            else:
                h = N.device(self.pro[o["pro"]], self.names[o["name"]], self.sk[o["sk"]], alter(self.bl[o["b"] - 1], o["alt"], self.rng), stored=True)
            self.dv.append(h)
            self.ids.append({})
            self.next.append(1)
            e["ok"] = bool(h)
            if h:
                self.registry(len(self.dv) - 1, e)
            else:
                e.update({"byid": [], "bykey": [], "own": [0, 0]})
        elif op in ("add", "load"):
            h = self.dv[d]
            if op == "add":
                p = N.add(h, self.names[o["name"]], self.pub[o["key"]])
            else:
                p = N.load(h, self.names[o["name"]], alter(self.bl[o["b"] - 1], o["alt"], self.rng))
            e["ok"], e["id"] = bool(p), self.admit(d, p)
            self.registry(d, e)
        elif op == "rm":
            N._device_remove_peer(self.dv[d], self.real(d, o["id"]))
            e["ok"] = True
            self.registry(d, e)
        elif op in ("save", "savedev"):
            h = self.dv[d]
            if op == "save":
                p = N._device_lookup_peer_by_id(h, self.real(d, o["id"]))
                b, hide = N.save(h, p) if p else b"", N.peer(p)[1] if p else b""
            else:
                b, hide = N.save_device(h), N.own(h)[0]
            self.bl.append(b)
            e["ok"] = len(b) > 0
            e["raw"], e["hide"] = b.hex(), hide.hex()
            self.registry(d, e)
        elif op in ("init", "resp"):
            h = N._session_create_initiator(self.dv[d], self.real(d, o["id"])) if op == "init" else N._session_create_responder(self.dv[d])
            self.se.append(h)
            self.owner.append(d)
            self.initiator.append(op == "init")
            e["ok"] = bool(h)
            e["v"] = self.view(len(self.se) - 1)
        elif op == "write":
            s = self.se[o["s"] - 1]
            data = self.rng.randbytes(o["len"])
            ct, clean = N.write(s, o["lv"], data) if s else (None, True)
            self.ms.append(ct)
            e.update({"ok": ct is not None, "clean": clean, "pt": hashlib.sha256(data).hexdigest()[:16] if data else "", "v": self.view(o["s"] - 1)})
        elif op == "read":
            s = self.se[o["s"] - 1]
            m = self.ms[o["m"] - 1] or b""
            ct = alter(m, o["alt"], self.rng)
            pt, unp, got, clean = N.read(s, ct) if s else (None, [], [], True)
            e.update({"ok": pt is not None or bool(unp), "mlen": len(ct), "clean": clean, "unp": unp, "same": [g == pt for g in got],
                      "len": len(pt or b""), "pt": hashlib.sha256(pt).hexdigest()[:16] if pt else "", "v": self.view(o["s"] - 1)})
        elif op == "burst":
            e["ok"] = all(self.one(o["s"] - 1, o["r"] - 1) for _ in range(o["n"]))
        elif op == "wane":
            e["ok"] = self.wane(d)
        elif op == "jump":
            e["ok"] = self.jump(o["s"] - 1, o["r"] - 1, TOP[o["k"]])
        for k in ("s", "d"):
            e.setdefault(k, 0)
        return e

    def one(self, s, r):
        data = self.rng.randbytes(self.rng.choice([1, 5, 40]))
        ct, _ = self.N.write(self.se[s], 5, data)
        return ct is not None and self.N.read(self.se[r], ct)[0] == data

    def jump(self, s, r, value):
        """Moves the message counters of the direction s to r forward."""
        at = counters(self.N)
        x, y = at.get((self.initiator[s], "send")), at.get((self.initiator[r], "recv"))
        if x is None or y is None:
            return False
        for k, i in ((s, x), (r, y)):
            ctypes.c_uint64.from_address(self.se[k] + 8 * i).value = value
        return True

    def wane(self, d):
        """Moves the identifier counters of a device to two below the last identifier."""
        at = counters(self.N)
        if "peers" not in at or "sessions" not in at:
            return False
        for k in ("peers", "sessions"):
            ctypes.c_uint32.from_address(self.dv[d] + 4 * at[k]).value = 0xffffffff - 2
        self.next[d] = 4998
        return True

    def close(self):
        for s in self.se:
            if s:
                self.N._session_free(s)
        for d in self.dv:
            if d:
                self.N._device_free(d)


def run_job(job):
    v = job.get("variant", "real")
    if v not in _N:
        _N[v] = noise.Noise(v)
    out = []
    for i, prog in job["progs"]:
        R = Run(_N[v], "%s/%s" % (job["seed"], i))
        ev = [R.step(o) for o in prog]
        R.close()
        out.append({"id": "%s %s" % (job["key"], i), "key": "%s %s" % (job["key"], i), "ev": ev})
    return out


if __name__ == "__main__":
    core.driver_main(run_job)
