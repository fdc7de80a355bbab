"""Driver: the library's secure channel against a reference party written here, which may deviate."""
import ctypes, hashlib, hmac, random
from . import core, lib, noise

_N = {}
LOW = {"low0": bytes(32), "low1": b"\1" + bytes(31),
       "low2": bytes.fromhex("e0eb7a7c3b41b8ae1656e3faf19fc46ada098deb9c32b1fd866205165f49b800"),
       "low3": (2**255 - 19 - 1).to_bytes(32, "little")}


def H(x):
    return hashlib.blake2b(x).digest()


def hkdf(ck, ikm):
    t = hmac.new(ck, ikm, hashlib.blake2b).digest()
    a = hmac.new(t, b"\1", hashlib.blake2b).digest()
    return a, hmac.new(t, a + b"\2", hashlib.blake2b).digest()


class Ref:
    """One party of the pattern."""
    def __init__(self, N, pro, rs):
        self.L = N.L
        h = b"Noise_XK_25519_ChaChaPoly_BLAKE2b".ljust(64, b"\0")
        self.ck, self.h, self.k, self.n = h, H(H(h + pro) + rs), bytes(32), 0

    def dh(self, priv, pub):
        o = lib.buf(32)
        self.L.crypto_scalarmult_curve25519(o, priv, pub)
        return o.raw[:32]

    def mixhash(self, x):
        self.h = H(self.h + x)

    def mixkey(self, dh):
        self.ck, t = hkdf(self.ck, dh)
        self.k, self.n = t[:32], 0

    def seal(self, k, n, ad, pt):
        o = lib.buf(len(pt) + 16)
        self.L.crypto_aead_chacha20poly1305_ietf_encrypt(o, None, pt, ctypes.c_ulonglong(len(pt)), ad, ctypes.c_ulonglong(len(ad)), None, bytes(4) + n.to_bytes(8, "little"), k)
        return o.raw[:len(pt) + 16]

    def enc(self, pt, n=None, ad=None, hashit=True, key=None):
        c = self.seal(key or self.k, self.n if n is None else n, self.h if ad is None else ad, pt)
        self.n += 1
        if hashit:
            self.mixhash(c)
        return c

    def skip(self, c):
        """What was received."""
        self.n += 1
        self.mixhash(c)


def run_plan(N, plan, seed):
    r = random.Random(seed)
    N.L.shim_rng_seed(hashlib.sha256(seed.encode()).digest())
    B = lambda n: r.randbytes(n)
    at, dev = plan["at"], plan["dev"]
    lp, fs, victim, stray = B(32), B(32), B(32), B(32)
    ls, fpub = N.pub(lp), N.pub(fs)
    fe = B(32)
    fep = N.pub(fe)
    pro = B(plan["pro"])
    libI = plan["role"] == "I"
    near = bytearray(N.pub(stray))
    near[31] ^= 0x80
    reg = [fpub, N.pub(victim)]
    if dev == "near":
        reg.append(bytes(near))
    r.shuffle(reg)
    d = N.device(pro, b"lib", B(32), lp)
    ids = {}
    for k in reg:
        ids[k] = N._peer_get_id(N.add(d, b"peer", k))
    s = N._session_create_initiator(d, ids[fpub]) if libI else N._session_create_responder(d)
    rs = fpub if libI else ls
    fpro = pro
    if dev == "prologue":
        fpro = pro + b"\0" if r.random() < 0.5 or not pro else pro[:-1]
    R = Ref(N, fpro, bytes(near) if dev == "rs" else rs)
    ev, st = [], {"claimed": fpub, "el": None}
    run = {"role": plan["role"], "pro": pro.hex(), "rs": rs.hex(), "lp": lp.hex(), "ls": ls.hex(), "fe": fe.hex(), "fep": fep.hex(),
           "keys": [{"priv": k.hex(), "pub": N.pub(k).hex()} for k in (lp, fs, victim, stray)], "reg": [k.hex() for k in reg]}

    def out(turn, n):
        pt = B(n)
        nl = ctypes.c_uint32(0)
        ok = N._session_compute_next_message_len(ctypes.byref(nl), s, n)
        ct, _ = N.write(s, 0, pt)
        ev.append({"op": "out", "turn": turn, "ok": ct is not None, "raw": (ct or b"").hex(), "pt": pt.hex(), "nlen": nl.value if ok else -1})
        return ct

    def give(turn, raw):
        pt = N.read(s, raw)
        ev.append({"op": "in", "turn": turn, "raw": raw.hex(), "ok": pt[0] is not None, "got": (pt[0] or b"").hex()})
        return pt[0] is not None

    def payload(turn, n, old=None):
        """EncryptAndHash of a payload, with the deviation of this message."""
        me = dev if at == turn else ""
        c = R.enc(B(n), n=(R.n + 1 if me == "nonce" else None), ad=(b"" if me == "noad" else None), hashit=me != "nohash", key=(old if me == "stale" else None))
        return c[:-1] if me == "cut" else c

    def eph(turn):
        me = dev if at == turn else ""
        e = LOW.get(me, fep)
        return e[:31] + bytes([e[31] | 0x80]) if me == "high" else e
    ok = True
    L = plan["len"]
    if libI:
        m = out(1, L[0])
        if m is not None:
            R.mixhash(m[:32])
            R.mixkey(R.dh(stray if dev == "static" else fs, m[:32]))
            R.skip(m[32:])
            e, old = eph(2), R.k
            R.mixhash(e)
            if not (at == 2 and dev == "nomix"):
                R.mixkey(bytes(32) if dev in LOW else R.dh(fe, m[:32]))
            ok = give(2, e + payload(2, L[1], old))
            m = out(3, L[2])
            if m is not None:
                R.skip(m[:48])
                R.mixkey(R.dh(fe, ls))
                R.skip(m[48:])
            ok = ok and m is not None
        else:
            ok = False
    else:
        e = eph(1)
        R.mixhash(e)
        if not (at == 1 and dev == "nomix"):
            R.mixkey(bytes(32) if dev in LOW else R.dh(fe, ls))
        ok = give(1, e + payload(1, L[0]))
        m = out(2, L[1])
        if m is not None:
            R.mixhash(m[:32])
            R.mixkey(R.dh(fe, m[:32]))
            R.skip(m[32:])
            me = dev if at == 3 else ""
            who = {"claim": victim, "unreg": stray, "near": stray, "other": victim}.get(me, fs)
            pub = N.pub(who)
            if me == "high":
                pub = pub[:31] + bytes([pub[31] | 0x80])
            c = R.enc(pub, n=0 if me == "snonce" else None)
            old = R.k
            if me != "nomix":
                R.mixkey(R.dh(fs if me == "claim" else who, m[:32]))
            ok = give(3, c + payload(3, L[2], old))
            st["claimed"] = pub
        else:
            ok = False
    k1, k2 = (x[:32] for x in hkdf(R.ck, b""))
    ks, kr = (k1, k2) if not libI else (k2, k1)
    if ok:
        a = lambda n: R.seal(ks, n, b"", B(L[3]))
        me = dev if at == 4 else ""
        out(4, L[3])
        if me:
            pt = B(L[3])
            give(4, {"nonce": R.seal(ks, 1, b"", pt), "key": R.seal(kr, 0, b"", pt), "ad": R.seal(ks, 0, R.h, pt), "cut": R.seal(ks, 0, b"", pt)[:-1],
                     "empty": b"", "old": R.seal(R.k, 0, b"", pt)}[me])
        give(4, a(0))
        give(4, a(0))
        out(4, 0)
        give(4, a(1))
        out(4, L[0])
    v = N.view(s)
    ev.append({"op": "end", "hash": v["hash"], "peer": next((k.hex() for k, i in ids.items() if i == v["pid"]), ""), "claimed": st["claimed"].hex()})
    N._session_free(s)
    N._device_free(d)
    run["ev"] = ev
    return run


def run_job(job):
    v = job.get("variant", "real")
    if v not in _N:
        _N[v] = noise.Noise(v)
    res = []
    for i, p in job["plans"]:
        x = run_plan(_N[v], p, "%s/%d" % (job["seed"], i))
        x["id"] = x["key"] = "%s at %d %s (%d)" % (p["role"], p["at"], p["dev"], i)
        res.append(x)
    return res


if __name__ == "__main__":
    core.driver_main(run_job)
