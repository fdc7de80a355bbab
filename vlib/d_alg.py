"""Driver: runs OPRF / threshold / key generation / multiplication scenarios on the real code."""
import hashlib, os, random
from . import core, lib

ELL = 2**252 + 27742317777372353535851937790883648493
PRIME = 2**255 - 19


def sh(s):
    return {"i": s[0], "v": s[1:].hex()}


def bad_elements(rng, good, k):
    """32-byte strings that are mostly not acceptable elements; the specification decides each."""
    g = int.from_bytes(good, "little")
    fixed = [0, 1, PRIME, PRIME + 1, PRIME + 2, PRIME - 1, 2**255 - 1, 2**256 - 1, 2**255, g | 2**255, PRIME - g, (g + PRIME) % 2**256, g ^ 1,
             2, 4, 6, g ^ 2, g ^ (1 << 128), ELL]
    out = [v.to_bytes(32, "little") for v in fixed]
    out += [rng.randbytes(32) for _ in range(8)]
    out += [(int.from_bytes(rng.randbytes(32), "little") % PRIME & ~1).to_bytes(32, "little") for _ in range(4)]
    rng.shuffle(out)
    return out[:k] if k else out


def j_expand(A, job, rng):
    ev = []
    for ml, dl, ol in job["cases"]:
        msg, dst = rng.randbytes(ml), rng.randbytes(dl)
        rc, out, tail = A.expand(msg, dst, ol)
        ev.append({"op": "expand", "msg": msg.hex(), "dst": dst.hex(), "len": ol, "rc": rc, "out": out.hex(), "tail": tail})
    return ev


def j_h2g(A, job, rng):
    ev = []
    for ml in job["lens"]:
        msg = rng.randbytes(ml)
        rc, out = A.h2g(msg)
        ev.append({"op": "h2g", "msg": msg.hex(), "rc": rc, "out": out.hex()})
    return ev


def j_inter(A, job, rng):
    """Interleaved exchanges: steps is a list of [client, action]; keys shared between clients."""
    ev = []
    keys = []
    for kid in range(job["keys"]):
        k = A.keygen()
        keys.append(k)
        ev.append({"op": "keygen", "kid": kid, "k": k.hex()})
    S = {}
    for c, act in job["steps"]:
        s = S.setdefault(c, {"x": rng.randbytes(job["xlens"][c % len(job["xlens"])]), "kid": rng.randrange(len(keys))})
        if act == "blind":
            if job.get("scripted"):    # extreme blinding factors
                v = rng.choice([1, 2, ELL - 1, ELL - 2, 2**251])
                A.script(v.to_bytes(32, "little"))
            rc, s["r"], s["a"] = A.blind(s["x"])
            if job.get("scripted"):
                A.script(b"")
            ev.append({"op": "blind", "s": c, "x": s["x"].hex(), "rc": rc, "r": s["r"].hex(), "alpha": s["a"].hex()})
        elif act == "eval":
            rc, s["b"] = A.evaluate(keys[s["kid"]], s["a"])
            ev.append({"op": "eval", "honest": True, "k": keys[s["kid"]].hex(), "in": s["a"].hex(), "rc": rc, "out": s["b"].hex()})
        elif act == "unblind":
            rc, s["n"] = A.unblind(s["r"], s["b"])
            ev.append({"op": "unblind", "honest": True, "r": s["r"].hex(), "in": s["b"].hex(), "rc": rc, "out": s["n"].hex()})
        elif act == "final":
            rc, o = A.finalize(s["x"], s["n"])
            ev.append({"op": "final", "x": s["x"].hex(), "n": s["n"].hex(), "rc": rc, "out": o.hex()})
            ev.append({"op": "output", "s": c, "kid": s["kid"], "out": o.hex()})
    return ev


def j_final(A, job, rng):
    """finalize alone, whose input length is 16 bit"""
    ev = []
    for n in job["lens"]:
        x, p = rng.randbytes(n), A.h2g(rng.randbytes(4))[1]
        rc, o = A.finalize(x, p)
        ev.append({"op": "final", "x": x.hex(), "n": p.hex(), "rc": rc, "out": o.hex()})
    return ev


def j_bad(A, job, rng):
    ev = []
    k = A.keygen()
    n, t = job["n"], job["t"]
    _, r, a = A.blind(rng.randbytes(8))
    shares = A.create_shares(k, n, t)
    q = rng.sample(range(1, n + 1), rng.randint(t, n))
    zs = A.create_shares(bytes(32), n, t)
    parts = [bytes([i]) + A.evaluate(shares[i - 1][1:], a)[1] for i in q]
    eparts = []
    for i in q:
        _, z = A.teval(shares[i - 1], a, q)
        eparts.append(bytes([i]) + z[1:])
    for b in bad_elements(rng, a, job.get("k", 0)):
        rc, z = A.evaluate(k, b)
        ev.append({"op": "eval", "honest": False, "k": k.hex(), "in": b.hex(), "rc": rc, "out": z.hex()})
        rc, z = A.unblind(r, b)
        ev.append({"op": "unblind", "honest": False, "r": r.hex(), "in": b.hex(), "rc": rc, "out": z.hex()})
        i = rng.choice(q)
        rc, z = A.teval(shares[i - 1], b, q)
        ev.append({"op": "teval", "honest": False, "share": sh(shares[i - 1]), "alpha": b.hex(), "idx": q, "rc": rc, "out": sh(z)})
        ssid = rng.randbytes(rng.randrange(40))
        rc, z = A.tdh(shares[i - 1], zs[i - 1], b, ssid)
        ev.append({"op": "tdh", "honest": False, "k": sh(shares[i - 1]), "z": sh(zs[i - 1]), "alpha": b.hex(), "ssid": ssid.hex(), "rc": rc, "out": sh(z)})
        pos = set([rng.randrange(len(q))] + ([rng.randrange(len(q))] if rng.random() < .3 else []))
        ps = [p[:1] + b if j in pos else p for j, p in enumerate(parts)]
        rc, z = A.tmult(ps)
        ev.append({"op": "tmult", "honest": False, "parts": [sh(p) for p in ps], "rc": rc, "out": z.hex()})
        ps = [p[:1] + b if j in pos else p for j, p in enumerate(eparts)]
        rc, z = A.tcomb(ps)
        ev.append({"op": "tcomb", "honest": False, "parts": [sh(p) for p in ps], "rc": rc, "out": z.hex()})
    return ev


def j_badpos(A, job, rng):
    """One malformed element in every place among so many responses."""
    m = job["m"]
    k = A.keygen()
    _, r, a = A.blind(rng.randbytes(8))
    idx = rng.sample(range(1, 256), m)
    parts = [bytes([i]) + A.evaluate(A.keygen(), a)[1] for i in idx]
    ev = []
    for j in job["pos"]:
        for b in rng.sample(bad_elements(rng, a, 0), job.get("k", 2)) + [bytes(32)]:
            ps = [p[:1] + b if i == j else p for i, p in enumerate(parts)]
            rc, z = A.tmult(ps)
            ev.append({"op": "tmult", "honest": False, "parts": [sh(p) for p in ps], "rc": rc, "out": z.hex()})
            rc, z = A.tcomb(ps)
            ev.append({"op": "tcomb", "honest": False, "parts": [sh(p) for p in ps], "rc": rc, "out": z.hex()})
    return ev


def j_zeros(A, job, rng):
    """Scalars that are zero, or zero once reduced, in every place."""
    _, _, a = A.blind(b"x")
    ev = []
    for z in (bytes(32), ELL.to_bytes(32, "little"), (8 * ELL).to_bytes(32, "little")):
        rc, o = A.evaluate(z, a)
        ev.append({"op": "eval", "honest": False, "k": z.hex(), "in": a.hex(), "rc": rc, "out": o.hex()})
        rc, o = A.unblind(z, a)
        ev.append({"op": "unblind", "honest": False, "r": z.hex(), "in": a.hex(), "rc": rc, "out": o.hex()})
        for i in (1, 2):
            A.teval(bytes([i]) + z, a, [1, 2])
            A.tdh(bytes([i]) + z, bytes([i]) + z, a, b"s")
    return ev


def _secret(A, rng):
    c = rng.random()
    if c < .12:
        return rng.choice([1, 2, ELL - 1, 255, 2**251]).to_bytes(32, "little")
    return A.keygen()


def j_share(A, job, rng):
    n, t = job["n"], job["t"]
    sec = bytes(32) if rng.random() < .1 else _secret(A, rng)
    shares = A.create_shares(sec, n, t)
    ev = [{"op": "shares", "n": n, "t": t, "secret": sec.hex(), "shares": [sh(s) for s in shares]}]
    for q in job["qs"]:
        o = A.reconstruct([shares[i - 1] for i in q])
        ev.append({"op": "recon", "secret": sec.hex(), "shares": [sh(shares[i - 1]) for i in q], "out": o.hex()})
        i = rng.choice(q)
        ev.append({"op": "coeff", "i": i, "peers": list(q), "out": A.coeff(i, q).hex()})
    return ev


def j_many(A, job, rng):
    k = A.keygen()
    _, r, a = A.blind(b"x")
    shares = A.create_shares(k, 255, 2)
    parts = [bytes([s[0]]) + A.evaluate(s[1:], a)[1] for s in shares]
    parts = parts + parts + parts[:2]
    return [{"op": "toomany", "count": str(c), "rc": A.toomany(f, c, parts)} for c in job["counts"] for f in ("toprf_thresholdmult", "toprf_thresholdcombine")]


def j_thresh(A, job, rng):
    """Shares at 1..n (or, with idx, at arbitrary distinct indexes taken from a larger sharing)."""
    n, t = job["n"], job["t"]
    k = _secret(A, rng)
    _, r, a = A.blind(rng.randbytes(rng.randrange(20)))
    shares = A.create_shares(k, n, t)
    ev = []
    for q in job["qs"]:
        parts = []
        for i in q:
            rc, z = A.evaluate(shares[i - 1][1:], a)
            parts.append(bytes([i]) + z)
        rc, z = A.tmult(parts)
        ev.append({"op": "tmult", "honest": True, "parts": [sh(p) for p in parts], "key": k.hex(), "alpha": a.hex(), "rc": rc, "out": z.hex()})
        parts = []
        idx = list(q)
        if job.get("perm"):
            rng.shuffle(idx)
        for i in q:
            rc, z = A.teval(shares[i - 1], a, idx)
            if not job.get("light") or i == q[0]:
                ev.append({"op": "teval", "honest": True, "share": sh(shares[i - 1]), "alpha": a.hex(), "idx": idx, "rc": rc, "out": sh(z)})
            parts.append(z)
        rc, z = A.tcomb(parts)
        ev.append({"op": "tcomb", "honest": True, "parts": [sh(p) for p in parts], "key": k.hex(), "alpha": a.hex(), "rc": rc, "out": z.hex()})
    return ev


def j_tdh(A, job, rng):
    n, t = job["n"], job["t"]
    k = _secret(A, rng)
    _, r, a = A.blind(rng.randbytes(5))
    ks, zs = A.create_shares(k, n, t), A.create_shares(bytes(32), n, t)
    ev = []
    for q, L in zip(job["qs"], job["lens"]):
        ssid = rng.randbytes(L)
        parts = []
        for i in q:
            rc, z = A.tdh(ks[i - 1], zs[i - 1], a, ssid)
            ev.append({"op": "tdh", "honest": True, "k": sh(ks[i - 1]), "z": sh(zs[i - 1]), "alpha": a.hex(), "ssid": ssid.hex(), "rc": rc, "out": sh(z)})
            parts.append(z)
        rc, z = A.tmult(parts)
        ev.append({"op": "tdhcomb", "same": True, "key": k.hex(), "alpha": a.hex(), "rc": rc, "out": z.hex()})
        if len(q) > 1 and t > 1:
            # one responder under another identifier: shorter, longer or with moved bytes
            other = rng.choice([ssid + b"\0" if len(ssid) < 65535 else ssid[:-1], ssid[:-1] + bytes([ssid[-1] ^ 1]) if ssid else b"a", ssid[:-1] if ssid else b"\0"])
            _, parts[0] = A.tdh(ks[q[0] - 1], zs[q[0] - 1], a, other)
            rc, z = A.tmult(parts)
            ev.append({"op": "tdhcomb", "same": False, "key": k.hex(), "alpha": a.hex(), "rc": rc, "out": z.hex()})
    return ev


def _corrupt(rng, kind, com, share, t, w, n):
    com = list(com)
    v = int.from_bytes(share[1:], "little")
    if kind == "share+1":
        v = (v + 1) % ELL
    elif kind == "share-bit":
        v = (v ^ (1 << rng.randrange(250))) % ELL
    elif kind == "share-zero":
        v = 0
    elif kind == "share-rand":
        v = rng.randrange(1, ELL)
    elif kind == "share-top":          # bit 255 set
        v |= 1 << 255
    elif kind == "share+ell":
        v += ELL
    elif kind == "com0":
        com[0] = rng.choice([com[-1] if t > 1 else bytes([2] + [0] * 31), bytes(31) + b"\x80", b"\xff" * 32, rng.randbytes(32)])
    elif kind == "comk":
        j = rng.randrange(1, t) if t > 1 else 0
        com[j] = rng.choice([b"\xff" * 32, bytes([1]) + bytes(31), (PRIME + 4).to_bytes(32, "little"), rng.randbytes(32)])
    elif kind == "comtop":             # bit 255 of an encoding set
        j = rng.randrange(t)
        com[j] = com[j][:31] + bytes([com[j][31] | 0x80])
    elif kind == "comlast":
        com[-1] = b"\xff" * 32
    elif kind == "comid":              # identity in the place of a commitment
        com[rng.randrange(t)] = bytes(32)
    elif kind == "comid0":
        com[0] = bytes(32)
    elif kind == "comswap" and t > 1:
        com[0], com[-1] = com[-1], com[0]
    elif kind == "comhigh":            # only the higher coefficients differ
        j = rng.randrange(t // 2, t)
        com[j] = com[j - 1] if t > 1 else bytes([2] + [0] * 31)
    elif kind == "zeros":              # zero share and zero constant term
        v, com[0] = 0, bytes(32)
    elif kind == "zeroall":            # a correct share of the zero polynomial
        v, com = 0, [bytes(32)] * t
    return com, rng.choice([share[:1]] * 3 + [bytes([w]), b"\0", b"\xff", bytes([n]), rng.randbytes(1)]) + v.to_bytes(32, "little")


CORRUPT = ["share+1", "share-bit", "share-zero", "share-rand", "share-top", "share+ell", "com0", "comk", "comlast", "comtop", "comid", "comid0", "comswap", "comhigh", "zeros", "zeroall"]


def j_dkg(A, job, rng):
    """Honest key generation: dealers deal, parties verify and finish."""
    n, t = job["n"], job["t"]
    ev, coms, deals = [], [], []
    for i in range(n):
        rc, c, s = A.dkg_start(n, t)
        coms.append(c)
        deals.append(s)
        if not job.get("light") or i < 2:
            ev.append({"op": "deal", "n": n, "t": t, "rc": rc, "com": [x.hex() for x in c], "shares": [sh(x) for x in s]})
    finals = []
    for j in range(1, n + 1):
        mine = [deals[i][j - 1] for i in range(n)]
        rc, fails = A.dkg_verify(n, t, j, coms, mine)
        ev.append({"op": "accepted", "rc": rc, "fails": fails})
        if not job.get("light") or j in (1, n // 2 + 1, n):
            ev.append({"op": "verify", "honest": True, "self": j, "com": [[x.hex() for x in c] for c in coms],
                       "vals": [x[1:].hex() for x in mine], "rc": rc, "fails": fails})
        x = A.dkg_finish(n, mine, j)
        ev.append({"op": "finish", "self": j, "vals": [m[1:].hex() for m in mine], "out": sh(x)})
        finals.append(x)
    rec = []
    for _ in range(3):
        q = rng.sample(range(n), rng.randint(t, n))
        rec.append(A.reconstruct([finals[i] for i in q]))
    ev.append({"op": "joint", "t": t, "shares": [sh(x) for x in finals], "com0": [c[0].hex() for c in coms], "secret": rec[0].hex(),
               "recon": [x.hex() for x in rec]})
    return ev


def j_cheat(A, job, rng):
    n, t, me, who = job["n"], job["t"], job["self"], job["who"]
    ev, coms, mine = [], [], []
    for i in range(n):
        rc, c, s = A.dkg_start(n, t)
        coms.append(c)
        mine.append(s[me - 1])
    for w in who:
        kind = job["kinds"][w % len(job["kinds"])]
        coms[w - 1], mine[w - 1] = _corrupt(rng, kind, coms[w - 1], mine[w - 1], t, w, n)
    rc, fails = A.dkg_verify(n, t, me, coms, mine)
    ev.append({"op": "verify", "honest": False, "self": me, "com": [[x.hex() for x in c] for c in coms], "vals": [x[1:].hex() for x in mine],
               "rc": rc, "fails": fails})
    for i in range(1, n + 1) if n < 40 else who[:20]:
        rc = A.dkg_verify1(n, t, me, i, coms[i - 1], mine[i - 1])
        ev.append({"op": "verify1", "honest": False, "self": me, "i": i, "com": [x.hex() for x in coms[i - 1]], "val": mine[i - 1][1:].hex(), "rc": rc})
    return ev


def j_dealer(A, job, rng):
    """One dealer of many parties or with a high threshold: honest, then corrupted."""
    n, t = job["n"], job["t"]
    rc, c, s = A.dkg_start(n, t)
    i = rng.randint(1, n)
    ev = []
    for me in job["selves"]:
        rc = A.dkg_verify1(n, t, me, i, c, s[me - 1])
        ev.append({"op": "verify1", "honest": True, "self": me, "i": i, "com": [x.hex() for x in c], "val": s[me - 1][1:].hex(), "rc": rc})
    for me, kind in job.get("bad", []):
        com, share = _corrupt(rng, kind, c, s[me - 1], t, i, n)
        rc = A.dkg_verify1(n, t, me, i, com, share)
        ev.append({"op": "verify1", "honest": False, "self": me, "i": i, "com": [x.hex() for x in com], "val": share[1:].hex(), "rc": rc})
    return ev


def j_vdm(A, job, rng):
    return [{"op": "vdm", "idx": idx, "m": [[x.hex() for x in row] for row in A.vdm(idx)]} for idx in job["lists"]]


def j_mul(A, job, rng):
    n, t = job["n"], job["t"]
    a, b = _secret(A, rng), (bytes(32) if rng.random() < .1 else _secret(A, rng))
    sa, sb = A.create_shares(a, n, t), A.create_shares(b, n, t)
    ev = []
    order = job["order"]        # dealers, in the order in which they are listed
    re = {}
    for d in order:
        rc, s = A.mul_start(sa[d - 1], sb[d - 1], n, t)
        re[d] = s
        if "peers" not in job or d == order[0]:
            ev.append({"op": "mulstart", "a": sh(sa[d - 1]), "b": sh(sb[d - 1]), "n": n, "t": t, "rc": rc, "shares": [sh(x) for x in s]})
    out = [A.mul_finish(order, j, [re[d][j - 1] for d in order]) for j in job.get("peers", range(1, n + 1))]
    ev.append({"op": "product", "t": t, "a": a.hex(), "b": b.hex(), "shares": [sh(x) for x in out]})
    return ev


def j_mulbad(A, job, rng):
    ev = []
    for ia, ib, n, t in job["cases"]:
        x, y = bytes([ia]) + A.keygen(), bytes([ib]) + A.keygen()
        rc, s = A.mul_start(x, y, n, t)
        ev.append({"op": "mulstart", "a": sh(x), "b": sh(y), "n": n, "t": t, "rc": rc, "shares": [sh(z) for z in s] if rc == 0 else []})
    return ev


def run_job(job):
    A = lib.Alg(os.environ.get("VLIB_VARIANT", "real"))
    seed = hashlib.sha256(job["seed"].encode()).digest()
    A.seed(seed)
    rng = random.Random(job["seed"])
    ev = globals()["j_" + job["kind"]](A, job, rng)
    return {"id": job["seed"], "key": job.get("key", job["kind"]), "ev": ev}


if __name__ == "__main__":
    core.driver_main(run_job)
