"""A complete key generation session on the real library, with a hook on every delivered message.

The driver only moves bytes: which calls are made, what they receive and what they return is recorded
as events for TpDkgTrace.tla. Deviations (see apply()) rewrite the input of one call, re-signing with
the key of a misbehaving participant where asked to.
"""
import ctypes, hashlib, os, pickle, random, re, struct, sys
from ctypes import c_char_p, c_int, c_size_t, c_uint8, c_uint64, c_void_p
from . import lib

HDR = 111
T0 = 1700000000
TPST = {1: "1", 2: "4", 3: "6", 4: "8", 5: "12", 6: "14", 7: "16"}
PST = {1: "2", 2: "5", 3: "7", 4: "9", 5: "13", 6: "15", 7: "17"}


def msgsize(k, n, t):
    return {0: HDR + 66, 1: HDR, 2: HDR + 64, 3: HDR + n * (HDR + 64), 4: HDR + 48, 5: HDR + 48, 6: HDR + 32 * t,
            7: HDR + n * (HDR + 32 * t), 8: HDR + 145, 9: HDR + 1 + n, 10: HDR + n * (HDR + 1 + n), 20: HDR + 32, 21: HDR + 2,
            22: HDR + 2}[k]


def u64(x):
    return "%016x" % (x & (2 ** 64 - 1))


class Lib:
    def __init__(self, variant="real"):
        L = self.L = lib.load(variant)
        for f in "shim_tp_new shim_peer_new shim_tp_state shim_peer_state shim_peer_shares shim_peer_xshares".split():
            getattr(L, f).restype = c_void_p
        for f in "tpdkg_tp_input_size tpdkg_tp_output_size tpdkg_peer_input_size tpdkg_peer_output_size shim_tp_cheater_len shim_msg0_size shim_msg8_size".split():
            getattr(L, f).restype = c_size_t
        V = c_void_p
        L.shim_tp_start.argtypes = [V, c_uint64, c_uint8, c_uint8, c_char_p, c_size_t, c_size_t, V]
        L.shim_tp_bufs.argtypes = [V, c_uint8, c_uint8, c_char_p, c_size_t]
        L.shim_peer_start.argtypes = [V, c_uint64, c_char_p, V]
        L.shim_tp_cheater.argtypes = [V, c_size_t, V, V, c_size_t]
        L.shim_cheater_msg.argtypes = [c_int, c_int, c_int, c_int, c_int, V, c_size_t]
        for f in ("shim_tp_n shim_tp_t shim_tp_cheater_len shim_tp_free shim_peer_bufs shim_peer_n shim_peer_t shim_peer_index "
                  "shim_peer_shares shim_peer_xshares shim_peer_lt_wiped shim_peer_release shim_peer_free shim_tp_state shim_peer_state "
                  "tpdkg_tp_input_size tpdkg_tp_output_size tpdkg_peer_input_size tpdkg_peer_output_size tpdkg_tp_not_done tpdkg_peer_not_done").split():
            getattr(L, f).argtypes = [V]
        for f in "shim_tp_sid shim_tp_sk shim_peer_sid shim_peer_sk shim_peer_share shim_peer_noise_sk".split():
            getattr(L, f).argtypes = [V, V]
        for f in "shim_peer_out_key shim_peer_in_key".split():
            getattr(L, f).argtypes = [V, c_int, V, V]
        L.tpdkg_tp_input_sizes.argtypes = [V, V]
        L.tpdkg_tp_next.argtypes = [V, V, c_size_t, V, c_size_t]
        L.tpdkg_peer_next.argtypes = [V, V, c_size_t, V, c_size_t]
        L.tpdkg_tp_peer_msg.argtypes = [V, V, c_size_t, c_uint8, V, V]
        L.shim_aead_encrypt.argtypes = [V, c_uint64, ctypes.c_uint32, V, V]
        L.shim_log.argtypes = [c_char_p]
        L.shim_rng_seed.argtypes = [c_char_p]
        L.crypto_sign_detached.argtypes = [V, V, V, ctypes.c_ulonglong, V]
        L.crypto_sign_seed_keypair.argtypes = [V, V, c_char_p]
        L.crypto_auth.argtypes = [V, V, ctypes.c_ulonglong, V]

    def sign(self, sk, data):
        o = lib.buf(64)
        self.L.crypto_sign_detached(o, None, data, len(data), sk)
        return o.raw[:64]

    def auth(self, key, data):
        o = lib.buf(32)
        self.L.crypto_auth(o, data, len(data), key)
        return o.raw[:32]

    def keypair(self, seed):
        pk, sk = lib.buf(32), lib.buf(64)
        self.L.crypto_sign_seed_keypair(pk, sk, seed)
        return pk.raw[:32], sk.raw[:64]


FILL = b"\xa5"         # what output buffers hold before a call


def exact(b):
    """A heap buffer of exactly the size (so that an over-read is seen by the sanitizer)."""
    p = _malloc(len(b) if len(b) else 1)
    ctypes.memmove(p, bytes(b), len(b))
    return p


_libc = ctypes.CDLL(None)
_libc.malloc.restype = c_void_p
_libc.malloc.argtypes = [c_size_t]
_libc.free.argtypes = [c_void_p]
_malloc = _libc.malloc
_free = _libc.free


def patch(a, b):
    """Differing segments of two strings of the same length, as [[offset, hex], ...]."""
    out, i, n = [], 0, len(a)
    while i < n:
        if a[i] == b[i]:
            i += 1
            continue
        j = i + 1
        while j < n and (a[j] != b[j] or a[j + 1:j + 9] != b[j + 1:j + 9]):
            j += 1
        out.append([i, b[i:j].hex()])
        i = j
    return out


class Party:
    """TP (who 0) or peer (who 1..n)."""

    def __init__(self, S, who):
        self.S, self.who, self.calls, self.failed = S, who, 0, False
        self.L = S.L
        self.h = self.L.shim_tp_new() if who == 0 else self.L.shim_peer_new()
        self.st = (self.L.shim_tp_state if who == 0 else self.L.shim_peer_state)(self.h)
        self.branch = None     # which way the party went after the complaints broadcast

    def insize(self):
        return (self.L.tpdkg_tp_input_size if self.who == 0 else self.L.tpdkg_peer_input_size)(self.st)

    def outsize(self):
        return (self.L.tpdkg_tp_output_size if self.who == 0 else self.L.tpdkg_peer_output_size)(self.st)

    def done(self):
        return 0 if (self.L.tpdkg_tp_not_done if self.who == 0 else self.L.tpdkg_peer_not_done)(self.st) else 1

    def call(self, data, outlen=None):
        """One protocol call. Returns the observable result as a dict."""
        S, L = self.S, self.L
        r = {"insz": min(self.insize(), 2 ** 30), "outsz": min(self.outsize(), 2 ** 30), "now": u64(S.now)}
        if self.who == 0:
            sz = (c_size_t * max(S.n, 1))()
            L.tpdkg_tp_input_sizes(self.st, sz)
            r["inszs"] = [min(x, 2 ** 30) for x in sz]
        osz = r["outsz"] if outlen is None else outlen
        ib = exact(data) if len(data) else None
        ob = exact(FILL * osz) if osz else None
        f = L.tpdkg_tp_next if self.who == 0 else L.tpdkg_peer_next
        r["ret"] = f(self.st, ib, len(data), ob, osz)
        out = ctypes.string_at(ob, osz) if osz else b""
        r["out"] = out.hex()
        r["done"] = self.done()
        if self.who == 0:
            if r["ret"] == 0:
                sp = []
                for i in range(S.n):
                    m, ln = c_void_p(0), c_size_t(0)
                    rc = L.tpdkg_tp_peer_msg(self.st, ob, osz, i, ctypes.byref(m), ctypes.byref(ln))
                    if rc == 0 and ln.value == 0:
                        sp.append([0, 0])
                    elif rc != 0 or ob is None or m.value is None or m.value < ob or m.value + ln.value > ob + osz:
                        sp.append([-1, 0])
                    else:
                        sp.append([m.value - ob, ln.value])
                r["split"] = sp
            r.update(self.blame())
        else:
            b = lib.buf(33)
            L.shim_peer_share(self.h, b)
            r["share"] = [b.raw[0], b.raw[1:33].hex()]
        if ib:
            _free(ib)
        if ob:
            _free(ob)
        return r

    def blame(self):
        out = []
        k = self.L.shim_tp_cheater_len(self.h)
        for i in range(min(k, self.S.cap)):
            o, t = (c_int * 4)(), lib.buf(200, 0)
            idx = self.L.shim_tp_cheater(self.h, i, o, t, 128)
            txt = t.raw.split(b"\0")[0].decode("latin1")
            out.append({"rec": o[0], "idx": idx & 0xff, "txt": txt, "nums": [int(x) for x in re.findall(r"\d{1,8}", txt)]})
        return {"blame": out, "cap": self.S.cap, "nblame": min(k, 2 ** 30)}


class Session:
    def __init__(self, n, t, seed, variant="real", eps=120, name=b"verif", cap=None, log=None, devs=(), probes=None, lean=False, L=None, other=None):
        self.lib = L or Lib(variant)
        self.L = self.lib.L
        self.n, self.t, self.eps, self.seed = n, t, eps, seed
        self.now = T0
        self.rng = random.Random("%s/dev" % seed)
        self.cap = cap or 4 * n * n + 8
        self.devs = list(devs)
        self.probes = probes       # callable(session, party, data) -> list of modifications, or None
        self.lean = lean           # record sizes and digests only
        self.ticks = 0             # the clock advances by 0..ticks before every call
        self.ev = []
        self.sent = {}             # (who, call) -> output bytes
        self.other = other         # a second, finished session for replays
        self.L.shim_set_time(self.now)
        self.L.shim_rng_seed(hashlib.sha256(("%s" % seed).encode()).digest())
        self.L.shim_log(log.encode() if log else None)
        self.lt = [self.lib.keypair(hashlib.sha256(b"lt/%d" % i).digest()) for i in range(n)]
        self.tp = Party(self, 0)
        m0 = lib.buf(msgsize(0, n, t))
        rc = self.L.shim_tp_start(self.tp.h, eps, n, t, name, len(name), msgsize(0, n, t), m0)
        self.msg0 = m0.raw[:msgsize(0, n, t)]
        self.L.shim_tp_bufs(self.tp.h, n, t, b"".join(x[0] for x in self.lt), self.cap)
        self.ev.append({"op": "tpstart", "ret": rc, "n": n, "t": t, "name": len(name), "eps": u64(eps), "now": u64(self.now),
                        "msg0": self.msg0.hex(), "lt": [x[0].hex() for x in self.lt]})
        self.peers = []
        for i in range(1, n + 1):
            p = Party(self, i)
            m = self.deliver0(i)
            mb = exact(m)
            rc = self.L.shim_peer_start(p.h, eps, self.lt[i - 1][1], mb)
            _free(mb)
            self.ev.append({"op": "peerstart", "who": i, "ret": rc, "eps": u64(eps), "now": u64(self.now), "msg0": m.hex()})
            if rc == 0:
                self.L.shim_peer_bufs(p.h)
            else:
                p.failed = True
            self.peers.append(p)
        self.inbox = {i: [] for i in range(n + 1)}     # pending inputs of peers
        self.keys = {}

    def sk(self, who):
        b = lib.buf(64)
        (self.L.shim_tp_sk if who == 0 else self.L.shim_peer_sk)(self.party(who).h, b)
        return b.raw[:64]

    def party(self, who):
        return self.tp if who == 0 else self.peers[who - 1]

    def tick(self, d):
        self.now += d
        self.L.shim_set_time(self.now)

    # ------------------------------------------------------------ stages and slots
    def stage(self, p):
        c = p.calls + 1
        if p.who == 0:
            if c <= 7:
                return TPST[c]
            return {True: {8: "18"}, False: {8: "20", 9: "22"}}[self.complaints()].get(c, "over")
        if c <= 7:
            return PST[c]
        return {True: {8: "17a"}, False: {8: "19", 9: "21"}}[self.complaints()].get(c, "over")

    def complaints(self):
        """Whether any complaint was delivered to the TP, i.e. which way the parties have to go."""
        return getattr(self, "cpl", False)

    def slots(self, who, stage):
        """[(name, offset, size, kind, sender)] of the messages in the input of a call."""
        n, t = self.n, self.t
        M = lambda k: msgsize(k, n, t)
        if who == 0:
            if stage == "4":
                return [((j, 255), (j - 1) * (M(2) + 64), M(2), 2, j) for j in range(1, n + 1)]
            if stage in ("6", "8", "14"):
                k = {"6": 4, "8": 5, "14": 8}[stage]
                return [((j, i), ((j - 1) * n + i - 1) * M(k), M(k), k, j) for j in range(1, n + 1) for i in range(1, n + 1)]
            k = {"12": 6, "16": 9, "20": 20, "22": 22}.get(stage)
            if k:
                return [((j, 0), (j - 1) * M(k), M(k), k, j) for j in range(1, n + 1)]
            if stage == "18":
                o, r = 0, []
                sz = self.tp_sizes()
                for j in range(1, n + 1):
                    if sz[j - 1]:
                        r.append(((j, 0), o, sz[j - 1], 11, j))
                        o += sz[j - 1]
                return r
            return []
        if stage == "2":
            return [((0, who), 0, M(1), 1, 0)]
        if stage in ("5", "13", "17"):
            k, b = {"5": (2, 3), "13": (6, 7), "17": (9, 10)}[stage]
            return [((0, 255), 0, M(b), b, 0)] + [((i, 255), HDR + (i - 1) * M(k), M(k), k, i) for i in range(1, n + 1)]
        if stage in ("7", "9", "15"):
            k = {"7": 4, "9": 5, "15": 8}[stage]
            return [((i, who), (i - 1) * M(k), M(k), k, i) for i in range(1, n + 1)]
        if stage == "21":
            return [((0, 255), 0, M(21), 21, 0)]
        return []

    def share(self, p):
        b = lib.buf(33)
        self.L.shim_peer_share(p.h, b)
        return [b.raw[0], b.raw[1:33].hex()]

    def tp_sizes(self):
        sz = (c_size_t * self.n)()
        self.L.tpdkg_tp_input_sizes(self.tp.st, sz)
        return list(sz)

    # ------------------------------------------------------------ deviations
    def deliver0(self, i):
        m = self.msg0
        for d in self.devs:
            if d.get("at") == [i, "0"]:
                m = self.apply(d, m, [((0, 255), 0, len(m), 0, 0)])
        return m

    def resign(self, m, who):
        m = bytearray(m)
        m[0:64] = self.lib.sign(self.sk(who), bytes(m[64:]))
        return bytes(m)

    def apply(self, d, data, slots):
        """One deviation on an input. d: op and parameters; see the callers in c_tp.py."""
        op = d["op"]
        if op == "cut":
            return data[:len(data) - d["by"]]
        if op == "pad":
            return data + b"\0" * d["by"]
        if op == "zero":
            return b"\0" * len(data)
        if op == "raw":                 # change one byte
            o = d["off"] % len(data)
            return data[:o] + bytes([data[o] ^ d["x"]]) + data[o + 1:]
        sl = [s for s in slots if list(s[0]) == list(d["slot"])]
        if not sl:
            return data
        name, off, size, kind, sender = sl[0]
        m = bytearray(data[off:off + size])
        if len(m) < size:
            return data
        signer = d.get("sign", -1)      # -1: not re-signed
        sk = None
        if op == "flip":
            if d.get("f") == "lt":
                o = off + size + self.rng.randrange(64)
                return data[:o] + bytes([data[o] ^ (1 << self.rng.randrange(8))]) + data[o + 1:]
            o = d["off"] % size if "off" in d else self.region(d["f"], size)
            m[o] ^= d.get("x") or 1 << self.rng.randrange(8)
        elif op == "hdr":
            self.header(m, {d["f"]: d["v"]})
        elif op == "sub":               # another message in this place, of this or of another session
            src = self.other if d["other"] else self
            x = src.find(d["src"]) if src else None
            if x is None:
                return data
            x = x[:size].ljust(size, b"\0")
            m = bytearray(m[:HDR] + x[HDR:] if d["fix"] else x)
        elif op == "keys":              # session keys of a peer
            if d["how"] == "noise":
                m[HDR + 32:HDR + 64] = self.lib.L and hashlib.sha256(b"noise" + bytes(m[HDR:])).digest()
            elif d["how"] == "noise0":
                m[HDR + 32:HDR + 64] = b"\0" * 32
            elif d["how"] == "noisedup":
                o2 = [s for s in slots if s[4] and s[4] != sender][0][1]
                m[HDR + 32:HDR + 64] = data[o2 + HDR + 32:o2 + HDR + 64]
            elif d["how"] == "sig":
                pk, sk = self.lib.keypair(hashlib.sha256(b"key" + bytes(m[HDR:])).digest())
                m[HDR:HDR + 32] = pk
        elif op == "commit":
            self.commit(m, d)
        elif op == "junk":              # arbitrary contents
            m[HDR:] = self.rng.randbytes(size - HDR)
        elif op == "text":
            m[HDR:HDR + 2] = d["how"].encode()
        elif op == "first":
            if d["how"] in ("n", "both"):
                m[HDR + 64] = d["v"]
            if d["how"] in ("t", "both"):
                m[HDR + 65] = d["v"]
            if d["how"] == "dst":
                m[HDR + 32 + d["v"] % 32] ^= 1
        elif op == "share8":            # a share message built by a misbehaving dealer
            if (sender, d["slot"][1]) not in self.keys:
                return data
            self.share8(m, d, sender)
        elif op == "list":              # complaint list
            ls = bytes(d["list"])
            m[HDR] = d["count"] & 255
            m[HDR + 1:] = (ls + b"\0" * size)[:size - HDR - 1]
        elif op == "reveal":
            self.reveal(m, d, sender)
        else:
            raise ValueError(op)
        m = bytes(m)
        if sk:
            m = m[:0] + self.lib.sign(sk, m[64:]) + m[64:]
        elif signer >= 0:
            m = self.resign(m, signer)
        out = data[:off] + m + data[off + size:]
        if d.get("outer"):              # the TP re-signs its broadcast around the changed message
            out = self.resign(out, 0)
        if d.get("lt"):                 # long-term signature of step 4 renewed
            out = out[:off + size] + self.lib.sign(self.lt[sender - 1][1], out[off:off + size]) + out[off + size + 64:]
        return out

    def region(self, f, size):
        lo, hi = {"sig": (0, 64), "msgno": (64, 65), "len": (65, 69), "from": (69, 70), "to": (70, 71), "ts": (71, 79), "sid": (79, 111),
                  "body": (HDR, size)}[f]
        return self.rng.randrange(lo, hi)

    def commit(self, m, d):
        k = d["k"] - 1
        c = [bytes(m[HDR + 32 * i:HDR + 32 * i + 32]) for i in range(self.t)]
        how = d["how"]
        if how == "junk":
            c[k] = hashlib.sha256(b"junk" + c[k]).digest()
        elif how == "identity":
            c[k] = b"\0" * 32
        elif how == "swap":
            c[k], c[(k + 1) % self.t] = c[(k + 1) % self.t], c[k]
        elif how == "dup":
            c[k] = c[(k + 1) % self.t]
        elif how == "highbit":
            c[k] = c[k][:31] + bytes([c[k][31] ^ 0x80])
        elif how == "generator":
            c[k] = bytes.fromhex("e2f2ae0a6abc4e71a884a961c500515f58e30b6aa582dd8db6a65945e08d2d76")
        m[HDR:] = b"".join(c)

    def header(self, m, d):
        if "msgno" in d:
            m[64] = d["msgno"] & 255
        if "len" in d:
            m[65:69] = struct.pack(">I", d["len"] & 0xffffffff)
        if "from" in d:
            m[69] = d["from"]
        if "to" in d:
            m[70] = d["to"]
        if "ts" in d:                   # relative to the clock
            m[71:79] = struct.pack(">Q", (self.now + d["ts"]) % 2 ** 64)
        if "dts" in d:                  # relative to the value in the message
            m[71:79] = struct.pack(">Q", (struct.unpack(">Q", m[71:79])[0] + d["dts"]) % 2 ** 64)
        if "sid" in d:
            m[79:111] = bytes(a ^ b for a, b in zip(m[79:111], bytes([d["sid"]]) * 32)) if d["sid"] != "other" else self.other.msg0[79:111]

    def share8(self, m, d, sender):
        to = d["slot"][1]
        key = self.keys[(sender, to)]
        how = d["how"]
        b = bytearray(m[HDR:])
        ct, mac = bytearray(b[64:113]), bytearray(b[113:145])
        pl = lib.buf(33)
        ctypes.memmove(pl, self.L.shim_peer_shares(self.party(sender).h) + 33 * (to - 1), 33)
        plain = bytearray(pl.raw[:33])
        if how == "value":
            plain[1 + d.get("byte", 3)] ^= d.get("x", 1)
        elif how == "index":
            plain[0] = d.get("index", (plain[0] % self.n) + 1)
        elif how == "noncanon":
            v = int.from_bytes(plain[1:], "little") + 2 ** 252 + 27742317777372353535851937790883648493
            plain[1:] = v.to_bytes(32, "little")
        elif how == "zero":
            plain[1:] = b"\0" * 32
        elif how in ("other", "otheridx"):      # the share of somebody else
            ctypes.memmove(pl, self.L.shim_peer_shares(self.party(sender).h) + 33 * (to % self.n), 33)
            plain = bytearray(pl.raw[:33])
            if how == "other":
                plain[0] = to
        elif how == "highbit":
            plain[32] ^= 0x80
        elif how == "hs":
            b[d.get("byte", 5)] ^= 1
            m[HDR:] = b
            return
        elif how == "mac":
            mac[d.get("byte", 0)] ^= 1
            b[113:145] = mac
            m[HDR:] = b
            return
        if how == "cipher":             # does not decrypt, but correctly authenticated
            ct[d.get("byte", 0)] ^= 1
        else:
            o = lib.buf(49)
            self.L.shim_aead_encrypt(exact(key), 0, 33, exact(plain), o)
            ct = o.raw[:49]
        b[64:113] = ct
        b[113:145] = self.lib.auth(key, bytes(ct))
        m[HDR:] = b

    def reveal(self, m, d, sender):
        ents = [bytearray(m[HDR + 33 * i:HDR + 33 * i + 33]) for i in range((len(m) - HDR) // 33)]
        how, k = d["how"], d.get("k", 0) % len(ents)
        if how == "wrongkey":
            ents[k][1 + d.get("byte", 0)] ^= 1
        elif how == "zerokey":
            ents[k][1:] = b"\0" * 32
        elif how == "happy":            # reveals a key nobody asked for
            ents[k][0] = d["v"]
            if (sender, d["v"]) in self.keys:
                ents[k][1:] = self.keys[(sender, d["v"])]
        elif how == "who":
            ents[k][0] = d["v"]
        elif how == "dup":
            ents[k] = bytearray(ents[(k + 1) % len(ents)])
        elif how == "permute":
            ents = ents[::-1]
        m[HDR:] = b"".join(bytes(x) for x in ents)

    def find(self, src):
        """A message seen earlier: [who, stage, slot] of the input of a call."""
        who, stage, slot = src["who"], src["stage"], src["slot"]
        if stage == "0":
            return self.msg0
        x = self.sent.get((who, stage))
        if x is None:
            return None
        data, slots = x
        for s in slots:
            if list(s[0]) == list(slot):
                return data[s[1]:s[1] + s[2]]
        return None

    # ------------------------------------------------------------ calls
    def secrets(self, p):
        """What must not show up in what a peer sends."""
        b = lib.buf(64)
        out = []
        self.L.shim_peer_sk(p.h, b)
        out.append(b.raw[:32].hex())
        out.append(self.lt[p.who - 1][1][:32].hex())
        self.L.shim_peer_noise_sk(p.h, b)
        out.append(b.raw[:32].hex())
        return [x for x in out if x != "a5" * 32 and x != "00" * 32]

    def learn(self, p):
        for i in range(1, self.n + 1):
            s, r = lib.buf(32), lib.buf(32)
            if self.L.shim_peer_out_key(p.h, i - 1, s, r):
                self.keys[(p.who, i)] = s.raw[:32]

    def step(self, p, data):
        if self.ticks:
            self.tick(self.rng.randrange(self.ticks + 1))
        st = self.stage(p)
        slots = self.slots(p.who, st)
        if not self.lean:
            self.sent[(p.who, st)] = (data, slots)
        genuine = data
        for d in self.devs:
            if d.get("at") == [p.who, st]:
                if d["op"] == "tick":
                    self.tick(d["by"])
                else:
                    data = self.apply(d, data, slots)
        if self.probes:
            mods = self.probes(self, p, st, data, slots)
            if mods:
                self.ev.append({"op": "arm", "who": p.who, "in": data.hex()})
                self.probe(p, data, mods)
        e = {"op": "step", "who": p.who, "in": data.hex()}
        if p.who == 0 and st == "16":
            self.cpl = any(data[s[1] + HDR] > 0 for s in slots if len(data) >= s[1] + s[2])
        r = p.call(data)
        p.calls += 1
        if self.lean:
            self.ev.append(self.digested(p, st, data, slots, r))
            p.failed = r["ret"] != 0
            return r
        e.update(r)
        if p.who and st == "13" and r["ret"] == 0:
            self.learn(p)
            e["keys"] = [self.keys.get((p.who, i), b"").hex() for i in range(1, self.n + 1)]
        if p.who:
            e["sec"] = self.secrets(p)
        e["altered"] = int(data != genuine)
        self.ev.append(e)
        if r["ret"] != 0:
            p.failed = True
        return r

    def digested(self, p, st, data, slots, r):
        e = {"op": "step", "who": p.who, "inlen": len(data)}
        for k in ("insz", "outsz", "ret", "done", "inszs"):
            if k in r:
                e[k] = r[k]
        if p.who == 0 and r["ret"] == 0:
            n, t = self.n, self.t
            out = bytes.fromhex(r["out"])
            dg = lambda x: hashlib.sha256(x).hexdigest()[:12]
            got = [out[o:o + ln] for o, ln in r["split"]]
            e["head"] = [dg(x) for x in got]
            e["plen"] = [len(x) for x in got]
            if st == "1":
                e["to"] = [x[70] if len(x) > 70 else 0 for x in got]
            rows = {}
            for name, off, size, kind, sender in slots:
                rows.setdefault(sender, []).append(dg(data[off:off + size]))
            e["in"] = [rows[j] for j in sorted(rows)]
            k, skip = {"4": (2, HDR), "12": (6, HDR), "16": (9, HDR), "6": (4, 0), "8": (5, 0), "14": (8, 0)}.get(st, (0, 0))
            if k:
                m = msgsize(k, n, t)
                e["parts"] = [[dg(x[skip + j * m:skip + (j + 1) * m]) for j in range(max(0, (len(x) - skip) // m))] for x in got]
        return e

    def probe(self, p, data, mods):
        """Alternative inputs for the call p is about to make, each in a forked copy of the session.

        mods: {"devs": [...]} or {"in": bytes}, with the dishonest participants in "dis".
        """
        st = self.stage(p)
        for mod in mods:
            d2 = mod.get("in")
            if d2 is None:
                d2 = data
                for d in mod["devs"]:
                    d2 = self.apply(d, d2, self.slots(p.who, st))
                if d2 == data:
                    continue
            if mod.get("outlen", -1) == p.outsize():
                continue
            rd, wr = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(rd)
                try:
                    r = p.call(d2, mod.get("outlen"))
                    r.pop("split", None)
                    r.pop("out", None)
                    calls = []
                    if r["ret"] != 0:   # the genuine input must not help any more
                        a = p.call(data)
                        calls.append({"ret": a["ret"], "done": a["done"]})
                    r["again"] = calls
                    if p.who:
                        self.L.shim_peer_release(p.h)
                    os.write(wr, pickle.dumps(r))
                    os.close(wr)
                finally:
                    os._exit(0)
            os.close(wr)
            buf = b""
            while True:
                x = os.read(rd, 65536)
                if not x:
                    break
                buf += x
            os.close(rd)
            _, stt = os.waitpid(pid, 0)
            e = {"op": "probe", "who": p.who, "dis": mod["dis"], "what": mod.get("what") or [{k: d[k] for k in d if k not in ("dis",)} for d in mod["devs"]]}
            if "outlen" in mod:
                e["outlen"] = mod["outlen"]
            if len(d2) != len(data):
                e["in"] = d2.hex()
            else:
                e["patch"] = patch(data, d2)
            if not buf or stt != 0:
                e["crash"] = "status %d" % stt
                e["ret"] = -1
            else:
                e.update(pickle.loads(buf))
                e["crash"] = ""
            self.ev.append(e)

    # ------------------------------------------------------------ a whole session
    def run(self, extra=True):
        n = self.n
        tpin = {}
        order = list(range(1, n + 1))
        for rnd in range(40):
            # TP
            if not self.tp.failed and not self.tp.done():
                sz = self.tp_sizes()
                if any(sz[i - 1] and i not in tpin and self.peers[i - 1].failed for i in range(1, n + 1)):
                    break               # a peer gave up: the session is over, nobody feeds the TP
                data = b"".join(tpin.get(i, b"")[:sz[i - 1]].ljust(sz[i - 1], b"\0") for i in range(1, n + 1))
                tpin = {}
                r = self.step(self.tp, data)
                if r["ret"] == 0:
                    out = bytes.fromhex(r["out"])
                    for i in range(1, n + 1):
                        o, ln = r["split"][i - 1]
                        if ln:
                            self.inbox[i].append(out[o:o + ln])
            # peers
            progress = False
            for i in order:
                p = self.peers[i - 1]
                for _ in range(4):
                    if p.failed or p.done():
                        break
                    k = p.insize()
                    if k == 0:
                        data = b""
                    elif self.inbox[i]:
                        data = self.inbox[i].pop(0)
                    else:
                        break
                    r = self.step(p, data)
                    progress = True
                    if r["ret"] == 0 and r["outsz"]:
                        tpin[i] = bytes.fromhex(r["out"])
                        break
            if self.tp.failed or self.tp.done():
                if not progress:
                    break
            elif not progress and not tpin and rnd > 0:
                break
        if extra:
            self.finality()
        self.ev.append({"op": "end", "tp": int(self.tp.done() and not self.tp.failed),
                        "peers": [int(p.done() and not p.failed) for p in self.peers]})
        if self.lean:
            self.ev[-1]["shares"] = [self.share(p) for p in self.peers]
        return self.ev

    def finality(self):
        """Calls on parties after a failure."""
        for p in [self.tp] + self.peers:
            if p.failed and p.calls > 0:
                for data in (b"", b"\0" * HDR):
                    r = p.call(data, 0 if p.outsize() > 2 ** 20 else None)
                    e = {"op": "after", "who": p.who, "ret": r["ret"], "done": r["done"]}
                    if p.who:
                        e["share"] = r["share"]
                    self.ev.append(e)

    def release(self):
        for p in self.peers:
            if p.failed and p.calls == 0:
                continue
            self.L.shim_peer_release(p.h)
        for p in self.peers:
            self.L.shim_peer_free(p.h)
        self.L.shim_tp_free(self.tp.h)
