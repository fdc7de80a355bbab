"""ctypes access to the library built from the working tree."""
import ctypes, os
from ctypes import c_char_p, c_int, c_size_t, c_uint8, c_uint16, c_uint64, c_void_p
from . import build

_libs = {}


def load(variant="real"):
    if variant not in _libs:
        L = ctypes.CDLL(os.path.join(build.build(variant), "lib.so"))
        L.shim_rng_script.argtypes = [c_char_p, c_size_t]
        L.shim_set_time.argtypes = [c_uint64]
        for f in ("shim_rng_calls", "shim_rng_bytes"):
            getattr(L, f).restype = c_uint64
        L.shim_rng_script_left.restype = c_size_t
        if variant == "toy":
            L.toy_set_order.argtypes = [c_uint64]
        _libs[variant] = L
    return _libs[variant]


def buf(n, fill=0xA5):
    b = ctypes.create_string_buffer(max(n, 1))
    ctypes.memset(b, fill, max(n, 1))
    return b


class Alg:
    """The OPRF / sharing / key generation / multiplication calls, on bytes."""

    def __init__(self, variant="real"):
        self.L = load(variant)

    def seed(self, s):
        self.L.shim_rng_seed(s)

    def script(self, b):
        self.L.shim_rng_script(b, len(b))

    def keygen(self):
        k = buf(32)
        self.L.oprf_KeyGen(k)
        return k.raw[:32]

    def blind(self, x):
        r, a = buf(32), buf(32)
        rc = self.L.oprf_Blind(x, c_uint8(len(x)), r, a)
        return rc, r.raw[:32], a.raw[:32]

    def evaluate(self, k, a):
        z = buf(32)
        rc = self.L.oprf_Evaluate(k, a, z)
        return rc, z.raw[:32]

    def unblind(self, r, z):
        n = buf(32)
        rc = self.L.oprf_Unblind(r, z, n)
        return rc, n.raw[:32]

    def finalize(self, x, n):
        o = buf(64)
        rc = self.L.oprf_Finalize(x, c_uint16(len(x)), n, o)
        return rc, o.raw[:64]

    def expand(self, msg, dst, ln):
        o = buf(ln + 32)
        rc = self.L.expand_message_xmd(msg, c_uint8(len(msg)), dst, c_uint8(len(dst)), c_uint8(ln), o)
        return rc, o.raw[:ln], o.raw[ln:ln + 32] == b"\xa5" * 32

    def h2g(self, msg):
        o = buf(32)
        rc = self.L.voprf_hash_to_group(msg, c_uint8(len(msg)), o)
        return rc, o.raw[:32]

    def create_shares(self, secret, n, t):
        o = buf(33 * n)
        self.L.toprf_create_shares(secret, c_uint8(n), c_uint8(t), o)
        return [o.raw[33 * i:33 * i + 33] for i in range(n)]

    def reconstruct(self, shares):
        o = buf(32)
        self.L.dkg_reconstruct(c_size_t(len(shares)), b"".join(shares), o)
        return o.raw[:32]

    def coeff(self, i, peers):
        o = buf(32)
        self.L.coeff(c_uint8(i), c_size_t(len(peers)), bytes(peers), o)
        return o.raw[:32]

    def tmult(self, parts):
        o = buf(32)
        rc = self.L.toprf_thresholdmult(c_size_t(len(parts)), b"".join(parts), o)
        return rc, o.raw[:32]

    def toomany(self, f, count, parts):
        """More parts than there can be; no more than 512 are really there."""
        o = buf(32)
        return getattr(self.L, f)(c_size_t(count), b"".join(parts), o)

    def teval(self, share, a, idx):
        o = buf(33)
        rc = self.L.toprf_Evaluate(share, a, c_uint8(share[0]), bytes(idx), c_uint16(len(idx)), o)
        return rc, o.raw[:33]

    def tcomb(self, parts):
        o = buf(32)
        rc = self.L.toprf_thresholdcombine(c_size_t(len(parts)), b"".join(parts), o)
        return rc, o.raw[:32]

    def tdh(self, k, z, a, ssid):
        o = buf(33)
        rc = self.L.toprf_3hashtdh(k, z, a, ssid, c_uint16(len(ssid)), o)
        return rc, o.raw[:33]

    def dkg_start(self, n, t):
        c, s = buf(32 * t), buf(33 * n)
        rc = self.L.dkg_start(c_uint8(n), c_uint8(t), c, s)
        return rc, [c.raw[32 * i:32 * i + 32] for i in range(t)], [s.raw[33 * i:33 * i + 33] for i in range(n)]

    def dkg_verify(self, n, t, me, coms, shares):
        f, fl = buf(n), c_uint8(0xA5)
        rc = self.L.dkg_verify_commitments(c_uint8(n), c_uint8(t), c_uint8(me), b"".join(b"".join(c) for c in coms),
                                           b"".join(shares), f, ctypes.byref(fl))
        return rc, list(f.raw[:min(fl.value, n)])

    def dkg_verify1(self, n, t, me, i, com, share):
        class Sh(ctypes.Structure):
            _pack_ = 1
            _fields_ = [("index", c_uint8), ("value", c_uint8 * 32)]
        s = Sh.from_buffer_copy(share)
        return self.L.dkg_verify_commitment(c_uint8(n), c_uint8(t), c_uint8(me), c_uint8(i), b"".join(com), s)

    def dkg_finish(self, n, shares, me):
        o = buf(33)
        o[0] = me    # the index of the result is set by the caller
        self.L.dkg_finish(c_uint8(n), b"".join(shares), c_uint8(me), o)
        return o.raw[:33]

    def vdm(self, idx):
        n = len(idx)
        o = buf(n * n * 32)
        self.L.invertedVDMmatrix(c_uint8(n), bytes(idx), o)
        return [[o.raw[32 * (i * n + j):32 * (i * n + j) + 32] for j in range(n)] for i in range(n)]

    def mul_start(self, a, b, n, t):
        o = buf(33 * n)
        rc = self.L.toprf_mpc_mul_start(a, b, c_uint8(n), c_uint8(t), o)
        return rc, [o.raw[33 * i:33 * i + 33] for i in range(n)]

    def mul_finish(self, idx, me, shares):
        o = buf(33)
        self.L.toprf_mpc_mul_finish(c_uint8(len(idx)), bytes(idx), c_uint8(me), b"".join(shares), o)
        return o.raw[:33]
