"""ctypes access to the secure channel, on bytes."""
import ctypes
from ctypes import byref, c_bool, c_char_p, c_uint8, c_uint32, c_uint64, c_void_p
from . import lib, tp

VP = c_void_p
SIG = {
    "device_create": (VP, [c_uint32, VP, VP, VP, VP]),
    "device_create_from_secret": (VP, [c_uint32, VP, VP, VP, VP]),
    "device_free": (None, [VP]),
    "serialize_device_secret": (None, [VP, VP, VP]),
    "device_add_peer": (VP, [VP, VP, VP]),
    "device_remove_peer": (None, [VP, c_uint32]),
    "serialize_peer_secret": (None, [VP, VP, VP, VP]),
    "deserialize_peer_secret": (VP, [VP, VP, c_uint32, VP]),
    "device_lookup_peer_by_id": (VP, [VP, c_uint32]),
    "device_lookup_peer_by_static": (VP, [VP, VP]),
    "device_get_info": (None, [VP, VP]),
    "device_get_static_priv": (None, [VP, VP]),
    "device_get_static_pub": (None, [VP, VP]),
    "device_sessions_counter_is_saturated": (c_bool, [VP]),
    "device_peers_counter_is_saturated": (c_bool, [VP]),
    "peer_get_id": (c_uint32, [VP]),
    "peer_get_info": (None, [VP, VP]),
    "peer_get_static": (None, [VP, VP]),
    "session_create_initiator": (VP, [VP, c_uint32]),
    "session_create_responder": (VP, [VP]),
    "session_free": (None, [VP]),
    "pack_message_with_conf_level": (VP, [c_uint8, c_uint32, VP]),
    "unpack_message_with_auth_level": (c_bool, [VP, VP, c_uint8, VP]),
    "unpack_message": (c_bool, [VP, VP, VP]),
    "encap_message_p_free": (None, [VP]),
    "session_write": (c_uint64, [VP, VP, VP, VP]),
    "session_read": (c_uint64, [VP, VP, c_uint32, VP]),
    "session_compute_next_message_len": (c_bool, [VP, VP, c_uint32]),
    "session_get_status": (c_uint8, [VP]),
    "session_get_hash": (None, [VP, VP]),
    "session_get_id": (c_uint32, [VP]),
    "session_get_peer_id": (c_uint32, [VP]),
    "session_get_peer_info": (c_bool, [VP, VP]),
    "session_reached_max_security": (c_bool, [VP]),
}


class Noise:
    def __init__(self, variant="real"):
        self.L = lib.load(variant)
        for n, (res, args) in SIG.items():
            f = getattr(self.L, "Noise_XK_" + n)
            f.restype, f.argtypes = res, args
            setattr(self, "_" + n, f)

    def pub(self, priv):
        o = lib.buf(32)
        self.L.crypto_scalarmult_curve25519_base(o, priv)
        return o.raw[:32]

    @staticmethod
    def _in(b):
        return tp.exact(b) if b is not None else None

    @staticmethod
    def _out(p, n):
        r = ctypes.string_at(p, n) if p and n else b""
        if p:
            tp._free(p)
        return r

    def _string(self, f, x):
        s = c_void_p(None)
        f(byref(s), x)
        if not s.value:
            return b""
        r = ctypes.string_at(s.value)
        tp._free(s.value)
        return r

    # ---- devices and peers; a name is None or bytes without zeros
    def _cname(self, name):
        return None if name is None else tp.exact(name + b"\0")

    def device(self, pro, name, sk, secret, stored=False):
        bs = [self._in(pro), self._cname(name), self._in(sk), self._in(secret)]
        f = self._device_create_from_secret if stored else self._device_create
        d = f(len(pro), *bs)
        for b in bs:
            tp._free(b)
        return d

    def add(self, d, name, key):
        n, k = self._cname(name), tp.exact(key)
        p = self._device_add_peer(d, n, k)
        tp._free(n), tp._free(k)
        return p

    def _blob(self, f, *a):
        n, p = c_uint32(7777), c_void_p(1)
        f(byref(n), byref(p), *a)
        return self._out(p.value, n.value)

    def save(self, d, peer):
        return self._blob(self._serialize_peer_secret, d, peer)

    def save_device(self, d):
        return self._blob(self._serialize_device_secret, d)

    def load(self, d, name, blob):
        n, b = self._cname(name), tp.exact(blob)
        p = self._deserialize_peer_secret(d, n, len(blob), b)
        tp._free(n), tp._free(b)
        return p

    def peer(self, p):
        k = lib.buf(32)
        self._peer_get_static(k, p)
        return self._peer_get_id(p), k.raw[:32], self._string(self._peer_get_info, p)

    def by_key(self, d, key):
        k = tp.exact(key)
        p = self._device_lookup_peer_by_static(d, k)
        tp._free(k)
        return p

    def own(self, d):
        a, b = lib.buf(32), lib.buf(32)
        self._device_get_static_priv(a, d)
        self._device_get_static_pub(b, d)
        return a.raw[:32], b.raw[:32], self._string(self._device_get_info, d)

    # ---- sessions
    def write(self, s, level, data):
        b = tp.exact(data)
        m = self._pack_message_with_conf_level(level, len(data), b)
        tp._free(b)
        n, p = c_uint32(7777), c_void_p(1)
        rc = self._session_write(m, s, byref(n), byref(p)) & 0xff
        self._encap_message_p_free(m)
        if rc:
            return None, n.value == 0 and not p.value
        return self._out(p.value, n.value), True

    def read(self, s, ct):
        """-> (plaintext or None, [released at level 0..3], [what was released], clean)"""
        b = tp.exact(ct)
        m = c_void_p(1)
        rc = self._session_read(byref(m), s, len(ct), b) & 0xff
        tp._free(b)
        if rc:
            return None, [], [], not m.value
        ok, got = [], []
        for lv in range(4):
            n, p = c_uint32(0), c_void_p(1)
            r = self._unpack_message_with_auth_level(byref(n), byref(p), lv, m)
            ok.append(bool(r))
            if r:
                got.append(self._out(p.value, n.value))
            else:
                got.append(None if not p.value else b"?leak")
        self._encap_message_p_free(m)
        return got[0], ok, got, True

    def view(self, s):
        h = lib.buf(64)
        self._session_get_hash(h, s)
        i = c_void_p(None)
        known = self._session_get_peer_info(byref(i), s)
        name = None
        if known:
            name = ctypes.string_at(i.value) if i.value else b""
            if i.value:
                tp._free(i.value)
        return {"status": self._session_get_status(s), "max": bool(self._session_reached_max_security(s)),
                "pid": self._session_get_peer_id(s), "pname": name, "hash": h.raw[:64].hex(), "sid": self._session_get_id(s)}
