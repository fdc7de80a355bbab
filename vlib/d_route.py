"""Driver: session parameters, and honest sessions of any size recorded as sizes and digests."""
import hashlib
from . import core, lib, tp
from .d_tp import getlib


def start(L, n, t, name, msg0, eps=120):
    h = L.shim_tp_new()
    rc = L.shim_tp_start(h, eps, n, t, name, len(name), len(msg0), msg0)
    return h, rc


def join(L, lt, msg0):
    p = L.shim_peer_new()
    b = tp.exact(msg0)
    rc = L.shim_peer_start(p, 120, lt, b)
    tp._free(b)
    L.shim_peer_free(p)
    return rc


def run_job(job):
    T = getlib("real")
    L = T.L
    L.shim_set_time(tp.T0)
    L.shim_rng_seed(hashlib.sha256(job["seed"].encode()).digest())
    L.shim_log(None)
    _, lt = T.keypair(hashlib.sha256(b"lt").digest())
    ev = []
    size = tp.msgsize(0, 0, 0)
    if job["op"] == "params":
        for n, t, name in job["cases"]:
            m = lib.buf(size)
            h, rc = start(L, n, t, b"x" * name if name else b"", m)
            e = {"op": "params", "n": n, "t": t, "name": name, "ret": rc}
            if rc == 0:
                raw = m.raw[:size]
                e.update({"an": raw[111 + 64], "at": raw[111 + 65], "joined": join(L, lt, raw)})
            L.shim_tp_free(h)
            ev.append(e)
    elif job["op"] == "join":
        m = lib.buf(size)
        h, rc = start(L, 3, 2, b"verif", m)
        sk = lib.buf(64)
        L.shim_tp_sk(h, sk)
        for n, t in job["cases"]:
            x = bytearray(m.raw[:size])
            x[111 + 64], x[111 + 65] = n, t
            x[:64] = T.sign(sk.raw[:64], bytes(x[64:]))
            ev.append({"op": "join", "n": n, "t": t, "ret": join(L, lt, bytes(x))})
        L.shim_tp_free(h)
    elif job["op"] == "fresh":
        sids = []
        for n, t in job["cases"]:
            m = lib.buf(size)
            h, rc = start(L, n, t, b"verif", m)
            if rc == 0:
                sids.append(m.raw[79:111].hex())
            L.shim_tp_free(h)
        ev.append({"op": "fresh", "sids": sids})
    else:
        S = tp.Session(job["n"], job["t"], job["seed"], L=T, lean=True)
        S.ev = [{"op": "open", "n": job["n"], "t": job["t"]}]
        S.run(extra=False)
        S.release()
        ev = S.ev
    return {"id": job["key"], "key": job["key"], "ev": ev}


if __name__ == "__main__":
    core.driver_main(run_job)
