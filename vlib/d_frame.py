"""Driver: calls with their buffers in guarded memory; programs in memory filled with garbage."""
import ctypes, hashlib, json, mmap, os, random
from . import core, d_alg, d_noise, d_tp, lib, tp

PAGE = mmap.PAGESIZE
_libc = ctypes.CDLL(None, use_errno=True)
_libc.mprotect.argtypes = [ctypes.c_void_p, ctypes.c_size_t, ctypes.c_int]


class Room:
    """Pages between two that cannot be accessed."""

    def __init__(self, pages):
        self.n = pages * PAGE
        self.m = mmap.mmap(-1, self.n + 2 * PAGE)
        self.at = ctypes.addressof(ctypes.c_char.from_buffer(self.m)) + PAGE
        for a in (self.at - PAGE, self.at + self.n):
            if _libc.mprotect(a, PAGE, 0):
                raise OSError("mprotect")


class Placed:
    """The library, with every buffer of a call copied to a room of its own."""

    def __init__(self, L, rng):
        self.L, self.rng, self.rooms, self.log = L, rng, {}, []

    def room(self, k, n):
        want = max(1, -(-n // PAGE)) + 1
        r = self.rooms.get(k)
        if not r or r.n < want * PAGE:
            r = self.rooms[k] = Room(want + 2)
        return r

    def __getattr__(self, name):
        f = getattr(self.L, name)
        if name.startswith("shim"):
            return f

        def g(*args):
            bufs, ns = [], []
            for a in args:
                if isinstance(a, bytes):
                    bufs.append([a, None])
                elif isinstance(a, ctypes.Array):
                    bufs.append([a.raw, a])
                elif hasattr(a, "_obj"):
                    bufs.append([bytes(a._obj), a._obj])
                elif isinstance(a, ctypes._SimpleCData):
                    ns.append(a.value)
            sd = self.rng.randbytes(32)
            tries = []
            for k in range(3):
                tries.append(self.once(f, name, args, bufs, ns, k, sd))
            rc = tries[0].pop("rc")
            for t in tries[1:]:
                t.pop("rc")
            for (_, o), b in zip(bufs, tries[0]["bufs"]):
                if o is not None:
                    ctypes.memmove(ctypes.addressof(o), bytes.fromhex(b["after"]), b["len"])
            self.log.append({"op": "call", "f": name, "tries": tries})
            return rc
        return g

    def once(self, f, name, args, bufs, ns, k, sd):
        # 0: at the end of the accessible memory, 1: at its begin, 2: anywhere
        rng = self.rng
        at, snap = [], []
        for i, (b, o) in enumerate(bufs):
            r = self.room(i, len(b))
            ctypes.memmove(r.at, rng.randbytes(r.n), r.n)
            a = r.at + (r.n - len(b) if k == 0 else 0 if k == 1 else rng.randrange(r.n - len(b) + 1))
            if o is not None:
                fill = 0xA5 if k == 0 else rng.randrange(256)
                b = bytes(fill if x == 0xA5 else x for x in b)
            ctypes.memmove(a, b, len(b))
            at.append(a)
            snap.append((r, a - r.at, len(b), ctypes.string_at(r.at, r.n)))
        it = iter(at)
        real = [ctypes.c_void_p(next(it)) if isinstance(a, (bytes, ctypes.Array)) or hasattr(a, "_obj") else a for a in args]
        self.L.shim_rng_seed(sd)
        self.L.shim_smear(rng.randrange(256))
        rc = f(*real)
        out = []
        for r, off, n, was in snap:
            now = ctypes.string_at(r.at, r.n)
            out.append({"len": n, "before": was[off:off + n].hex(), "after": now[off:off + n].hex(),
                        "around": now[:off] == was[:off] and now[off + n:] == was[off + n:]})
        t = {"rc": rc, "ok": name in VOID or rc == 0, "ns": ns, "bufs": out}
        if name == "dkg_verify_commitments":
            c = bytes.fromhex(out[3]["after"])[0]
            t["listed"] = list(bytes.fromhex(out[2]["after"])[:c])
        return t


VOID = {"oprf_KeyGen", "toprf_create_shares", "dkg_reconstruct", "coeff", "dkg_finish", "invertedVDMmatrix", "toprf_mpc_mul_finish"}


class Alg(lib.Alg):
    def __init__(self, rng):
        self.L = Placed(lib.load("real"), rng)

    def expand(self, msg, dst, ln):
        o = lib.buf(ln) if ln else (ctypes.c_char * 0)()
        rc = self.L.expand_message_xmd(msg, lib.c_uint8(len(msg)), dst, lib.c_uint8(len(dst)), lib.c_uint8(ln), o)
        return rc, o.raw[:ln], True


changed = [0]
_inputs = {}


def watch():
    """Inputs are compared when they are released."""
    if _inputs.get("on"):
        return
    _inputs["on"] = True
    ex, fr = tp.exact, tp._free

    def exact(b):
        p = ex(b)
        _inputs[p] = bytes(b)
        return p

    def free(p):
        b = _inputs.pop(p, None) if p else None
        if b is not None and b and b != tp.FILL * len(b) and ctypes.string_at(p, len(b)) != b:
            changed[0] += 1
        fr(p)
    tp.exact, tp._free = exact, free


def plain(e):
    e = dict(e)
    if e.get("ret"):
        e.pop("out", None)           # of a failed step
    return e


def run_job(job):
    rng = random.Random(job["seed"])
    if job["mod"] == "place":
        A = Alg(rng)
        d_alg.__dict__["j_" + job["kind"]](A, job, rng)
        return {"id": job["key"], "key": job["key"], "ev": A.L.log}
    V = os.environ["VLIB_VARIANT"]
    watch()
    changed[0] = 0
    tp.FILL = bytes([int(os.environ["MALLOC_PERTURB_"])])
    if job["mod"] == "alg":
        ev = d_alg.run_job(job)["ev"]
    elif job["mod"] == "noise":
        ev = [e for r in d_noise.run_job(dict(job, variant=V)) for e in r["ev"]]
    else:
        ev = d_tp.run_job(dict(job, variant=V))["ev"]
    return {"id": job["seed"], "key": job["key"], "inputs": changed[0],
            "ev": [hashlib.sha256(json.dumps(plain(e), sort_keys=True).encode()).hexdigest()[:12] + str(e.get("op", "")) for e in ev]}


if __name__ == "__main__":
    core.driver_main(run_job)
