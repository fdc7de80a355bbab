"""Driver: the multiplexer of the Python package on schedules of MuxGen, over real TCP and TLS connections
on the loopback interface.  The peers' side is played here; for TLS it produces the records itself, so that
these can be cut anywhere."""
import os, random, socket, ssl, struct, sys, threading, time
sys.path.insert(0, os.environ["PY_REPO"])
os.environ.setdefault("BYZANTINE_DKG", os.environ["PY_LIB"])
from pyoprf.multiplexer import Multiplexer
from . import core

MARK = b"\x00\x04fail"
CERT = os.environ["MUX_CERT"]
KEY = os.environ["MUX_KEY"]
SURE = float(os.environ.get("MUX_WAIT", "20"))       # a call that is due and has not ended by then hangs
hangs = 0


class Remote:
    """The far end of one connection."""

    def __init__(self, tls, rng, rcvbuf=None):
        self.tls, self.rng = tls, rng
        self.lst = socket.socket(socket.AF_INET, socket.SOCK_STREAM)
        if rcvbuf:
            self.lst.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, rcvbuf)
        self.lst.bind(("127.0.0.1", 0))
        self.lst.listen(4)
        self.port = self.lst.getsockname()[1]
        self.s = None

    def accept(self):
        self.s, _ = self.lst.accept()
        self.s.settimeout(30)
        self.s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        if not self.tls:
            return
        ctx = ssl.SSLContext(ssl.PROTOCOL_TLS_SERVER)
        ctx.load_cert_chain(CERT, KEY)
        if self.rng.random() < .4:
            ctx.maximum_version = ssl.TLSVersion.TLSv1_2
        self.i, self.o = ssl.MemoryBIO(), ssl.MemoryBIO()
        self.t = ctx.wrap_bio(self.i, self.o, server_side=True)
        while True:
            try:
                self.t.do_handshake()
                self.flush(False)
                return
            except ssl.SSLWantReadError:
                self.flush(False)
                d = self.s.recv(65536)
                if not d:
                    return
                self.i.write(d)

    def flush(self, cut=True):
        d = self.o.read()
        if cut and len(d) > 1 and self.rng.random() < .3:
            k = self.rng.randrange(1, len(d))
            self.s.sendall(d[:k])
            time.sleep(self.rng.choice([0, .002]))
            d = d[k:]
        self.s.sendall(d)

    def write(self, data):
        if not self.tls:
            return self.s.sendall(data)
        # one or several records, sent together or not
        while data:
            k = len(data) if self.rng.random() < .7 else self.rng.randint(1, len(data))
            self.t.write(data[:k])
            data = data[k:]
            if self.rng.random() < .5:
                self.flush()
        self.flush()

    def end(self, how):
        if how == "R":
            self.s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
        elif how == "C" and self.tls:
            try:
                self.t.unwrap()
            except ssl.SSLError:
                pass
            self.flush(False)
        if how == "C":
            self.s.shutdown(socket.SHUT_WR)
        else:
            self.s.close()

    def received(self, size):
        """All that arrives, up to size bytes."""
        got = b""
        self.s.settimeout(10)
        while len(got) < size:
            try:
                if not self.tls:
                    d = self.s.recv(65536)
                    if not d:
                        break
                    got += d
                    continue
                try:
                    d = self.t.read(65536)
                    if not d:
                        break
                    got += d
                except ssl.SSLWantReadError:
                    d = self.s.recv(65536)
                    if not d:
                        break
                    self.i.write(d)
            except OSError:
                break
        # more than expected?
        self.s.settimeout(.05)
        try:
            d = self.s.recv(65536)
            if self.tls and d:
                self.i.write(d)
                d = self.t.read(65536)
            got += d
        except OSError:
            pass
        return got

    def drop(self):
        for s in (self.s, self.lst):
            try:
                if s:
                    s.close()
            except OSError:
                pass


def procs(rng):
    """A function for gather and its inverse; what begins with x is refused."""
    kind = rng.choice(["bytes", "list", "tuple", "dict", "zero"])
    if kind == "bytes":
        return (lambda m: None if m[:1] == b"x" else m), (lambda v: v)
    if kind == "list":
        return (lambda m: None if m[:1] == b"x" else [m]), (lambda v: v[0])
    if kind == "tuple":
        return (lambda m: None if m[:1] == b"x" else (m, 1)), (lambda v: v[0])
    if kind == "dict":
        return (lambda m: None if m[:1] == b"x" else {"m": m}), (lambda v: v["m"])
    keep = []           # results that are false in a condition
    return (lambda m: None if m[:1] == b"x" else (keep.append(m) or Zero(m))), (lambda v: v.m)


class Zero:
    def __init__(self, m):
        self.m = m

    def __bool__(self):
        return False

    def __len__(self):
        return 0


def connect(ev, op, peers, far):
    ths = [threading.Thread(target=f.accept, daemon=True) for f in far]
    for t in ths:
        t.start()
    try:
        peers.connect()
        ok = True
    except Exception as e:
        ok = False
    ev.append({"op": op, "ok": ok})
    if ok:
        for t in ths:
            t.join(10)
    return ok


def setup(job, rng, ev, rcvbuf=None):
    far = [Remote(x, rng, rcvbuf) for x in job["tls"]]
    conf = {"peer%d" % i: {"host": "127.0.0.1", "port": f.port, "type": "SSL" if f.tls else "TCP", **({"ssl_cert": CERT} if f.tls else {})}
            for i, f in enumerate(far)}
    for c in conf.values():
        if c["type"] == "SSL" and rng.random() < .5:
            del c["type"]
    m = Multiplexer(conf)
    return far, m, connect(ev, "connect", m, far)


def j_gather(job, rng):
    ev = []
    far, m, ok = setup(job, rng, ev)
    if ok:
        play(job, rng, ev, far, m)
        for f in far:
            f.s.close()
        if job.get("again") and ev[-1].get("ret") != "blocked":
            m.close()
            if connect(ev, "again", m, far):
                play(job, rng, ev, far, m)
    try:
        m.close()
    except Exception:
        pass
    for f in far:
        f.drop()
    return {"peers": len(far), "ev": ev}


def play(job, rng, ev, far, m):
    global hangs
    size = 6 if job["six"] else rng.choice(job["sizes"])
    n = len(far)
    half = [rng.randint(1, size - 1) if size > 1 else 1 for _ in range(n)]
    prc, inv = procs(rng)
    useproc = any(s["do"] == "X" for s in job["steps"]) or rng.random() < .3
    todo = [b""] * n           # of the current message of each peer
    units = [0] * n
    hi = [{"data": "", "end": "open"} for _ in range(n)]   # from before a step
    lo = [{"data": "", "end": "open"} for _ in range(n)]   # from after it
    full = [0] * n             # complete messages
    lock = threading.Lock()

    def message(kind):
        if kind == "F":
            return MARK if size == 6 else MARK[:size]
        if kind == "X":
            return b"x" + rng.randbytes(size - 1)
        while True:
            d = rng.randbytes(size)
            if d[:1] != b"x" and d != MARK:
                return d

    def take(p, k):
        """The next k units of peer p."""
        out = b""
        for _ in range(k):
            if units[p] == 0:
                todo[p] = message("m")
                out += todo[p][:half[p]]
                units[p] = 1
                if size == 1:
                    pass
            else:
                out += todo[p][half[p]:]
                units[p] = 0
                full[p] += 1
        return out

    def step(p, do):
        f = far[p]
        if hi[p]["end"] != "open":
            return
        if do in "CER":
            with lock:
                hi[p]["end"] = "reset" if do == "R" else "closed"
            f.end(do)
            with lock:
                lo[p]["end"] = hi[p]["end"]
            return
        if do in "FX":
            d = message(do)
            if do == "F":
                full[p] += 1
        else:
            d = take(p, int(do))
        if not d:
            return
        with lock:
            hi[p]["data"] += d.hex()
        try:
            f.write(d)
        except OSError:
            with lock:          # not all of it arrives
                hi[p]["end"] = "reset"
            return
        with lock:
            lo[p]["data"] = hi[p]["data"]

    def env(x):
        return [dict(q) for q in x]

    class Call:
        def __init__(self, k):
            self.k, self.e = k, None
            self.t = threading.Thread(target=self.run, daemon=True)
            self.t.start()

        def run(self):
            kw = {"proc": prc} if useproc else {}
            if self.k < n or rng.random() < .5:
                kw["n"] = self.k
            if rng.random() < .1:
                kw["debug"] = True
            try:
                r = m.gather(size, **kw)
                ret, res = "list", [[] if x is None else [(inv(x) if useproc else x).hex()] for x in r]
            except Exception as x:
                ret, res = "raise", []
            with lock:
                self.e = {"op": "gather", "len": size, "n": self.k, "proc": useproc, "ret": ret, "res": res, "env": env(hi)}

    rounds = 0
    call = None

    def finish():
        """The running call ends, if it is due; otherwise it has to be made due."""
        global hangs
        sure = sum(1 for p in range(n) if full[p] >= rounds and hi[p]["end"] != "reset")
        due = sure >= call.k or all(hi[p]["end"] != "open" or full[p] >= rounds for p in range(n))
        call.t.join(SURE if due else .1)
        if call.e is None and due:
            # every byte was written long ago
            ev.append({"op": "gather", "len": size, "n": call.k, "proc": useproc, "ret": "blocked", "res": [], "env": env(lo)})
            hangs += 1
            return False
        if call.e is None:
            for p in range(n):
                step(p, "C")
            return finish()
        ev.append(call.e)
        return True

    out = sys.stdout
    sys.stdout = open(os.devnull, "w")
    try:
        for s in job["steps"]:
            if s["p"] == 0:
                if call and not finish():
                    return
                rounds += 1
                time.sleep(rng.choice([0, 0, .003]))
                call = Call(int(s["do"]))
            else:
                step(s["p"] - 1, s["do"])
            time.sleep(rng.choice([0, .001, .004]))
        if call:
            finish()
    finally:
        sys.stdout = out


def j_send(job, rng):
    ev = []
    far, m, ok = setup(job, rng, ev, 4096 if job.get("big") else None)
    n = len(far)
    if ok:
        want = [0] * n
        got = [None] * n
        plan = []
        for _ in range(rng.randint(1, 6)):
            d = rng.randbytes(rng.choice([1, 2, 111, 5000]))
            plan.append((rng.choice(["cast", rng.randrange(n)]), d))
        if job.get("big"):
            plan = [("cast", rng.randbytes(7000000))]
        for to, d in plan:
            for p in range(n):
                want[p] += len(d) if to in ("cast", p) else 0

        def hear(p):
            time.sleep(.5 if job.get("big") else rng.choice([0, .05]))
            got[p] = far[p].received(want[p])
        ths = [threading.Thread(target=hear, args=(p,), daemon=True) for p in range(n)]
        for t in ths:
            t.start()
        for to, d in plan:
            try:
                if to == "cast":
                    m.broadcast(d)
                else:
                    m.send(to, d)
                ok = True
            except Exception as e:
                ok = False
            ev.append(dict({"op": "cast" if to == "cast" else "send", "msg": d.hex(), "ok": ok}, **({} if to == "cast" else {"p": to + 1})))
        for t in ths:
            t.join(30)
        ev.append({"op": "heard", "got": [(g or b"").hex() for g in got]})
    try:
        m.close()
    except Exception:
        pass
    for f in far:
        f.drop()
    return {"peers": n, "ev": ev}


def j_talk(job, rng):
    """Sending, reading from one peer and collecting from all of them in turn."""
    ev = []
    far, m, ok = setup(job, rng, ev)
    n = len(far)
    data = [b""] * n
    end = ["open"] * n
    want = [0] * n
    if ok:
        for _ in range(rng.randint(3, 8)):
            do = rng.choice(["read", "read", "gather", "cast", "send"])
            ths = []
            size = rng.choice([1, 5, 6, 100, 5000, 30000])
            k = rng.randint(1, n)
            if do in ("read", "gather"):
                p = rng.randrange(n)
                shut = do == "read" and rng.random() < .15 and end[p] == "open"
                for q in [p] if do == "read" else range(n):
                    if end[q] != "open":
                        continue
                    d = rng.randbytes(rng.randrange(size) if shut else size + rng.choice([0, 0, 3]))
                    data[q] += d
                    if shut:
                        end[q] = "closed"

                    def feed(q=q, d=d):
                        h = rng.randint(0, len(d))
                        time.sleep(rng.choice([0, .005, .02]))
                        if d[:h]:
                            far[q].write(d[:h])
                        time.sleep(rng.choice([0, .005, .02]))
                        if d[h:]:
                            far[q].write(d[h:])
                        if shut:
                            far[q].end("C")
                    ths.append(threading.Thread(target=feed, daemon=True))
                for t in ths:
                    t.start()
            try:
                if do == "read":
                    ret, res = "bytes", m[p].read(size).hex()
                elif do == "gather":
                    ret, res = "list", [[] if x is None else [x.hex()] for x in m.gather(size, k)]
                else:
                    d = rng.randbytes(rng.choice([1, 111, 5000]))
                    p = rng.randrange(n)
                    if "closed" in end:
                        continue
                    for q in range(n) if do == "cast" else [p]:
                        want[q] += len(d)
                    ret = "raise"
                    m.broadcast(d) if do == "cast" else m.send(p, d)
                    ret = "ok"
            except Exception as e:
                ret, res = "raise", []
            for t in ths:
                t.join()
            env = [{"data": d.hex(), "end": x} for d, x in zip(data, end)]
            if do == "read":
                ev.append({"op": do, "p": p + 1, "len": size, "ret": ret, "res": res, "env": env})
            elif do == "gather":
                ev.append({"op": do, "len": size, "n": k, "proc": False, "ret": ret, "res": res, "env": env})
            else:
                ev.append(dict({"op": do, "msg": d.hex(), "ok": ret == "ok"}, **({} if do == "cast" else {"p": p + 1})))
        if all(x == "open" for x in end):
            ev.append({"op": "heard", "got": [far[p].received(want[p]).hex() for p in range(n)]})
    try:
        m.close()
    except Exception:
        pass
    for f in far:
        f.drop()
    return {"peers": n, "ev": ev}


def run_job(job):
    rng = random.Random(job["seed"])
    if hangs >= 2:          # enough is known
        return {"id": job["seed"], "key": job["key"], "peers": len(job["tls"]), "ev": []}
    r = globals()["j_" + job["kind"]](job, rng)
    return dict({"id": job["seed"], "key": job["key"]}, **r)


if __name__ == "__main__":
    core.driver_main(run_job)
