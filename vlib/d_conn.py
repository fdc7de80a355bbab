"""Driver: connections of the multiplexer to servers on the loopback interface that present all kinds of
certificates, or none.  What arrives on a connection is recorded before and after decryption."""
import os, random, socket, ssl, sys, threading, time
sys.path.insert(0, os.environ["PY_REPO"])
os.environ.setdefault("BYZANTINE_DKG", os.environ["PY_LIB"])
from pyoprf.multiplexer import Multiplexer, Peer
from . import core

CERTS = os.environ["CONN_CERTS"]
HOST = {"name": "localhost", "ip": "127.0.0.1"}


def crt(s):
    return os.path.join(CERTS, "%s-%s-%s.pem" % (s["issuer"], s["valid"], "".join(x[0] for x in s["names"]) or "x"))


class Conn(threading.Thread):
    """One accepted connection."""

    def __init__(self, sock, srv, clear):
        super().__init__(daemon=True)
        self.s, self.srv, self.clear = sock, srv, clear
        self.raw, self.app, self.ready, self.over = b"", b"", False, False
        self.lock = threading.Lock()
        self.start()

    def run(self):
        try:
            self.serve()
        except (OSError, ssl.SSLError):
            pass
        self.over = True
        if self.srv["speaks"] == "shut":
            self.s.close()

    def serve(self):
        s = self.srv
        if s["speaks"] == "shut":
            return
        if self.clear:
            self.ready = True
        elif s["speaks"] == "tls":
            ctx = ssl.SSLContext(ssl.PROTOCOL_TLS_SERVER)
            ctx.set_ciphers("DEFAULT:@SECLEVEL=0")
            ctx.load_cert_chain(crt(s), os.path.join(CERTS, "leaf.key"))
            v = {"1.1": ssl.TLSVersion.TLSv1_1, "1.2": ssl.TLSVersion.TLSv1_2, "1.3": ssl.TLSVersion.TLSv1_3}[s["ver"]]
            ctx.minimum_version, ctx.maximum_version = (ssl.TLSVersion.TLSv1 if s["ver"] == "1.1" else ssl.TLSVersion.TLSv1_2), v
            self.i, self.o = ssl.MemoryBIO(), ssl.MemoryBIO()
            self.t = ctx.wrap_bio(self.i, self.o, server_side=True)
        broken = False
        while True:
            d = self.s.recv(65536)
            if not d:
                return
            with self.lock:
                self.raw += d
                if self.clear:
                    self.app += d
                elif s["speaks"] == "plain":
                    self.s.sendall(b"HTTP/1.1 400 Bad Request\r\n\r\n")
                elif not broken:
                    self.i.write(d)
                    try:
                        if not self.ready:
                            self.t.do_handshake()
                            self.ready = True
                        while True:
                            x = self.t.read(65536)
                            if not x:
                                break
                            self.app += x
                    except ssl.SSLWantReadError:
                        pass
                    except ssl.SSLError:
                        broken = True          # stays connected and listens on
                    self.s.sendall(self.o.read())

    def say(self, b):
        with self.lock:
            if self.clear:
                self.s.sendall(b)
            else:
                self.t.write(b)
                self.s.sendall(self.o.read())


def until(f, limit=3.0):
    end = time.time() + limit
    while not f():
        if time.time() > end:
            return False
        time.sleep(.001)
    return True


def run_job(job):
    rng = random.Random(job["seed"])
    c, servers = job["client"], job["servers"]
    kind = c["type"] or "SSL"
    lst = socket.socket()
    lst.bind(("127.0.0.1", 0))
    conns = []
    none = any(s["speaks"] == "none" for s in servers)
    if none:
        servers = [s for s in servers if s["speaks"] == "none"]
    else:
        lst.listen(16)
    nth = [0]

    def accept():
        while True:
            try:
                s, _ = lst.accept()
            except OSError:
                return
            conns.append(Conn(s, servers[min(nth[0], len(servers) - 1)], kind == "TCP"))
    th = threading.Thread(target=accept, daemon=True)
    th.start()
    port = lst.getsockname()[1]
    own = crt(servers[0])
    other = os.path.join(CERTS, "self-now-x2.pem")
    file = {"": None, "own": own, "other": other}[c["file"]]
    if c["mux"]:
        conf = {"host": HOST[c["host"]], "port": port}
        if c["type"]:
            conf["type"] = c["type"]
        if file:
            conf["ssl_cert"] = file
        mux = Multiplexer({"a": conf})
        api = {"connect": mux.connect, "send": lambda m: mux.send(0, m) if rng.random() < .5 else mux.broadcast(m), "read": lambda k: mux[0].read(k), "close": mux.close}
    else:
        kw = dict({"type": c["type"]} if c["type"] else {}, **({"ssl_cert": file} if file else {}))
        p = Peer("a", (HOST[c["host"]], port), **kw)
        api = {"connect": p.connect, "send": p.send, "read": p.read, "close": p.close}

    def attempt(op, *a):
        try:
            return True, api[op](*a)
        except Exception:
            return False, None
    ev = []
    live = None                   # the connection in use
    for op in ["connect"] * (job["ops"][:1] != ["connect"] and not job.get("bare")) + job["ops"]:
        if op == "connect":
            was, before = live, len(conns)
            srv = servers[min(nth[0], len(servers) - 1)]
            ok, _ = attempt("connect")
            if ok:
                until(lambda: len(conns) > before and (conns[-1].ready or conns[-1].over))
                live = conns[-1] if len(conns) > before else None
            file = c["file"]
            if file == "own" and crt(srv) != own:
                file = "other"
            ev.append({"op": "connect", "srv": srv, "file": file, "ok": ok})
            if ok and srv["speaks"] == "shut":
                ev.append({"op": "hangup"})
                live = None
            if len(conns) > before:
                nth[0] += 1
        elif op == "send":
            m = rng.randbytes(rng.choice([16, 40, 3000]))
            have = [len(x.app) for x in conns]
            ok, _ = attempt("send", m)
            if ok and live:
                until(lambda: m in live.app or live.over, 1.0)
            else:
                time.sleep(.02)
            ev.append({"op": "send", "ok": ok, "app": any(m in x.app for x in conns), "clear": any(m in x.raw for x in conns)})
        elif op == "read":
            m = rng.randbytes(rng.choice([1, 16, 4000]))
            if live:
                try:
                    live.say(m)
                except (OSError, ssl.SSLError):
                    live = None
            ok, v = attempt("read", len(m))
            ev.append({"op": "read", "ok": ok, "short": not ok and live is None or (ok and len(v) < len(m)), "same": ok and v == m})
        elif op == "hangup":
            if live:
                try:
                    live.s.shutdown(socket.SHUT_RDWR)
                except OSError:
                    pass
                until(lambda: live.over)
                live = None
                ev.append({"op": "hangup"})
        elif op == "close":
            ok, _ = attempt("close")
            ev.append({"op": "close", "ok": ok, "ended": until(lambda: live.over) if live else True})
            live = None
    lst.close()
    attempt("close")
    for x in conns:
        try:
            x.s.shutdown(socket.SHUT_RDWR)
        except OSError:
            pass
        x.s.close()
    return {"id": job["key"], "key": job["key"], "client": c, "servers": servers, "ev": ev}


if __name__ == "__main__":
    core.driver_main(run_job)
