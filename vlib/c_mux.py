"""Check C27: the multiplexer against Mux."""
import os, subprocess
from . import c_py
from .c_py import PYTHON, lines
from .core import drive


def certificate(ctx):
    crt, key = ctx.path("mux.crt"), ctx.path("mux.key")
    subprocess.run(["openssl", "req", "-x509", "-newkey", "ec", "-pkeyopt", "ec_paramgen_curve:P-256", "-nodes", "-keyout", key, "-out", crt,
                    "-days", "30", "-subj", "/CN=127.0.0.1", "-addext", "subjectAltName=IP:127.0.0.1"], check=True, capture_output=True)
    return crt, key


def C27(ctx):
    rng = ctx.rng
    ctx.model("MuxMC", env={"PEERS": "2", "ROUNDS": "1"}, workers=4)
    if ctx.thorough:
        ctx.model("MuxMC", env={"PEERS": "2", "ROUNDS": "2"}, workers=6)
        ctx.model("MuxMC", "MuxMCsafe", env={"PEERS": "3", "ROUNDS": "1"}, workers=6)
    two = lines(ctx, "MuxGen", {"SIM": "0"})
    sd = int.from_bytes(ctx.subseed("walk")[:6], "big")
    num = 3000 if ctx.thorough else 420
    more = lines(ctx, "MuxGen", {"SIM": "1"}, ["-simulate", "num=%d" % num, "-depth", "60", "-seed", str(sd)])
    jobs = []
    for p in rng.sample(two, min(len(two), 4000 if ctx.thorough else 420)) + more:
        mode = rng.random()
        jobs.append(dict(p, kind="gather", tls=[mode < .4 or (mode < .6 and rng.random() < .5) for _ in range(p["peers"])],
                         sizes=[2, 3, 7, 8, 33, 200, 5000, 40000], again=rng.random() < .15))
    for _ in range(60 if ctx.thorough else 20):
        jobs.append({"kind": "send", "tls": [rng.random() < .5 for _ in range(rng.randint(1, 4))]})
    for _ in range(300 if ctx.thorough else 60):
        jobs.append({"kind": "talk", "tls": [rng.random() < .5 for _ in range(rng.randint(1, 3))]})
    for t in (False, True):
        jobs.append({"kind": "send", "tls": [t], "big": 1})
    for i, j in enumerate(jobs):
        j["seed"] = "%d/C27/%d" % (ctx.seed, i)
        j["key"] = "%s %d" % (j["kind"], i)
    rng.shuffle(jobs)
    crt, key = certificate(ctx)
    env = dict(c_py.environment(), MUX_CERT=crt, MUX_KEY=key)
    runs = drive("d_mux", jobs, procs=8, timeout=800, tmp=ctx.tmp, env=env, python=PYTHON)
    ctx.validate("MuxTrace", runs, par=4)
    ctx.extra["jobs"] = len(jobs)
    ctx.assumptions.append("TCP on the loopback interface and the ssl module of the interpreter; a due call that has not ended after 20 s hangs")
