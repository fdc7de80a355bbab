"""Check C31: connections of the multiplexer against Conn."""
import os, subprocess
from . import c_py
from .c_py import PYTHON, lines
from .core import drive

CA = """[ca]
default_ca=d
[d]
dir={d}
new_certs_dir={d}
database={d}/index.txt
serial={d}/serial
default_md=sha256
policy=p
unique_subject=no
copy_extensions=none
[p]
commonName=supplied
[req]
distinguished_name=q
[q]
[v3ca]
basicConstraints=critical,CA:TRUE
keyUsage=critical,keyCertSign,cRLSign
subjectKeyIdentifier=hash
"""
SAN = {"n": "DNS:localhost", "i": "IP:127.0.0.1", "x": "DNS:elsewhere.example", "ni": "DNS:localhost,IP:127.0.0.1"}
VALID = {"now": ("20200101000000Z", "20991231000000Z"), "past": ("20200101000000Z", "20200601000000Z"), "future": ("20980101000000Z", "20991231000000Z")}


def certificates(ctx):
    d = ctx.path("certs")
    os.makedirs(d, exist_ok=True)

    def sh(*a):
        subprocess.run(["openssl"] + list(a), check=True, capture_output=True, cwd=d)
    conf = CA.format(d=d)
    for k, v in SAN.items():
        conf += "[leaf_%s]\nbasicConstraints=CA:FALSE\nkeyUsage=digitalSignature\nextendedKeyUsage=serverAuth\nsubjectAltName=%s\n" % (k, v)
    open(os.path.join(d, "ca.cnf"), "w").write(conf)
    open(os.path.join(d, "index.txt"), "w").close()
    open(os.path.join(d, "serial"), "w").write("1000\n")
    for k in ("root", "inter", "foreign", "leaf"):
        sh("genpkey", "-algorithm", "EC", "-pkeyopt", "ec_paramgen_curve:P-256", "-out", k + ".key")
        sh("req", "-new", "-key", k + ".key", "-subj", "/CN=%s" % ("server" if k == "leaf" else "verif " + k), "-config", "ca.cnf", "-out", k + ".csr")

    def issue(csr, out, ca, ext, valid, selfsign=None):
        by = ["-selfsign", "-keyfile", selfsign + ".key"] if selfsign else ["-cert", ca + ".pem", "-keyfile", ca + ".key"]
        sh("ca", "-batch", "-notext", "-config", "ca.cnf", "-in", csr + ".csr", "-out", out, "-extensions", ext, "-startdate", VALID[valid][0], "-enddate", VALID[valid][1], *by)
    for k in ("root", "foreign"):
        issue(k, k + ".pem", None, "v3ca", "now", k)
    issue("inter", "inter.pem", "root", "v3ca", "now")
    inter = open(os.path.join(d, "inter.pem")).read()
    for issuer, ca in (("known", "root"), ("chain", "inter"), ("nochain", "inter"), ("unknown", "foreign"), ("self", None)):
        for valid in VALID:
            for s in SAN:
                f = "%s-%s-%s.pem" % (issuer, valid, s)
                issue("leaf", f, ca, "leaf_" + s, valid, None if ca else "leaf")
                if issuer == "chain":
                    open(os.path.join(d, f), "a").write(inter)
    issue("leaf", "self-now-x2.pem", None, "leaf_x", "now", "leaf")
    return d


def C31(ctx):
    rng = ctx.rng
    ctx.model("ConnMC", workers=4)
    every = lines(ctx, "ConnGen", {"SIM": "0"})
    near = [p for p in every if p["off"] <= 1]
    far = [p for p in every if p["off"] > 1]
    sd = int.from_bytes(ctx.subseed("walk")[:6], "big")
    num = 3000 if ctx.thorough else 500
    jobs = rng.sample(near, len(near) if ctx.thorough else 400) + rng.sample(far, 3000 if ctx.thorough else 250)
    jobs += [dict(p, bare=1) for p in lines(ctx, "ConnGen", {"SIM": "1"}, ["-simulate", "num=%d" % num, "-depth", "30", "-seed", str(sd)])]
    for i, j in enumerate(jobs):
        j["seed"] = "%d/C31/%d" % (ctx.seed, i)
        j["key"] = "connection %d" % i
    rng.shuffle(jobs)
    d = certificates(ctx)
    env = dict(c_py.environment(), CONN_CERTS=d, SSL_CERT_FILE=os.path.join(d, "root.pem"), SSL_CERT_DIR=os.path.join(d, "none"))
    runs = drive("d_conn", jobs, procs=8, timeout=800, tmp=ctx.tmp, env=env, python=PYTHON)
    ctx.validate("ConnTrace", runs, par=4)
    ctx.extra["jobs"] = len(jobs)
    ctx.assumptions.append("TCP on the loopback interface, OpenSSL and the ssl module of the interpreter")
