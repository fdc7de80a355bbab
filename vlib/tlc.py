"""Running TLC and reading its verdict."""
import os, re, shutil, subprocess, tempfile, time
from . import build

SPEC = os.path.join(build.VERIF, "spec")


class TlcError(Exception):
    """TLC did not give a verdict (parse error, evaluation error, timeout ...)."""


class Result:
    def __init__(self):
        self.ok = False
        self.generated = 0
        self.distinct = 0
        self.depth = 0
        self.final = {}       # variables of the last state of the error trace (text)
        self.violated = None
        self.output = ""
        self.wall = 0.0


def run(module, cfg=None, env=None, workers=4, timeout=600, mem="4g", extra=(), xss="512m"):
    """Run TLC on spec/<module>.tla with spec/<cfg>.cfg. Returns Result; raises TlcError."""
    r = Result()
    t0 = time.time()
    os.makedirs(build.BUILD, exist_ok=True)
    md = tempfile.mkdtemp(prefix="tlc-", dir=build.BUILD)
    try:
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + mem, "-Xss" + xss, "-cp", build.classes() + ":" + build.TLAJARS,
               "-Djava.io.tmpdir=" + md, "-XX:-UsePerfData",
               "tlc2.TLC", "-noGenerateSpecTE", "-metadir", md, "-workers", str(workers), "-deadlock",
               "-config", (cfg or module) + ".cfg"] + list(extra) + [module + ".tla"]
        e = dict(os.environ)
        e.update(env or {})
        try:
            p = subprocess.run(cmd, cwd=SPEC, env=e, capture_output=True, text=True, timeout=timeout)
        except subprocess.TimeoutExpired as x:
            raise TlcError("%s: timeout after %ss\n%s" % (module, timeout, ((x.stdout or b"")[-2000:])))
        out = p.stdout
        r.output = out
        m = re.findall(r"(\d+) states generated.*?, (\d+) distinct states found", out)
        if m:
            r.generated, r.distinct = int(m[-1][0]), int(m[-1][1])
        m = re.findall(r"depth of the complete state graph search is (\d+)", out)
        if m:
            r.depth = int(m[-1])
        if p.returncode == 0 and "No error has been found" in out:
            r.ok = True
        elif p.returncode == 0 and "-simulate" in extra:
            r.ok = True
        elif p.returncode == 12:
            m = re.search(r"Invariant (\S+) is violated", out) or re.search(r"Action property (\S+)", out)
            r.violated = m.group(1) if m else "?"
            blocks = re.split(r"\nState \d+: |\n\d+: <", out)
            last = blocks[-1] if len(blocks) > 1 else out[out.find("is violated"):]
            for k, v in re.findall(r"^/\\ (\w+) = (.*?)(?=^/\\ \w+ = |^\s*$|\Z)", last, re.M | re.S):
                r.final[k] = v.strip()
        else:
            raise TlcError("%s: exit %d\n%s\n%s" % (module, p.returncode, out[-6000:], p.stderr[-2000:]))
    finally:
        shutil.rmtree(md, ignore_errors=True)
    r.wall = time.time() - t0
    return r
