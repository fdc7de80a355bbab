"""Check C26: the Python binding against the specification."""
import json, os
from . import build, tlc
from .core import drive

PYTHON = "/opt/vp/venv/bin/python"


def environment(variant="real"):
    """The interpreter's environment: the package of the working tree, the libraries built from it."""
    real, plain = build.build(variant), build.build("plain")
    asan = {"LD_PRELOAD": build.asan_runtime(), "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=1:handle_abort=0", "PYTHONMALLOC": "malloc"}
    return {**(asan if variant == "asan" else {}), "PY_REPO": os.path.join(build.REPO, "python"), "PY_LIB": os.path.join(real, "lib.so"), "LD_LIBRARY_PATH": plain}


def lines(ctx, module, env, extra=None, timeout=300):
    out = ctx.path("%s-%d.txt" % (module, ctx.states))
    r = tlc.run(module, env=dict(env, OUT=out), workers=1, timeout=timeout, extra=extra or [])
    got = [json.loads(json.loads(x)) for x in open(out) if x.strip()]
    ctx.states += max(r.distinct, sum(len(x) for x in got) if extra else 0)
    ctx.transitions += max(r.generated, sum(len(x) for x in got) if extra else 0)
    return got


def C26(ctx):
    rng = ctx.rng
    jobs = []
    # every function with every deviation of one argument, pairs of deviations
    plans = lines(ctx, "PyGen", {"PAIRS": "0"})
    if not ctx.thorough:
        keep = {}
        for p in plans:
            keep.setdefault((p["f"], tuple(p["dev"])), []).append(p)
        plans = [p for k in sorted(keep) for p in rng.sample(keep[k], 1)]
    pairs = lines(ctx, "PyGen", {"PAIRS": "1"})
    plans += rng.sample(pairs, len(pairs) if ctx.thorough else 350)
    rng.shuffle(plans)
    for i in range(0, len(plans), 6):
        jobs.append({"kind": "plan", "plans": plans[i:i + 6], "key": "calls %d" % i})
    # proper use, as in the checks of the library itself
    many = 6 if ctx.thorough else 1
    for _ in range(6 * many):
        jobs.append({"kind": "alg", "what": "inter", "keys": 2, "xlens": [rng.randrange(256), rng.randrange(256), 255],
                     "steps": [[c, a] for c in range(4) for a in ("blind", "eval", "unblind", "final")]})
        n = rng.randint(2, 9)
        t = rng.randint(2, n)
        jobs.append({"kind": "alg", "what": "bad", "n": n, "t": t, "k": 6})
        q = [rng.sample(range(1, n + 1), rng.randint(t, n)) for _ in range(3)]
        for w in ("share", "thresh", "tdh"):
            jobs.append({"kind": "alg", "what": w, "n": n, "t": t, "qs": q, "lens": [0, rng.randrange(65536), 65535]})
        jobs.append({"kind": "alg", "what": "dkg", "n": min(n, 5), "t": min(t, 5)})
    n = rng.randint(140, 255)
    jobs.append({"kind": "alg", "what": "thresh", "n": n, "t": 130, "qs": [rng.sample(range(1, n + 1), rng.randint(130, n))]})
    jobs.append({"kind": "alg", "what": "final", "lens": [0, 255, 256, 65535]})
    # key generation sessions with improper calls in between; sessions with a cheating peer
    for n, t in [(3, 2), (4, 3), (5, 3)] * (2 * many):
        jobs.append({"kind": "session", "n": n, "t": t, "probe": rng.choice([0, .3, .8]), "key": "session"})
    for i in range(16 * many):
        n = rng.randint(3, 6)
        deal = {"step": "deal", "who": sorted(rng.sample(range(1, n + 1), rng.choice([1, 1, 2, n])))}
        sign = {"step": rng.choice([1, 2, 3]), "who": rng.randint(1, n)}
        jobs.append({"kind": "session", "n": n, "t": rng.randint(2, n - 1), "probe": .1, "key": "cheating session", "cheat": sign if i % 2 else deal})
    for n in [4, 10, 19] + [rng.randint(4, 20) for _ in range(2 * many - 2)]:
        v = rng.randint(1, n)
        w = rng.sample(range(1, n + 1), 2)
        jobs.append({"kind": "session", "n": n, "t": n - 1, "probe": 0, "key": "many cheating", "cheat": {"step": "deal", "who": sorted(w)}})
        jobs.append({"kind": "session", "n": n, "t": n - 1, "probe": 0, "key": "all cheating",
                     "cheat": {"step": "deal", "who": [p for p in range(1, n + 1) if p != v], "victims": [v - 1]}})
    # secure channel
    num, depth = (400, 40) if ctx.thorough else (70, 28)
    sd = int.from_bytes(ctx.subseed("walk")[:6], "big")
    for ops in lines(ctx, "PyNoiseGen", {"DEPTH": str(depth)}, ["-simulate", "num=%d" % num, "-depth", str(depth + 5), "-seed", str(sd)]):
        jobs.append({"kind": "noise", "ops": ops, "key": "channel"})
    for i, j in enumerate(jobs):
        j["seed"] = "%d/C26/%d" % (ctx.seed, i)
        j.setdefault("key", "%s %d" % (j.get("what", j["kind"]), i))
    rng.shuffle(jobs)
    # first with the library watching its memory, which includes the buffers the binding passes
    watched = [dict(j, key=j["key"] + " (memory)") for j in jobs if j["kind"] != "noise"]
    watched = [j for j in watched if j["kind"] == "session"] + rng.sample(watched, len(watched) if ctx.thorough else 60)
    runs = drive("d_py", watched, procs=6, timeout=600, tmp=ctx.tmp, env=environment("asan"), python=PYTHON)
    damaged = [r for r in runs if r.get("crash")]
    if damaged:          # nothing recorded after that can be relied upon
        runs = damaged
    else:
        runs += drive("d_py", jobs, procs=6, timeout=600, tmp=ctx.tmp, env=environment(), python=PYTHON)
    ctx.validate("PyTrace", runs, par=4)
    ctx.extra["jobs"] = len(jobs)
    ctx.assumptions.append("ctypes and the Python interpreter")

