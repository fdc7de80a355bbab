"""Check C33: calls on separate data in parallel threads."""
from . import build, c_noise, c_tp
from .core import drive


def algs(rng):
    n = rng.randint(3, 6)
    t = rng.randint(2, n)
    q = [rng.sample(range(1, n + 1), t) for _ in range(2)]
    m = rng.randint(2, 3)
    ex = [[c, a] for c in (0, 1) for a in ("blind", "eval", "unblind", "final")]
    return [{"kind": "inter", "keys": 2, "xlens": [rng.randrange(1, 256), rng.randrange(1, 64)], "steps": ex},
            {"kind": "expand", "cases": [(rng.randrange(256), rng.randrange(1, 255), o) for o in (32, 64, 65, 200)]},
            {"kind": "h2g", "lens": [rng.randrange(256), 9]},
            {"kind": "final", "lens": [rng.randrange(300), 1000]},
            {"kind": "bad", "n": n, "t": t},
            {"kind": "share", "n": n, "t": t, "qs": q},
            {"kind": "thresh", "n": n, "t": t, "qs": q, "light": True},
            {"kind": "tdh", "n": n, "t": t, "qs": q, "lens": [5, 300]},
            {"kind": "dkg", "n": n, "t": t},
            {"kind": "cheat", "n": n, "t": t, "self": 1, "who": [2], "kinds": ["share+1"]},
            {"kind": "vdm", "lists": [rng.sample(range(1, 256), 4), [3, 1, 2]]},
            {"kind": "mul", "n": 2 * m, "t": m, "order": rng.sample(range(1, 2 * m + 1), 2 * m - 1)}]


def C33(ctx):
    for n, c in [("3", "1"), ("2", "2")] + ([("4", "1"), ("3", "2")] if ctx.thorough else []):
        ctx.model("ConcMC", env={"N": n, "CELLS": c}, workers=6)
    rng = ctx.rng
    progs = []

    def pair(a, b, most, mix=6, firsts=(0, 1)):
        plans = [{"kind": "places", "first": f, "max": most} for f in firsts]
        plans += [{"kind": "mix", "piece": p} for p in (0.2, 1, 4, 10, 20, 50)[:mix]] * (4 if ctx.thorough else 1)
        progs.append({"progs": [dict(x, seed="%d/C33/%d/%d" % (ctx.seed, len(progs), i), key="p") for i, x in enumerate((a, b))], "plans": plans})
    # the calls without sessions: each with the same one on other data, and with some other
    for _ in range(3 if ctx.thorough else 1):
        xs, ys = algs(rng), algs(rng)
        for i, x in enumerate(xs):
            a = dict(x, mod="alg")
            pair(a, dict(ys[i], mod="alg"), 1000, firsts=(0,))      # the other way round is much the same
            pair(a, dict(rng.choice(ys), mod="alg"), 60, 3)
    # key generation sessions: honest, with complaints, failing
    plans = [p for p in c_tp.plans(ctx, 3, 2) if p["kind"] in ("resolve", "share", "commit", "list")]
    k = 4 if ctx.thorough else 1
    hon = {"mod": "tp", "n": 3, "t": 2, "eps": c_tp.EPS}
    pair(hon, hon, 1500, firsts=(0,))
    for _ in range(2 * k):
        a, b = [dict(hon, devs=p["devs"]) for p in rng.sample(plans, 2)]
        pair(a, b, 150)
        pair(a, hon, 60)
    pair(dict(hon, n=4, t=3), hon, 60)
    # channels
    ws = c_noise.walks(ctx, "chan", 40, 4 * k) + c_noise.walks(ctx, "walk", 50, 6 * k)
    ws = [[o for o in w if o["op"] not in ("wane", "jump")] for w in ws]
    for i in range(0, len(ws) - 1, 2):
        a, b = [{"mod": "noise", "progs": [[i + j, ws[i + j]]]} for j in (0, 1)]
        pair(a, b, *((2000, 6, (0,)) if i < 4 * k else (100,)))
    # sessions beside single calls
    pair(hon, dict(rng.choice(xs), mod="alg"), 100)
    jobs = []
    for i, p in enumerate(progs):
        kinds = ["%s %s" % (x["mod"], x.get("kind", "")) for x in p["progs"]]
        jobs.append(dict(p, seed="%d/C33/job/%d" % (ctx.seed, i), key="threads %d: %s | %s" % (i, kinds[0].strip(), kinds[1].strip())))
    # the long ones first
    jobs.sort(key=lambda j: -sum(x["mod"] == "tp" for x in j["progs"]))
    build.build("sched")
    runs = drive("d_conc", jobs, procs=8, timeout=800, tmp=ctx.tmp, env={"JOB_TIMEOUT": "600"})
    if sum(1 for r in runs if r.get("unsteady")) * 2 > len(runs):
        raise RuntimeError("most programs do not even repeat alone")
    ctx.extra.update(pairs=len(jobs), schedules=sum(len(r["ev"]) for r in runs), unsteady=sum(1 for r in runs if r.get("unsteady")),
                     schedules_lost=sum(1 for r in runs for e in r["ev"] if e.get("loose")))
    ctx.validate("ConcTrace", [r for r in runs if not r.get("unsteady")], par=4)
    ctx.assumptions.append("one interruption per call pair exposes interference (ConcMC, OneSwitch)")
