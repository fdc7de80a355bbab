"""Check C32: calls give back what they take."""
from . import build, c_conc, c_noise, c_tp
from .core import drive
from .d_alg import CORRUPT


def C32(ctx):
    ctx.model("ResMC", workers=4)
    rng = ctx.rng
    k = 5 if ctx.thorough else 1
    jobs = []
    for _ in range(4 * k):
        jobs += [dict(x, mod="alg") for x in c_conc.algs(rng)]
        jobs.append({"mod": "alg", "kind": "cheat", "n": 5, "t": 3, "self": 2, "who": [1, 3, 4], "kinds": rng.sample(CORRUPT, 3)})
    jobs.append({"mod": "alg", "kind": "mulbad", "cases": [(1, 1, 5, 3), (1, 2, 5, 3), (1, 1, 2, 3), (1, 1, 5, 0), (2, 2, 255, 2)]})
    jobs.append({"mod": "alg", "kind": "expand", "cases": [(m, d, o) for m in (0, 255) for d in (0, 1, 255) for o in (0, 1, 64, 255)]})
    jobs.append({"mod": "alg", "kind": "dkg", "n": 60, "t": 50, "light": True})
    jobs.append({"mod": "alg", "kind": "zeros"})
    p3 = c_tp.plans(ctx, 3, 2)
    kinds = sorted({p["kind"] for p in p3})
    tps = [(3, 2, p) for kd in kinds for p in c_tp.pick(ctx, [p for p in p3 if p["kind"] == kd], 60 * k)]
    tps += [(4, 3, p) for p in c_tp.pick(ctx, c_tp.plans(ctx, 4, 3), 60 * k)]
    jobs += [{"mod": "tp", "n": n, "t": t, "eps": c_tp.EPS, "other": 1, "devs": p["devs"], "cap": rng.choice([None, None, 1])} for n, t, p in tps]
    jobs += [{"mod": "tp", "n": n, "t": t, "eps": c_tp.EPS, "faults": 40 * k} for n, t in [(3, 2), (4, 3), (5, 2)]]
    jobs += [{"mod": "tp", "n": 3, "t": 2, "eps": c_tp.EPS, "devs": p["devs"], "faults": 6} for p in c_tp.pick(ctx, [p for p in p3 if p["kind"] in ("share", "resolve")], 10 * k)]
    ws = []
    for what, depth, num in (("walk", 90, 60), ("hand", 45, 250), ("chan", 60, 60), ("regwalk", 60, 60)):
        ws += c_noise.walks(ctx, what, depth, num * k)
    for i in range(0, len(ws), 10):
        jobs.append({"mod": "noise", "progs": [[i + j, p] for j, p in enumerate(ws[i:i + 10])]})
    for i, j in enumerate(jobs):
        j["seed"] = "%d/C32/%d" % (ctx.seed, i)
        j["key"] = "%s %s %d" % (j["mod"], j.get("kind", ""), i)
        if j.get("devs"):
            j["key"] = "tp %s" % str(j["devs"])
    build.build("track")
    runs = drive("d_res", jobs, procs=8, timeout=800, tmp=ctx.tmp)
    ctx.validate("ResTrace", runs, par=4)
    ctx.extra.update(jobs=len(jobs), locks_refused=sum(len(e.get("faults", [])) for r in runs for e in r["ev"]))
    ctx.assumptions.append("memory is allocated and locked through the C library and libsodium; allocation itself does not fail")
