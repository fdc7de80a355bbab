"""Check C35: secrets do not linger in memory."""
from . import build, c_tp
from .core import drive


def C35(ctx):
    ctx.model("TrailMC", workers=4)
    k = 6 if ctx.thorough else 1
    jobs = [{"mod": "alg", "reps": 12, "key": "calls"} for _ in range(8 * k)]
    jobs += [{"mod": "tp", "n": n, "t": t, "eps": c_tp.EPS, "key": "session n=%d t=%d" % (n, t)} for n, t in [(3, 2), (4, 3), (5, 2), (9, 4)]]
    p3 = c_tp.plans(ctx, 3, 2)
    for kd in sorted({p["kind"] for p in p3} - {"sub"}):
        for p in c_tp.pick(ctx, [p for p in p3 if p["kind"] == kd], 12 * k):
            jobs.append({"mod": "tp", "n": 3, "t": 2, "eps": c_tp.EPS, "devs": p["devs"], "key": "session %s" % str(p["devs"])})
    for i, j in enumerate(jobs):
        j["seed"] = "%d/C35/%d" % (ctx.seed, i)
    build.build("real")
    runs = drive("d_trail", jobs, procs=8, timeout=800, tmp=ctx.tmp)
    ctx.validate("TrailTrace", runs, par=4)
    ctx.extra.update(jobs=len(jobs), calls=sum(len(r["ev"]) for r in runs))
    ctx.assumptions.append("the memory of a call is its stack; copies shorter than the whole secret, in another form, or in registers are not looked for")
