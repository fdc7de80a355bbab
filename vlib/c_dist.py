"""Checks C05, C29: distribution of shares, keys and blinding factors."""
from . import core


def _go(ctx, jobs):
    for i, j in enumerate(jobs):
        j["seed"] = "%d/%s/%d" % (ctx.seed, ctx.prop, i)
    runs = core.drive("d_dist", jobs, tmp=ctx.tmp)
    # the draws of processes that were seeded differently must differ, too
    for what in ("coefficients", "key and blinding factor"):
        vals = [[v] for r in runs for e in r["ev"] if e["op"] == "scalars" and e["what"] == what for row in e["rows"][:12] for v in row[:6]]
        if len(vals) > 1:
            runs.append({"id": "across", "key": "all %s" % what, "ev": [{"op": "scalars", "prop": ctx.prop, "what": what, "rows": vals}]})
    ctx.validate("Uniform", runs, par=4)
    ctx.extra["samples_drawn"] = sum(e.get("m", 1) for r in runs for ev in r["ev"] for e in ev.get("counts", []))


def C05(ctx):
    ctx.model("SharingMC")
    jobs = []
    rng = ctx.rng
    big = 3 if ctx.thorough else 1
    for what in ("create", "start", "mul"):
        for q, t, e in [(5, 2, 300), (5, 3, 150), (7, 2, 300), (7, 3, 150), (7, 4, 60), (5, 4, 100), (11, 3, 60)]:
            k = t if what == "start" else t - 1
            if (q - 1) ** k > 1500:
                continue
            m = int(e * (q ** k)) * big
            ns = [t] if what != "mul" else [max(t, 2 * t - 1)]
            n = max(ns[0], min(q - 1, t + 1))
            if n >= q:      # indexes must differ modulo q
                continue
            for s in ([None] if what == "start" else sorted(set([0, 1, q - 1, rng.randrange(q)]))):
                jobs.append({"kind": "dist", "variant": "toy", "what": what, "q": q, "t": t, "n": n, "m": m, "secrets": [s], "key": "%s q=%d t=%d" % (what, q, t)})
        for n, t, m in [(3, 2, 300), (5, 3, 150), (9, 5, 70), (40, 20, 12), (255, 128, 3), (255, 100, 3)] + ([(255, 127, 8), (200, 60, 8), (128, 64, 10)] if ctx.thorough else []):
            jobs.append({"kind": "coefs", "what": what, "n": n, "t": t, "m": m, "key": "%s n=%d t=%d" % (what, n, t)})
            if what != "start" and t < 10:      # always the same secret
                jobs.append({"kind": "coefs", "what": what, "n": n, "t": t, "m": m, "secret": rng.choice([1, 5, 2**200]), "key": "%s n=%d t=%d one secret" % (what, n, t)})
    jobs.append({"kind": "coefs", "what": "create", "n": 255, "t": 255, "m": 3, "key": "create n=255 t=255"})
    jobs.append({"kind": "coefs", "what": "start", "n": 255, "t": 254, "m": 3, "key": "start n=255 t=254"})
    _go(ctx, jobs)


def C29(ctx):
    ctx.model("OprfMC")
    rng = ctx.rng
    k = 4 if ctx.thorough else 1
    jobs = [{"kind": "values", "variant": "toy", "q": q, "m": 9000 * k, "lens": sorted({0, 1, 32, 255, rng.randrange(256)}), "key": "values q=%d" % q} for q in (7, 13, 31)]
    jobs += [{"kind": "fresh", "m": 300 * k, "x": "input %d" % i, "key": "fresh"} for i in range(6)]
    _go(ctx, jobs)
