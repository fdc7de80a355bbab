"""Check C34: calls touch nothing but their outputs and depend on nothing but their inputs."""
from concurrent.futures import ThreadPoolExecutor
from . import build, c_conc, c_noise, c_tp
from .core import drive
from .d_alg import CORRUPT


def C34(ctx):
    ctx.model("FrameMC", workers=4)
    rng = ctx.rng
    k = 5 if ctx.thorough else 1
    alg = []
    for _ in range(6 * k):
        alg += c_conc.algs(rng)
        alg.append({"kind": "cheat", "n": 6, "t": rng.randint(1, 6), "self": 2, "who": [1, 3, 4], "kinds": rng.sample(CORRUPT, 3)})
    alg.append({"kind": "mulbad", "cases": [(1, 1, 5, 3), (1, 2, 5, 3), (1, 1, 2, 3), (1, 1, 5, 0), (2, 2, 255, 2)]})
    alg.append({"kind": "expand", "cases": [(m, d, o) for m in (0, 1, 127, 255) for d in (0, 1, 254, 255) for o in (0, 1, 63, 64, 65, 128, 255)]})
    alg.append({"kind": "h2g", "lens": list(range(0, 256, 5 if not ctx.thorough else 1))})
    alg.append({"kind": "final", "lens": [0, 1, 4095, 4096, 65535]})
    alg.append({"kind": "tdh", "n": 3, "t": 2, "qs": [[1, 2], [3, 1]], "lens": [0, 65535]})
    alg.append({"kind": "dkg", "n": 40, "t": 30, "light": True})
    alg.append({"kind": "share", "n": 255, "t": 200, "qs": [rng.sample(range(1, 256), 200)]})
    alg.append({"kind": "vdm", "lists": [[1], rng.sample(range(1, 256), 20)]})
    alg.append({"kind": "zeros"})
    place = [dict(j, mod="place") for j in alg]
    both = [dict(j, mod="alg") for j in alg]
    p3 = c_tp.plans(ctx, 3, 2)
    tps = [(3, 2, p) for kd in sorted({p["kind"] for p in p3}) for p in c_tp.pick(ctx, [p for p in p3 if p["kind"] == kd], 40 * k)]
    tps += [(4, 3, p) for p in c_tp.pick(ctx, c_tp.plans(ctx, 4, 3), 40 * k)]
    both += [{"mod": "tp", "n": n, "t": t, "eps": c_tp.EPS, "devs": p["devs"]} for n, t, p in tps]
    both += [{"mod": "tp", "n": n, "t": t, "eps": c_tp.EPS} for n in range(3, 7) for t in range(2, n)]
    ws = []
    for what, depth, num in (("walk", 90, 40), ("hand", 45, 100), ("chan", 60, 40), ("regwalk", 60, 40)):
        ws += c_noise.walks(ctx, what, depth, num * k)
    ws = [[o for o in w if o["op"] not in ("wane", "jump")] for w in ws]
    for i in range(0, len(ws), 10):
        both.append({"mod": "noise", "progs": [[i + j, p] for j, p in enumerate(ws[i:i + 10])]})
    for name, jobs in (("place", place), ("both", both)):
        for i, j in enumerate(jobs):
            j["seed"] = "%d/C34/%s/%d" % (ctx.seed, name, i)
            j["key"] = "tp %s" % str(j["devs"]) if j.get("devs") else "%s %s %d" % (j["mod"], j.get("kind", ""), i)
    for v in ("real", "zero", "fill"):
        build.build(v)

    def go(a):
        jobs, env, procs = a
        return drive("d_frame", jobs, procs=procs, timeout=800, tmp=ctx.tmp, env=env)
    with ThreadPoolExecutor(3) as ex:
        runs, a, b = ex.map(go, [(place, {}, 2), (both, {"VLIB_VARIANT": "zero", "MALLOC_PERTURB_": "90"}, 3), (both, {"VLIB_VARIANT": "fill", "MALLOC_PERTURB_": "165"}, 3)])
    crash = [r for r in a + b if r.get("crash")]
    b = {r["id"]: r for r in b if not r.get("crash")}
    for x in a:
        if x["id"] in b:
            y = b[x["id"]]
            runs.append({"id": x["id"], "key": x["key"], "ev": [{"op": "twice", "a": x["ev"], "b": y["ev"], "inputs": x["inputs"] + y["inputs"]}]})
    ctx.validate("FrameTrace", runs + crash, par=4)
    ctx.extra.update(calls=sum(len(r["ev"]) for r in runs), programs_twice=len(both))
