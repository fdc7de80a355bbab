"""Checks C01-C04, C06-C10: algebraic operations against the specification over ristretto255."""
from .core import drive
from .d_alg import CORRUPT


def _jobs(ctx, jobs):
    for i, j in enumerate(jobs):
        j["seed"] = "%d/%s/%d" % (ctx.seed, ctx.prop, i)
    return jobs


def _go(ctx, jobs, timeout=240, par=4):
    jobs = _jobs(ctx, jobs)
    # short per-process timeout: a call that does not return is recorded as a crash of its job
    runs = drive("d_alg", jobs, procs=6, timeout=timeout, tmp=ctx.tmp)
    ctx.validate("TraceAlg", runs, par=par)
    ctx.extra["jobs"] = len(jobs)


def C01(ctx):
    ctx.model("OprfMC")
    rng = ctx.rng
    jobs = []
    inter = ctx.generate("Gen", env={"GEN": "inter"})
    for s in inter:
        jobs.append({"kind": "inter", "keys": 2, "xlens": [rng.randrange(256), rng.randrange(256)], "steps": s["steps"]})
    # every input length
    step = 1 if ctx.thorough else 4
    off = rng.randrange(step)
    lens = sorted(set(list(range(off, 256, step)) + [0, 1, 127, 128, 254, 255] + list(range(60, 70))))
    for i in range(0, len(lens), 4):
        ch = lens[i:i + 4]
        jobs.append({"kind": "inter", "keys": 1, "xlens": ch, "scripted": i % 3 == 0,
                     "steps": [[c, a] for c in range(len(ch)) for a in ("blind", "eval", "unblind", "final")]})
    # larger random interleavings
    for _ in range(40 if ctx.thorough else 6):
        n = rng.randint(3, 6)
        todo = {c: ["final", "unblind", "eval", "blind"] for c in range(n)}
        steps = []
        while todo:
            c = rng.choice(list(todo))
            steps.append([c, todo[c].pop()])
            if not todo[c]:
                del todo[c]
        jobs.append({"kind": "inter", "keys": 3, "xlens": [rng.randrange(256) for _ in range(n)], "steps": steps})
    jobs.append({"kind": "final", "lens": [0, 1, 255, 256, 257, 1000, 65535]})
    _go(ctx, jobs)


def C02(ctx):
    rng = ctx.rng
    cases = [(m, rng.randrange(0, 255), rng.choice([64, 32, 255])) for m in range(256)]
    cases += [(rng.randrange(256), d, rng.choice([64, 128, 255, 1])) for d in range(256)]
    cases += [(rng.randrange(256), rng.randrange(255), o) for o in range(256)]
    cases += [(m, d, o) for m in (0, 1, 255) for d in (0, 1, 42, 254, 255) for o in (0, 1, 63, 64, 65, 127, 128, 129, 191, 192, 193, 254, 255)]
    cases += [(rng.randrange(256), rng.randrange(256), rng.randrange(256)) for _ in range(6000 if ctx.thorough else 600)]
    jobs = [{"kind": "expand", "cases": cases[i::12]} for i in range(12)]
    lens = list(range(256)) * (4 if ctx.thorough else 1)
    jobs += [{"kind": "h2g", "lens": lens[i::8]} for i in range(8)]
    ctx.extra["cases"] = len(cases) + len(lens)
    _go(ctx, jobs)


def C03(ctx):
    ctx.model("OprfMC")
    rng = ctx.rng
    jobs = []
    for _ in range(30 if ctx.thorough else 6):
        n = rng.randint(2, 6)
        jobs.append({"kind": "bad", "n": n, "t": rng.randint(1, n)})
    for m in (1, 2, 3, 4, 5, 6, 7, 8, 9):
        jobs.append({"kind": "badpos", "m": m, "pos": list(range(m))})
    for m in ([rng.randint(10, 40), rng.randint(41, 254), 255] if not ctx.thorough else [10, 16, 17, 32, 33, 64, 100, 128, 129, 200, 254, 255]):
        jobs.append({"kind": "badpos", "m": m, "k": 1, "pos": sorted({0, 1, rng.randrange(m), m - 2, m - 1})})
    _go(ctx, jobs)


def _quorums(rng, n, t, k):
    qs = []
    for _ in range(k):
        qs.append(rng.sample(range(1, n + 1), rng.choice([t, rng.randint(t, n)])))
    return qs


BIG = [(255, 2), (255, 255), (254, 3), (128, 127), (200, 20)]


def C04(ctx):
    ctx.model("ShareMC", "ShareMC4" if ctx.thorough else None)
    rng = ctx.rng
    by = {}
    for s in ctx.generate("Gen", env={"GEN": "quorum5" if ctx.thorough else "quorum4"}):
        by.setdefault((s["n"], s["t"]), []).append(s["q"])
    jobs = [{"kind": "share", "n": n, "t": t, "qs": qs} for (n, t), qs in sorted(by.items())]
    for _ in range(60 if ctx.thorough else 12):
        n = rng.randint(5, 40)
        t = rng.randint(1, n)
        jobs.append({"kind": "share", "n": n, "t": t, "qs": _quorums(rng, n, t, 3)})
    for n, t in BIG + [(255, 1), (rng.randint(240, 255), rng.randint(1, 240))]:
        jobs.append({"kind": "share", "n": n, "t": t, "qs": _quorums(rng, n, t, 1), "key": "share n=%d t=%d" % (n, t)})
    _go(ctx, jobs, timeout=60)


def C06(ctx):
    ctx.model("ShareMC", "ShareMC4" if ctx.thorough else None)
    rng = ctx.rng
    by = {}
    for s in ctx.generate("Gen", env={"GEN": "quorum5" if ctx.thorough else "quorum4"}):
        by.setdefault((s["n"], s["t"]), []).append(s["q"])
    jobs = []
    for (n, t), qs in sorted(by.items()):
        if not ctx.thorough and len(qs) > 16:
            qs = rng.sample(qs, 16)
        for i in range(0, len(qs), 8):
            jobs.append({"kind": "thresh", "n": n, "t": t, "qs": qs[i:i + 8], "perm": True})
    for _ in range(40 if ctx.thorough else 8):
        n = rng.randint(5, 30)
        t = rng.randint(2, n)
        jobs.append({"kind": "thresh", "n": n, "t": t, "qs": _quorums(rng, n, t, 1), "perm": True})
    # quorums of high and arbitrary indexes
    for n, t, m in [(255, 3, 3), (255, 2, 40), (254, 5, 9), (255, 60, 60)] + ([(255, 255, 255), (255, 130, 200)] if ctx.thorough else []):
        q = rng.sample(range(1, n + 1), m)
        if n not in q:
            q[0] = n
        jobs.append({"kind": "thresh", "n": n, "t": t, "qs": [q], "light": True, "perm": True})
    jobs.append({"kind": "thresh", "n": 255, "t": 2, "qs": [list(range(255, 0, -1))], "light": True})
    jobs.append({"kind": "many", "counts": [256, 257, 511, 512, 65536, 65538, 2**24, 2**32, 2**32 + 3, 2**40, 2**63, 2**64 - 1]})
    _go(ctx, jobs, timeout=100)


def C07(ctx):
    ctx.model("ShareMC")
    rng = ctx.rng
    jobs = []
    lens = [0, 1, 2, 31, 32, 33, 64, 255, 256, 257, 1024, 4096, 65534, 65535]
    for i in range(40 if ctx.thorough else 12):
        n = rng.randint(1, 6) if i else 5
        t = rng.randint(1, n)
        k = 4
        jobs.append({"kind": "tdh", "n": n, "t": t, "qs": _quorums(rng, n, t, k), "lens": [lens[(i * k + j) % len(lens)] if j < 3 else rng.randrange(70) for j in range(k)]})
    _go(ctx, jobs)


def C08(ctx):
    ctx.model("DkgMC", "DkgMC3" if ctx.thorough else "DkgMC5")
    rng = ctx.rng
    jobs = [{"kind": "dkg", "n": n, "t": t} for n in range(2, 6) for t in range(2, n + 1)]
    for _ in range(12 if ctx.thorough else 2):
        n = rng.randint(6, 14)
        jobs.append({"kind": "dkg", "n": n, "t": rng.randint(2, n)})
    for n, t in [(40, 3), (255, 2)]:
        jobs.append({"kind": "dkg", "n": n, "t": t, "light": True, "key": "dkg n=%d t=%d" % (n, t)})
    for n, t in [(255, 255), (255, 130), (254, rng.randint(30, 70)), (rng.randint(70, 250), 64)]:
        jobs.append({"kind": "dealer", "n": n, "t": t, "selves": sorted({1, 2, min(127, n), min(128, n), min(129, n), n - 1, n, rng.randint(1, n)}), "key": "dealer n=%d t=%d" % (n, t)})
    _go(ctx, jobs, timeout=100)


def C09(ctx):
    ctx.model("DkgMC", "DkgMC3" if ctx.thorough else "DkgMC5")
    rng = ctx.rng
    jobs = []
    sc = ctx.generate("Gen", env={"GEN": "cheat5" if ctx.thorough else "cheat4"})
    for i, s in enumerate(sc):
        for rep in range(2):
            t = rng.randint(1 if rep else 2, s["n"])
            kinds = [rng.choice(CORRUPT) for _ in range(5)]
            jobs.append({"kind": "cheat", "n": s["n"], "t": t, "self": s["self"], "who": s["who"], "kinds": kinds})
    for kind in CORRUPT:     # each kind alone and as first of several
        for who in ([1], [1, 3], [3], [2, 4, 5]):
            jobs.append({"kind": "cheat", "n": 5, "t": rng.randint(2, 4), "self": 2, "who": who, "kinds": [kind]})
    for n in (2, 3):          # small sessions, every kind
        for t in range(1, n + 1):
            for kind in CORRUPT:
                me = rng.randint(1, n)
                jobs.append({"kind": "cheat", "n": n, "t": t, "self": me, "who": [i for i in range(1, n + 1) if i != me], "kinds": [kind]})
    jobs.append({"kind": "cheat", "n": 255, "t": 2, "self": 254, "who": [1, 100, 255], "kinds": ["share+1"], "key": "cheat n=255"})
    # many cheaters at once
    for n, me in ((255, 128), (254, 1), (40, rng.randint(1, 40))):
        who = [i for i in range(1, n + 1) if i != me and (n < 255 or rng.random() < .8)]
        jobs.append({"kind": "cheat", "n": n, "t": 1 if n > 40 else 3, "self": me, "who": who, "kinds": rng.sample(CORRUPT, 7), "key": "cheat n=%d" % n})
    for n, t in [(255, 255), (255, rng.randint(100, 250)), (254, rng.randint(30, 70)), (rng.randint(70, 250), 64)]:
        bad = [(rng.choice([1, n, n // 2 + 1, rng.randint(1, n)]), kind) for kind in (CORRUPT if t < 100 else rng.sample(CORRUPT, 6) + ["comhigh", "comlast"])]
        jobs.append({"kind": "dealer", "n": n, "t": t, "selves": [], "bad": bad, "key": "dealer n=%d t=%d" % (n, t)})
    _go(ctx, jobs, timeout=100)


def C10(ctx):
    ctx.model("MulMC", "MulMCx" if ctx.thorough else None)
    rng = ctx.rng
    lists = [[1], [2], [255], [1, 2], [2, 1], [255, 1], [1, 2, 3], [3, 1, 2], [3, 2, 1], [5, 250, 7]]
    for _ in range(60 if ctx.thorough else 16):
        lists.append(rng.sample(range(1, 256), rng.randint(2, 9)))
    lists.append(rng.sample(range(1, 256), 24 if ctx.thorough else 14))
    jobs = [{"kind": "vdm", "lists": lists[i::6]} for i in range(6)]
    for n, t in [(1, 1), (2, 1), (3, 2), (4, 2), (5, 3), (5, 2), (6, 3), (7, 4), (9, 5)]:
        for _ in range(4 if ctx.thorough else 2):
            m = rng.randint(2 * t - 1, n)
            jobs.append({"kind": "mul", "n": n, "t": t, "order": rng.sample(range(1, n + 1), m)})
    for _ in range(20 if ctx.thorough else 4):
        t = rng.randint(1, 6)
        n = rng.randint(2 * t - 1, 2 * t + 8)
        jobs.append({"kind": "mul", "n": n, "t": t, "order": rng.sample(range(1, n + 1), rng.randint(2 * t - 1, n))})
    # many dealers, high indexes
    for m in [20, 37, 64] + ([129, 200] if ctx.thorough else [rng.randint(100, 129)]):
        t = (m + 1) // 2 if m < 60 else 3 if m < 100 else 2
        order = rng.sample(range(1, 255), m - 1) + [255]
        rng.shuffle(order)
        jobs.insert(0, {"kind": "mul", "n": 255, "t": t, "order": order, "peers": [128, 255, 1] + rng.sample(range(129, 255), t - 2), "key": "mul dealers=%d" % m})
    jobs.append({"kind": "mulbad", "cases": [(1, 1, 5, 3), (1, 2, 5, 3), (255, 1, 5, 3), (1, 1, 2, 3), (1, 1, 3, 3), (1, 1, 5, 0), (1, 1, 0, 0), (1, 1, 0, 1),
                                             (2, 2, 255, 2), (1, 1, 1, 1), (7, 7, 254, 255), (0, 1, 3, 2)], "key": "mulbad"})
    _go(ctx, jobs, timeout=100)
