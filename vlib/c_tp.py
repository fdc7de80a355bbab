"""Checks of the key generation protocol with a trusted party (C11-C22, C28)."""
import collections, json
from . import build, core

IMMEDIATE = ("flip", "hdr", "sub")
TPST = ["1", "4", "6", "8", "12", "14", "16", "20", "22"]
PST = ["2", "5", "7", "9", "13", "15", "17", "19", "21"]
EPS = 120


def plans(ctx, n, t, kinds=None):
    ps = ctx.generate("TpPlanGen", env={"N": str(n), "T": str(t), "EPS": str(EPS), "A": str(ctx.rng.randint(3, max(3, n - 1)))})
    return [p for p in ps if kinds is None or p["kind"] in kinds]


def pick(ctx, xs, k):
    return xs if k is None or len(xs) <= k else ctx.rng.sample(xs, k)


def sessions(ctx, n, t, ps, tag, **kw):
    """One session per plan."""
    return [dict({"n": n, "t": t, "seed": "%d/%s/%d" % (ctx.seed, tag, i), "devs": p["devs"], "other": 1, "eps": EPS,
                  "key": "n=%d t=%d %s" % (n, t, json.dumps(p["devs"]))}, **kw) for i, p in enumerate(ps)]


def probes(ctx, n, t, ps, tag, per=60, **kw):
    """Plans whose effect shows in one call: many per session, each on a copy of it."""
    g = collections.defaultdict(list)
    for p in ps:
        d = p["devs"][0]
        if d["at"][1] != "0":
            g[tuple(d["at"])].append({"devs": p["devs"], "dis": sorted({x for y in p["devs"] for x in y["dis"]})})
    jobs = []
    for k, v in sorted(g.items()):
        for c in range(0, len(v), per):
            jobs.append(dict({"n": n, "t": t, "seed": "%d/%s/%s/%d" % (ctx.seed, tag, k, c), "probes": v[c:c + per], "other": 1, "eps": EPS,
                              "key": "n=%d t=%d probes at %s" % (n, t, list(k))}, **kw))
    # what reaches a peer before its first call cannot be probed
    return jobs + sessions(ctx, n, t, [p for p in ps if p["devs"][0]["at"][1] == "0"], tag + "/0", **kw)


def honest(ctx, sizes, reps=1, **kw):
    jobs = []
    for n, t in sizes:
        for r in range(reps):
            for ticks in (0, EPS // (3 * (n + 1))):
                jobs.append(dict({"n": n, "t": t, "seed": "%d/h/%d/%d/%d/%d" % (ctx.seed, n, t, r, ticks), "ticks": ticks, "honest": 1, "eps": EPS,
                                  "key": "honest n=%d t=%d" % (n, t)}, **kw))
    return jobs


def untimely(ctx, n, t, count):
    """Sessions in which the clock advances a lot between calls."""
    return [{"n": n, "t": t, "seed": "%d/u/%d" % (ctx.seed, i), "ticks": [EPS, EPS // 2, EPS // 4, EPS // 6][i % 4], "eps": EPS, "key": "untimely n=%d t=%d" % (n, t)}
            for i in range(count)]


def mixed(ctx, n, t, ps, count, tag="m"):
    """Sessions with several independent deviations."""
    byk = collections.defaultdict(list)
    for p in ps:
        byk[p["kind"]].append(p)
    kinds = sorted(byk)
    out = []
    for i in range(count):
        devs = []
        for _ in range(ctx.rng.choice([2, 2, 3, 4])):
            devs += ctx.rng.choice(byk[ctx.rng.choice(kinds)])["devs"]
        out.append({"kind": "mixed", "devs": devs})
    return sessions(ctx, n, t, out, tag)


def bytes_jobs(ctx, n, t, step, tag="b", **kw):
    """Every step-th byte of every input of every call altered, one at a time."""
    jobs = []
    for who in range(n + 1):
        for st in (TPST if who == 0 else PST):
            if st in ("1", "19"):
                continue
            for ph in ([ctx.rng.randrange(step)] if step > 1 else [0]):
                jobs.append(dict({"n": n, "t": t, "seed": "%d/%s/%d/%s" % (ctx.seed, tag, who, st), "probes": [], "eps": EPS,
                                  "bytes": [{"at": [who, st], "step": step, "phase": ph}], "key": "n=%d t=%d bytes at %s" % (n, t, [who, st])}, **kw))
    return jobs


def sizes_jobs(ctx, n, t, tag="z", **kw):
    lens = sorted({-(10 ** 6), -112, -111, -64, -1, 0, 1, 2, 32, 111, 176, 1000} | {ctx.rng.randrange(-300, 300) for _ in range(6)})
    return [dict({"n": n, "t": t, "seed": "%d/%s/%d" % (ctx.seed, tag, who), "probes": [], "eps": EPS,
                  "sizes": [{"at": [who, st], "lens": lens, "outs": [-(10 ** 6), -111, -1, 1, 100]} for st in (TPST if who == 0 else PST)],
                  "key": "n=%d t=%d sizes at %d" % (n, t, who)}, **kw) for who in range(n + 1)]


def judge(ctx, jobs, variant="real", env=None, **kw):
    runs = core.drive("d_tp", jobs, tmp=ctx.tmp, env=env)
    ctx.validate("TpDkgTrace", runs, par=4, workers=2, **kw)
    ctx.extra["sessions"] = ctx.extra.get("sessions", 0) + len(jobs)


DEEP = ("keys", "commit", "share", "list", "digest", "ack", "announce", "index", "first", "equiv")
SMALL = [(3, 2), (4, 2), (4, 3), (5, 3)]


# families of TpDkgMC that concern a property and the step through them in the quick tier
MODELS = {"C11": (("deep", 4), ("pairs", 300)), "C12": (("flips", 4),), "C13": (("headers", 8), ("foreign", 20)), "C14": (("deep", 5), ("complaints", 12)),
          "C15": (("deep", 5), ("complaints", 9)), "C16": (("pairs", 300), ("several", 9)), "C17": (("complaints", 5), ("accuse", 2)), "C18": (("complaints", 5),),
          "C19": (("deep", 3),), "C20": (("none", 1),), "C21": (("none", 1),), "C22": (("none", 1),), "C28": (("none", 1),)}


def model(ctx):
    """The protocol on its own: all invariants of TpDkgMC for the sessions of the given families."""
    for plans_, stride in MODELS[ctx.prop]:
        env = {"N": "3", "T": "2", "PLANS": plans_, "SEED": str(ctx.seed % 1000), "STRIDE": str(stride if not ctx.thorough else 41 if plans_ == "pairs" else 1)}
        ctx.model("TpDkgMC", env=env, timeout=800)
        if ctx.thorough and plans_ not in ("none", "pairs"):
            ctx.model("TpDkgMC", env=dict(env, N="4", T=str(2 + ctx.seed % 2), STRIDE="9"), timeout=800)


def large(ctx, kinds, imm=None, count=24):
    """Deviations of the first two, the last and one more peer among many."""
    jobs = []
    for lo, hi, k in ((6, 9, count), (10, 17, count // 3)) + (((18, 30, count // 4),) if ctx.thorough else ()):
        n = ctx.rng.randint(lo, hi)
        t = ctx.rng.randint(2, n - 1)
        ps = plans(ctx, n, t)
        k *= 6 if ctx.thorough else 1
        by = collections.defaultdict(list)
        for p in ps:
            by[p["kind"]].append(p)
        ks = [x for x in kinds if by[x]]
        jobs += sessions(ctx, n, t, [ctx.rng.choice(by[ks[i % len(ks)]]) for i in range(k)], "l%d" % n)
        if imm:
            jobs += probes(ctx, n, t, [ctx.rng.choice(by[ctx.rng.choice(imm)]) for _ in range(4 * k)], "lp%d" % n, per=8)
    return jobs


def common(ctx, kinds, quick, imm=None, mix=60, big=True):
    """kinds: families run as sessions, all of them for n=3; quick: how many of the large families."""
    model(ctx)
    p3 = plans(ctx, 3, 2)
    jobs = honest(ctx, SMALL if ctx.thorough else SMALL[:3])
    jobs += sessions(ctx, 3, 2, pick(ctx, [p for p in p3 if p["kind"] in kinds], None if ctx.thorough else quick), "s3")
    if imm:
        jobs += probes(ctx, 3, 2, pick(ctx, [p for p in p3 if p["kind"] in imm], None), "p3")
    jobs += mixed(ctx, 3, 2, p3, mix * (10 if ctx.thorough else 1))
    if big:
        for n, t in [(4, 2), (4, 3), (5, 3)] if ctx.thorough else [ctx.rng.choice([(4, 2), (4, 3)])]:
            p4 = plans(ctx, n, t)
            jobs += sessions(ctx, n, t, pick(ctx, [p for p in p4 if p["kind"] in kinds], 1200 if ctx.thorough else 80), "s%d%d" % (n, t))
            if imm:
                jobs += probes(ctx, n, t, pick(ctx, [p for p in p4 if p["kind"] in imm], 4000 if ctx.thorough else 300), "p%d%d" % (n, t))
            jobs += mixed(ctx, n, t, p4, 300 if ctx.thorough else 15, "m%d%d" % (n, t))
    judge(ctx, jobs + large(ctx, kinds, imm))


def C11(ctx):
    common(ctx, ("keys", "commit", "share", "equiv", "first", "index", "resolve"), 700)


def C12(ctx):
    p3 = plans(ctx, 3, 2)
    jobs = honest(ctx, SMALL[:2]) + probes(ctx, 3, 2, [p for p in p3 if p["kind"] == "flip"], "p3")
    jobs += bytes_jobs(ctx, 3, 2, 1 if ctx.thorough else 13)
    jobs += sizes_jobs(ctx, 3, 2)
    if ctx.thorough:
        jobs += bytes_jobs(ctx, 4, 3, 7, "b43") + probes(ctx, 4, 3, [p for p in plans(ctx, 4, 3) if p["kind"] == "flip"], "p43")
    model(ctx)
    judge(ctx, jobs)


def C13(ctx):
    common(ctx, ("index",), None, imm=("hdr", "sub"), mix=20)
    judge(ctx, untimely(ctx, 3, 2, 200 if ctx.thorough else 30))


def C14(ctx):
    common(ctx, DEEP + ("resolve",), 500, imm=IMMEDIATE if ctx.thorough else ("flip",))
    judge(ctx, sizes_jobs(ctx, 3, 2))


def C15(ctx):
    common(ctx, DEEP + ("resolve", "mass"), 900, imm=("hdr", "sub") if ctx.thorough else ("hdr",), mix=150)


def C16(ctx):
    common(ctx, DEEP + ("resolve", "mass"), 500, imm=("flip", "hdr", "several"), mix=150)
    # few places in the report
    p3 = [p for p in plans(ctx, 3, 2) if p["kind"] in ("list", "resolve", "commit")]
    judge(ctx, sessions(ctx, 3, 2, pick(ctx, p3, 60), "c1", cap=1) + sessions(ctx, 3, 2, pick(ctx, p3, 60), "c2", cap=2))


def C17(ctx):
    common(ctx, ("resolve", "share", "list", "commit", "accuse"), None, mix=60)
    p4 = plans(ctx, 4, 3)
    m3 = [p for p in plans(ctx, 3, 2) if p["kind"] == "mass"]
    judge(ctx, large(ctx, ("mass",), count=15) + sessions(ctx, 3, 2, pick(ctx, m3, None if ctx.thorough else 100), "m3") + sessions(ctx, 4, 3, [p for p in p4 if p["kind"] == "accuse"] + pick(ctx, [p for p in p4 if p["kind"] == "accuse3"], None if ctx.thorough else 40), "a43"))


def C18(ctx):
    common(ctx, ("resolve", "share", "list", "equiv", "mass"), 900, mix=60)


def C19(ctx):
    common(ctx, ("equiv", "digest", "announce", "first", "ack", "commit"), None, imm=("sub",) if ctx.thorough else None, mix=80)


def route(ctx, sizes, **kw):
    jobs = [{"op": "route", "n": n, "t": t, "seed": "%d/r/%d/%d" % (ctx.seed, n, t), "key": "route n=%d t=%d" % (n, t)} for n, t in sizes]
    runs = core.drive("d_route", jobs, tmp=ctx.tmp, env={"JOB_TIMEOUT": "500"}, timeout=800)
    ctx.validate("TpRoute", runs, par=4, **kw)


def C20(ctx):
    common(ctx, ("resolve", "list", "share", "mass"), 500, mix=40)
    judge(ctx, sizes_jobs(ctx, 3, 2) + sizes_jobs(ctx, 4, 3))
    sizes = [(n, t) for n in range(3, 14 if ctx.thorough else 9) for t in range(2, n)]
    sizes += [(n, ctx.rng.randrange(2, n)) for n in ctx.rng.sample(range(14, 40), 20 if ctx.thorough else 3)]
    sizes += [(128, 2), (127, 3), (64, 4)]
    if ctx.thorough:
        sizes += [(128, 127), (128, 64), (65, 64), (100, 33)]
    route(ctx, sizes[::-1])


def C22(ctx):
    common(ctx, ("first",), None, mix=10, big=False)
    r = ctx.rng
    edge = [0, 1, 2, 3, 4, 5, 63, 64, 126, 127, 128, 129, 130, 200, 254, 255]
    full = range(256)
    ns = full if ctx.thorough else sorted(set(edge) | set(r.sample(full, 20)))
    pairs = [(n, t) for n in ns for t in (full if ctx.thorough or n in edge[:6] else sorted({0, 1, 2, 3, n - 1 if n else 0, n, min(n + 1, 255), 128, 255} | set(r.sample(full, 8))))]
    names = [(3, 2, k) for k in sorted({0, 1, 2, 5, 63, 64, 255, 256, 257, 1023, 1024, 1025, 1026, 2048, 65535, 65536, 65537} | (set(range(1030)) if ctx.thorough else set(r.sample(range(1100), 20))))]
    cases = [(n, t, 5) for n, t in pairs] + names
    jobs = [{"op": "params", "cases": cases[i::16], "seed": "%d/p/%d" % (ctx.seed, i), "key": "start parameters"} for i in range(16)]
    jobs += [{"op": "join", "cases": pairs[i::16], "seed": "%d/j/%d" % (ctx.seed, i), "key": "joining parameters"} for i in range(16)]
    jobs += [{"op": "fresh", "cases": [(3, 2)] * 300 + [(5, 2)] * 300, "seed": "%d/f" % ctx.seed, "key": "session identifiers"}]
    ctx.validate("TpRoute", core.drive("d_route", jobs, tmp=ctx.tmp), par=4)


def C28(ctx):
    model(ctx)
    reps = 4 if ctx.thorough else 2
    judge(ctx, honest(ctx, [(n, t) for n in range(3, 8 if ctx.thorough else 6) for t in range(2, n)], reps))
    route(ctx, [(n, t) for n in range(3, 12) for t in range(2, n)] + [(20, 7), (33, 2)] + ([(128, 2), (100, 50)] if ctx.thorough else []))


def C21(ctx):
    """The same families on a build with address and bounds checking, with and without logging."""
    model(ctx)
    env = {"LD_PRELOAD": build.asan_runtime(), "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=1:handle_abort=0", "JOB_TIMEOUT": "120"}
    p3 = plans(ctx, 3, 2)
    deep = DEEP + ("resolve",)
    k = 1 if not ctx.thorough else 4
    kw = {"variant": "asan", "twin": 1}
    jobs = honest(ctx, SMALL[:2], **kw)
    jobs += sessions(ctx, 3, 2, pick(ctx, [p for p in p3 if p["kind"] in deep], 260 * k), "s3", **kw)
    jobs += sessions(ctx, 3, 2, pick(ctx, [p for p in p3 if p["kind"] == "junk"], 60 * k), "j3", **kw)
    jobs += probes(ctx, 3, 2, [p for p in p3 if p["kind"] == "junk"], "pj", **kw)
    jobs += probes(ctx, 3, 2, pick(ctx, [p for p in p3 if p["kind"] in IMMEDIATE], 500 * k), "p3", **kw)
    jobs += [dict(j, **kw) for j in mixed(ctx, 3, 2, p3, 60 * k)]
    jobs += sizes_jobs(ctx, 3, 2, **kw)
    jobs += [dict(j, cap=c, **kw) for c in (1, 2) for j in sessions(ctx, 3, 2, pick(ctx, [p for p in p3 if p["kind"] in ("list", "resolve")], 20), "c%d" % c)]
    runs = core.drive("d_tp", jobs, tmp=ctx.tmp, env=env)
    ctx.validate("TpDkgTrace", runs, par=4)
    ctx.extra["sessions"] = len(jobs)
