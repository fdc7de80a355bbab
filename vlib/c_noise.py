"""Checks C23-C25: the secure channel and its peer registry."""
import json, os
from . import build, core, tlc


def walks(ctx, what, depth, num):
    """Programs from random walks of NoiseGen."""
    out = ctx.path("walk-%s.txt" % what)
    sd = int.from_bytes(ctx.subseed("walk", what)[:6], "big")
    r = tlc.run("NoiseGen", env={"WHAT": what, "DEPTH": str(depth), "OUT": out}, workers=1, timeout=300,
                extra=["-simulate", "num=%d" % num, "-depth", str(depth + 5), "-seed", str(sd)])
    progs = [json.loads(json.loads(x)) for x in open(out) if x.strip()]
    if len(progs) < num:
        raise RuntimeError("only %d of %d programs generated\n%s" % (len(progs), num, r.output[-2000:]))
    ctx.states += sum(len(p) for p in progs)
    ctx.transitions += sum(len(p) for p in progs)
    return progs


def exhaustive(ctx, depth):
    out = ctx.path("reg.txt")
    r = tlc.run("NoiseGen", env={"WHAT": "reg", "DEPTH": str(depth), "OUT": out}, workers=1, timeout=400)
    ctx.states += r.distinct
    ctx.transitions += r.generated
    return [json.loads(json.loads(x)) for x in open(out) if x.strip()]


def play(ctx, key, progs, variant="real", per=25):
    jobs = []
    for i in range(0, len(progs), per):
        jobs.append({"key": key, "variant": variant, "seed": "%d/%s" % (ctx.seed, key), "progs": [[i + j, p] for j, p in enumerate(progs[i:i + per])]})
    env = {}
    if variant == "asan":
        env = {"LD_PRELOAD": build.asan_runtime(), "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=1:handle_abort=0", "PYTHONMALLOC": "malloc"}
    build.build(variant)
    return core.drive("d_noise", jobs, env=env, tmp=ctx.tmp, timeout=600)


def models(ctx, big):
    ctx.model("NoiseMC", env={"WHAT": "two", "MS": "8" if big else "6"})
    ctx.model("NoiseMC", env={"WHAT": "twin", "MS": "6" if big else "5"})
    ctx.model("NoiseMC", env={"WHAT": "cross", "MS": "6" if big else "5"})


def op(kind, **kw):
    return dict(kw, op=kind)


def long_run(s, r, n):
    """n messages in one direction, then the early ones again."""
    hs = [op("dev", key=1, pro=1, sk=1, name=1), op("dev", key=2, pro=1, sk=1, name=2), op("add", d=1, key=2, name=2), op("add", d=2, key=1, name=1),
          op("init", d=1, id=1), op("resp", d=2)]
    for k, (a, b) in enumerate([(1, 2), (2, 1), (1, 2)]):
        hs += [op("write", s=a, lv=0, len=0, pt=""), op("read", s=b, m=k + 1, alt=0)]
    w = lambda: op("write", s=s, lv=5, len=9, pt="")
    rd = lambda m: op("read", s=r, m=m, alt=0)
    return hs + [w(), rd(4), w(), rd(5), op("burst", s=s, r=r, n=n - 4), rd(4), rd(5)] + [x for i in range(4) for x in (w(), rd(4), rd(5), rd(6 + i))]


LONG = [long_run(1, 2, 256), long_run(2, 1, 256), long_run(1, 2, 65536), long_run(2, 1, 65536)]


def C23(ctx):
    k = 4 if ctx.thorough else 1
    models(ctx, ctx.thorough)
    runs = play(ctx, "chan", walks(ctx, "chan", 80, 250 * k)) + play(ctx, "walk", walks(ctx, "walk", 90, 60 * k))
    runs += play(ctx, "jump", walks(ctx, "jump", 60, 100 * k)) + play(ctx, "long", LONG, per=1)
    runs += play(ctx, "chan-asan", walks(ctx, "chan", 60, 30 * k), "asan")
    ctx.validate("NoiseTrace", runs)


def C24(ctx):
    k = 4 if ctx.thorough else 1
    models(ctx, ctx.thorough)
    runs = play(ctx, "hand", walks(ctx, "hand", 45, 600 * k)) + play(ctx, "walk", walks(ctx, "walk", 90, 80 * k))
    runs += play(ctx, "hand-asan", walks(ctx, "hand", 45, 60 * k), "asan")
    ctx.validate("NoiseTrace", runs)


def C25(ctx):
    k = 4 if ctx.thorough else 1
    runs = play(ctx, "reg", exhaustive(ctx, 8 if ctx.thorough else 7)) + play(ctx, "regwalk", walks(ctx, "regwalk", 60, 150 * k))
    runs += play(ctx, "regwalk-asan", walks(ctx, "regwalk", 60, 60 * k), "asan") + play(ctx, "walk", walks(ctx, "walk", 90, 40 * k))
    ctx.validate("NoiseTrace", runs)


def C30(ctx):
    plans = ctx.generate("NoiseBytesGen")
    k = 4 if ctx.thorough else 1
    plans = plans * k
    jobs = [{"key": "bytes", "seed": "%d" % ctx.seed, "plans": [[i + j, p] for j, p in enumerate(plans[i:i + 25])]} for i in range(0, len(plans), 25)]
    build.build("real")
    ctx.validate("NoiseBytesTrace", core.drive("d_nbytes", jobs, tmp=ctx.tmp, timeout=600))
