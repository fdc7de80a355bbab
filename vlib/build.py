"""Builds the library sources of the working tree (/repo/src) for the conformance drivers.

Nothing is written outside /verif/build. Results are cached under a digest of all inputs, so a
changed working tree is always rebuilt.
"""
import fcntl, glob, hashlib, os, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "src")
BUILD = os.path.join(VERIF, "build")
TLAJARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"

BASE = ["-O2", "-g", "-fPIC", "-fstack-protector-strong", "-U_FORTIFY_SOURCE", "-D_FORTIFY_SOURCE=2",
        "-fcf-protection=full", "-fstack-clash-protection", "-w"]
LIBFLAGS = ["-ftrapv", "-fsanitize=signed-integer-overflow", "-fsanitize-undefined-trap-on-error"]
NOISEFLAGS = ["-std=c11", "-fwrapv", "-D_BSD_SOURCE", "-D_DEFAULT_SOURCE", "-DWITH_SODIUM", "-ftrapv"]
ASAN = ["-O1", "-g", "-fPIC", "-w", "-fsanitize=address,bounds,null,object-size", "-fno-sanitize-recover=all",
        "-fno-omit-frame-pointer"]


class BuildError(Exception):
    pass


def asan_runtime():
    """To be preloaded into an interpreter that loads the asan variant."""
    r = subprocess.run(["gcc", "-print-file-name=libasan.so"], capture_output=True, text=True)
    return os.path.realpath(r.stdout.strip())


def lib_sources():
    """Source list from the project's makefile (SOURCES=...), so that added files are followed."""
    names = []
    try:
        m = re.search(r"^SOURCES\s*=\s*(.*)$", open(os.path.join(SRC, "makefile")).read(), re.M)
        names = [w for w in m.group(1).split() if w.endswith(".c")]
    except Exception:
        pass
    if not names:
        names = [os.path.basename(p) for p in glob.glob(os.path.join(SRC, "*.c"))]
    return [os.path.join(SRC, n) for n in names if os.path.exists(os.path.join(SRC, n))]


def noise_sources():
    return sorted(glob.glob(os.path.join(SRC, "noise_xk", "src", "*.c")))


def _inputs():
    out = []
    for root, dirs, files in os.walk(SRC):
        dirs[:] = sorted(d for d in dirs if d not in ("tests", "example"))
        for f in sorted(files):
            if f.endswith((".c", ".h")) or f.lower() == "makefile":
                out.append(os.path.join(root, f))
    for f in sorted(glob.glob(os.path.join(VERIF, "harness", "*"))) + [os.path.abspath(__file__)]:
        out.append(f)
    return out


def digest(paths):
    h = hashlib.sha256()
    for p in paths:
        h.update(p.encode() + b"\0")
        with open(p, "rb") as f:
            h.update(f.read() + b"\0")
    return h.hexdigest()[:20]


def _run(cmd):
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode != 0:
        raise BuildError("%s\n%s" % (" ".join(cmd), (r.stdout + r.stderr)[-4000:]))


def _inc():
    i = os.path.join(SRC, "noise_xk", "include")
    return ["-I" + SRC, "-I" + i, "-I" + i + "/karmel", "-I" + i + "/karmel/minimal"]


def _compile(tmp, jobs, flags):
    """jobs: [(source, extra flags)] -> object list"""
    objs = []
    cmds = []
    for k, (src, extra) in enumerate(jobs):
        o = os.path.join(tmp, "%02d_%s.o" % (k, os.path.basename(src)[:-2]))
        objs.append(o)
        cmds.append(["gcc"] + flags + extra + _inc() + ["-c", "-o", o, src])
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(_run, cmds))
    return objs


def _stubs(tmp, objs):
    """Calls of other libraries pass sched_point first."""
    r = subprocess.run(["nm", "-A"] + objs, capture_output=True, text=True, check=True)
    syms = [ln.split(":", 1)[1].split()[-2:] for ln in r.stdout.splitlines()]
    own = {n for k, n in syms if k != "U"}
    ext = sorted({n for k, n in syms if k == "U" and n not in own and re.fullmatch(r"[a-z]\w*", n) and not n.startswith("pthread_") and not n.startswith("std")})
    if os.uname().machine != "x86_64":
        return []
    asm = os.path.join(tmp, "stubs.S")
    with open(asm, "w") as f:
        f.write(".text\n")
        for n in ext:
            f.write("__wrap_%s:\n.globl __wrap_%s\n.type __wrap_%s,@function\n" % (n, n, n))
            f.write("push %rbp\nmov %rsp,%rbp\nsub $192,%rsp\n")
            regs = ["rdi", "rsi", "rdx", "rcx", "r8", "r9", "rax"]
            for i, x in enumerate(regs):
                f.write("mov %%%s,%d(%%rsp)\n" % (x, 8 * i))
            for i in range(8):
                f.write("movdqu %%xmm%d,%d(%%rsp)\n" % (i, 64 + 16 * i))
            f.write("mov 8(%rbp),%rdi\ncall sched_point@PLT\n")
            for i in range(8):
                f.write("movdqu %d(%%rsp),%%xmm%d\n" % (64 + 16 * i, i))
            for i, x in enumerate(regs):
                f.write("mov %d(%%rsp),%%%s\n" % (8 * i, x))
            f.write("leave\njmp __real_%s@PLT\n" % n)
        f.write('.section .note.GNU-stack,"",@progbits\n')
    return [asm] + ["-Wl,--wrap=" + n for n in ext]


def _prune(keep):
    ds = [d for d in glob.glob(os.path.join(BUILD, "lib-*")) if os.path.isdir(d)]
    ds.sort(key=os.path.getmtime)
    for d in ds[:-6]:
        if d != keep:
            shutil.rmtree(d, ignore_errors=True)


def build(variant):
    """variant: real | asan | toy | plain | sched | track | zero | fill. Returns the directory with the result."""
    os.makedirs(BUILD, exist_ok=True)
    d = os.path.join(BUILD, "lib-" + digest(_inputs()))
    out = os.path.join(d, variant)
    if os.path.exists(os.path.join(out, ".done")):
        return out
    with open(os.path.join(BUILD, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(os.path.join(out, ".done")):
            return out
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        H = os.path.join(VERIF, "harness")
        flags = ASAN if variant == "asan" else BASE
        lf = [] if variant == "asan" else LIBFLAGS
        nf = [f for f in NOISEFLAGS if not (variant == "asan" and f == "-ftrapv")]
        if variant == "sched":
            lf, nf = ["-fsanitize=thread"], [f for f in nf if f != "-ftrapv"] + ["-fsanitize=thread"]
        if variant in ("zero", "fill"):          # what variables hold before they are set
            lf, nf = [x + ["-ftrivial-auto-var-init=" + {"zero": "zero", "fill": "pattern"}[variant]] for x in (lf, nf)]
        jobs = [(s, lf) for s in lib_sources()]
        njobs = [(s, nf) for s in noise_sources()]
        if variant == "plain":
            # the two libraries as the project installs them, for the Python binding
            objs = _compile(out, jobs + njobs, flags)
            lo, no = objs[:len(jobs)], objs[len(jobs):]
            _run(["gcc", "-shared", "-Wl,-soname,liboprf-noiseXK.so.0", "-o", os.path.join(out, "liboprf-noiseXK.so")] + no + ["-lsodium"])
            os.symlink("liboprf-noiseXK.so", os.path.join(out, "liboprf-noiseXK.so.0"))
            _run(["gcc", "-shared", "-Wl,-soname,liboprf.so.0", "-o", os.path.join(out, "liboprf.so")] + lo + ["-L" + out, "-loprf-noiseXK", "-lsodium"])
            os.symlink("liboprf.so", os.path.join(out, "liboprf.so.0"))
        else:
            jobs += njobs + [(os.path.join(H, "shim.c"), [])]
            if variant == "toy":
                jobs.append((os.path.join(H, "toygroup.c"), []))
            if variant == "sched":
                jobs.append((os.path.join(H, "sched.c"), []))
            if variant == "track":
                jobs.append((os.path.join(H, "track.c"), []))
            objs = _compile(out, jobs, flags)
            link = ["gcc", "-shared", "-Wl,-Bsymbolic", "-o", os.path.join(out, "lib.so")] + objs + ["-lsodium"]
            if variant == "asan":
                link += ["-fsanitize=address,undefined"]
            if variant == "sched":
                link += _stubs(out, objs[:-2])
            if variant == "track":
                link += ["-Wl,--wrap=" + f for f in "malloc calloc realloc free posix_memalign aligned_alloc strdup sodium_malloc sodium_allocarray "
                         "sodium_free sodium_mlock sodium_munlock mlock munlock".split()]
            _run(link)
        for o in objs:
            os.unlink(o)
        open(os.path.join(out, ".done"), "w").close()
        os.utime(d)
        _prune(d)
    return out


def classes():
    """Compile the TLC module overrides."""
    src = sorted(glob.glob(os.path.join(VERIF, "java", "*.java")))
    d = os.path.join(BUILD, "classes-" + digest(src))
    if os.path.exists(os.path.join(d, ".done")):
        return d
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(os.path.join(d, ".done")):
            return d
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        _run(["javac", "-cp", TLAJARS, "-d", d] + src)
        open(os.path.join(d, ".done"), "w").close()
    return d


if __name__ == "__main__":
    for v in sys.argv[1:] or ["real", "asan", "toy", "plain", "sched", "track", "zero", "fill"]:
        t = time.time()
        print(v, build(v), "%.1fs" % (time.time() - t))
    print(classes())
