"""Builds the code under test from /repo's working tree into /verif/build/<variant>, together
with the harness. Objects are keyed by a hash of the flags and of every source and header, so a
change anywhere in /repo/core or /verif/harness rebuilds what it needs."""
import hashlib, os, re, subprocess, sys, fcntl
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("RF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.environ.get("RF_BUILD", os.path.join(VERIF, "build"))
HARN = os.path.join(VERIF, "harness")
CC = "/usr/bin/clang"

COMMON = ["-fPIC", "-std=c17", "-fsigned-char", "-w", "-m64", "-include", "core/def.h",
          '-DGIT_HASH="x"', "-I" + REPO]
REL = ["-O3", "-march=x86-64-v3", "-fassociative-math", "-ftree-vectorize",
       "-funsafe-math-optimizations", "-funroll-loops", "-flax-vector-conversions",
       "-fno-math-errno", "-fomit-frame-pointer", "-fno-stack-protector",
       "-ffunction-sections", "-fdata-sections", "-g1"]
UBS = "-fsanitize=address,bounds,null,shift-exponent,integer-divide-by-zero,unreachable,return,vla-bound"
VARIANTS = {
    # the shipped optimisation flags and the shipped allocator
    "rel": REL,
    # every object its own malloc block, so that AddressSanitizer sees exact bounds and lifetimes
    "asan": ["-O1", "-g", "-fno-omit-frame-pointer", "-DSYS_MALLOC", UBS,
             "-fno-sanitize-recover=all", "-march=x86-64-v3"],
    # shipped allocator under address+ub sanitizers (block headers are unpoisoned memory)
    "asanheap": ["-O1", "-g", "-fno-omit-frame-pointer", UBS, "-fno-sanitize-recover=all", "-march=x86-64-v3"],
    "tsan": ["-O1", "-g", "-fno-omit-frame-pointer", "-DSYS_MALLOC", "-fsanitize=thread", "-march=x86-64-v3"],
    "tsanheap": ["-O1", "-g", "-fno-omit-frame-pointer", "-fsanitize=thread", "-march=x86-64-v3"],
}
WRAP = ["-Wl,--wrap=heap_alloc", "-Wl,--wrap=heap_free", "-Wl,--wrap=heap_realloc", "-Wl,--wrap=pool_run", "-Wl,--wrap=pool_map"]


def core_sources():
    mk = open(os.path.join(REPO, "Makefile")).read().replace("\\\n", " ")
    m = re.search(r"^CORE_OBJECTS\s*=\s*(.*)$", mk, re.M)
    objs = m.group(1).split() if m else []
    src = [o[:-2] + ".c" for o in objs if o.endswith(".o")]
    if len(src) < 20:
        raise SystemExit("build: cannot read CORE_OBJECTS from the Makefile")
    return src


def tree_hash():
    h = hashlib.sha256()
    for base, dirs in ((REPO, ["core", "app"]), (REPO, ["ext"])):
        for d in dirs:
            for root, ds, fs in os.walk(os.path.join(base, d)):
                ds.sort()
                for f in sorted(fs):
                    if f.endswith((".c", ".h")):
                        p = os.path.join(root, f)
                        h.update(os.path.relpath(p, base).encode() + b"\0")
                        h.update(open(p, "rb").read())
    h.update(open(os.path.join(REPO, "Makefile"), "rb").read())
    return h.hexdigest()[:16]


def _run(cmd, cwd):
    p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode:
        sys.stderr.write(" ".join(cmd) + "\n" + p.stdout.decode("latin1")[-4000:])
        raise SystemExit(3)


def core_objs(variant, extra=()):
    """Compile core and app/{repl,term}.c; returns object paths."""
    flags = COMMON + VARIANTS[variant] + list(extra)
    key = hashlib.sha256((tree_hash() + repr(flags)).encode()).hexdigest()[:16]
    d = os.path.join(BUILD, "obj-" + variant + "-" + key)
    srcs = core_sources() + ["app/repl.c", "app/term.c"]
    outs = [os.path.join(d, s.replace("/", "_")[:-2] + ".o") for s in srcs]
    stamp = os.path.join(d, "ok")
    if os.path.exists(stamp):
        return outs, flags, key
    os.makedirs(d, exist_ok=True)
    # biggest first
    order = sorted(zip(srcs, outs), key=lambda t: -os.path.getsize(os.path.join(REPO, t[0])))
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(lambda t: _run([CC, "-c", t[0], "-o", t[1]] + flags, REPO), order))
    open(stamp, "w").close()
    return outs, flags, key


def _gc():
    """Keep the build directory small: drop object sets other than the newest few."""
    try:
        ds = [os.path.join(BUILD, d) for d in os.listdir(BUILD)]
        ds = sorted((d for d in ds if os.path.isdir(d)), key=os.path.getmtime, reverse=True)
        import shutil
        for d in ds[40:]:
            shutil.rmtree(d, ignore_errors=True)
    except OSError:
        pass


def harness(variant, name="rfh", srcs=("rfh.c", "dump.c", "mon.c"), extra=(), link=(), wrap=True):
    """Build a harness executable on the given variant of the core; returns its path."""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        objs, flags, key = core_objs(variant, extra)
        hk = hashlib.sha256()
        for s in sorted(os.listdir(HARN)):
            p = os.path.join(HARN, s)
            if os.path.isfile(p):
                hk.update(s.encode() + open(p, "rb").read())
        hk.update(repr((srcs, link, wrap)).encode())
        exe = os.path.join(BUILD, "obj-%s-%s" % (variant, key), "%s-%s" % (name, hk.hexdigest()[:12]))
        if os.path.exists(exe):
            return exe
        lf = [x for x in VARIANTS[variant] if x.startswith("-fsanitize") or x.startswith("-fno-sanitize")]
        ho = []
        for s in tuple(srcs) + ("noaff.c",):
            o = exe + "." + os.path.basename(s) + ".o"
            _run([CC, "-c", os.path.join(HARN, s), "-o", o] + [f for f in flags if f != "-O3"] + ["-O1", "-I" + HARN], REPO)
            ho.append(o)
        _run([CC] + lf + (WRAP if wrap else []) + ["-Wl,--wrap=pthread_setaffinity_np"] + list(link) + ["-rdynamic", "-o", exe + ".tmp"] + ho + objs +
             ["-lm", "-ldl", "-lpthread"], REPO)
        os.rename(exe + ".tmp", exe)
        _gc()
        return exe


def app(variant):
    """The shipped application (app/main.c) on a variant; returns its path."""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        objs, flags, key = core_objs(variant)
        exe = os.path.join(BUILD, "obj-%s-%s" % (variant, key), "rayforce")
        if os.path.exists(exe):
            return exe
        _run([CC, "-c", "app/main.c", "-o", exe + ".main.o"] + flags, REPO)
        lf = [x for x in VARIANTS[variant] if x.startswith("-fsanitize") or x.startswith("-fno-sanitize")]
        _run([CC] + lf + ["-rdynamic", "-o", exe + ".tmp", exe + ".main.o"] + objs + ["-lm", "-ldl", "-lpthread"], REPO)
        os.rename(exe + ".tmp", exe)
        return exe


if __name__ == "__main__":
    for v in sys.argv[1:] or ["rel", "asan", "tsan"]:
        print(harness(v))
