#!/usr/bin/env python3
"""Builds /repo's current working tree (and harnesses of /verif) outside /repo.

usage: build.py [--variant plain|sched] TARGET...
TARGET is  lib            all library objects, archived
           main:NAME      a tool of /repo/Main linked against them
           h:NAME         /verif/harness/NAME.cpp linked against them
The list of objects and their compile flags is taken from /repo/makefile (make -n), so that it follows
the project's own build.  ccache keeps object files by content, so an unchanged file costs milliseconds.
"""
import os, re, subprocess, sys, shlex, hashlib, concurrent.futures as cf

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
CACHE = os.path.join(VERIF, ".cache")
INC = "-I/repo/_build/shim/inc"
GUARD = "-DGSTORE_VERIF"
VARIANT = {
    # -O1: compile time; no sanitizer: the harnesses use their own oracles
    "plain": ["-O1", "-g0"],
    # every basic block of the instrumented sources calls __sanitizer_cov_trace_pc, which the harness's scheduler supplies
    "sched": ["-O1", "-g0", "-fsanitize-coverage=trace-pc"],
    "asan": ["-O1", "-g1", "-fsanitize=address", "-fno-omit-frame-pointer"],
}
LIBS = ["-lreadline", "-lantlr4-runtime", "-lboost_thread", "-lboost_system", "-lboost_regex",
        "-lcurl", "-llog4cplus", "-lz", "-lminizip", "-lcrypto", "-lssl", "-lpthread", "-ldl"]


def env():
    e = dict(os.environ)
    e.update(CCACHE_DIR=os.path.join(CACHE, "ccache"), CCACHE_MAXSIZE="3G", LANG="C.UTF-8",
             CCACHE_SLOPPINESS="time_macros", CCACHE_NOCOMPRESS="1", CCACHE_BASEDIR=REPO)
    e.pop("MAKEFLAGS", None)
    return e


def plan():
    """[(source, [flags])] of the project's library objects, {tool: (source, flags)}."""
    tools = ["gquery", "gbuild", "gadd", "gsub", "gexport", "gdrop", "ginit", "gbackup", "grestore", "ghttp", "gshow"]
    out = subprocess.run(["make", "-n", "-B", "march=", "CC=gcc", "CXX=g++"] + ["bin/" + t for t in tools],
                         cwd=REPO, env=env(), capture_output=True, text=True).stdout
    lib, main = {}, {}
    for line in out.replace("\\\n", " ").split("\n"):
        if not line.startswith("g++ ") or " -c " not in line:
            continue
        w = shlex.split(line, comments=True)
        src = [x for x in w if x.endswith(".cpp")]
        if len(src) != 1:
            continue
        src = src[0]
        flags = [x for x in w[1:] if (x.startswith("-I") or x.startswith("-D") or x == "-fopenmp")]
        if src.startswith("Main/"):
            main[os.path.basename(src)[:-4]] = (src, flags)
        else:
            lib[os.path.basename(src)[:-4]] = (src, flags)
    if len(lib) < 40:
        sys.exit("build.py: cannot read the object list from the makefile")
    return lib, main


def run(cmd, cwd):
    p = subprocess.run(cmd, cwd=cwd, env=env(), capture_output=True, text=True, errors="replace")
    return p.returncode, p.stdout + p.stderr


def compile_one(src, flags, obj, variant, cwd, inst=True):
    v = list(VARIANT[variant])
    if not inst:
        v = [x for x in v if not x.startswith("-fsanitize-cov")]
    cmd = ["ccache", "g++", "-std=c++11", GUARD, INC, "-c", "-w", "-pthread"] + v + flags + [src, "-o", obj]
    rc, out = run(cmd, cwd)
    return rc, " ".join(cmd) + "\n" + out


# under "sched" only these directories are instrumented (the rest has no shared mutable state worth a
# scheduling point, and instrumenting the ANTLR parser would cost minutes)
def instrumented(src):
    return re.match(r"(Util/(Latch|SpinLock|GraphLock|Version|Transaction)|Database/(Database|Txn_manager)|KVstore/|Trie/|StringIndex/|harness/)", src)


def build(variant, targets):
    odir = os.path.join(CACHE, variant)
    os.makedirs(odir, exist_ok=True)
    lib, main = plan()
    jobs = []
    libobjs = []
    sub = None
    for name, (src, flags) in sorted(lib.items(), key=lambda kv: -os.path.getsize(os.path.join(REPO, kv[1][0]))):
        obj = os.path.join(odir, name + ".o")
        libobjs.append(obj)
        jobs.append((src, flags, obj, REPO, bool(instrumented(src))))
    links = []
    hflags = ["-I" + REPO, "-I" + os.path.join(REPO, "tools/antlr4-cpp-runtime-4/runtime/src"),
              "-I" + os.path.join(REPO, "tools/log4cplus/include"), "-I" + os.path.join(VERIF, "harness"), "-fopenmp"]
    extra = []
    for t in targets:
        if t == "lib":
            continue
        kind, name = t.split(":")
        if kind == "so":
            rc, out = run(["gcc", "-shared", "-fPIC", "-O1", "-w", os.path.join(VERIF, "harness", name + ".c"), "-o", os.path.join(odir, name + ".so"), "-ldl"], VERIF)
            if rc:
                sys.exit("build.py: %s: %s" % (name, out))
            continue
        obj = os.path.join(odir, kind + "_" + name + ".o")
        if kind == "main":
            src, flags = main[name]
            jobs.append((src, flags, obj, REPO, False))
            links.append((name, [obj], os.path.join(odir, name)))
        else:
            src = os.path.join(VERIF, "harness", name + ".cpp")
            jobs.append((src, hflags, obj, VERIF, False))
            objs = [obj]
            if variant == "sched":
                so = os.path.join(odir, "h_schedrt.o")
                s2 = (os.path.join(VERIF, "harness", "schedrt.cpp"), hflags, so, VERIF, False)
                if s2 not in jobs:
                    jobs.append(s2)
                objs.append(so)
            links.append((name, objs, os.path.join(odir, name)))
    # biggest first
    with cf.ThreadPoolExecutor(int(os.environ.get("VERIF_JOBS", "8"))) as ex:
        futs = [(j[0], ex.submit(compile_one, j[0], j[1], j[2], variant, j[3], j[4])) for j in jobs]
        for s, f in futs:
            rc, out = f.result()
            if rc:
                sys.stderr.write(out[-1500:])
                sys.exit("build.py: %s does not compile" % s)
    arc = os.path.join(odir, "libgstore_verif.a")
    # without APIUtil unless wanted: archive semantics pull in what is referenced
    if os.path.exists(arc):
        os.remove(arc)
    rc, out = run(["ar", "rcsT", arc] + libobjs, odir)
    if rc:
        sys.exit("build.py: ar: " + out)
    def link(l):
        name, objs, exe = l
        cmd = ["g++", "-fuse-ld=lld" if os.path.exists("/usr/bin/ld.lld") else "-fuse-ld=gold",
               "-o", exe] + objs + (["-fsanitize=address"] if variant == "asan" else []) + \
              ["-Wl,--start-group", arc, "-Wl,--end-group", "-L" + os.path.join(REPO, "lib"), "-L/usr/local/lib", "-pthread", "-rdynamic"] + LIBS + \
              ["-fopenmp"]
        return run(cmd, odir) + (name,)
    with cf.ThreadPoolExecutor(4) as ex:
        for rc, out, name in ex.map(link, links):
            if rc:
                sys.stderr.write(out[-4000:])
                sys.exit("build.py: %s does not link" % name)
    # the loadable libraries of path queries
    if "lib" in targets or variant == "plain":
        ld = os.path.join(CACHE, "solib"); os.makedirs(ld, exist_ok=True)
    return odir


if __name__ == "__main__":
    a = sys.argv[1:]
    variant = "plain"
    if a and a[0] == "--variant":
        variant = a[1]
        a = a[2:]
    print(build(variant, a))
