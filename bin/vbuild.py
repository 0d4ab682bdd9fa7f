#!/usr/bin/env python3
"""Rebuild an instrumented copy of /repo's library and the harness programs.

usage: vbuild.py FLAVOUR [PROGRAM...]      FLAVOUR: asan | tsan
Everything is written under /verif/build (git-ignored)."""
import os, re, shlex, subprocess, sys, glob, fcntl, threading

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
HARNESS = os.path.join(VERIF, "harness")
PREFIX = "/opt/hpp-venv/lib/python3.12/site-packages/cmeel.prefix"

FLAVOURS = {
    "asan": "-fsanitize=address,bool,enum,return,bounds,shift,integer-divide-by-zero,"
            "signed-integer-overflow,float-cast-overflow,unreachable "
            "-fno-sanitize-recover=all -fno-omit-frame-pointer -D_GLIBCXX_ASSERTIONS -DEIGEN_MALLOC_ALREADY_ALIGNED=1",
    "cov": "--coverage -fno-omit-frame-pointer",
    "tsan": "-fsanitize=thread -fno-omit-frame-pointer",
}

# programs: name -> sources (relative to harness/)
COMMON = ["common.cc", "gen.cc", "gen2.cc", "problem.cc"]
def programs():
    res = {}
    for f in sorted(glob.glob(os.path.join(HARNESS, "h_*.cc"))):
        res[os.path.basename(f)[:-3]] = [os.path.basename(f)] + COMMON
    return res

def env():
    e = dict(os.environ)
    e["CC"], e["CXX"] = "gcc", "g++"
    e["CCACHE_DIR"] = os.path.join(BUILD, "ccache")
    e["CCACHE_MAXSIZE"] = "2G"
    e["CCACHE_NOHASHDIR"] = "1"
    e["CCACHE_SLOPPINESS"] = "time_macros"
    e["PATH"] = "/opt/hpp-venv/bin:" + e.get("PATH", "")
    return e

def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env(), **kw)
    if r.returncode:
        ls = [l[:400] for l in r.stdout.splitlines() if "-DBOOST_ATOMIC_DYN_LINK" not in l]
        er = [l for l in ls if "error" in l or "undefined reference" in l]
        print("\n".join((er[:15] or ls[-25:])))
        print("BUILD-ERROR:", " ".join(cmd)[:300])
        raise SystemExit(3)
    return r.stdout

def build(flavour, progs):
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    B = os.path.join(BUILD, flavour)
    san = FLAVOURS[flavour]
    opt = "-O1 -g0"
    cflags = "-Wno-error -w -include map " + san
    key = cflags + " " + opt
    stamp = os.path.join(B, ".flags")
    have = open(stamp).read() if os.path.exists(stamp) else None
    if have != key or not os.path.exists(os.path.join(B, "build.ninja")):
        sh(["cmake", "-S", REPO, "-B", B, "-G", "Ninja", "-DCMAKE_BUILD_TYPE=RelWithDebInfo",
            "-DCMAKE_CXX_FLAGS=" + cflags, "-DCMAKE_CXX_FLAGS_RELWITHDEBINFO=" + opt,
            "-DCMAKE_SHARED_LINKER_FLAGS=" + san.split()[0],
            "-DCMAKE_CXX_COMPILER_LAUNCHER=ccache",
            "-DBUILD_TESTING=OFF", "-DINSTALL_DOCUMENTATION=OFF",
            "-DFETCHCONTENT_FULLY_DISCONNECTED=ON", "-DCMAKE_PREFIX_PATH=" + PREFIX])
        open(stamp, "w").write(key)
    # flags of a library translation unit
    cmds = [l for l in sh(["ninja", "-C", B, "-t", "commands", "hpp-constraints"]).splitlines()
            if " -c " in l]
    words = shlex.split(cmds[0])
    flags, skip = [], False
    for w in words[1:]:
        if skip: skip = False; continue
        if w in ("-o", "-c", "-MF", "-MT"): skip = True; continue
        if w in ("-MD",) or w.endswith("g++") or w.endswith("c++") or w == "ccache": continue
        if "EXPORTS" in w: continue
        flags.append(w)
    so = [w for w in sh(["ninja", "-C", B, "-t", "targets", "all"]).split() if re.search(r"libhpp-constraints\.so(\.[0-9.]+)?:$", w)]
    lib = os.path.join(B, os.path.dirname(so[0]))
    allp = programs()
    H = os.path.join(B, "harness")
    os.makedirs(H, exist_ok=True)
    q = lambda ws: " ".join(shlex.quote(w) for w in ws)
    out = ["cxx = ccache g++",
           "flags = " + q(flags) + " -I" + HARNESS,
           "ldflags = " + san.split()[0] + " -fopenmp -L%s -Wl,-rpath,%s -lhpp-constraints -L%s/lib -Wl,-rpath,%s/lib "
           "-Wl,-rpath,%s/lib64 -lhpp-pinocchio -lhpp-util -lpinocchio_default -lpinocchio_parsers -lpinocchio_collision -lcoal "
           "-lboost_serialization -lqpOASES -lpthread" % (lib, lib, PREFIX, PREFIX, PREFIX),
           "rule cc\n  command = $cxx $flags -MD -MF $out.d -c $in -o $out\n  depfile = $out.d\n  deps = gcc",
           "rule ld\n  command = g++ $in -o $out $ldflags"]
    objs = set()
    for n, ss in sorted(allp.items(), key=lambda x: x[0] != "h_symbolic"):
        for s in ss:
            if s in objs: continue
            objs.add(s)
            out.append("build %s.o: cc %s" % (s, os.path.join(HARNESS, s)))
        out.append("build %s: ld %s | %s/libhpp-constraints.so" % (n, " ".join(s + ".o" for s in ss), lib))
    txt = "\n".join(out) + "\n"
    nf = os.path.join(H, "build.ninja")
    if not os.path.exists(nf) or open(nf).read() != txt:
        open(nf, "w").write(txt)
    # library and harness objects together (the biggest harness file is the longest step)
    want = sorted({s + ".o" for p in progs for s in allp[p]}, key=lambda s: s != "h_symbolic.cc.o")
    err = []
    def lib_():
        try: sh(["ninja", "-C", B, "-j", "6", "hpp-constraints"])
        except SystemExit as e: err.append(e)
    t = threading.Thread(target=lib_)
    t.start()
    try: sh(["ninja", "-C", H, "-j", "3"] + want)
    finally: t.join()
    if err: raise err[0]
    sh(["ninja", "-C", H] + list(progs))
    return H

if __name__ == "__main__":
    fl = sys.argv[1]
    ps = sys.argv[2:]
    print(build(fl, ps or (["h_null"] if False else list(programs()))))
