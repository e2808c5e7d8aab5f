"""Compilation of contract files: to LLVM IR for verification, and natively for replay."""
import os, subprocess, hashlib, re, json, shutil, sys, threading, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VC_REPO", "/repo")
SRC = REPO + "/core/src"
LL = "/usr/lib/llvm-18/bin/"
INC = ["-I" + SRC, "-I" + SRC + "/utils", "-I" + SRC + "/utils/mpi", "-I" + SRC + "/utils/config/inih", "-I" + SRC + "/utils/monitoring", "-I" + REPO + "/core/bin"]
SYS = ["-I/usr/include/hdf5/openmpi", "-isystem", "/usr/lib/x86_64-linux-gnu/openmpi/include", "-isystem", "/usr/lib/x86_64-linux-gnu/openmpi/include/openmpi"]
DEFS = ["-DBITPIT_ENABLE_MPI", "-DKOKKOS_DEPENDENCE", "-DNDEBUG", "-DDYABLO_USE_HDF5", "-DDYABLO_USE_HDF5_PARALLEL", "-DDYABLO_USE_DOUBLE", "-DDYABLO_USE_MPI"]
LIBS = ["-Wl,-rpath,/usr/lib/x86_64-linux-gnu/hdf5/openmpi:/usr/lib/x86_64-linux-gnu/openmpi/lib", "/usr/lib/x86_64-linux-gnu/hdf5/openmpi/libhdf5.so",
        "/usr/lib/x86_64-linux-gnu/openmpi/lib/libmpi_cxx.so", "/usr/lib/x86_64-linux-gnu/openmpi/lib/libmpi.so",
        "/usr/lib/x86_64-linux-gnu/libkokkoscontainers.so.3.7.01", "/usr/lib/x86_64-linux-gnu/libkokkoscore.so.3.7.01", "-ldl", "-lpthread", "-lm"]

class BuildError(Exception): pass
LOCK = threading.Lock()   # a process is never forked while another one is being started: it would keep that one's pipes open
def start(cmd, **kw):
    """process whose output goes to a temporary file"""
    f = tempfile.TemporaryFile("w+")
    with LOCK: p = subprocess.Popen(cmd, stdin=kw.pop("stdin", subprocess.DEVNULL), stdout=f, stderr=subprocess.STDOUT, text=True, **kw)
    return p, f
def output(f): f.seek(0); return f.read()
def run(cmd, timeout=600, **kw):
    p, f = start(cmd, **kw)
    try: p.wait(timeout=timeout)
    except subprocess.TimeoutExpired: p.kill(); p.wait(); raise
    if p.returncode != 0: raise BuildError(" ".join(cmd[:3]) + " ...\n" + output(f)[-4000:])
def gen_inc(out):
    """stand-in for the build-generated dyablo_version.h"""
    os.makedirs(out, exist_ok=True)
    p = REPO + "/_build/src/dyablo_version.h"
    dst = out + "/dyablo_version.h"
    if os.path.exists(p): shutil.copy(p, dst)
    else:
        t = open(SRC + "/dyablo_version.h.in").read()
        open(dst, "w").write(re.sub(r"#cmakedefine.*", "", re.sub(r"@[A-Za-z_0-9]+@", "0", t)))
    return out
NOINLINE = []
def build_ir(src, out, defs=(), noinline=()):
    gi = gen_inc(out + "/gen")
    b = os.path.splitext(os.path.basename(src))[0]
    raw, opt = "%s/%s.raw.ll" % (out, b), "%s/%s.ll" % (out, b)
    run([LL + "clang++", "-std=c++17", "-O1", "-Xclang", "-disable-llvm-passes", "-ffp-contract=off", "-fno-vectorize", "-fno-slp-vectorize",
         "-D_GLIBCXX_EXTERN_TEMPLATE=0", "-DVC_IR", "-DDYABLO_ENABLE_ASSERT_KOKKOS_DEBUG=1", "-DDYABLO_ENABLE_ASSERT_HOST_DEBUG=1", "-fno-access-control", "-w", "-include", VERIF + "/contracts/shim/vc_pre.h", "-include", "/opt/vp/kokkos37_compat.h", "-I" + VERIF + "/contracts/shim", "-I" + VERIF + "/contracts", "-I" + gi] + DEFS + list(defs) + INC + SYS +
        ["-S", "-emit-llvm", src, "-o", raw])
    # functions replaced by contracts must not be inlined
    if noinline:
        txt = open(raw).read()
        names = re.findall(r'^define [^\n]*?@("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+)\(', txt, re.M)
        with tempfile.TemporaryFile("w+") as fi:
            fi.write("\n".join(n.strip('"') for n in names)); fi.seek(0)
            pr, fo = start(["c++filt"], stdin=fi); pr.wait(); dem = output(fo).split("\n")
        bad = {n for n, d in zip(names, dem) if any(re.search(rx, d) for rx in noinline)}
        if bad:
            def fix(m):
                return m.group(0) if m.group(2) not in bad else m.group(1)
            lines = txt.split("\n")
            for i, l in enumerate(lines):
                if l.startswith("define"):
                    m = re.search(r'@("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+)\(', l)
                    if m and m.group(1) in bad:
                        j = l.rfind("{")
                        k = l.rfind(" #", 0, j)
                        # keep attribute group but add noinline keyword
                        lines[i] = l[:j].rstrip()
                        lines[i] = re.sub(r"(#\d+)?( comdat(\([^)]*\))?)?( align \d+)?( personality .*)?$", lambda q: " noinline " + q.group(0), lines[i], count=1) + " {"
            open(raw, "w").write("\n".join(lines))
    run([LL + "opt", "-S", "-passes=function(sroa,early-cse,simplifycfg,instcombine<no-verify-fixpoint>),cgscc(inline),function(sroa,early-cse,simplifycfg,instcombine<no-verify-fixpoint>,simplifycfg),globaldce,function(loop-simplify,lcssa)", raw, "-o", opt])
    return opt
def build_native(src, out, defs=(), extra=(), opt="-O1"):
    gi = gen_inc(out + "/gen")
    b = os.path.splitext(os.path.basename(src))[0]
    exe = "%s/%s.native" % (out, b)
    flags = ["-std=c++17", opt, "-fopenmp", "-DVC_NATIVE", "-fno-access-control", "-w", "-include", VERIF + "/contracts/shim/vc_pre.h", "-include", "/opt/vp/kokkos37_compat.h", "-I" + VERIF + "/contracts/native", "-I" + VERIF + "/contracts", "-I" + gi] + DEFS + list(defs) + INC + SYS
    rt = out + "/vc_native.o"
    procs = []
    objs = []
    for i, s in enumerate([src, VERIF + "/contracts/native/vc_native.cpp"] + list(extra)):
        o = "%s/%s.%d.o" % (out, b, i); objs.append(o)
        procs.append((s, start(["g++"] + flags + ["-c", s, "-o", o])))
    for s, (p, f) in procs:
        p.wait(timeout=800)
        if p.returncode: raise BuildError("g++ %s\n%s" % (s, output(f)[-4000:]))
    run(["g++", "-fopenmp"] + objs + LIBS + ["-o", exe])
    return exe
