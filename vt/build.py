"""Builds harness executables from /repo's current working tree.

Every translation unit (repo .cpp or harness .cpp) goes through ccache, whose
key is the content of the unit and of everything it includes, so nothing
depends on time stamps.  The cache lives in /verif/.cache (git-ignored) and is
only an accelerator: without it everything is compiled from scratch.
"""
import concurrent.futures as cf
import hashlib
import os
import shutil
import subprocess
import sys
import threading
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VT_REPO", "/repo")
CACHE = os.environ.get("VT_CACHE", os.path.join(VERIF, ".cache"))
H5 = "/usr/lib/x86_64-linux-gnu/hdf5/openmpi"
OMPI = "/usr/lib/x86_64-linux-gnu/openmpi"

BASE = [
    "-DDNDS_USE_OMP", "-DNINSERT", "-D__DNDS_REALLY_COMPILING__",
    "-I" + VERIF + "/shims",
    "-isystem/usr/include/superlu-dist",
    "-isystem" + OMPI + "/include", "-isystem" + OMPI + "/include/openmpi",
    "-isystem/usr/include/hdf5/openmpi", "-isystem/usr/include/eigen3",
    "-isystem/usr/include/argparse", "-I" + REPO + "/src", "-I" + VERIF + "/harness",
    "-std=c++17", "-fopenmp", "-UNDEBUG", "-w", "-fPIC",
]
PROFILES = {
    # sanitised: memory errors and undefined behaviour abort the process
    "san": ["-O1", "-g1", "-fno-omit-frame-pointer", "-DVT_SAN=1",
            "-fsanitize=address,undefined", "-fno-sanitize=vptr,alignment,nonnull-attribute",
            "-fno-sanitize-recover=all"],
    "opt": ["-O1", "-g0"],
}
LIBS = ["-lmpi_cxx", "-lmpi", "-lcgns", H5 + "/libhdf5.so", "-Wl,-rpath," + H5,
        "-lparmetis", "-lmetis", "-lz", "-lfmt", "-lstdc++fs", "-ldl", "-lsuperlu_dist",
        "-L" + OMPI + "/lib"]

R = REPO + "/src/"
DNDS = [R + "DNDS/" + f for f in ("Defines.cpp", "HardEigen.cpp", "MPI.cpp", "Profiling.cpp",
                                 "SerializerH5.cpp", "SerializerJSON.cpp", "EigenPCH.cpp")]
DNDS_LITE = [f for f in DNDS if not f.endswith("HardEigen.cpp")]
GEOM_ALL = [R + "Geom/" + f for f in ("Elements.cpp", "Mesh.cpp", "Mesh_Elevation.cpp",
                                 "Mesh_Elevation_SmoothSolver.cpp", "Mesh_Plts.cpp",
                                 "Mesh_Serial_BuildCell2Cell.cpp", "Mesh_Serial_Partition.cpp",
                                 "Mesh_Serial_ReadFromCGNS.cpp")]


# the RBF smoothing of elevated meshes is the most expensive unit and only one harness needs it
GEOM = [f for f in GEOM_ALL if "SmoothSolver" not in f]


def H(name):
    return VERIF + "/harness/" + name + ".cpp"


def cfv(*insts):
    out = [R + "CFV/VariationalReconstruction.cpp"]
    for i in insts:
        out.append(R + "CFV/_explicit_instantiation/VariationalReconstruction_Reconstruction_%s.cpp" % i)
        out.append(R + "CFV/_explicit_instantiation/VariationalReconstruction_LimiterProcedure_%s.cpp" % i)
    return out


def euler(model, solver=True):
    parts = ["EulerEvaluator", "EulerEvaluator_EvaluateDt", "EulerEvaluator_EvaluateRHS"]
    if solver:
        parts += ["EulerSolver", "EulerSolver_Init", "EulerSolver_PrintData"]
    return [R + "Euler/_explicit_instantiation/%s_%s.cpp" % (p, model) for p in parts]


class BuildError(Exception):
    pass


def _env():
    e = dict(os.environ)
    e["CCACHE_DIR"] = os.path.join(CACHE, "ccache")
    e["CCACHE_MAXSIZE"] = "20G"
    e["CCACHE_COMPRESS"] = "1"
    e["CCACHE_NOHASHDIR"] = "1"
    e["CCACHE_SLOPPINESS"] = "include_file_ctime,include_file_mtime,time_macros"
    e["LC_ALL"] = "C.UTF-8"
    for k in ("CCACHE_DISABLE", "CCACHE_READONLY", "CPATH", "CPLUS_INCLUDE_PATH"):
        e.pop(k, None)
    return e


def _compile(src, flags, obj):
    cc = ["ccache"] if shutil.which("ccache") else []
    cmd = cc + ["g++"] + BASE + flags + ["-c", src, "-o", obj]
    t = time.time()
    p = subprocess.run(cmd, env=_env(), capture_output=True, text=True, cwd="/")
    if p.returncode and cc and "error:" not in p.stderr:
        p = subprocess.run(cmd[1:], env=_env(), capture_output=True, text=True, cwd="/")
    if p.returncode:
        if "error:" not in p.stderr:  # e.g. the compiler was ended by the memory guard: once more
            time.sleep(2)
            p = subprocess.run(cmd[len(cc):], env=_env(), capture_output=True, text=True, cwd="/")
        if p.returncode:
            raise BuildError("compiling %s failed:\n%s" % (src, p.stderr[-4000:]))
    return time.time() - t


# the slowest first, so that the tail of a parallel build is short
_HEAVY = ["Reconstruction_", "EvaluateDt", "Mesh_Elevation_Smooth", "EulerEvaluator", "EulerSolver",
          "VariationalRec", "Limiter", "harness/", "Mesh", "HardEigen"]


def _weight(s):
    for i, k in enumerate(_HEAVY):
        if k in s:
            return i
    return len(_HEAVY)


def compile_all(units, jobs=None):
    """Fills the compiler cache; units: (source, profile)."""
    jobs = jobs or int(os.environ.get("VT_JOBS", "8"))
    out = os.path.join(CACHE, "bin", "setup%d" % os.getpid())
    os.makedirs(out, exist_ok=True)
    t0 = time.time()
    bad = []

    def one(sp):
        o = os.path.join(out, hashlib.sha1("|".join(sp).encode()).hexdigest()[:16] + ".o")
        try:
            _compile(sp[0], PROFILES[sp[1]], o)
        except BuildError as e:
            bad.append(str(e))
        if os.path.exists(o):
            os.unlink(o)
    with cf.ThreadPoolExecutor(jobs) as ex:
        list(ex.map(one, sorted(units, key=lambda u: _weight(u[0]))))
    shutil.rmtree(out, ignore_errors=True)
    sys.stderr.write("[setup] %d units in %.1f s, %d failed\n" % (len(units), time.time() - t0, len(bad)))
    for b in bad:
        sys.stderr.write(b + "\n")


def build(name, srcs, profile, extra=(), jobs=None, tag=None):
    """Returns the path of the executable."""
    flags = PROFILES[profile] + list(extra)
    jobs = jobs or int(os.environ.get("VT_JOBS", "8"))
    out = os.path.join(CACHE, "bin", (tag or "") + str(os.getpid()))
    os.makedirs(out, exist_ok=True)
    objs = []
    todo = []
    for s in srcs:
        o = os.path.join(out, hashlib.sha1((name + profile + s).encode()).hexdigest()[:16] + ".o")
        objs.append(o)
        todo.append((s, o))
    todo.sort(key=lambda so: _weight(so[0]))
    t0 = time.time()
    with cf.ThreadPoolExecutor(jobs) as ex:
        futs = [ex.submit(_compile, s, flags, o) for s, o in todo]
        errs = []
        for f in futs:
            try:
                f.result()
            except BuildError as e:
                errs.append(str(e))
                for g in futs:
                    g.cancel()
            except cf.CancelledError:
                pass
        if errs:
            raise BuildError("\n".join(errs))
    exe = os.path.join(out, name)
    p = subprocess.run(["g++"] + [f for f in flags if f.startswith("-fsan")] + ["-fopenmp"] + objs + ["-o", exe] + LIBS,
                       capture_output=True, text=True)
    if p.returncode:
        raise BuildError("linking %s failed:\n%s" % (name, p.stderr[-4000:]))
    for o in objs:
        os.unlink(o)
    sys.stderr.write("[build] %s (%s, %d units) %.1f s\n" % (name, profile, len(srcs), time.time() - t0))
    return exe
