#!/usr/bin/env python3
"""Builds, from the current working tree of /repo, the part of yade the conformance drivers run.

  leanbuild.py [--repo DIR] [--out DIR] [--jobs N]

The output is an installed tree  OUT/inst/{libyade.so,py/yade/...}, ready for
    PYTHONPATH=/opt/vp/py3compat/modules:OUT/inst/py python3 -c 'from yade import *'
The C++ sources are combined into a few translation units (as yade's own build does, CHUNKSIZE),
compiled without optimisation and without the optional GUI/VTK/CGAL parts; the Python sources are converted to Python 3
by the converter the sandbox's own build uses.  Nothing is written outside OUT.  Objects are reused only when every
file they were made from is unchanged but for comments and blank space, so the result always corresponds to the tree's current content.
"""
import argparse, fcntl, hashlib, json, os, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))

LIB = [  # groups making up libyade.so
    "pkg/dem/HertzMindlin.cpp pkg/dem/NewtonIntegrator.cpp pkg/dem/ScGeom.cpp pkg/dem/Shop_01.cpp pkg/dem/Shop_02.cpp pkg/dem/SpherePack.cpp pkg/dem/STLImporter.cpp",
    "pkg/common/KinematicEngines.cpp pkg/common/MatchMaker.cpp pkg/common/ParallelEngine.cpp pkg/common/SpatialQuickSortCollider.cpp pkg/common/Wall.cpp pkg/common/common.cpp pkg/dem/FlatGridCollider.cpp",
    "pkg/dem/CohesiveFrictionalContactLaw.cpp pkg/dem/DomainLimiter.cpp pkg/dem/ElasticContactLaw.cpp pkg/dem/FrictPhys.cpp pkg/dem/GlobalStiffnessTimeStepper.cpp pkg/dem/Ig2_Box_Sphere_ScGeom.cpp pkg/dem/Ig2_Facet_Sphere_ScGeom.cpp pkg/dem/Ig2_Sphere_Sphere_ScGeom.cpp pkg/dem/Ip2_ElastMat.cpp",
    "pkg/common/Bo1_Aabb.cpp pkg/common/Collider.cpp pkg/common/Dispatching.cpp pkg/common/Facet.cpp pkg/common/ForceEngine.cpp pkg/common/GravityEngines.cpp pkg/common/InsertionSortCollider.cpp pkg/common/InteractionLoop.cpp",
    "pkg/common/Cylinder.cpp pkg/common/Grid.cpp pkg/common/PFacet.cpp",
    "core/Omega.cpp core/Scene.cpp core/SimulationFlow.cpp core/State.cpp core/Subdomain.cpp core/ThreadRunner.cpp core/ThreadWorker.cpp core/corePlugins.cpp lib/base/Math.cpp lib/factory/ClassFactory.cpp lib/factory/DynLibManager.cpp lib/serialization/Serializable.cpp lib/pyutil/gil.cpp",
    "pkg/dem/L3Geom.cpp pkg/dem/PeriIsoCompressor.cpp pkg/dem/ViscoelasticPM.cpp pkg/dem/CapillaryPhys.cpp pkg/dem/CapillaryPhys1.cpp pkg/dem/Tetra.cpp",
    "core/Body.cpp core/BodyContainer.cpp core/Cell.cpp core/Clump.cpp core/FileGenerator.cpp core/ForceContainerParallel.cpp core/ForceContainerSerial.cpp core/Interaction.cpp core/InteractionContainer.cpp core/Material.cpp",
]
EXT = {  # extension modules
    "wrapper": "py/wrapper/yadeWrapper.cpp",
    "_utils": "py/_utils.cpp",
    "_customConverters": "py/wrapper/customConverters.cpp",
    "_packPredicates": "py/pack/_packPredicates.cpp",
    "_packSpheres": "py/pack/_packSpheres.cpp",
    "_packObb": "py/pack/_packObb.cpp",
    "boot": "core/main/pyboot.cpp",
}
INC = ["/usr/lib/x86_64-linux-gnu/openmpi/include", "/usr/lib/x86_64-linux-gnu/openmpi/include/openmpi",
       "/usr/lib/python3/dist-packages/numpy/core/include", "/usr/include/python3.12", "/usr/include/eigen3"]
CXX = ("g++ -w -include /opt/vp/py3compat/py2names.h -fPIC -std=gnu++14 -O0 -DYADE_OPENMP -fopenmp"
       " -ftrack-macro-expansion=0 -DEIGEN_DONT_VECTORIZE -DEIGEN_DONT_ALIGN -DEIGEN_DISABLE_UNALIGNED_ARRAY_ASSERT"
       " -frounding-math -DBOOST_MATH_DISABLE_FLOAT128=1 -DYADE_ODEINT -DNDEBUG").split()
LIBS = ("-L/usr/lib/x86_64-linux-gnu/openmpi/lib -lmpi -lmpi_cxx -lboost_python312 -lboost_thread -lboost_filesystem"
        " -lboost_iostreams -lboost_regex -lboost_serialization -lboost_system -lboost_date_time -lpython3.12 -lgomp"
        " -lbz2 -lz -Wl,-rpath,/usr/lib/x86_64-linux-gnu/openmpi/lib").split()


def sha(path, cache={}):
    try:
        st = os.stat(path)
    except OSError:
        return None
    k = (path, st.st_mtime_ns, st.st_size, st.st_ino)
    if k not in cache:
        with open(path, "rb") as f:
            cache[k] = hashlib.sha256(f.read()).hexdigest()
    return cache[k]


LEX = re.compile(r'''"(?:\\.|[^"\\\n])*"|'(?:\\.|[^'\\\n])*'|//[^\n]*|/\*.*?\*/''', re.S)


def shasrc(path, cache={}):
    """hash of a source file without comments, blank lines and space at line ends: what the compiler makes code of"""
    h = sha(path)
    if h is None:
        return None
    if h not in cache:
        t = open(path, encoding="utf-8", errors="surrogateescape").read()
        if 'R"' in t or re.search(r"//[^\n]*\\\n", t):
            cache[h] = h
        else:
            t = LEX.sub(lambda m: " " if m[0].startswith("/") else m[0], t)
            x = [y.rstrip() for y in t.split("\n")]
            t = "\n".join(y for i, y in enumerate(x) if y or (i and x[i - 1].endswith("\\")))
            cache[h] = hashlib.sha256(t.encode("utf-8", "surrogateescape")).hexdigest()
    return cache[h]


class Builder:
    def __init__(self, repo, out, jobs):
        self.repo, self.out, self.jobs = repo, out, jobs
        self.obj = os.path.join(out, "obj")
        os.makedirs(self.obj, exist_ok=True)
        self.rebuilt = []

    def compile(self, name, files):
        present = [f for f in files.split() if os.path.exists(os.path.join(self.repo, f))]
        src = os.path.join(self.obj, name + ".cpp")
        text = "".join("#include<%s/%s>\n" % (self.repo, f) for f in present)
        o, d, m = (os.path.join(self.obj, name + e) for e in (".o", ".d", ".json"))
        cmd = CXX + ["-I" + self.repo] + ["-I" + i for i in INC]
        key = hashlib.sha256((" ".join(cmd) + "\n" + text).encode()).hexdigest()
        if os.path.exists(o) and os.path.exists(m):
            man = json.load(open(m))
            if man["key"] == key and all(shasrc(p) == h for p, h in man["deps"].items()):
                return None
        if os.path.exists(m):
            os.remove(m)
        with open(src, "w") as f:
            f.write(text)
        r = subprocess.run(cmd + ["-MD", "-MF", d, "-c", src, "-o", o], capture_output=True, text=True)
        if r.returncode:
            return "%s: %s" % (files, r.stderr[-4000:])
        deps = open(d).read().replace("\\\n", " ").split(":", 1)[1].split()
        deps = [p for p in deps if p.startswith(self.repo + "/") or p.startswith("/opt/vp/")]
        with open(m, "w") as f:
            json.dump({"key": key, "deps": {p: shasrc(p) for p in deps}}, f)
        self.rebuilt.append(name)
        return None

    def link(self, target, objs, extra):
        stamp = target + ".stamp"
        key = hashlib.sha256("\n".join([target] + [str(sha(o)) for o in objs] + extra).encode()).hexdigest()
        if os.path.exists(target) and os.path.exists(stamp) and open(stamp).read() == key:
            return
        r = subprocess.run(["g++", "-shared", "-fuse-ld=gold", "-o", target] + objs + extra + LIBS,
                           capture_output=True, text=True)
        if r.returncode:
            raise SystemExit("link %s failed:\n%s" % (target, r.stderr[-4000:]))
        with open(stamp, "w") as f:
            f.write(key)

    def python(self, inst):
        R, Y = self.repo, os.path.join(inst, "py", "yade")
        os.makedirs(Y, exist_ok=True)
        files = {}
        for f in sorted(os.listdir(R + "/py")):
            if f.endswith(".py"):
                files[f] = open(R + "/py/" + f, encoding="utf-8-sig").read()
        files["pack.py"] = open(R + "/py/pack/pack.py", encoding="utf-8-sig").read()
        files["_extraDocs.py"] = ""  # docstrings of classes that are not part of this build
        init = open(R + "/py/__init__.py.in").read()
        conf = open(R + "/py/config.py.in", encoding="utf-8").read()
        sub = {"libstdcxx": "", "YADE_ENABLE_PYTHON_GLOBAL": "", "CMAKE_INSTALL_PREFIX": inst, "runtimePREFIX": inst,
               "SUFFIX": "", "LIBRARY_OUTPUT_PATH": ".", "CONFIGURED_FEATS": " OpenMP", "YADE_VERSION": "lean",
               "realVersion": "lean", "sourceRoot": R, "CMAKE_CURRENT_SOURCE_DIR": R}
        rep = lambda t: re.sub(r"\$\{(\w+)\}", lambda m: sub.get(m[1], ""), t)
        files["__init__.py"] = rep(init)
        conf = rep(conf)
        # where the libraries are: this tree, whatever the template computes
        files["config.py"] = conf + "\nlibDir=%r\nconfDir=%r\n" % (inst, inst + "/conf")
        raw = os.path.join(self.out, "pyraw.json")
        key = hashlib.sha256(json.dumps([files, sha("/opt/vp/py3compat/convert.py")]).encode()).hexdigest()
        if os.path.exists(raw) and open(raw).read() == key:
            return
        if os.path.exists(raw):
            os.remove(raw)
        for f in os.listdir(Y):
            if f.endswith(".py"):
                os.remove(os.path.join(Y, f))
        for f, t in files.items():
            with open(os.path.join(Y, f), "w", encoding="utf-8") as g:
                g.write(t)
        cache = os.path.join(self.out, "py3cache")
        os.makedirs(cache, exist_ok=True)
        r = subprocess.run(["/usr/bin/python3", "/opt/vp/py3compat/convert.py", cache, Y], capture_output=True, text=True)
        if r.returncode:
            raise SystemExit("python conversion failed:\n" + r.stdout[-3000:] + r.stderr[-3000:])
        with open(raw, "w") as f:
            f.write(key)

    def run(self):
        t0 = time.time()
        inst = os.path.join(self.out, "inst")
        Y = os.path.join(inst, "py", "yade")
        os.makedirs(Y, exist_ok=True)
        os.makedirs(inst + "/conf", exist_ok=True)
        jobs = [("lib%d" % i, g) for i, g in enumerate(LIB)] + [("ext" + k, v) for k, v in EXT.items()]
        with ThreadPoolExecutor(self.jobs) as ex:
            errs = [e for e in ex.map(lambda a: self.compile(*a), jobs) if e]
        if errs:
            raise SystemExit("compilation failed:\n" + "\n".join(errs))
        lib = os.path.join(inst, "libyade.so")
        self.link(lib, [os.path.join(self.obj, "lib%d.o" % i) for i in range(len(LIB))], [])
        for k in EXT:
            self.link(os.path.join(Y, k + ".so"), [os.path.join(self.obj, "ext%s.o" % k)], [lib, "-Wl,-rpath," + inst])
        self.python(inst)
        return {"wall_s": round(time.time() - t0, 1), "rebuilt": self.rebuilt, "inst": inst}


def build(repo="/repo", out=None, jobs=8):
    out = out or os.environ.get("VERIF_BUILD") or os.path.join(os.path.dirname(HERE), ".build")
    os.makedirs(out, exist_ok=True)
    with open(os.path.join(out, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        return Builder(repo, out, jobs).run()


if __name__ == "__main__":
    a = argparse.ArgumentParser()
    a.add_argument("--repo", default="/repo")
    a.add_argument("--out")
    a.add_argument("--jobs", type=int, default=8)
    a = a.parse_args()
    print(json.dumps(build(a.repo, a.out, a.jobs)))
