"""saving and loading (spec/TSaveLoad.tla)"""
from yd import *
import yade.wrapper as W
import random, os, math, hashlib, shutil

# attributes which the original declares as not saved (recomputed when needed), or measures of wall-clock time
NOSAVE = {"Bound": ["min", "max"], "ScGeom": ["penetrationDepth", "shearInc"], "Facet": ["normal", "area"], "PFacet": ["normal", "area"], "DomainLimiter": ["_pathT", "_path", "trsf"], "LawTester": ["_pathT", "_path", "trsf"],
          "HdapsGravityEngine": ["accel"], "Law2_ScGeom_MindlinPhys_Mindlin": ["frictionDissipation", "shearEnergy", "normDampDissip", "shearDampDissip"],
          "Scene": ["speed"], "PeriodicEngine": ["realLast"], "Engine": ["execTime", "execCount"], "Cell": ["prevHSize"]}


def skipped(cls):
    r = set()
    for c in cls.__mro__:
        r.update(NOSAVE.get(c.__name__, []))
    return r


def num(x):
    return "nan" if x != x else float(x).hex() if isinstance(x, float) else str(x)


def dump(o, depth=0):
    if o is None or isinstance(o, (bool, str)):
        return o
    if isinstance(o, (int, float)):
        return num(o)
    if isinstance(o, (list, tuple)):
        return [dump(x, depth + 1) for x in o]
    if isinstance(o, dict):
        return {str(k): dump(v, depth + 1) for k, v in o.items()}
    t = type(o).__name__
    if isinstance(o, W.EnergyTracker):
        return [t, dump(dict(o.items()))]
    if isinstance(o, W.ParallelEngine):
        return [t, dump(o.slaves, depth + 1)]
    if isinstance(o, W.Serializable):
        if depth > 8:
            return "..."
        no = skipped(type(o))
        return [t, {k: dump(v, depth + 1) for k, v in sorted(o.dict().items()) if k not in no}]
    if t.startswith("Matrix"):
        return [num(o[i, j]) for i in range(o.rows()) for j in range(o.cols())]
    if t.startswith("Vector") or t.startswith("Quaternion"):
        return [num(o[i]) for i in range(len(o))]
    if t == "AlignedBox3":
        return [dump(o.min), dump(o.max)]
    return "?" + t


SHAPES = ["Sphere", "Box", "Wall", "Facet", "Cylinder", "Tetra"]
FMT = {"xml": "%s.xml", "xmlbz": "%s.xml.bz2", "xmlgz": "%s.xml.gz", "bin": "%s.yade", "bingz": "%s.yade.gz", "binbz": "%s.yade.bz2", "mem": ":memory:%s"}


def sha(x):
    return hashlib.sha1(repr(x).encode()).hexdigest()[:12]


def setup_class(name, rng, depth=0):
    """an object of the class with every attribute set to something unusual"""
    o = getattr(W, name)()
    if isinstance(o, (W.EnergyTracker, W.ParallelEngine)):
        return o

    def f():
        return rng.choice([rng.randint(-1000, 1000) / 8., rng.random() * 10 ** rng.randint(-8, 8), 1 / 3., float("inf")])

    def values(k, v):
        t = type(v).__name__
        sub = lambda *n: [setup_class(rng.choice(n), rng, depth + 1)] if depth < 2 else []
        if k == "vertices" and name in ("Facet", "PFacet"):
            return [[Vector3(1, 1 / 3., 0), Vector3(0, 1 / 7., 2), Vector3(-1, 0, 0)]]
        if name == "MatchMaker" and k == "algo":
            return [rng.choice(["val", "avg", "min", "max", "harmAvg"])]
        if v is None:
            if k == "material":
                return sub("FrictMat", "CohFrictMat", "ElastMat", "ViscElMat")
            if k == "shape":
                return sub(*SHAPES)
            if k == "bound":
                return sub("Aabb")
            if k == "geom":
                return sub("ScGeom", "ScGeom6D", "L3Geom", "L6Geom")
            if k == "phys":
                return sub("FrictPhys", "CohFrictPhys", "MindlinPhys", "ViscElPhys")
            if name.startswith("Ip2_"):
                return sub("MatchMaker")
            return []
        if t == "State":
            return sub("State", "ChainedState")
        if t in ("BoundDispatcher", "IGeomDispatcher", "IPhysDispatcher", "LawDispatcher"):
            return sub(t)
        if isinstance(v, bool):
            return [not v]
        if isinstance(v, int):
            return [rng.randint(0, 50)]
        if isinstance(v, float):
            return [f()]
        if isinstance(v, str):
            return ["s%d <&> \" 'x" % rng.randint(0, 99)]
        if t == "Vector3" and "axis" in k.lower():      # normalised when loaded
            return [rng.choice([Vector3(0, 1, 0), Vector3(0, 0, -1)])]
        if t in ("Vector3", "Vector2", "Vector6"):
            return [type(v)(*[f() for _ in v])]
        if t in ("Vector3i", "Vector2i", "Vector6i"):
            return [type(v)(*[rng.randint(-50, 50) for _ in v])]
        if t == "Quaternion":
            return [Quaternion(Vector3(1, rng.random(), -rng.random()).normalized(), rng.random())]
        if t == "Matrix3":
            return [Matrix3(*[f() for _ in range(9)])]
        if isinstance(v, (list, tuple)):
            fun = {"BoundDispatcher": "Bo1_Sphere_Aabb", "IGeomDispatcher": "Ig2_Sphere_Sphere_ScGeom", "IPhysDispatcher": "Ip2_FrictMat_FrictMat_FrictPhys", "LawDispatcher": "Law2_ScGeom_FrictPhys_CundallStrack"}
            if k == "functors":
                return [sub(fun[name])]
            if k == "comb":
                return [sub("TranslationEngine") + sub("RotationEngine")]
            return [[3, 1, 2], [.5, 1 / 3.], ["a", "b c"], [Vector3(1, 2, 1 / 3.)], [(1, 2)], [[1, 2], [3]], [Vector3i(1, 2, 3)], [True, False]]
        return []
    for k, v in sorted(o.dict().items()):
        if k in skipped(type(o)):
            continue
        for nv in values(k, v):
            try:
                o.updateAttrs({k: nv})
                break
            except Exception:
                pass
    return o


def funcs(law):
    bo = [Bo1_Sphere_Aabb(), Bo1_Box_Aabb(), Bo1_Facet_Aabb(), Bo1_Wall_Aabb()]
    ig = [Ig2_Sphere_Sphere_ScGeom(), Ig2_Box_Sphere_ScGeom(), Ig2_Facet_Sphere_ScGeom(), Ig2_Wall_Sphere_ScGeom()]
    if law == "coh":
        return bo, [Ig2_Sphere_Sphere_ScGeom6D(), Ig2_Box_Sphere_ScGeom6D(), Ig2_Facet_Sphere_ScGeom6D()], [Ip2_CohFrictMat_CohFrictMat_CohFrictPhys(setCohesionNow=True, setCohesionOnNewContacts=True)], [Law2_ScGeom6D_CohFrictPhys_CohesionMoment(useIncrementalForm=True)]
    if law == "mindlin":
        return bo, ig, [Ip2_FrictMat_FrictMat_MindlinPhys()], [Law2_ScGeom_MindlinPhys_Mindlin()]
    if law == "visc":
        return bo, ig, [Ip2_ViscElMat_ViscElMat_ViscElPhys()], [Law2_ScGeom_ViscElPhys_Basic()]
    if law == "l3":
        return bo, [Ig2_Sphere_Sphere_L3Geom(), Ig2_Wall_Sphere_L3Geom(), Ig2_Facet_Sphere_L3Geom()], [Ip2_FrictMat_FrictMat_FrictPhys()], [Law2_L3Geom_FrictPhys_ElPerfPl()]
    return bo, ig, [Ip2_FrictMat_FrictMat_FrictPhys()], [Law2_ScGeom_FrictPhys_CundallStrack(label="law")]


def setup_scene(sc):
    rng = random.Random(sc["seed"])
    law = sc["law"]
    ptc = sc.get("peri") and rng.random() < .4
    n = rng.randint(2, 6) if not ptc and law != "coh" else 2      # moments and stress are sums of more than two terms, in unspecified order
    if sc.get("peri"):
        O.periodic = True
        O.cell.hSize = Matrix3(2 * n + 6, 0, 0, 0, 12, 0, 0, 0, 14)
        O.cell.velGrad = Matrix3(*[rng.choice([0, rng.randint(-20, 20) / 997.]) for _ in range(9)])
    mat = {"coh": lambda: CohFrictMat(young=rng.randint(100, 300), poisson=.3, frictionAngle=rng.choice([.1, .5]), density=rng.randint(1, 3), isCohesive=True, normalCohesion=1e3, shearCohesion=1e3, momentRotationLaw=True, label="m%d" % rng.randint(0, 99)),
           "visc": lambda: ViscElMat(kn=rng.randint(100, 300), ks=50, cn=rng.randint(0, 3), cs=1, frictionAngle=.3, density=2)}.get(law, lambda: FrictMat(young=rng.randint(100, 300), poisson=.3, frictionAngle=rng.choice([.05, .1, .5]), density=rng.randint(1, 3)))
    ms = [O.materials.append(mat()) for _ in range(2)]
    for i in range(n):
        b = utils.sphere((1.9 * i + 1, rng.randint(-5, 5) / 97., rng.randint(-5, 5) / 97.), 1, material=O.materials[rng.choice(ms)])
        b.state.vel = [rng.randint(-50, 50) / 331. for _ in range(3)]
        b.state.angVel = [rng.randint(-50, 50) / 331. for _ in range(3)]
        b.state.ori = Quaternion(Vector3(rng.random() + .1, rng.random(), rng.random()).normalized(), rng.random())
        if rng.random() < .15:
            b.state.blockedDOFs = rng.choice(["xyzXYZ", "x", "yZ", "XYZ"])
        b.mask = rng.randint(1, 3) * 2 + 1
        b.aspherical = rng.random() < .3
        O.bodies.append(b)
    flat = rng.choice(["", "box", "facet", "wall"]) if not sc.get("peri") and law != "coh" else ""
    if flat == "box" and law != "l3":
        O.bodies.append(utils.box((1, -1.4, 0), (.5, .5, .5), fixed=True, material=O.materials[ms[0]]))
    if flat == "facet":
        O.bodies.append(utils.facet([(0, -.9, -3), (0, -.9, 3), (1.6, -.9, 0)], fixed=True, material=O.materials[ms[0]]))
    if flat == "wall" and law != "coh":
        O.bodies.append(utils.wall(.1, 0, sense=1, material=O.materials[ms[0]]))
    if sc.get("clump"):
        O.bodies.clump([0, 1])
        O.bodies.appendClumped([utils.sphere((1, 6, 0), 1, material=O.materials[ms[0]]), utils.sphere((2, 7, .5), 1, material=O.materials[ms[0]])])
    bo, ig, ip, lw = funcs(law)
    e = [ForceResetter(), InsertionSortCollider(bo, verletDist=rng.choice([0, .1, -.3]), sortAxis=rng.randint(0, 2)), InteractionLoop(ig, ip, lw)]
    if rng.random() < .3:
        e.append(ForceEngine(force=(1, 2, 1 / 3.), ids=[0], label="fe"))
    if rng.random() < .3:
        e.append(PyRunner(iterPeriod=rng.randint(1, 3), command="O.tags['n']=str(O.iter)", initRun=True))
    if rng.random() < .2:
        e.append(GlobalStiffnessTimeStepper(timeStepUpdateInterval=rng.randint(1, 3), timestepSafetyCoefficient=.1, defaultDt=1e-3))
    if rng.random() < .2:
        e.append(HarmonicMotionEngine(A=(.1, 0, 0), f=(1, 1, 1), ids=[n - 1]))
    if rng.random() < .2:
        e.append(TranslationEngine(translationAxis=(0, 0, 1), velocity=.1, ids=[n - 1]))
    if rng.random() < .2:
        e.append(ParallelEngine([GravityEngine(gravity=(0, 1, 0)), [TorqueEngine(moment=(0, 1, 0), ids=[0])]]))
    e.append(NewtonIntegrator(damping=rng.choice([0, .2]), gravity=(0, 0, rng.choice([0, -1])), exactAsphericalRot=rng.random() < .5, label="newton"))
    if ptc:
        e.append(PeriTriaxController(goal=(-1, -1, -1), stressMask=7, dynCell=True, maxStrainRate=(.1, .1, .1), mass=100, globUpdate=1, doneHook="pass", label="ptc"))
    O.engines = e
    O.trackEnergy = rng.random() < .3
    O.dt = 1 / 61.
    O.tags["x"] = "a <&> b"
    O.stopAtIter = rng.randint(0, 5) * 100


def sections():
    def body(b):
        d = b.dict()
        d.pop("bound")
        d["members"] = b.isClump and sorted((k, dump(v)) for k, v in b.shape.members.items()) if hasattr(b.shape, "members") else None
        d["shape"] = dump(b.shape) if not b.isClump else "clump"
        return dump(d, 1)
    bs = list(O.bodies)
    es = list(O.engines)
    col = [e for e in es if isinstance(e, W.Collider)]
    rest = [e for e in es if not isinstance(e, W.Collider)]
    eng, cache = [dump(e) for e in rest], []
    for e in eng:
        if e[0] == "NewtonIntegrator":
            cache.append(e[1].pop("maxVelocitySq", None))      # belongs to the collider's decision when to run
    ii = sorted((dump(i) for i in O.interactions if i.isReal), key=lambda x: (x[1]["id1"], x[1]["id2"]))
    for i in ii:
        cache.append(i[1].pop("iterBorn"))      # a potential contact may have been found earlier; potential contacts are not saved
    return {"bodies": [len(O.bodies)] + [body(b) for b in bs], "bounds": [dump(b.bound) for b in bs], "collider": [dump(e) for e in col] + cache,
            "intrs": ii,
            "engines": eng, "materials": [dump(m) for m in O.materials] + [[m.label, m.id] for m in O.materials],
            "cell": dump(O.cell) if O.periodic else None, "energy": dump(dict(O.energy.items())) if O.trackEnergy else None,
            "misc": [dump(m) for m in O.miscParams], "tags": {k: O.tags[k] for k in O.tags.keys()},
            "clock": [num(O.time), O.iter, num(O.dt), O.stopAtIter, num(O.stopAtTime), O.subStep, O.subStepping, O.trackEnergy, O.periodic]}


def digest(d):
    return {k: sha(v) for k, v in d.items()}


def apply(op):
    k = op["op"]
    if k == "step":
        for _ in range(op["n"]):
            O.step()
    elif k == "vel":
        bs = list(O.bodies)
        if bs:
            bs[op["i"] % len(bs)].state.vel = [x / 331. for x in op["v"]]
    elif k == "young":
        O.materials[op["i"]].young = op["y"] / 3.
    elif k == "density":
        O.materials[op["i"]].density = op["y"] / 3.
    elif k == "erase":
        O.bodies.erase(op["i"])
    elif k == "add":
        O.bodies.append(utils.sphere((op["x"], 5, 5), 1, material=O.materials[0], color=(.1, .2, .3), mask=0))      # touches nothing: which body comes first in a new contact is not specified
    elif k == "dt":
        O.dt = op["v"] / 997.
    elif k == "tag":
        O.tags["t%d" % op["i"]] = "v%d" % op["v"]
    elif k == "substep":
        O.subStepping = True
        for _ in range(op["n"]):
            O.step()
        O.subStepping = False
    elif k == "touch":      # change attributes of the saved object
        for o in O.miscParams:
            for a, v in o.dict().items():
                if type(v) is float and a not in skipped(type(o)):
                    try:
                        setattr(o, a, 77.25)
                    except Exception:
                        pass
    elif k == "stop":
        O.stopAtIter, O.stopAtTime = op["a"], op["b"] / 3.


class Driver:
    def __init__(self, params):
        self.dir = os.path.join(os.getcwd(), "files-%d" % os.getpid())
        self.params = params

    def child(self, fname, ops):
        import subprocess, json, sys
        p = subprocess.run(["/usr/bin/python3", os.path.abspath(__file__), fname, json.dumps(ops)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=120)
        for line in p.stdout.decode().split("\n"):
            if line.startswith("@D "):
                return json.loads(line[3:])
        raise RuntimeError("child failed: " + p.stdout.decode()[-800:])

    def run(self, sc):
        O.reset()
        os.makedirs(self.dir, exist_ok=True)
        if sc["kind"] == "class":
            O.miscParams = [setup_class(c, random.Random(sc["seed"] + i)) for i, c in enumerate(sc["classes"]) if hasattr(W, c)]
        else:
            setup_scene(sc)
        tr = [{"op": "new", "d": digest(sections())}]
        self.last = None
        for op in sc["ops"]:
            k = op["op"]
            ok = True
            try:
                if k == "save":
                    O.save(self.fn(op), quiet=True)
                elif k == "load":
                    O.load(self.fn(op), quiet=True)
                elif k == "reload":
                    O.reload(quiet=True)
                elif k == "tofile":
                    O.tmpToFile(self.fn(dict(op, fmt=op["to"])), op["slot"])
                elif k == "child":
                    for d, o in zip(self.child(self.fn(op), op["ops"]), [None] + op["ops"]):
                        tr.append({"op": "load", "key": op["fmt"] + op["slot"], "ok": True, "d": d, "other": True} if o is None else {"op": "do", "what": repr(sorted(o.items())), "d": d, "ok": True})
                    tr.append({"op": "back", "d": digest(sections())})    # this process again
                    continue
                else:
                    apply(op)
            except Exception as e:
                ok = False
                if k not in ("load", "reload", "tofile"):
                    raise
            ev = {"op": k, "ok": ok, "d": digest(sections())}
            if k in ("save", "load", "tofile"):
                ev["key"] = op["fmt"] + op["slot"]
                if k == "tofile":
                    ev["to"] = op["to"] + op["slot"]
            elif k != "reload":
                ev.update(op="do", what=repr(sorted(op.items())))
            tr.append(ev)
        shutil.rmtree(self.dir, ignore_errors=True)
        return tr

    def fn(self, op):
        f = FMT[op["fmt"]] % op["slot"]
        return f if op["fmt"] == "mem" else os.path.join(self.dir, f)


if __name__ == "__main__":
    import sys, json
    O.load(sys.argv[1], quiet=True)
    out = [digest(sections())]
    for op in json.loads(sys.argv[2]):
        apply(op)
        out.append(digest(sections()))
    print("@D " + json.dumps(out))
    finish()
