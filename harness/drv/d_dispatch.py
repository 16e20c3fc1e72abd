"""choice of functors (spec/Dispatch.tla)"""
from yd import *

TOP = {"geom": ("Shape", "Shape"), "phys": ("Material", "Material"), "law": ("IGeom", "IPhys"), "bound": ("Shape", "Shape")}


def tree(tops):
    P = {}
    for top in tops:
        for n in yade.system.childClasses(top):
            base = getattr(yade.wrapper, n).__bases__[0].__name__
            P[n] = "" if base == top else base
    return P


class Driver:
    def __init__(self, params):
        self.P = {k: tree(set(t)) for k, t in TOP.items()}

    def decl(self, names):
        r = []
        for n in names:
            b = list(eval(n)().bases)
            r.append({"f": n, "a": b[0], "b": b[-1], "makes": n.split("_")[-1]})
        return r

    def dispatcher(self):
        e = O.engines[1] if self.kind != "bound" else O.engines[0]
        return {"geom": lambda: e.geomDispatcher, "phys": lambda: e.physDispatcher, "law": lambda: e.lawDispatcher, "bound": lambda: e.boundDispatcher}[self.kind]()

    def engines(self, names):
        f = lambda: [eval(n)() for n in names]
        k = self.kind
        self.names = names
        il = InteractionLoop(f() if k == "geom" else [Ig2_Sphere_Sphere_ScGeom()], f() if k == "phys" else [Ip2_FrictMat_FrictMat_FrictPhys()],
                             f() if k == "law" else [Law2_ScGeom_FrictPhys_CundallStrack(), Law2_ScGeom_MindlinPhys_Mindlin(), Law2_ScGeom_ViscElPhys_Basic(), Law2_L3Geom_FrictPhys_ElPerfPl(), Law2_L6Geom_FrictPhys_Linear()])
        bo = f() if k == "bound" else [Bo1_Sphere_Aabb(), Bo1_Box_Aabb(), Bo1_Facet_Aabb(), Bo1_Wall_Aabb()]
        O.engines = [InsertionSortCollider(bo, verletDist=0), il]

    def run(self, sc):
        O.reset()
        self.kind = k = sc["kind"]
        tr = [{"op": "new", "kind": k, "P": self.P[k], "fs": self.decl(sc["fs"])}]
        self.engines(sc["fs"])
        O.dt = 1e-9
        x = 0
        for o in sc["ops"]:
            op = o["op"]
            if op == "set":
                if o["how"]:
                    self.engines(o["fs"])
                else:
                    self.dispatcher().functors = [eval(n)() for n in o["fs"]]
                tr.append({"op": "set", "fs": self.decl(o["fs"])})
            elif op == "load":
                O.saveTmp("dp", quiet=True)
                O.loadTmp("dp", quiet=True)
                tr.append({"op": "load"})
            elif op == "get":
                a, b = eval(o["a"])(), eval(o["b"])()
                try:
                    r = self.dispatcher().dispFunctor(a, b) if k != "bound" else self.dispatcher().dispFunctor(a)
                    r = type(r).__name__ if r else "none"
                except RuntimeError as e:
                    r = "ambiguous" if "mbiguous" in str(e) else "error"
                tr.append({"op": "get", "a": o["a"], "b": o["b"] if k != "bound" else o["a"], "r": r})
            elif op == "make":     # several contacts at once, in the given order
                first = len(O.bodies)
                pairs = []
                for a, b in o["pairs"]:
                    x += 100
                    if k == "phys":
                        O.bodies.append([self.body("Sphere", x, a), self.body("Sphere", x + 1.9, b)])
                    else:
                        O.bodies.append([self.body(a, x, "FrictMat"), self.body(b, x + (1.9 if a == b else .9), "FrictMat")])
                    pairs.append((len(O.bodies) - 2, len(O.bodies) - 1))
                bad = set()
                if o["how"] == "step":
                    O.step()
                else:
                    for p in pairs:
                        try:
                            utils.createInteraction(*p)
                        except (ValueError, RuntimeError):
                            bad.add(p)
                for (i, j), (a, b) in zip(pairs, o["pairs"]):
                    I = O.interactions[i, j] if (i, j) not in bad and O.interactions.has(i, j) else None
                    made = "none"
                    if I is not None and I.geom is not None:
                        made = type(I.geom).__name__ if k == "geom" else type(I.phys).__name__ if I.phys else "none"
                        if k == "geom" and I.id1 > I.id2:
                            a, b = b, a
                    tr.append({"op": "made", "a": a, "b": b, "made": made, "order": k == "geom"})
                for i in range(first, len(O.bodies)):
                    O.bodies.erase(i)
                if o["how"] == "step":
                    O.step()
        return tr

    def body(self, shape, x, mat):
        b = Body()
        m = eval(mat)()
        if hasattr(m, "frictionAngle"):
            m.frictionAngle = .5
        if mat == "ViscElMat":
            m.kn = m.ks = m.cn = m.cs = 1
        O.materials.append(m)
        b.material = m
        if shape == "Box":
            b.shape = Box(extents=(.5, .5, .5))
            b.aspherical = True
        elif shape == "Facet":
            b.shape = Facet(vertices=[Vector3(0, -3, -3), Vector3(0, 4, -1), Vector3(0, -1, 4)])
        elif shape == "Wall":
            b.shape = Wall(axis=0)
        else:
            b.shape = eval(shape)(radius=1)
        b.state.mass = 1
        b.state.inertia = Vector3(1, 1, 1)
        b.state.pos = Vector3(x, 0, 0)
        b.bounded = True
        return b
