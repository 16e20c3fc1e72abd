"""force container (spec/ForceStore.tla)"""
from yd import *


def iv(v):
    r = [int(round(x)) for x in v]
    return r if all(a == b for a, b in zip(r, v)) else [10 ** 9 + 7] * 3


class Driver:
    def __init__(self, params):
        pass

    def run(self, sc):
        O.reset()
        O.materials.append(FrictMat())
        O.engines = [ForceResetter()]
        O.dt = 1
        F = O.forces
        tr = []

        def grow(k):
            bb = []
            for i in range(k):
                b = Body()
                b.shape = Sphere(radius=1)
                b.state.mass = 1
                b.material = O.materials[0]
                bb.append(b)
            O.bodies.append(bb)
        grow(sc["n"])
        tr.append({"op": "new", "n": sc["n"]})
        addf = {"F": F.addF, "T": F.addT, "M": F.addMove, "R": F.addRot}
        for o in sc["ops"]:
            op = o["op"]
            e = dict(o)
            if op == "append":
                grow(o["k"])
            elif op == "add":
                addf[o["q"]](o["id"], Vector3(*o["v"]))
            elif op == "perm":
                (F.setPermF if o["q"] == "F" else F.setPermT)(o["id"], Vector3(*o["v"]))
            elif op == "addperm":   # older way to set a permanent value
                (F.addF if o["q"] == "F" else F.addT)(o["id"], Vector3(*o["v"]), permanent=True)
                e["op"] = "perm"
            elif op == "addall":
                g = GravityEngine(gravity=Vector3(*o["v"]))
                g()
            elif op == "par":       # engines which run at the same time, in groups which run one after the other
                gs = [[(ForceEngine(ids=[i], force=v) if q == "F" else TorqueEngine(ids=[i], moment=v)) for q, i, v in g] for g in o["groups"]]
                ParallelEngine([g if len(g) > 1 else g[0] for g in gs])()
                for g in o["groups"]:
                    tr.extend({"op": "add", "q": q, "id": i, "v": v} for q, i, v in g)
                continue
            elif op == "reset":
                F.reset(resetAll=o["all"])
            elif op == "step":      # the engine which resets forces at the beginning of a step
                O.step()
                e = {"op": "reset", "all": False}
            elif op == "bad":
                try:
                    {"f": F.f, "t": F.t, "permF": F.permF, "m": F.m}[o["q"]](o["id"])
                    e["v"] = "value"
                except IndexError:
                    e["v"] = "IndexError"
                try:
                    F.addF(o["id"], Vector3(1, 1, 1))
                    e["v"] = "value"
                except IndexError:
                    pass
            elif op == "get":
                q, i, s = o["q"], o["id"], o["sync"]
                v = {"F": lambda: F.f(i, sync=s), "T": lambda: F.t(i, sync=s), "M": lambda: F.move(i), "R": lambda: F.rot(i)}[q]()
                e["v"] = iv(v)
            elif op == "getperm":
                F.f(o["id"], sync=True)
                e["v"] = iv((F.permF if o["q"] == "F" else F.permT)(o["id"]))
            tr.append(e)
        return tr
