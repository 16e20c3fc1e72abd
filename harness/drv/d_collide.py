"""collision detection (spec/Boxes.tla)"""
from yd import *


def mk(c):
    x = Vector3(*c["x"])
    if c["k"] == "sphere":
        b = utils.sphere(x, c["r"])
    elif c["k"] == "box":
        b = utils.box(x, Vector3(*c["ext"]))
    elif c["k"] == "wall":
        b = utils.wall(x, c["axis"] - 1)
    elif c["k"] == "facet":
        b = utils.facet([x + Vector3(*v) for v in c["vert"]])
    else:
        b = Body()
        b.state.pos = x
    b.mask = c["mask"]
    if not c["bnd"]:
        b.bounded = False
    b.subdomain = c["sub"]
    return b


class Driver:
    def __init__(self, params):
        pass

    def run(self, sc):
        O.reset()
        O.materials.append(FrictMat())
        o = sc["opt"]
        col = InsertionSortCollider([Bo1_Sphere_Aabb(aabbEnlargeFactor=o["enl"] if o["enl"] != 1 else -1), Bo1_Box_Aabb(), Bo1_Facet_Aabb(), Bo1_Wall_Aabb()],
                                    verletDist=o["verlet"], sortAxis=o["axis"], sortThenCollide=o["stc"], ompThreads=o["omp"], targetInterv=o["ti"])
        col.avoidSelfInteractionMask = o["avoid"]
        O.engines = [ForceResetter(), col, NewtonIntegrator(dead=True)]
        O.dt = 1e-3
        tr = [{"op": "new", "avoid": o["avoid"], "slack": o["slack"]}]
        cfg = {}

        def put(bodies, at=None):
            new = []
            for c in bodies:
                b = mk(c)
                i = O.bodies.append(b) if at is None else O.bodies.insertAtId(b, at)
                if at is not None:
                    i = at
                c = dict(c, id=i, clump=0, isc=False, enl=o["enl"])
                cfg[i] = c
                new.append(c)
            return new
        for op in sc["ops"]:
            k = op["op"]
            if k == "put":
                tr.append({"op": "put", "bodies": put(op["bodies"])})
            elif k == "clump":   # a clump of new spheres
                new = put(op["bodies"])
                cid = O.bodies.clump([c["id"] for c in new])
                for c in new:
                    c["clump"] = cid
                O.bodies[cid].mask = op["mask"]
                c = {"k": "none", "x": [0, 0, 0], "bnd": False, "mask": op["mask"], "sub": 0, "id": cid, "clump": 0, "isc": True}
                cfg[cid] = c
                tr.append({"op": "put", "bodies": new + [c]})
            elif k == "erase":
                ids = sorted(cfg)
                if not ids:
                    continue
                i = ids[op["n"] % len(ids)]
                c = cfg[i]
                if c["isc"] or c["clump"]:
                    continue
                O.bodies.erase(i)
                del cfg[i]
                tr.append({"op": "erase", "ids": [i]})
            elif k == "reuse":
                free = [i for i in range(len(O.bodies)) if i not in cfg]
                if not free:
                    continue
                tr.append({"op": "put", "bodies": put([op["body"]], free[op["n"] % len(free)])})
            elif k == "move":
                ids = sorted(i for i in cfg if not cfg[i]["isc"])
                if not ids:
                    continue
                sel, ds = [], []
                for n, d in op["what"]:
                    i = ids[n % len(ids)]
                    if i in sel:
                        continue
                    sel.append(i)
                    ds.append(d)
                    O.bodies[i].state.pos += Vector3(*d)
                tr.append({"op": "move", "ids": sel, "d": ds})
            elif k == "sort":
                col.doSort = True
            elif k == "run":
                O.step()
                pairs = []
                for i in O.interactions.all():
                    pairs.append(sorted([i.id1, i.id2]))
                tr.append({"op": "run", "pairs": sorted(pairs)})
        col.avoidSelfInteractionMask = 0
        return tr
