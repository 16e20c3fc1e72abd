"""collision detection and contacts in periodic space (spec/Periodic.tla)"""
from yd import *


class Driver:
    def __init__(self, params):
        pass

    def run(self, sc):
        O.reset()
        O.materials.append(FrictMat(young=1, poisson=.5, density=1))
        o = sc["opt"]
        O.periodic = True
        h = o["h"]
        if o["ortho"]:
            O.cell.setBox(h[0][0], h[1][1], h[2][2])
        else:
            O.cell.hSize = Matrix3(h[0][0], h[1][0], h[2][0], h[0][1], h[1][1], h[2][1], h[0][2], h[1][2], h[2][2])
        col = InsertionSortCollider([Bo1_Sphere_Aabb(), Bo1_Box_Aabb()], verletDist=o["verlet"], sortAxis=o["axis"], sortThenCollide=o["stc"], ompThreads=o["omp"], targetInterv=o["ti"])
        O.engines = [ForceResetter(), col] + ([InteractionLoop([Ig2_Sphere_Sphere_ScGeom()], [Ip2_FrictMat_FrictMat_FrictPhys()], [Law2_ScGeom_FrictPhys_CundallStrack()])] if o["loop"] else []) \
            + [NewtonIntegrator(dead=True)]
        O.dt = 1e-6
        tr = [{"op": "new", "h": h, "ortho": o["ortho"], "slack": o["slack"]}]
        cfg = {}

        def put(bodies, at=None):
            new = []
            for c in bodies:
                b = utils.sphere(Vector3(*c["x"]), c["r"]) if c["k"] == "sphere" else utils.box(Vector3(*c["x"]), Vector3(*c["ext"]))
                b.mask = c["mask"]
                i = O.bodies.append(b) if at is None else O.bodies.insertAtId(b, at)
                if at is not None:
                    i = at
                c = dict(c, id=i)
                cfg[i] = c
                new.append(c)
            return new
        for op in sc["ops"]:
            k = op["op"]
            ids = sorted(cfg)
            if k == "put":
                tr.append({"op": "put", "bodies": put(op["bodies"])})
            elif k == "erase" and ids:
                i = ids[op["n"] % len(ids)]
                O.bodies.erase(i)
                del cfg[i]
                tr.append({"op": "erase", "id": i})
            elif k == "reuse":
                free = [i for i in range(len(O.bodies)) if i not in cfg]
                if free:
                    tr.append({"op": "put", "bodies": put([op["body"]], free[op["n"] % len(free)])})
            elif k == "move" and ids:
                sel, ds = [], []
                for n, d in op["what"]:
                    i = ids[n % len(ids)]
                    if i not in sel:
                        sel.append(i)
                        ds.append(d)
                        O.bodies[i].state.pos += Vector3(*d)
                tr.append({"op": "move", "ids": sel, "d": ds})
            elif k == "sort":
                col.doSort = True
            elif k == "run":
                O.step()
                L = [{"id1": i.id1, "id2": i.id2, "cd": [int(x) for x in i.cellDist], "real": i.isReal} for i in O.interactions.all()]
                tr.append({"op": "run", "loop": o["loop"], "intrs": sorted(L, key=lambda q: (q["id1"], q["id2"]))})
        return tr
