"""contacts while bodies move (spec/TMotion.tla)"""
from yd import *


class Driver:
    def __init__(self, params):
        pass

    def run(self, sc):
        O.reset()
        O.materials.append(FrictMat(young=sc.get("young", 1e-9), poisson=.3, frictionAngle=.5, density=1e-3))
        o = sc["opt"]
        col = InsertionSortCollider([Bo1_Sphere_Aabb(), Bo1_Box_Aabb(), Bo1_Facet_Aabb(), Bo1_Wall_Aabb()], verletDist=o["verlet"], targetInterv=o["ti"],
                                    minSweepDistFactor=o["msf"], sortAxis=o["axis"], sortThenCollide=o["stc"])
        il = InteractionLoop([Ig2_Sphere_Sphere_ScGeom(), Ig2_Wall_Sphere_ScGeom(), Ig2_Box_Sphere_ScGeom(), Ig2_Facet_Sphere_ScGeom()],
                             [Ip2_FrictMat_FrictMat_FrictPhys()], [Law2_ScGeom_FrictPhys_CundallStrack()])
        nw = NewtonIntegrator(damping=sc.get("damp", 0), gravity=sc.get("g", (0, 0, 0)))
        O.engines = [ForceResetter(), col, il, nw] if not o["late"] else [nw, ForceResetter(), col, il]
        O.dt = o["dt"]
        S = sc["scale"]
        tr = [{"op": "new", "tol": sc["tol"]}]
        kind = {}

        def put(c, at=None):
            x = Vector3(*c["x"])
            if c["k"] == "sphere":
                b = utils.sphere(x, c["r"])
            elif c["k"] == "wall":
                b = utils.wall(x, c["axis"] - 1)
            elif c["k"] == "box":
                b = utils.box(x, c["ext"])
            else:
                v = [Vector3.Zero, Vector3.Zero, Vector3.Zero]
                v[1] = Vector3.Unit(c["b"] - 1) * c["lb"]
                v[2] = Vector3.Unit(c["c"] - 1) * c["lc"]
                b = utils.facet([x + q for q in v])
            b.mask = c["mask"]
            if not c.get("dyn"):
                b.state.blockedDOFs = "xyzXYZ"
            b.state.vel = c["vel"]
            if at is None:
                i = O.bodies.append(b)
            else:
                i = at
                O.bodies.insertAtId(b, at)
            d = dict(c, id=i, clump=-1)
            for q in ("x", "vel", "dyn"):
                d.pop(q, None)
            for q in ("r", "lb", "lc"):
                if q in d:
                    d[q] = int(round(d[q] * S))
            if "ext" in d:
                d["ext"] = [int(round(v * S)) for v in d["ext"]]
            kind[i] = d
            # facets are centred at the incentre: remember the offset of the corner
            d["off"] = [x[k] - b.state.pos[k] for k in range(3)] if c["k"] == "facet" else [0, 0, 0]
            return d

        def log(ds):
            tr.append({"op": "put", "bodies": [{k: v for k, v in d.items() if k != "off"} for d in ds]})
        ids = []
        for op in sc["ops"]:
            k = op["op"]
            if k == "put":
                ds = [put(c) for c in op["bodies"]]
                ids += [d["id"] for d in ds]
                log(ds)
            elif k == "clump":
                ds = [put(c) for c in op["bodies"]]
                cid = O.bodies.clump([d["id"] for d in ds])
                for d in ds:
                    d["clump"] = cid
                cb = O.bodies[cid]
                cb.state.vel, cb.state.angVel = op["vel"], op["angVel"]
                cb.state.blockedDOFs = "" if op.get("dyn") else "xyzXYZ"
                if not op.get("dyn"):
                    cb.dynamic = False
                    cb.state.vel, cb.state.angVel = op["vel"], op["angVel"]
                kind[cid] = {"id": cid, "k": "none", "clump": -1, "mask": 0, "off": [0, 0, 0]}
                log(ds + [kind[cid]])
            elif k == "vel":
                for i, v in zip(op["ids"], op["v"]):
                    if i < len(ids) and O.bodies[ids[i]]:
                        O.bodies[ids[i]].state.vel = v
            elif k == "erase":
                i = ids[op["i"] % len(ids)]
                if O.bodies[i]:
                    O.bodies.erase(i)
                    kind.pop(i)
                    tr.append({"op": "erase", "ids": [i]})
                    if op.get("new"):
                        log([put(op["new"], at=i)])
            elif k == "dt":
                O.dt = op["dt"]
            elif k == "verlet":
                col.verletDist = op["v"]
            elif k == "save":
                O.saveTmp()
                O.loadTmp()
                col = [e for e in O.engines if isinstance(e, InsertionSortCollider)][0]
            elif k == "step":
                for _ in range(op["n"]):
                    if not o["late"]:
                        pos = self.pos(kind, S)
                    O.step()
                    if o["late"]:
                        pos = self.pos(kind, S)
                    real = sorted([min(i.id1, i.id2), max(i.id1, i.id2)] for i in O.interactions if i.isReal)
                    tr.append({"op": "step", "pos": pos, "real": real})
        return tr

    def pos(self, kind, S):
        return [[i, [int(round((O.bodies[i].state.pos[k] + d["off"][k]) * S)) for k in range(3)]] for i, d in sorted(kind.items())]
