"""geometry and forces of contacts (spec/TContact.tla)"""
import math
from yd import *


def rnd(v, s):
    return [int(round(x * s)) for x in v]


class Driver:
    def __init__(self, params):
        pass

    def run(self, sc):
        O.reset()
        geo = sc["mode"] == "geom"
        if sc.get("cell"):
            O.periodic = True
            O.cell.hSize = Matrix3(*[c for r in sc["cell"] for c in r])
        self.info, self.off = {}, {}
        for c in sc["bodies"]:
            m = FrictMat(young=c["E"], poisson=c["nu"] / 10., frictionAngle=math.atan(c["mu"] / 1000.), density=sc.get("rho", 1e-3))
            x = Vector3(*c["x"])
            if c["k"] == "sphere":
                b = utils.sphere(x, c["r"], material=m)
            elif c["k"] == "wall":
                b = utils.wall(x, c["axis"] - 1, material=m)
            elif c["k"] == "box":
                b = utils.box(x, c["ext"], material=m)
                if c.get("perm"):     # a box turned by a quarter, extents given in the turned frame
                    q = Quaternion(Vector3.Unit(c["perm"] - 1), math.pi / 2)
                    e = list(c["ext"])
                    i, j = [k for k in range(3) if k != c["perm"] - 1]
                    e[i], e[j] = e[j], e[i]
                    b.shape.extents = e
                    b.state.ori = q
            else:
                v = [Vector3.Zero, Vector3.Unit(c["b"] - 1) * c["lb"], Vector3.Unit(c["c"] - 1) * c["lc"]]
                r = c.get("rot", 0)
                v = v[r:] + v[:r]
                b = utils.facet([x + q for q in v], material=m)
            if not c.get("dyn"):
                b.state.blockedDOFs = "xyzXYZ"
            b.state.vel = c.get("vel", (0, 0, 0))
            b.state.angVel = c.get("angVel", (0, 0, 0))
            i = O.bodies.append(b)
            self.info[i] = {k: c[k] for k in c if k in ("k", "r", "axis", "ext", "b", "c", "lb", "lc", "E", "nu", "mu")}
            self.off[i] = [x[k] - b.state.pos[k] for k in range(3)]
        O.engines = [ForceResetter(), InsertionSortCollider([Bo1_Sphere_Aabb(), Bo1_Box_Aabb(), Bo1_Facet_Aabb(), Bo1_Wall_Aabb()], verletDist=sc.get("verlet", 0)),
                     InteractionLoop([Ig2_Sphere_Sphere_ScGeom(avoidGranularRatcheting=sc.get("ratch", True)), Ig2_Wall_Sphere_ScGeom(), Ig2_Box_Sphere_ScGeom(), Ig2_Facet_Sphere_ScGeom()] if not sc.get("six") else
                                     [Ig2_Sphere_Sphere_ScGeom6D(), Ig2_Wall_Sphere_ScGeom(), Ig2_Box_Sphere_ScGeom6D(), Ig2_Facet_Sphere_ScGeom6D()],
                                     [Ip2_FrictMat_FrictMat_FrictPhys()], [Law2_ScGeom_FrictPhys_CundallStrack(traceEnergy=sc.get("energy", False), sphericalBodies=sc.get("sph", False))]),
                     NewtonIntegrator(damping=0)]
        O.dt = sc.get("dt", 1)
        O.trackEnergy = sc.get("track", False)
        tr = [{"op": "new"}]
        for _ in range(sc.get("steps", 1)):
            st = {i: Vector3(O.bodies[i].state.pos) for i in self.info}
            O.step()
            tr.append(self.look(sc, st, geo))
        return tr

    def look(self, sc, st, geo):
        ids = sorted(self.info)
        idx = {i: k + 1 for k, i in enumerate(ids)}
        S = 1 if geo else 100
        B = []
        for i in ids:
            x = [st[i][k] + self.off[i][k] for k in range(3)] if geo else st[i]
            d = dict(self.info[i], id=i, x=rnd(x, S))
            if not geo:
                d["f"], d["t"] = rnd(O.forces.f(i), 10), rnd(O.forces.t(i), 10)
            B.append(d)
        C = []
        for k in O.interactions:
            if not k.isReal:
                continue
            sh = O.cell.hSize * Vector3(*[float(v) for v in k.cellDist]) if O.periodic else Vector3.Zero
            C.append({"id1": k.id1, "id2": k.id2, "p1": idx[k.id1], "p2": idx[k.id2], "shift": rnd(sh, 1), "n": rnd(k.geom.normal, 1000), "un": int(round(k.geom.penetrationDepth * 100)),
                      "cp": rnd(k.geom.contactPoint, 100), "kn": int(round(k.phys.kn * 100)), "ks": int(round(k.phys.ks * 100)), "mu": int(round(k.phys.tangensOfFrictionAngle * 1000)),
                      "fn": rnd(k.phys.normalForce, 10), "fs": rnd(k.phys.shearForce, 10), "fnn": int(round(k.phys.normalForce.norm() * 10)), "fsn": int(round(k.phys.shearForce.norm() * 10))})
        return {"op": "geom" if geo else "law", "b": B, "contacts": C, "torque": sc.get("torque", True), "free": not O.periodic, "L": [sc["cell"][i][i] for i in range(3)] if sc.get("home") else []}
