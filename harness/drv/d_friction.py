"""kinematically driven frictional contacts (spec/TFriction.tla)"""
import math
from yd import *
N, V, F = 20000, 10000, 100


def rnd(v, s):
    return [int(round(x * s)) for x in v]


class Driver:
    def __init__(self, params):
        pass

    def run(self, sc):
        O.reset()
        if sc.get("cell"):
            O.periodic = True
            O.cell.setBox(*sc["cell"])
        for c in sc["bodies"]:
            m = FrictMat(young=c["E"], poisson=c["nu"], frictionAngle=math.atan(c["mu"] / 1000.), density=1)
            if c["k"] == "sphere":
                b = utils.sphere(c["x"], c["r"], material=m)
            elif c["k"] == "wall":
                b = utils.wall(c["x"], c["axis"], material=m)
            elif c["k"] == "box":
                b = utils.box(c["x"], c["ext"], material=m)
            else:
                b = utils.facet([Vector3(*c["x"]) + Vector3(*p) for p in c["v"]], material=m)
            b.state.blockedDOFs = "xyzXYZ"
            O.bodies.append(b)
        ra = sc["ratch"]
        law = Law2_ScGeom_FrictPhys_CundallStrack(traceEnergy=sc.get("trace", False), sphericalBodies=sc.get("sph", False))
        if sc.get("six"):
            igs = [Ig2_Sphere_Sphere_ScGeom6D(avoidGranularRatcheting=ra), Ig2_Wall_Sphere_ScGeom(noRatch=ra), Ig2_Box_Sphere_ScGeom6D(), Ig2_Facet_Sphere_ScGeom6D()]
        else:
            igs = [Ig2_Sphere_Sphere_ScGeom(avoidGranularRatcheting=ra), Ig2_Wall_Sphere_ScGeom(noRatch=ra), Ig2_Box_Sphere_ScGeom(), Ig2_Facet_Sphere_ScGeom()]
        O.engines = [ForceResetter(), InsertionSortCollider([Bo1_Sphere_Aabb(), Bo1_Box_Aabb(), Bo1_Facet_Aabb(), Bo1_Wall_Aabb()], verletDist=sc.get("verlet", 0)),
                     InteractionLoop(igs, [Ip2_FrictMat_FrictMat_FrictPhys()], [law]), NewtonIntegrator(damping=0)]
        O.dt = sc["dt"]
        O.trackEnergy = sc.get("track", False)
        tr = [{"op": "new"}]
        self.di = 0
        if sc.get("grad"):
            O.cell.velGrad = Matrix3(*sc["grad"])
        for st in sc["steps"]:
            G, H0 = (O.cell.velGrad, Matrix3(O.cell.hSize)) if O.periodic else (None, None)
            for i, (v, w) in enumerate(st):
                O.bodies[i].state.vel = v
                O.bodies[i].state.angVel = w
            pos = [Vector3(b.state.pos) for b in O.bodies]
            O.step()
            C = []
            for k in O.interactions:
                if not k.isReal:
                    continue
                g, p = k.geom, k.phys
                sh = O.cell.hSize * Vector3(*[float(q) for q in k.cellDist]) if O.periodic else Vector3.Zero
                k1 = sc["bodies"][k.id1]["k"]
                dt = sc["dt"]
                r1, r2 = (g.refR1, g.refR2)
                C.append({"id1": k.id1, "id2": k.id2, "n": rnd(g.normal, N), "un": int(round(g.penetrationDepth * 100)), "kn": int(round(p.kn * 1000)), "ks": int(round(p.ks * 1000)),
                          "mu": int(round(p.tangensOfFrictionAngle * 1000)), "fs": rnd(p.shearForce, F), "fnn": int(round(p.normalForce.norm() * F)), "ratch": ra and k1 in ("sphere", "wall"),
                          "r1": int(round(r1)), "r2": int(round(r2)), "v1": rnd(Vector3(*st[k.id1][0]) * dt, V), "v2": rnd(Vector3(*st[k.id2][0]) * dt, V), "w1": rnd(Vector3(*st[k.id1][1]) * dt, V),
                          "w2": rnd(Vector3(*st[k.id2][1]) * dt, V), "c1": rnd(g.contactPoint - pos[k.id1], 100), "c2": rnd(g.contactPoint - pos[k.id2] - sh, 100), "sv": rnd(G * (H0 * Vector3(*[float(q) for q in k.cellDist])) * dt, V) if O.periodic else [0, 0, 0]})
            en = bool(sc.get("track") and not sc.get("trace")) and dict(O.energy.items())
            di = (en or {}).get("plastDissip", 0)
            tr.append({"op": "step", "contacts": C, "energy": bool(en), "el": int(round((en or {}).get("elastPotential", 0) * 10)), "di": int(round((di - self.di) * 10))})
            self.di = di
        return tr
