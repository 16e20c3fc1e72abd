"""kinematically driven cohesive contacts (spec/TCohesion.tla)"""
import math
from yd import *
N, V, F = 20000, 10000, 100


def rnd(v, s):
    return [int(round(x * s)) for x in v]


def r1(x, s):
    return int(round(x * s))


class Driver:
    def __init__(self, params):
        pass

    def run(self, sc):
        O.reset()
        mats = []
        for c in sc["bodies"]:
            m = CohFrictMat(young=c["E"], poisson=c["nu"], frictionAngle=math.atan(c["mu"] / 1000.), density=1, isCohesive=c["coh"], fragile=c["fragile"], normalCohesion=c["nc"], shearCohesion=c["sc"],
                            alphaKr=c["akr"], alphaKtw=c["akt"], etaRoll=c["er"], etaTwist=c["et"], momentRotationLaw=sc["moments"])
            b = utils.sphere(c["x"], c["r"], material=m)
            b.state.blockedDOFs = "xyzXYZ"
            O.bodies.append(b)
            mats.append({"E": r1(c["E"], 1000), "nu": r1(c["nu"], 1000), "mu": c["mu"], "cohesive": c["coh"], "fragile": c["fragile"], "nc": r1(c["nc"], 10000), "sc": r1(c["sc"], 10000),
                         "akr": r1(c["akr"], 1000), "akt": r1(c["akt"], 1000), "er": r1(c["er"], 1000), "et": r1(c["et"], 1000)})
        ip = Ip2_CohFrictMat_CohFrictMat_CohFrictPhys(setCohesionOnNewContacts=sc["onNew"])
        law = Law2_ScGeom6D_CohFrictPhys_CohesionMoment(useIncrementalForm=sc["incr"], always_use_moment_law=sc["always"], shear_creep=sc["creep"] > 0, creep_viscosity=sc["creep"] or 1)
        eng = [InteractionLoop([Ig2_Sphere_Sphere_ScGeom6D(avoidGranularRatcheting=sc["ratch"])], [ip], [law])]
        O.engines = [ForceResetter(), InsertionSortCollider([Bo1_Sphere_Aabb()], verletDist=sc["verlet"])] + eng + [NewtonIntegrator(damping=0)]
        O.dt = dt = sc["dt"]
        O.trackEnergy = sc["track"]
        tr = [{"op": "new"}]
        before = {}
        for o in sc["ops"]:
            if o["op"] == "glue":
                ip.setCohesionNow = True
                tr.append({"op": "glue"})
                continue
            if o["op"] == "attr":
                real = [i for i in O.interactions if i.isReal]
                if real:
                    i = real[o["k"] % len(real)]
                    name, v = o["name"], o["v"]
                    setattr(i.phys, {"only": "cohesionDisablesFriction", "unpMax": "unpMax", "init": "initCohesion"}[name], v)
                    tr.append({"op": "attr", "id1": i.id1, "id2": i.id2, "name": name, "v": r1(v, 10000) if name == "unpMax" else v})
                continue
            st = o["v"]
            for i, (v, w) in enumerate(st):
                O.bodies[i].state.vel = v
                O.bodies[i].state.angVel = w
            pos = [Vector3(b.state.pos) for b in O.bodies]
            O.step()
            C, now = [], {}
            for k in O.interactions:
                if not k.isReal:
                    continue
                g, p = k.geom, k.phys
                fn = p.normalForce.dot(g.normal)
                now[k.id1, k.id2] = p.kn
                C.append({"id1": k.id1, "id2": k.id2, "n": rnd(g.normal, N), "un": r1(g.penetrationDepth, 10000), "unp": r1(p.unp, 10000), "kn": r1(p.kn, 100), "ks": r1(p.ks, 1000), "kr": r1(p.kr, 1), "ktw": r1(p.ktw, 1),
                          "mu": r1(p.tangensOfFrictionAngle, 1000), "fs": rnd(p.shearForce, F), "fn": r1(fn, F), "ratch": sc["ratch"], "na": r1(p.normalAdhesion, F), "sa": r1(p.shearAdhesion, F),
                          "broken": p.cohesionBroken, "fragile": p.fragile, "mb": rnd(p.moment_bending, 10), "mt": rnd(p.moment_twist, 10), "roll": r1(p.maxRollPl, 1000), "twist": r1(p.maxTwistPl, 1000),
                          "creep": r1(p.ks * dt / sc["creep"], 10000) if sc["creep"] else 0,
                          "r1": r1(g.refR1, 1), "r2": r1(g.refR2, 1), "v1": rnd(Vector3(*st[k.id1][0]) * dt, V), "v2": rnd(Vector3(*st[k.id2][0]) * dt, V), "w1": rnd(Vector3(*st[k.id1][1]) * dt, V),
                          "w2": rnd(Vector3(*st[k.id2][1]) * dt, V), "c1": rnd(g.contactPoint - pos[k.id1], 100), "c2": rnd(g.contactPoint - pos[k.id2], 100), "sv": [0, 0, 0]})
            gone = []
            for (i, j), kn in before.items():
                if (i, j) not in now:
                    a, b = sc["bodies"][i]["r"], sc["bodies"][j]["r"]
                    gone.append({"id1": i, "id2": j, "un": r1(a + b - (pos[i] - pos[j]).norm(), 10000), "kn": r1(kn, 100), "r1": r1(a, 1), "r2": r1(b, 1)})
            before = now
            tr.append({"op": "step", "contacts": C, "gone": gone, "mats": mats, "onNew": sc["onNew"], "incr": sc["incr"], "moments": sc["moments"], "always": sc["always"],
                       "F": [rnd(O.forces.f(b.id), F) for b in O.bodies], "T": [rnd(O.forces.t(b.id), 10) for b in O.bodies]})
        return tr
