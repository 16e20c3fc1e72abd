"""automatic time step (spec/TTimeStep.tla)"""
import math
from yd import *
N = 20000


def rnd(v, s):
    return [int(round(x * s)) for x in v]


class Driver:
    def __init__(self, params):
        pass

    def run(self, sc):
        O.reset()
        law = sc["law"]
        for c in sc["bodies"]:
            if law == "visc":
                m = ViscElMat(kn=c["E"], ks=c["E"] * c["nu"], cn=c["cn"], cs=c["cs"], young=c["E"], poisson=c["nu"], frictionAngle=.5, density=1)
            elif law == "coh":
                m = CohFrictMat(young=c["E"], poisson=c["nu"], frictionAngle=.5, density=1, isCohesive=True, normalCohesion=c["coh"], shearCohesion=1e3, alphaKr=c["akr"], alphaKtw=c["akt"], momentRotationLaw=True)
            else:
                m = FrictMat(young=c["E"], poisson=c["nu"], frictionAngle=.5, density=1)
            b = utils.sphere(c["x"], c["r"], material=m)
            O.bodies.append(b)
            b.state.blockedDOFs = "xyzXYZ" if c["fixed"] else "xyzXY"
        cid = None
        if sc["clump"]:
            cid = O.bodies.clump(sc["clump"])
            O.bodies[cid].state.blockedDOFs = "xyzXYZ" if sc["clumpFixed"] else "xyzXY"
        for b, m in zip(O.bodies, sc["mass"]):
            b.state.mass = m["m"]
            b.state.inertia = m["I"]
        g6 = Ig2_Sphere_Sphere_ScGeom6D() if law == "coh" else Ig2_Sphere_Sphere_ScGeom()
        ip, l2 = {"visc": (Ip2_ViscElMat_ViscElMat_ViscElPhys(), Law2_ScGeom_ViscElPhys_Basic()), "coh": (Ip2_CohFrictMat_CohFrictMat_CohFrictPhys(setCohesionOnNewContacts=True), Law2_ScGeom6D_CohFrictPhys_CohesionMoment()),
                  "frict": (Ip2_FrictMat_FrictMat_FrictPhys(), Law2_ScGeom_FrictPhys_CundallStrack(neverErase=sc["never"])), "mindlin": (Ip2_FrictMat_FrictMat_MindlinPhys(), Law2_ScGeom_MindlinPhys_Mindlin())}[law]
        ts = GlobalStiffnessTimeStepper(timestepSafetyCoefficient=sc["safety"] / 1000., timeStepUpdateInterval=sc["interval"], viscEl=sc["visc"], defaultDt=sc["def"] / 1e4 if sc["def"] >= 0 else -1, active=True)
        if sc["max"] >= 0:
            ts.maxDt = sc["max"] / 1e4
        O.engines = [ForceResetter(), InsertionSortCollider([Bo1_Sphere_Aabb()], verletDist=0), InteractionLoop([g6], [ip], [l2]), ts, NewtonIntegrator(damping=0)]
        O.dt = 1e-6
        tr = [{"op": "new", "def": sc["def"]}]
        for o in sc["ops"]:
            ts = O.engines[3]
            if o["op"] == "set":
                setattr(ts, {"active": "active", "interval": "timeStepUpdateInterval", "safety": "timestepSafetyCoefficient", "visc": "viscEl", "max": "maxDt"}[o["n"]], o["v"] / {"safety": 1000., "max": 1e4}[o["n"]] if o["n"] in ("safety", "max") else o["v"])
                continue
            if o["op"] == "dt":
                O.dt = o["v"] / 1e4
                continue
            if o["op"] == "load":
                O.saveTmp(quiet=True)
                O.loadTmp(quiet=True)
                continue
            if o["op"] == "add":
                if cid is None:
                    b = utils.sphere(o["x"], o["r"], material=O.bodies[0].material)
                    O.bodies.append(b)
                    b.state.blockedDOFs = "xyzXYZ" if o["fixed"] else "xyzXY"
                    b.state.mass, b.state.inertia = o["m"], o["I"]
                continue
            # the displacement of this step is prescribed, whatever the time step
            for i, x in o["to"]:
                b = O.bodies[i]
                if b and not b.isClumpMember and not b.isClump:
                    b.state.pos = x
            dt0 = O.dt
            for b in O.bodies:
                b.state.vel = b.state.angVel = Vector3.Zero
            O.step()
            C = []
            for k in O.interactions:
                if k.isReal:
                    p, g = k.phys, k.geom
                    C.append({"id1": k.id1, "id2": k.id2, "n": rnd(g.normal, N), "kn": int(round(p.kn * 1000)), "ks": int(round(p.ks * 1000)), "r1": int(round(g.refR1)), "r2": int(round(g.refR2)), "force": p.normalForce.squaredNorm() != 0,
                              "ktw": int(round(p.ktw * 1000)) if law == "coh" else 0, "kr": int(round(p.kr * 1000)) if law == "coh" else 0, "cn": int(round(p.cn * 1000)) if law == "visc" else 0, "cs": int(round(p.cs * 1000)) if law == "visc" else 0})
            ts = O.engines[3]
            tr.append({"op": "step", "iter": O.iter - 1, "dt0": int(round(dt0 * 1e4)), "dt": int(round(O.dt * 1e4)), "active": ts.active, "interval": ts.timeStepUpdateInterval, "safety": int(round(ts.timestepSafetyCoefficient * 1000)),
                       "visc": ts.viscEl, "max": int(round(ts.maxDt * 1e4)) if ts.maxDt < 1e5 else -1, "contacts": C,
                       "bodies": [{"id": b.id, "m": int(round(b.state.mass * 1000)), "I": rnd(b.state.inertia, 1000), "clump": b.isClump, "members": sorted(b.shape.members.keys()) if b.isClump else [],
                                   "free": b.dynamic and not b.isClumpMember, "r": int(round(b.shape.radius)) if isinstance(b.shape, Sphere) else 0, "E": int(round(b.material.young * 1000)) if isinstance(b.shape, Sphere) else 0} for b in O.bodies]})
        return tr
