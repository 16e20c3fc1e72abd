"""totals reported about a scene, and actions on many bodies (spec/TObserve.tla)"""
import math
from yd import *
N = 20000


def I(v):
    return [int(round(x)) for x in v]


def T(m, s=1.):
    return [[int(round(m[i, j] * s)) for j in range(3)] for i in range(3)]


def bits(m):
    return [k for k in range(6) if m >> k & 1]


class Driver:
    def __init__(self, params):
        pass

    def bodies(self):
        out = []
        O.forces.f(0, sync=True)
        for b in O.bodies:
            s = b.state
            R = s.ori.toRotationMatrix()
            out.append({"id": b.id, "p": I(s.pos), "v": I(s.vel), "w": I(s.angVel), "L": I(s.angMom), "m": int(round(s.mass)), "I": I(s.inertia), "R": [I(R.col(k) * 1000) for k in range(3)], "asph": b.aspherical, "dyn": b.dynamic,
                        "block": s.blockedDOFs == "xyzXYZ", "mask": bits(b.mask), "clump": b.isClump, "member": b.isClumpMember, "owner": b.clumpId if b.isClumpMember else -1, "members": sorted(b.shape.members.keys()) if b.isClump else [],
                        "r": int(round(b.shape.radius)) if isinstance(b.shape, Sphere) else 0, "f": I(O.forces.f(b.id)), "t": I(O.forces.t(b.id))})
        return out

    def contacts(self):
        out = []
        for k in O.interactions:
            if k.isReal:
                g, p = k.geom, k.phys
                sh = O.cell.hSize * Vector3(k.cellDist[0], k.cellDist[1], k.cellDist[2]) if O.periodic else Vector3.Zero
                out.append({"id1": k.id1, "id2": k.id2, "sh": I(sh), "fn": I(p.normalForce), "fs": I(p.shearForce), "n": I(g.normal * N), "cp": I(g.contactPoint * 1000), "un": int(round(g.penetrationDepth * 1000)),
                            "r1": int(round(g.refR1)), "r2": int(round(g.refR2)), "tan": int(round(math.atan(p.tangensOfFrictionAngle) * 1000))})
        return sorted(out, key=lambda c: (c["id1"], c["id2"]))

    def run(self, sc):
        O.reset()
        self.moved = False
        if sc["peri"]:
            O.periodic = True
            O.cell.setBox(*sc["peri"])
            if sc["shear"]:
                O.cell.hSize = O.cell.hSize + Matrix3(0, sc["shear"], 0, 0, 0, 0, 0, 0, 0)
            O.cell.velGrad = Matrix3(*sc["G"])
        for c in sc["bodies"]:
            m = FrictMat(young=1e3, poisson=.3, frictionAngle=c["fa"] / 1000., density=1)
            if c["k"] == "f":
                b = utils.facet([Vector3(*c["x"]) + Vector3(*d) for d in ((-9, -9, 0), (9, -9, 0), (0, 9, 0))], material=m)
            else:
                b = utils.sphere(c["x"], c["r"], material=m)
            O.bodies.append(b)
        for i, c in enumerate(sc["bodies"]):
            O.bodies[i].state.blockedDOFs = "xyzXYZ" if c["fixed"] else ""
        for cl in sc["clumps"]:
            cid = O.bodies.clump(cl)
            if sc["clumpFixed"]:
                O.bodies[cid].state.blockedDOFs = "xyzXYZ"
        for b, c in zip(O.bodies, sc["state"]):
            if isinstance(b.shape, Facet):
                b.mask = c["mask"]
                b.state.pos = I(b.state.pos)
                continue
            s = b.state
            s.pos, s.vel, s.angVel, s.angMom, s.mass, s.inertia, b.mask = I(s.pos), c["v"], c["w"], c["L"], c["m"], c["I"], c["mask"]
            if c["asph"]:
                b.aspherical = True
                s.ori = Quaternion(c["q"][:3], c["q"][3])
        O.engines = [ForceResetter(), InsertionSortCollider([Bo1_Sphere_Aabb(), Bo1_Facet_Aabb()], verletDist=0), InteractionLoop([Ig2_Sphere_Sphere_ScGeom(), Ig2_Facet_Sphere_ScGeom()], [Ip2_FrictMat_FrictMat_FrictPhys()], [Law2_ScGeom_FrictPhys_CundallStrack()]),
                     NewtonIntegrator(dead=True, gravity=sc["g"])]
        O.dt = 1
        O.step()
        O.forces.reset()
        if sc["peri"]:
            O.cell.velGrad = Matrix3(*sc["G"])
        tr = []
        fs = list(sc["forces"])
        for k in O.interactions:
            if k.isReal:
                k.phys.normalForce = fs[(k.id1 * 7 + k.id2) % len(fs)]
                k.phys.shearForce = fs[(k.id1 + k.id2 * 5 + 3) % len(fs)]
        for i, f, t in sc["ext"]:
            if O.bodies[i]:
                O.forces.addF(i, f)
                O.forces.addT(i, t)
        for o in sc["ops"]:
            k = o["op"]
            if k == "obs":
                tr.append(self.observe(sc, o))
            elif k == "erase":
                self.moved = True
                if o["id"] < len(O.bodies) and O.bodies[o["id"]] and len([b for b in O.bodies]) > 2:
                    O.bodies.erase(o["id"])
            else:
                self.moved = self.moved or k in ("shift", "pos", "grow")
                e = dict(o, op="act", act=k, B=self.bodies(), C=self.contacts(), mat=[int(round(O.bodies[i].material.frictionAngle * 1000)) if O.bodies[i] and O.bodies[i].material else 0 for i in range(len(O.bodies))])
                if k == "calm":
                    utils.calm(sum(1 << x for x in o["mask"]) if o["mask"] else -1)
                elif k == "shift":
                    e["ids"] = [i for i in o["ids"] if i < len(O.bodies)]
                    utils.shiftBodies(e["ids"], o["by"])
                elif k in ("pos", "vel"):
                    if not (o["id"] < len(O.bodies) and O.bodies[o["id"]]):
                        continue
                    (utils.setBodyPosition if k == "pos" else utils.setBodyVelocity)(o["id"], o["by"], "".join("xyz"[a - 1] for a in o["axes"]))
                elif k == "grow":
                    utils.growParticles(2, o["mass"], o["dynOnly"])
                elif k == "friction":
                    utils.setContactFriction(o["angle"] / 1000.)
                e["B2"], e["C2"] = self.bodies(), self.contacts()
                tr.append(e)
        return tr

    def observe(self, sc, o):
        B, C = self.bodies(), self.contacts()
        ids = [b["id"] for b in B]
        sph = [b for b in B if b["r"]]
        lo = [min([b["p"][i] - b["r"] for b in sph] or [0]) for i in range(3)]
        hi = [max([b["p"][i] + b["r"] for b in sph] or [0]) for i in range(3)]
        V = (hi[0] - lo[0]) * (hi[1] - lo[1]) * (hi[2] - lo[2])
        if O.periodic:
            V = O.cell.volume
        m = sum(1 << x for x in o["mask"]) if o["mask"] else -1
        q = [i for i in o["ids"] if i in ids]
        r = {"mask": o["mask"], "ids": q, "org": o["org"], "dir": o["dir"], "dz": o["dz"], "z0": o["z0"], "blo": o["blo"], "bhi": o["bhi"]}
        r["mom"] = I(utils.momentum())
        r["ang"] = I(utils.angularMomentum(Vector3(*o["org"])))
        ke, mid = utils.kineticEnergy(findMaxId=True)
        r["ke"], r["maxid"] = int(round(2000 * ke)), mid
        r["sf"] = int(round(utils.sumForces(q, o["dir"])))
        r["st"] = int(round(utils.sumTorques(q, o["dir"], o["org"])))
        r["vol"] = int(round(utils.getSpheresVolume(m) * 3 / 4 / math.pi))
        r["mass"] = int(round(utils.getSpheresMass(m)))
        r["stress"] = T(utils.getStress(1))
        r["stressv"] = T(utils.getStress(), V) if sph else []
        r["dyn"] = T(utils.getTotalDynamicStress(1))
        r["dynb"] = [T(t, 4 / 3. * math.pi * (O.bodies[i].shape.radius ** 3 if O.bodies[i] and isinstance(O.bodies[i].shape, Sphere) else 0)) for i, t in enumerate(utils.getDynamicStress())]
        r["plane"] = I(utils.forcesOnPlane(o["org"], o["dir"]))
        r["tot"] = I(utils.totalForceInVolume()[0])
        r["over"] = int(round(utils.maxOverlapRatio() * 1000))
        r["num"] = list(utils.numIntrsOfEachBody())
        r["lists"] = [sorted(k.id2 if k.id1 == i else k.id1 for k in s) for i, s in enumerate(utils.intrsOfEachBody())]
        r["touch"] = [sorted(utils.getBodyIdsContacts(b["id"])) for b in B]
        r["hist"] = [list(x) for x in zip(*utils.bodyNumInteractionsHistogram(()))]
        r["histbox"] = [list(x) for x in zip(*utils.bodyNumInteractionsHistogram((Vector3(*o["blo"]), Vector3(*o["bhi"]))))]
        r["fab"] = T(utils.fabricTensor()[0], 10000 * len(C)) if C and not O.periodic and not self.moved and all(O.bodies[c[k]].shape.__class__ == Sphere for c in C for k in ("id1", "id2")) else []
        r["bs"] = [T(t, 1000 * 4 / 3. * math.pi * (O.bodies[i].shape.radius ** 3 if O.bodies[i] and isinstance(O.bodies[i].shape, Sphere) else 0)) for i, t in enumerate(utils.bodyStressTensors())]
        x = utils.aabbExtrema() if sph else [Vector3.Zero] * 2
        y = utils.aabbExtrema(.25) if sph else x
        r["lo"], r["hi"], r["clo"], r["chi"] = I(x[0]), I(x[1]), I(y[0] * 8), I(y[1] * 8)
        ex = [utils.negPosExtremeIds(a, 2.) if sph else ([], []) for a in range(3)]
        r["neg"], r["pos"] = [sorted(t[0]) for t in ex], [sorted(t[1]) for t in ex]
        r["solid"] = int(round((1 - utils.porosity()) * V * 3 / 4 / math.pi * 100)) if sph else 0
        mv = [b for b in B if b["dyn"] and not b["member"]]
        ok = mv and C and sum(sum((a + b) ** 2 for a, b in zip(c["fn"], c["fs"])) ** .5 for c in C) > 8 * len(C)
        r["unb"] = [int(round(utils.unbalancedForce(useMaxForce=u) * 1000)) for u in (False, True)] if ok else []
        if ok and max(r["unb"]) > 100000:
            r["unb"] = []
        lay = utils.getStressProfile_contact(1, o["nl"], o["dz"], o["z0"])[0]
        r["lay"] = [] if O.periodic else [T(t, 1000) for t in lay]
        cen = utils.getDepthProfiles_center(1, o["nl"], o["dz"], o["z0"], False, 0)
        r["cen"] = [{"vol": int(round(cen[0][n] * 3 / 4 / math.pi)), "v": [int(round(cen[1 + a][n] * 100)) for a in range(3)]} for n in range(o["nl"])]
        G = O.cell.velGrad if O.periodic else Matrix3.Zero
        return {"op": "obs", "peri": O.periodic, "vol": int(round(V)) if O.periodic else 0, "G": T(G), "spin": I(O.cell.getSpin()) if O.periodic else [0, 0, 0], "g": I(sc["g"]), "B": B, "C": C, "o": r}
