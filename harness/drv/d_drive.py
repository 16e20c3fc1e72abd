"""engines that move bodies or apply loads (spec/TDrive.tla)"""
import math
from yd import *
T48 = 2 * math.pi / 48


def rnd(v, s):
    return [int(round(x * s)) for x in v]


class Driver:
    def __init__(self, params):
        pass

    def make(self, g):
        """real engine for a description; units of the specification"""
        d0, k = self.d0, g["kind"]
        A = lambda c, **kw: c(dead=g["dead"], **({"ids": g["ids"]} if "ids" in g else {}), **kw)
        rot = lambda: dict(rotationAxis=g["axis"], rotateAroundZero=g["zero"], zeroPoint=[x / 1000. for x in g["zp"]])
        if k == "trans":
            return A(TranslationEngine, velocity=g["vel"] / 1000. / d0, translationAxis=g["axis"])
        if k == "harm":
            return A(HarmonicMotionEngine, A=[x / 1000. for x in g["A"]], f=[x / 48. / d0 for x in g["a"]], fi=[x * T48 for x in g["b"]])
        if k == "rot":
            return A(RotationEngine, angularVelocity=g["om"] / 1e4 / d0, **rot())
        if k == "hrot":
            return A(HarmonicRotationEngine, A=g["A"] / 1e4, f=g["a"] / 48. / d0, fi=g["b"] * T48, **rot())
        if k == "helix":
            return A(HelixEngine, angularVelocity=g["om"] / 1e4 / d0, linearVelocity=g["lin"] / 1000. / d0, angleTurned=g["turned"] / 1e4, **rot())
        if k == "ihelix":
            return A(InterpolatingHelixEngine, times=[t * d0 for t in g["ts"]], angularVelocities=[x / 1e4 / d0 for x in g["vs"]], wrap=g["wrap"], slope=g["slope"] / 1000., angleTurned=g["turned"] / 1e4, **rot())
        if k == "pedal":
            return A(BicyclePedalEngine, angularVelocity=g["om"] / 1e4 / d0, rotationAxis=g["axis"], radius=g["radius"] / 1000., fi=g["fi"] / 1e4)
        if k == "servo":
            return A(ServoPIDController, axis=g["axis"], maxVelocity=g["max"] / 1000. / d0, target=g["target"] / 100., kP=g["kP"] / 1000. / d0, kI=g["kI"] / 1000. / d0, kD=g["kD"] / 1000. / d0, iterPeriod=g["period"])
        if k == "comb":
            c = [self.make(x) for x in g["comb"]]
            c[0].ids = g["ids"]
            r = c[0] + c[1]
            for x in c[2:]:
                r = r + x
            r.dead = g["dead"]
            return r
        if k == "force":
            return A(ForceEngine, force=[x / 100. for x in g["f"]])
        if k == "torque":
            return A(TorqueEngine, moment=[x / 100. for x in g["f"]])
        if k == "idf":
            return A(InterpolatingDirectedForceEngine, times=[t * d0 for t in g["ts"]], magnitudes=[x / 100. for x in g["vs"]], wrap=g["wrap"], direction=g["axis"])
        if k == "radial":
            return A(RadialForceEngine, axisPt=[x / 1000. for x in g["pt"]], axisDir=g["axis"], fNorm=g["fn"] / 100.)
        if k == "drag":
            return A(DragEngine, Cd=.47, Rho=g["k"] / 1000. * d0 * d0 / (.5 * .47 * math.pi))
        if k == "ldrag":
            return A(LinearDragEngine, nu=g["k"] / 1000. * d0 / (6 * math.pi))
        if k == "grav":
            return A(GravityEngine, gravity=[x / 100. for x in g["g"]], mask=g["mask"], warnOnce=False)
        if k == "axial":
            return A(AxialGravityEngine, axisPoint=[x / 1000. for x in g["pt"]], axisDirection=g["axis"], acceleration=g["acc"] / 100., mask=g["mask"])
        if k == "central":
            return A(CentralGravityEngine, centralBody=g["centre"], accel=g["acc"] / 100., reciprocal=g["rec"], mask=g["mask"])
        if k == "disp":
            return A(StepDisplacer, mov=[x / 1000. for x in g["mov"]], rot=Quaternion(Vector3(*g["axis"]).normalized(), g["ang"] / 1e4), setVelocities=g["vels"])

    def bodies(self, full):
        d0, out = self.d0, []
        for b in O.bodies:
            s = b.state
            r = {"id": b.id, "p": rnd(s.pos, 1000), "v": rnd(s.vel * d0, 1000), "w": rnd(s.angVel * d0, 10000)}
            if full:
                r.update(clump=b.isClump, mask=b.mask, mass=int(round(s.mass)), r=int(round(b.shape.radius)) if isinstance(b.shape, Sphere) else 0)
            elif not b.isClump:
                r.update(f=rnd(O.forces.f(b.id, sync=True), 100), t=rnd(O.forces.t(b.id, sync=True), 100))
            if full or not b.isClump:
                out.append(r)
        return out

    def turned(self):
        def one(e):
            return e.angleTurned if isinstance(e, HelixEngine) else sum(one(x) for x in e.comb) if isinstance(e, CombinedKinematicEngine) else 0
        return [int(round(one(e) * 1e4)) for e in self.real()]

    def real(self):
        return [e for e in O.engines if e.__class__.__name__ not in ("ForceResetter", "NewtonIntegrator")]

    def run(self, sc):
        O.reset()
        self.d0 = d0 = sc["d0"]
        clumped = []
        for c in sc["bodies"]:
            b = utils.sphere([x / 1000. for x in c["p"]], c["r"]) if c["shape"] == "sphere" else utils.facet([[x / 1000. + d for x in c["p"]] for d in (0, 1, 2)]) if c["shape"] == "facet" else utils.box([x / 1000. for x in c["p"]], [1, 1, 1])
            if c["shape"] == "facet":
                b.shape = Facet(vertices=[[-1, 0, 0], [1, 0, 0], [0, 1, 0]])
                b.state.pos = [x / 1000. for x in c["p"]]
            i = O.bodies.append(b)
            b.state.mass, b.mask, b.state.blockedDOFs = c["mass"], c["mask"], "xyzXYZ"
            if c["clump"]:
                clumped.append(i)
        if len(clumped) > 1:
            cid = O.bodies.clump(clumped)
            O.bodies[cid].state.blockedDOFs = "xyzXYZ"
            O.bodies[cid].mask = 15
            for i in clumped:
                O.bodies[i].state.mass = sc["bodies"][i]["mass"]
        O.dt = d0
        es = [self.make(g) for g in sc["engines"]]
        late = sc["late"]
        O.engines = [ForceResetter()] + es[:late - 1] + [NewtonIntegrator(damping=0)] + es[late - 1:]
        tr = [{"op": "new", "engines": sc["engines"], "late": late}]
        t = 0
        for o in sc["ops"]:
            if o["op"] == "erase":
                if O.bodies[o["id"]] and not O.bodies[o["id"]].isClumpMember:
                    O.bodies.erase(o["id"])
            elif o["op"] == "dt":
                O.dt = d0 * o["m"]
            elif o["op"] == "time":      # back to the start
                O.resetTime()
                t = 0
            elif o["op"] == "load":
                O.saveTmp(quiet=True)
                O.loadTmp(quiet=True)
            elif o["op"] == "set":
                k, e = o["k"], self.real()[o["k"] - 1]
                for n, v in o["new"].items():
                    self.set(e, sc["engines"][k - 1], n, v)
                tr.append({"op": "set", "k": k, "new": o["new"]})
            elif o["op"] == "vel":
                b = O.bodies[o["id"]]
                if b:
                    b.state.vel = [x / 1000. / d0 for x in o["v"]]
                    b.state.angVel = [x / 1e4 / d0 for x in o["w"]]
            else:
                if any(abs(x) > 20 for b in O.bodies for x in b.state.pos):
                    break      # beyond the range of the specification's integers
                m = int(round(O.dt / d0))
                e = {"op": "step", "t": t, "m": m, "iter": O.iter, "before": self.bodies(True)}
                O.step()
                t += m
                e.update(after=self.bodies(False), turned=self.turned(), nf=len(O.bodies))
                tr.append(e)
        return tr

    def set(self, e, g, n, v):
        d0 = self.d0
        if n == "dead":
            e.dead = v
        elif n == "vel":
            e.velocity = v / 1000. / d0
        elif n == "om":
            e.angularVelocity = v / 1e4 / d0
        elif n == "axis":
            setattr(e, {"trans": "translationAxis", "idf": "direction", "radial": "axisDir", "axial": "axisDirection"}.get(g["kind"], "rotationAxis"), v)
        elif n == "f":
            setattr(e, "force" if g["kind"] == "force" else "moment", [x / 100. for x in v])
        elif n == "ids":
            e.ids = v
        elif n == "mask":
            e.mask = v
        elif n == "zp":
            e.zeroPoint = [x / 1000. for x in v]
        else:
            raise RuntimeError(n)
