"""integration of motion (spec/Newton.tla)"""
from yd import *
import math

VS, PS = 1024., 8192.
BAD = [2 ** 30 + 1] * 3


def ex(v, s):
    "exactly representable in model units, or a value nothing equals"
    r = [int(round(x * s)) if abs(x * s) < 2 ** 30 else 2 ** 30 for x in v]
    return r if all(a == b * s for a, b in zip(r, v)) else BAD


def rd(v, s):
    return [int(round(x * s)) if abs(x * s) < 2 ** 30 else 2 ** 30 for x in v]


def rotvec(q):
    a, ang = q.toAxisAngle()
    if ang > math.pi:
        ang -= 2 * math.pi
    return a * ang if a == a else Vector3.Zero


class Driver:
    def __init__(self, params):
        pass

    def run(self, sc):
        O.reset()
        O.materials.append(FrictMat())
        self.newton = NewtonIntegrator(kinSplit=sc.get("split", False))
        # time stepper present but inactive, as density scaling is switched through it
        O.engines = [ForceResetter(), GlobalStiffnessTimeStepper(active=False, dead=True), PyRunner(command="HOOK()", iterPeriod=1, initRun=True), self.newton]
        import __main__, builtins
        O.trackEnergy = sc.get("energy", False)
        self.f = {}

        def hook():
            for fn, i, v in self.pending:
                getattr(O.forces, fn)(i, Vector3(*v))
        builtins.HOOK = __main__.HOOK = hook
        bodies = sc["bodies"]
        self.bod = []
        i = 0
        while i < len(bodies):
            c = bodies[i]
            if c["kind"] == "clump":
                mem = [bodies[j - 1] for j in c["mem"]]
                cid, mids = O.bodies.appendClumped([utils.sphere(Vector3(*m["pos"]), m["r"]) for m in mem])
                # in the scenario members come first, then the clump, which is how ids come out
            elif c["kind"] == "member":
                pass
            else:
                O.bodies.append(utils.sphere(Vector3(*c["pos"]), 1.))
            i += 1
        # ids: for each clump group members first
        self.ids = list(range(len(bodies)))
        assert len(O.bodies) == len(bodies)
        self.cfg = [dict(c) for c in bodies]
        for k, c in enumerate(self.cfg):
            self.apply(k, c, True)
        self.setpar(sc["par"])
        tr = [{"op": "new", "par": sc["par"], "bod": [self.pub(c) for c in self.cfg], "obs": self.obs(None)}]
        n = len(bodies)
        for o in sc["ops"]:
            if o["op"] == "par":
                self.setpar(o["par"])
                tr.append(o)
            elif o["op"] == "body":
                c = self.cfg[o["i"]]
                c.update(o["c"])
                self.apply(o["i"], c, False, o["c"])
                tr.append({"op": "body", "i": o["i"] + 1, "c": self.pub(c), "obs": self.obs(None)})
            else:
                z = [[0, 0, 0] for _ in range(n)]
                f, t, mv, rot = [list(map(list, z)) for _ in range(4)]
                self.pending = []
                for q, i, v in o["forces"]:
                    dst, fn = {"f": (f, "addF"), "t": (t, "addT"), "m": (mv, "addMove"), "r": (rot, "addRot")}[q]
                    self.pending.append((fn, i, v))
                    dst[i] = [a + b for a, b in zip(dst[i], v)]
                pre = [(b.state.ori, Quaternion(b.state.ori).conjugate()) for b in O.bodies]
                w0 = [[(x > 0) - (x < 0) for x in b.state.angVel] for b in O.bodies]
                wx = [all(x == 0 or abs(x) > 1e-6 for x in b.state.angVel) for b in O.bodies]
                O.step()
                tr.append({"op": "step", "f": f, "t": t, "mv": mv, "rot": rot, "w0": w0, "wx": wx, "obs": self.obs(pre)})
        return tr

    def pub(self, c):
        return {k: c[k] for k in ("kind", "m", "I", "fixT", "fixR", "damp", "ds", "act", "mem", "asph")} | {"moves": c["moves"]}

    def setpar(self, p):
        O.dt = .5 ** p["k"]
        self.newton.gravity = Vector3(*p["g"])
        self.newton.damping = p["d"] / 4.
        if self.newton.densityScaling != p["dens"]:
            self.newton.densityScaling = p["dens"]
        self.newton.mask = p["mask"]

    def apply(self, k, c, init, ch=None):
        b = O.bodies[k]
        s = b.state
        if c["kind"] == "member":
            return
        ch = c if init else ch
        if init or "m" in ch or "I" in ch:
            s.mass = c["m"]
            s.inertia = Vector3(*c["I"])
        s.blockedDOFs = "".join("xyz"[i] for i in range(3) if c["fixT"][i]) + "".join("XYZ"[i] for i in range(3) if c["fixR"][i])
        s.isDamped = c["damp"]
        s.densityScaling = c["ds"] / 4.
        b.aspherical = c["asph"]
        b.mask = c["mask"]
        b.subdomain = 0 if c["act"] else 1
        if init:
            if c["kind"] == "clump":
                s.pos = Vector3(*c["pos"])
            s.vel = Vector3(*c["vel"])
            if c["asph"]:
                s.angMom = Vector3(*c["L"])
            else:
                s.angVel = Vector3(*c["w"])
        else:
            if "vel" in ch:
                s.vel = Vector3(*ch["vel"])
            if "w" in ch:
                s.angVel = Vector3(*ch["w"])

    def obs(self, pre):
        r = []
        for k, c in enumerate(self.cfg):
            b = O.bodies[k]
            s = b.state
            qi = Quaternion(s.ori).conjugate()
            e = {"vel": ex(s.vel, VS), "pos": ex(s.pos, PS), "w": ex(s.angVel, VS), "rv": [0, 0, 0]}
            if pre:
                e["rv"] = rd(rotvec(s.ori * pre[k][1]), 2. ** 20)
            if c["kind"] == "member":
                cl = O.bodies[c["mem"][0] - 1].state
                e["vel"], e["pos"], e["w"] = rd(s.vel, VS), rd(s.pos, PS), rd(s.angVel, VS)
                e["loc"] = rd(cl.ori.conjugate() * (s.pos - cl.pos) if pre else O.bodies[c["mem"][0] - 1].shape.members[k][0], PS)
            elif c["kind"] == "clump":
                e["w"] = rd(s.angVel, VS) if not all(c["fixR"]) else ex(s.angVel, VS)
            elif c["asph"]:
                e["w"] = rd(s.angVel, VS)
                e["L"] = rd(s.angMom, PS)
                e["wl"] = rd(qi * s.angVel, PS)
                e["Ll"] = rd((pre[k][1] if pre else qi) * s.angMom, PS)
                e["rl"] = rd(pre[k][1] * rotvec(s.ori * pre[k][1]), PS) if pre else [0, 0, 0]
            r.append(e)
        return r
