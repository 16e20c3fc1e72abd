"""deforming periodic cell (spec/TCell.tla)"""
from yd import *


def rnd(v, s):
    return [int(round(x * s)) for x in v]


def rows(m, s):
    return [int(round(m[i, j] * s)) for i in range(3) for j in range(3)]


class Driver:
    def __init__(self, params):
        pass

    def look(self, **kw):
        c = O.cell
        d = {"H": rows(c.hSize, 1000), "trsf": rows(c.trsf, 10000), "g": rows(c.velGrad, 10000), "size": rnd(c.size, 1000), "small": rows(c.getSmallStrain(), 10000), "rcg": rows(c.getRCauchyGreenDef(), 10000),
             "b": [{"pos": rnd(b.state.pos, 1000), "vel": rnd(b.state.vel, 1000), "w": rnd(b.state.angVel, 10000), "f": self.f[b.id], "blocked": b.state.blockedDOFs == "xyzXYZ"} for b in O.bodies]}
        d.update(kw)
        return d

    def perm(self):
        for i, f in enumerate(self.f):
            O.forces.setPermF(i, f)

    def run(self, sc):
        O.reset()
        O.periodic = True
        O.cell.hSize = Matrix3(*sc["H"])
        O.cell.trsf = Matrix3(*sc.get("T", [1, 0, 0, 0, 1, 0, 0, 0, 1]))
        O.cell.homoDeform = sc["homo"]
        for c in sc["bodies"]:
            b = utils.sphere(c["x"], 1)
            b.state.mass = 1
            b.state.inertia = (1, 1, 1)
            b.state.vel, b.state.angVel = c["vel"], c["w"]
            if c.get("blocked"):
                b.state.blockedDOFs = "xyzXYZ"
            O.bodies.append(b)
        self.f = [c["f"] for c in sc["bodies"]]
        self.perm()
        O.engines = [ForceResetter(), NewtonIntegrator(damping=sc["damp"] / 100., label="newton")]
        O.dt = sc["dt"][0] / float(sc["dt"][1])
        self.sc, self.homo = sc, sc["homo"]
        tr = [self.look(op="new")]
        for op in sc["ops"]:
            k = op["op"]
            if k == "step":
                for _ in range(op["n"]):
                    O.step()
                    tr.append(self.look(op="step", dt=sc["dt"], damp=sc["damp"], homo=self.homo))
            elif k == "grad":
                O.cell.velGrad = Matrix3(*op["g"])
                tr.append(self.look(op="set", next=rows(Matrix3(*op["g"]), 10000)))
            elif k == "homo":
                O.cell.homoDeform = self.homo = op["h"]
                tr.append(self.look(op="set"))
            elif k == "trsf":
                O.cell.trsf = Matrix3(*[1, 0, 0, 0, 1, 0, 0, 0, 1])
                tr.append(self.look(op="set"))
            elif k == "vel":
                O.bodies[op["i"]].state.vel = op["v"]
                tr.append(self.look(op="set"))
            elif k == "load":
                O.saveTmp("m", quiet=True)
                O.loadTmp("m", quiet=True)
                self.perm()
                tr.append(self.look(op="load"))
        if sc.get("wrap"):
            for p in sc["wrap"]["pts"]:
                O.cell.hSize = Matrix3(*sc["wrap"]["H"])
                tr.append({"op": "wrap", "M": sc["wrap"]["H"], "p": p, "w": rnd(O.cell.wrap(p), 1000), "back": rnd(O.cell.shearPt(O.cell.unshearPt(p)), 1000), "vol": int(round(O.cell.volume))})
        return tr
