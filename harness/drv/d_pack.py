"""packings: regions, generators and the packing itself (spec/TPack.tla)"""
import os, math, tempfile, shutil, warnings
from yd import *
from yade import pack
import vp_iter
vp_iter.patch()
U = 16          # units of a packing
C = 1000        # units of a random packing


def rnd(v, u):
    return [max(-10 ** 6, min(10 ** 6, int(round(x * u)) if abs(x) < 1e9 else (10 ** 6 if x > 0 else -10 ** 6))) for x in v]


def V(v, u=2.):
    return Vector3(*[x / u for x in v])


def region(r, u=2.):
    k = r["k"]
    if k == "sphere":
        return pack.inSphere(V(r["c"], u), r["r"] / u)
    if k == "box":
        return pack.inAlignedBox(V(r["lo"], u), V(r["hi"], u))
    if k == "skew":
        return pack.inParallelepiped(V(r["o"], u), V(r["a"], u), V(r["b"], u), V(r["c"], u))
    if k == "cyl":
        return pack.inCylinder(V(r["c1"], u), V(r["c2"], u), r["r"] / u)
    if k == "hyp":
        return pack.inHyperboloid(V(r["c1"], u), V(r["c2"], u), r["r"] / u, r["w"] / u)
    if k == "ell":
        return pack.inEllipsoid(V(r["c"], u), V(r["s"], u))
    if k == "notch":
        return pack.notInNotch(V(r["c"], u), V(r["e"], 1.), V(r["n"], 1.), 2 * r["h"] / u)
    if k == "half":
        return pack.inHalfSpace(V(r["c"], u), V(r["d"], 1.))
    a, b = region(r["A"], u), region(r["B"], u)
    return a | b if k == "or" else a & b if k == "and" else a - b if k == "minus" else a ^ b


def spheres(sp, u):
    return [{"c": rnd(c, u), "r": int(round(r * u)), "k": k} for c, r, k in [(s[0], s[1], s[2] if len(s) > 2 else -1) for s in sp.toList()]]


def lst(l, u=float(U)):
    return [(Vector3(*[x / u for x in s["c"]]), s["r"] / u) + ((s["k"],) if s["k"] >= 0 else ()) for s in l]


class Driver:
    def __init__(self, params):
        warnings.simplefilter("ignore")
        self.tmp = tempfile.mkdtemp(prefix="pack")

    def run(self, sc):
        O.reset()
        try:
            return getattr(self, sc["op"])(sc)
        finally:
            for f in os.listdir(self.tmp):
                os.remove(os.path.join(self.tmp, f))

    def regions(self, sc):
        out = []
        for q in sc["q"]:
            p = region(q["region"])
            e = {"op": "pred", "region": q["region"], "pts": [{"p": t[0], "pad": t[1], "in": bool(p(V(t[0]), t[1] / 2.))} for t in q["pts"]]}
            lo, hi = p.aabb()
            e["lo"], e["hi"] = rnd(lo, 200), rnd(hi, 200)
            out.append(e)
        return out

    def grids(self, sc):
        out = []
        for q in sc["q"]:
            u = 200. if q["kind"] == "hexa" else 2.
            f = pack.regularHexa if q["kind"] == "hexa" else pack.regularOrtho
            p = region(q["region"], u)
            lo, hi = p.aabb()
            b = f(p, q["r"] / u, q["gap"] / u)
            O.reset()
            O.bodies.append(b)
            out.append({"op": q["kind"], "region": q["region"], "r": q["r"], "gap": q["gap"], "lo": rnd(lo, u), "hi": rnd(hi, u), "s": [{"c": rnd(x.state.pos, u), "r": int(round(x.shape.radius * u))} for x in O.bodies]})
        return out

    def filt(self, sc):
        out = []
        for q in sc["q"]:
            sp = pack.SpherePack(lst(q["s"], 2.))
            kw = {"returnSpherePack": True} if q["asPack"] else {"returnSpherePack": False}
            r = pack.filterSpherePack(region(q["region"]), sp, **kw)
            got = [(c, x) for c, x in r] if q["asPack"] else [(b.state.pos, b.shape.radius) for b in r]
            lo, hi = region(q["region"]).aabb()
            out.append({"op": "filter", "region": q["region"], "lo": rnd(lo, 2), "hi": rnd(hi, 2), "s": q["s"], "got": [{"c": rnd(c, 2), "r": int(round(x * 2))} for c, x in got]})
        return out

    def cloud(self, sc):
        def make():
            sp = pack.SpherePack()
            for s in sc["pre"]:
                sp.add(V(s["c"], C), s["r"] / float(C))
            kw = {"num": sc["num"], "periodic": sc["peri"], "seed": sc["seed"], "distributeMass": sc["mass"], "porosity": sc["poro"]}
            if sc["h"]:
                kw["hSize"] = Matrix3(*[sc["h"][j][i] / float(C) for i in range(3) for j in range(3)])
            kw["minCorner"], kw["maxCorner"] = V(sc["lo"], C), V(sc["hi"], C)
            if sc["psd"]:
                kw["psdSizes"], kw["psdCumm"] = [s / float(C) for s in sc["psd"]["d"]], [p / 100. for p in sc["psd"]["p"]]
            else:
                kw["rRelFuzz"] = sc["fuzz"] / 100.
            if sc["r"]:
                kw["rMean"] = sc["r"] / float(C)
            try:
                n = sp.makeCloud(**kw)
            except ValueError:
                return -1, sp
            return n, sp
        n, sp = make()
        e = {"op": "cloud", "ret": n, "s": spheres(sp, C), "cell": rnd(sp.cellSize, C), "isp": sp.isPeriodic, "scale": int(round(sp.appliedPsdScaling * 10000))}
        for k in ("lo", "hi", "pre", "num", "peri", "h", "psd", "fuzz", "r", "mass", "seed"):
            e[k] = sc[k]
        if not sc["psd"]:
            e["psd"] = {"d": [], "p": []}
        e["again"] = [] if not sc["seed"] else [spheres(make()[1], C)]
        return [e]

    def clumps(self, sc):
        def make():
            sp = pack.SpherePack(lst(sc["pre"], float(C))) if sc["pre"] else pack.SpherePack()
            n = sp.makeClumpCloud(V(sc["lo"], C), V(sc["hi"], C), [pack.SpherePack(lst(t, float(C))) for t in sc["t"]], periodic=sc["peri"], num=sc["num"], seed=sc["seed"])
            return n, sp
        n, sp = make()
        return [{"op": "clumps", "lo": sc["lo"], "hi": sc["hi"], "peri": sc["peri"], "num": sc["num"], "t": sc["t"], "pre": sc["pre"], "must": sc["must"], "ret": n, "s": spheres(sp, C), "cell": rnd(sp.cellSize, C), "isp": sp.isPeriodic, "again": spheres(make()[1], C) if sc["seed"] else [], "seed": sc["seed"]}]

    def show(self, sp):
        n = len(sp)
        e = {"s": spheres(sp, U), "cell": rnd(sp.cellSize, U), "isp": bool(sp.isPeriodic), "len": n, "has": sp.hasClumps(), "one": [], "groups": [], "it": [{"c": rnd(c, U), "r": int(round(r * U))} for c, r in sp]}
        a, g = sp.getClumps()
        e["one"], e["groups"] = list(a), [list(x) for x in g]
        try:
            sp[n]
            e["past"] = True
        except RuntimeError:
            e["past"] = False
        if n:
            lo, hi = sp.aabb()
            e["lo"], e["hi"], e["dim"], e["mid2"] = rnd(lo, U), rnd(hi, U), rnd(sp.dim(), U), rnd(sp.center() * 2, U)
            V3 = 1
            for x in sp.dim():
                V3 *= x
            e["dens"] = int(round(sp.relDensity() * V3 * 3 / 4 / math.pi * 512))
            ed, cu = sp.psd(bins=4, mass=False)
            em, cm = sp.psd(bins=4, mass=True)
            tot = sum(s[1] ** 3 for s in sp)
            e["psd"] = {"d": rnd(ed, 100 * U), "n": [int(round(x * n)) for x in cu], "m": [int(round(x * tot * 512)) for x in cm]}
            e["exact"] = True
        return e

    def container(self, sc):
        sp = pack.SpherePack(lst(sc["s"])) if sc["s"] else pack.SpherePack()
        out = [dict(self.show(sp), op="new", l=sc["s"])]
        for o in sc["ops"]:
            k = o["op"]
            e = dict(o)
            if "cell" in o:
                e["cell2"] = o["cell"]
            f = os.path.join(self.tmp, "p.txt")
            try:
                err = False
                if k == "add":
                    sp.add(V(o["c"], U), o["r"] / float(U))
                elif k == "list":
                    sp.fromList(lst(o["l"]))
                elif k == "lists":
                    sp.fromList([V(s["c"], U) for s in o["l"]], [s["r"] / float(U) for s in o["l"]])
                elif k == "move":
                    sp.translate(V(o["v"], U))
                elif k == "scale":
                    sp.scale(o["a"] / float(o["b"]))
                elif k == "turn":
                    a = [0, 0, 0]
                    a[o["a"] - 1] = o["len"]
                    sp.rotate(Vector3(*a), o["n"] * math.pi / 2)
                elif k == "cell":
                    sp.cellSize = V(o["v"], U)
                    sp.isPeriodic = any(o["v"])
                elif k == "repeat":
                    sp.cellRepeat(Vector3i(*o["n"]))
                elif k == "fill":
                    sp.cellFill(V(o["v"], U))
                elif k == "file":
                    sp.save(f)
                    if o["fresh"]:
                        sp = pack.SpherePack()
                    else:
                        sp.fromList(lst(o["l"]))
                        sp.cellSize = V((160, 160, 160), U)
                        sp.isPeriodic = True
                    sp.load(f)
                elif k == "text":
                    with open(f, "w") as g:
                        if any(o["cell"]):
                            g.write("##PERIODIC:: %g %g %g\n" % tuple(x / float(U) for x in o["cell"]))
                        for i, s in enumerate(o["l"]):
                            g.write(" ".join("%g" % (x / float(U)) for x in s["c"] + [s["r"]]) + (" %d" % s["k"] if s["k"] >= 0 or i % 2 else "") + "\n")
                    sp.load(f)
                elif k == "sim":
                    O.reset()
                    r = Quaternion(Vector3(*[1 if i == o["a"] - 1 else 0 for i in range(3)]), o["n"] * math.pi / 2)
                    pre = o["pre"]
                    for _ in range(pre):
                        O.bodies.append(utils.sphere((0, 0, 50), 1))
                    ids = sp.toSimulation(rot=r)
                    e["ids"] = list(ids)
                    e["B"] = [{"id": b.id, "c": rnd(b.state.pos, U), "r": int(round(b.shape.radius * U)) if isinstance(b.shape, Sphere) else 0, "owner": b.clumpId if b.isClumpMember else -1, "clump": b.isClump} for b in O.bodies]
                    e["operi"] = O.periodic
                    e["h"] = [rnd(O.cell.hSize.col(j), U) for j in range(3)] if O.periodic else []
                    e["trsf"] = O.cell.trsf == Matrix3.Identity if O.periodic else True
                elif k == "from":
                    O.reset()
                    if any(o["cell"]):
                        O.periodic = True
                        O.cell.setBox(*V(o["cell"], U))
                    ids = []
                    for s in o["l"]:
                        ids.append(O.bodies.append(utils.sphere(V(s["c"], U), s["r"] / float(U)) if s["r"] else utils.wall(V(s["c"], U), axis=0)))
                    for g in o["groups"]:
                        if len(g) > 1:
                            O.bodies.clump([ids[j] for j in g])
                    for d in o["gone"]:
                        O.bodies.erase(ids[d])
                    if o["fresh"]:
                        sp = pack.SpherePack()
                    e["B"] = [{"id": b.id, "c": rnd(b.state.pos, U), "r": int(round(b.shape.radius * U)) if isinstance(b.shape, Sphere) else 0, "owner": b.clumpId if b.isClumpMember else -1} for b in O.bodies]
                    sp.fromSimulation()
            except (RuntimeError, ValueError):
                err = True
            e["err"] = err
            e.update(self.show(sp))
            out.append(e)
        return out
