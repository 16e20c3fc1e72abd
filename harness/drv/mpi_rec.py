"""mpi_rec.py IN OUT, under mpirun: run the scenarios serially on rank 0 and then distributed over all ranks, and
record both (spec/TDecomp.tla)"""
import sys, json, os, traceback, tempfile, hashlib, struct
from yd import *
from mpi4py import MPI
W = MPI.COMM_WORLD
rank, size = W.Get_rank(), W.Get_size()
from yade import mpy as mp
mp.YADE_TIMING = False
mp.mprint = mp.wprint = lambda m: None
Q = 1e6


def s2s():
    f = tempfile.mktemp(suffix=".yade")
    O.save(f, True)
    d = open(f, "rb").read()
    os.remove(f)
    return d


def ss(d):
    f = tempfile.mktemp(suffix=".yade")
    open(f, "wb").write(d)
    O.load(f, True)
    os.remove(f)


O.sceneToString, O.stringToScene = s2s, ss      # the string versions cannot carry bytes under python 3


def q(v):
    return [int(round(x * Q)) for x in v]


def digest(s):
    return hashlib.md5(struct.pack("13d", *(list(s.pos) + list(s.vel) + list(s.angVel) + [s.ori[i] for i in range(4)]))).hexdigest()[:12]


def build(sc, split):
    O.reset()
    O.splitted = O.splittedOnce = False
    O.materials.append(FrictMat(young=sc["young"], poisson=.5, frictionAngle=sc["fric"], density=1, label="m"))
    for b in sc["bodies"]:
        if b["shape"] == "sphere":
            x = utils.sphere(b["pos"], b["r"], material="m", fixed=b.get("fixed", False))
        elif b["shape"] == "box":
            x = utils.box(b["pos"], b["ext"], material="m", fixed=True)
        else:
            x = utils.wall(b["pos"], axis=b["axis"], material="m")
        O.bodies.append(x)
        if b["shape"] == "sphere":
            x.state.vel = b.get("vel", (0, 0, 0))
            if not b.get("fixed"):
                x.state.angVel = b.get("angVel", (0, 0, 0))
        elif b.get("vel"):
            x.state.vel = b["vel"]
        if split:
            x.subdomain = b["sd"]
    O.engines = [ForceResetter(),
                 InsertionSortCollider([Bo1_Sphere_Aabb(), Bo1_Box_Aabb(), Bo1_Wall_Aabb()], label="collider", verletDist=sc["verlet"], targetInterv=0),
                 InteractionLoop([Ig2_Sphere_Sphere_ScGeom(), Ig2_Box_Sphere_ScGeom(), Ig2_Wall_Sphere_ScGeom()], [Ip2_FrictMat_FrictMat_FrictPhys()],
                                 [Law2_ScGeom_FrictPhys_CundallStrack()]),
                 NewtonIntegrator(damping=sc["damp"], gravity=sc["g"], label="newton")]
    O.dt = sc["dt"]


def states(n):
    return [q(O.bodies[i].state.pos) + q(O.bodies[i].state.vel) + q(O.bodies[i].state.angVel) for i in range(n)]


def masterForces(sc):
    return [q(O.forces.f(i)) + q(O.forces.t(i)) for i, b in enumerate(sc["bodies"]) if b["sd"] == 0]


class Rec:
    def __init__(self, sc):
        self.sc, self.ev = sc, []
        self.n = len(sc["bodies"])

    def split(self):
        """what every rank knows after the scene was distributed; gathered on the master"""
        D = O.subD
        d = {"inter": [sorted(x) for x in D.intersections], "mirror": [sorted(x) for x in D.mirrorIntersections],
             "here": [i for i in range(self.n) if i < len(O.bodies) and O.bodies[i] is not None],
             "bounded": [i for i in range(self.n) if i < len(O.bodies) and O.bodies[i] is not None and O.bodies[i].bound is not None],
             "box": {i: list(O.bodies[i].bound.min) + list(O.bodies[i].bound.max) for i in range(self.n)
                     if i < len(O.bodies) and O.bodies[i] is not None and O.bodies[i].subdomain == rank and O.bodies[i].bound is not None}}
        g = W.gather(d, root=0)
        if rank == 0:
            box = {}
            for x in g:
                box.update(x.pop("box"))
            # order-preserving integers
            for ax in range(3):
                vals = sorted(set(v for b in box.values() for v in (b[ax], b[ax + 3])))
                pos = {v: k for k, v in enumerate(vals)}
                for b in box.values():
                    b[ax], b[ax + 3] = pos[b[ax]], pos[b[ax + 3]]
            self.ev.append({"op": "split", "it": O.iter, "sd": [b["sd"] for b in self.sc["bodies"]], "box": [box.get(i, []) for i in range(self.n)], "ranks": g})

    def step(self):
        """after each distributed step: own states, copies of others, forces on master bodies"""
        nb = [i for i in range(self.n) if i < len(O.bodies) and O.bodies[i] is not None]
        mi = set(i for L in O.subD.mirrorIntersections for i in L) if rank else set()
        d = {"own": [[i, digest(O.bodies[i].state)] for i in nb if O.bodies[i].subdomain == rank],
             "copies": [[i, digest(O.bodies[i].state)] for i in nb if O.bodies[i].subdomain != rank and i in mi],
             "it": O.iter}
        # contribution of this rank to the forces on master bodies (contacts it computes itself)
        c = {}
        for k in O.interactions:
            if not k.isReal:
                continue
            for i, s in ((k.id1, 1), (k.id2, -1)):
                if i < self.n and O.bodies[i] is not None and O.bodies[i].subdomain == 0:
                    f = (k.phys.normalForce + k.phys.shearForce) * (-s)
                    c.setdefault(i, []).append([x for x in f])
        d["contrib"] = c
        g = W.gather(d, root=0)
        if rank == 0:
            tot = []
            for i, b in enumerate(self.sc["bodies"]):
                if b["sd"] == 0:
                    F = [sum(v[a] for x in g for v in x["contrib"].get(i, [])) for a in range(3)]
                    tot.append([i, q(O.forces.f(i)), q(F)])
            self.ev.append({"op": "step", "its": [x["it"] for x in g], "own": [x["own"] for x in g], "copies": [x["copies"] for x in g], "forces": tot})


def run(sc):
    R = Rec(sc)
    build(sc, True)
    base = {"split": mp.splitScene, "check": mp.checkColliderActivated}

    def split():
        base["split"]()
        R.split()

    def check():
        if O.splitted:
            R.step()
        return base["check"]()
    mp.splitScene = split
    if sc["watch"]:
        mp.checkColliderActivated = check
    want = 0
    try:
        for k, n in enumerate(sc["runs"]):
            want = O.iter + n
            mp.mpirun(n, sc["merge"])
            mf = masterForces(sc) if rank == 0 else None
            mp.mergeScene()
            if rank == 0:
                R.ev.append({"op": "mpi", "it": O.iter, "want": want if sc["merge"] else O.iter, "st": states(len(sc["bodies"])), "f": mf})
    finally:
        mp.splitScene, mp.checkColliderActivated = base["split"], base["check"]
    if rank == 0:
        # the same, serially
        build(sc, False)
        for e in R.ev:
            if e["op"] == "mpi":
                while O.iter < e["it"]:
                    O.step()
                e["sst"], e["sf"] = states(len(sc["bodies"])), masterForces(sc)
        O.reset()
    return [{"op": "new"}] + R.ev


def main():
    inp, outp = sys.argv[1:3]
    d = json.load(open(inp))
    traces = []
    for i, sc in enumerate(d["scenarios"]):
        if rank == 0:
            with open(outp + ".pos", "w") as f:
                f.write("%08d" % i)
        traces.append(run(sc))
    if rank == 0:
        with open(outp + ".tmp", "w") as f:
            json.dump({"traces": traces}, f)
        os.rename(outp + ".tmp", outp)
    MPI.Finalize()
    yade.boot.finalize()
    os._exit(0)


try:
    main()
except Exception:
    traceback.print_exc()
    sys.stdout.flush()
    sys.stderr.flush()
    if rank == 0:
        with open(sys.argv[2] + ".err", "w") as f:
            f.write(traceback.format_exc())
    W.Abort(3)
