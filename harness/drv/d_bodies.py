"""body container and clumps (spec/BodyStore.tla)"""
from yd import *
from math import pi
CLUMP = 99


class Driver:
    def __init__(self, params):
        self.pre = params.get("pre", 0)
        self.K = params.get("K", 4)

    def reset(self):
        O.reset()
        O.engines = []
        for t in range(1, self.K + 1):
            O.materials.append(FrictMat(density=2. ** (t - 1), young=1, poisson=.5))
        self.pool = {t: self.make(t) for t in range(1, self.K + 1)}
        self.res = "ok"
        if self.pre:
            O.bodies.append([self.pool[t] for t in range(1, self.pre + 1)])

    def make(self, t):
        b = utils.sphere((8. * t, 0, 0), 1., material=t - 1)   # mass 4/3 pi 2^(t-1)
        b.chain = t
        return b

    def do(self, o):
        op = o["op"]
        B = O.bodies
        self.res = "ok"
        if op == "append":
            try:
                self.res = str(B.append(self.pool[o["t"]]))
            except IndexError:
                self.res = "IndexError"
        elif op == "insertAtId":
            self.res = str(B.insertAtId(self.pool[o["t"]], o["id"]))
        elif op == "erase":
            self.res = str(B.erase(o["id"], o["all"]))
        elif op == "get":
            try:
                b = B[o["id"]]
                self.res = str(0 if b is None else b.chain)
            except IndexError:
                self.res = "IndexError"
        elif op == "clump":
            self.res = str(B.clump(o["ids"]))
        elif op == "appendClumped":
            c, ids = B.appendClumped([self.pool[t] for t in o["ts"]])
            assert list(ids) == list(range(c - len(ids), c)), "ids of appended members %s, clump %d" % (ids, c)
            self.res = str(c)
        elif op == "addToClump":
            B.addToClump(o["ids"], o["c"])
        elif op == "releaseFromClump":
            B.releaseFromClump(o["id"], o["c"])
        elif op == "updateClumpProperties":
            B.updateClumpProperties(excludeList=o["ex"])
        elif op == "saveload":
            O.saveTmp("rt", quiet=True)
            O.loadTmp("rt", quiet=True)
            # python objects of the old scene are not part of the loaded one
            self.pool = {t: self.make(t) for t in self.pool}
            for b in O.bodies:
                if not b.isClump:
                    self.pool[b.chain] = b
        else:
            raise KeyError(op)

    def obs(self):
        B = O.bodies
        n = len(B)
        bs = [B[i] for i in range(n)]
        tok, cl, kind, mem, mm = [], [], [], [], []
        for i, b in enumerate(bs):
            if b is None:
                tok.append(0), cl.append(-1), kind.append("-"), mem.append([]), mm.append([0, 0])
                continue
            assert b.id == i, "body in slot %d has id %d" % (i, b.id)
            tok.append(CLUMP if isinstance(b.shape, Clump) else b.chain)
            cl.append(b.clumpId)
            kind.append("".join(k for k, v in (("s", b.isStandalone), ("m", b.isClumpMember), ("c", b.isClump)) if v))
            if isinstance(b.shape, Clump):
                mem.append(sorted(b.shape.members.keys()))
                m = b.state.mass / (4 / 3. * pi)
                mm.append([m, m * b.state.pos[0]])
                assert abs(b.state.pos[1]) + abs(b.state.pos[2]) < 1e-9
                mm[-1] = [int(round(x)) if abs(x - round(x)) < 1e-5 else x for x in mm[-1]]
            else:
                mem.append([])
                mm.append([0, 0])
                assert (b.state.pos - Vector3(8. * b.chain, 0, 0)).norm() < 1e-9, "body %d moved to %s" % (i, b.state.pos)
        return {"res": self.res, "len": n, "it": [b.id for b in B], "tok": tok, "cl": cl, "kind": kind, "mem": mem, "mm": mm}
