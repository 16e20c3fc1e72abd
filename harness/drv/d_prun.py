"""periodic engines (spec/PeriodicRun.tla)"""
from yd import *
import builtins, __main__, time
U = 8.
RP = {"off": 0, "tiny": 1e-12, "huge": 1e12}


def kw(p):
    return dict(iterPeriod=p["ip"], virtPeriod=p["vp"] / U, realPeriod=RP[p["rp"]], nDo=p["nDo"], initRun=p["init"], firstIterRun=p["first"])


class Driver:
    def __init__(self, params):
        builtins.PRUN = __main__.PRUN = lambda i: self.ran.append(i)

    def eng(self, p):
        self.k += 1
        return PyRunner(command="PRUN(%d)" % self.k, label="pr%d" % self.k, **kw(p))

    def run(self, sc):
        O.reset()
        O.dt = sc["dt"] / U
        self.k, self.ran = 0, []
        O.engines = [self.eng(p) for p in sc["p"]]
        tr = [{"op": "new", "p": sc["p"]}]
        for o in sc["ops"]:
            e = dict(o)
            op = o["op"]
            self.ran = []
            if op == "step":
                e["it"], e["t"] = O.iter, int(O.time * U)
                assert e["t"] == O.time * U
                time.sleep(1e-5)
                O.step() if not o["run"] else O.run(1, True)
                e["ran"] = self.ran
                e["n"] = [x.nDone for x in O.engines]
            elif op == "dt":
                O.dt = o["v"] / U
            elif op == "add":
                O.engines = O.engines + [self.eng(o["p"])]
            elif op == "set":
                O.engines[o["i"] - 1].updateAttrs(kw(o["p"]))
            elif op == "dead":
                O.engines[o["i"] - 1].dead = o["v"]
            elif op == "time0":
                O.resetTime()
            elif op == "saveload":
                O.saveTmp("pr", quiet=True)
                O.loadTmp("pr", quiet=True)
            tr.append(e)
        return tr
