"""the engine loop (spec/EngineLoop.tla)"""
from yd import *
import builtins, __main__


class Driver:
    def __init__(self, params):
        builtins.LOGRUN = __main__.LOGRUN = self.log
        self.mem = 0

    def mk(self):
        self.E = {x: PyRunner(command="LOGRUN('%s')" % x, iterPeriod=1, initRun=True, label="eng_" + x) for x in "abs"}

    def log(self, x):
        self.ran.append(x)
        if x == "s":
            a, self.arm = self.arm, ["no"]
            if a[0] == "kill":
                self.E[a[1]].dead = True
            elif a[0] == "live":
                self.E[a[1]].dead = False
            elif a[0] == "set":
                O.engines = [self.E[q] for q in a[1]]

    def reset(self):
        O.reset()
        O.dt = 1
        self.mk()
        self.ran, self.arm = [], ["no"]
        O.engines = [self.E["a"], self.E["b"]]

    def do(self, o):
        self.ran = []
        op = o["op"]
        if op == "step":
            O.step()
        elif op == "split":
            O.subStepping = o["v"]
        elif op == "arm":
            self.arm = o["v"]
        elif op == "engines":
            O.engines = [self.E[q] for q in o["v"]]
        elif op == "dead":
            self.E[o["v"]].dead = o["d"]
        elif op == "dt":
            O.dt = o["v"]
        elif op == "resetTime":
            O.resetTime()
            for e in self.E.values():   # the period of the reporting engines starts again as well
                e.nDone = 0
        elif op == "saveload":
            O.saveTmp("el", quiet=True)
            O.loadTmp("el", quiet=True)
            # the engines are other objects now; those not in any list are kept as they were
            for e in list(O._currEngines) + list(O._nextEngines):
                self.E[e.label[4:]] = e

    def obs(self):
        n = lambda L: [e.label[4:] for e in L]
        return {"eng": n(O.engines), "sub": O.subStep, "split": O.subStepping, "iter": O.iter, "time": O.time, "ran": self.ran,
                "dead": [x for x in "abs" if self.E[x].dead]}
