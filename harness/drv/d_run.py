"""run control (spec/RunControl.tla)"""
from yd import *
import builtins, __main__, time

U = 8.


class Driver:
    def __init__(self, params):
        builtins.RUNLOG = __main__.RUNLOG = self.hook

    def hook(self):
        it = O.iter
        self.log.append(it)
        a = self.arm
        if a["what"] != "no" and a["at"] == it:
            self.arm = {"what": "no", "at": 0, "to": 0}
            if a["what"] == "pause":
                O.pause()
            elif a["what"] == "si":
                O.stopAtIter = a["to"]
            elif a["what"] == "st":
                O.stopAtTime = a["to"] / U
            elif a["what"] == "dt":
                O.dt = a["to"] / U

    def quiet(self, limit=20.):
        """the run has ended and its last step is complete"""
        t = time.time()
        while time.time() - t < limit:
            if not O.running and O.subStep == -1:
                return
            time.sleep(.001)
        O.pause()
        raise RuntimeError("the run did not stop: iter=%d stopAtIter=%d time=%g stopAtTime=%g" % (O.iter, O.stopAtIter, O.time, O.stopAtTime))

    def post(self):
        return {"iter": O.iter, "time": O.time * U, "si": O.stopAtIter, "st": O.stopAtTime * U, "log": self.log, "half": O.subStep != -1}

    def run(self, sc):
        O.reset()
        O.dt = 1 / U
        O.engines = [PyRunner(command="RUNLOG()", iterPeriod=1, initRun=True, label="rl")]
        self.arm, self.log = {"what": "no", "at": 0, "to": 0}, []
        tr = [{"op": "new", "post": self.post(), "running": O.running}]
        for o in sc["ops"]:
            self.log = []
            e = dict(o)
            op = o["op"]
            if op == "step":
                O.step()
            elif op == "run":
                O.run(o["n"], o.get("wait", False)) if o["n"] > 0 else O.run(wait=o.get("wait", False))
                self.quiet()
                if o.get("settle"):
                    time.sleep(.02)
            elif op == "half":
                O.subStepping = True
                O.step()
            elif op == "si":
                O.stopAtIter = o["v"]
            elif op == "st":
                O.stopAtTime = o["v"] / U
            elif op == "dt":
                O.dt = o["v"] / U
            elif op == "arm":
                self.arm = dict(o["v"])
            elif op == "time0":
                O.resetTime()
                O.engines[0].nDone = 0
            elif op == "pause":
                O.pause()
            elif op == "wait":
                O.wait()
            elif op == "saveload":
                O.saveTmp("rc", quiet=True)
                O.loadTmp("rc", quiet=True)
            elif op == "async":
                O.run()
                time.sleep(o["ms"] / 1000.)
                O.pause()
                e["seen"] = O.iter
                while True:
                    self.quiet()
                    k = O.iter
                    time.sleep(.15)
                    if O.iter == k and O.subStep == -1:
                        break
            p = self.post()
            for k in ("time", "st"):
                assert p[k] == int(p[k])
                p[k] = int(p[k])
            e["post"], e["running"] = p, O.running
            tr.append(e)
        for k in ("time", "st"):
            tr[0]["post"][k] = int(tr[0]["post"][k])
        return tr
