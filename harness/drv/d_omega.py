"""scenes and memory slots (spec/Omega.tla)"""
from yd import *
import builtins, faulthandler, os, time


class Driver:
    def __init__(self, params):
        self.n = 0

    def reset(self):
        O.reset()
        self.n += 1
        self.pre = "om%d_%d_" % (os.getpid(), self.n)
        if hasattr(builtins, "theEngine"):
            del builtins.theEngine
        self.ok, self.ran = True, []

    def mark(self, s):
        return self.pre + s

    def do(self, o):
        op = o["op"]
        self.ok = True
        if op in ("reset", "resetThis", "resetAll") and self.n % 11 == 3:
            # a reset while the scene is running, with engines that call Python
            faulthandler.dump_traceback_later(30, exit=True)
            O.engines = [PyRunner(iterPeriod=1, command="import time; time.sleep(1e-3)")]
            O.stopAtTime = 0
            O.run()
            time.sleep(.005)
        try:
            if op == "mod":
                k = len(O.bodies) + 1
                b = Body()
                b.shape = Sphere(radius=k)
                b.state.mass = k
                b.state.pos = Vector3(k, 0, 0)
                b.state.vel = Vector3(0, k, 0)
                O.materials.append(FrictMat(young=k, label="m%d" % k))
                b.material = O.materials[k - 1]
                b.mask = k
                O.bodies.append(b)
                # engines run in the scene they belong to
                O.engines = [ForceResetter(), ForceEngine(ids=[k - 1], force=(k, 0, 0), label="theEngine"), NewtonIntegrator(damping=0)]
                O.dt = k
                if self.n % 7 == 0:
                    O.run(1, True)
                else:
                    O.step()
                for bb in O.bodies:      # where it is now depends on the number of steps: put it back
                    bb.state.pos = Vector3(bb.id + 1, 0, 0)
                    bb.state.vel = Vector3(0, bb.id + 1, 0)
                O.tags["description"] = "c%d" % k
                O.stopAtTime = k
                O.periodic = k % 2 == 1
                if O.periodic:
                    O.cell.setBox(10 * k, 20, 30)
            elif op == "save":
                O.saveTmp(self.mark(o["s"]), quiet=True)
            elif op == "load":
                O.loadTmp(self.mark(o["s"]), quiet=True)
            elif op == "reload":
                O.reload(quiet=True)
            elif op == "str":
                if self.n % 3:
                    O.stringToScene(O.sceneToString(), mark=self.mark(o["s"]))
                else:       # by way of a memory slot
                    O.saveTmp(self.pre[:-1] + "-x", quiet=True)
                    O.stringToScene(O.tmpToString(self.pre[:-1] + "-x"), mark=self.mark(o["s"]))
            elif op == "add":
                assert O.addScene() == o["n"], "number of the new scene"
            elif op == "to":
                O.switchToScene(o["i"])
            elif op == "swap":
                O.switchScene()
            elif op == "resetThis":
                O.resetThisScene()
            elif op == "resetAll":
                O.resetAllScenes()
            elif op == "reset":
                O.reset()
            elif op == "assign":
                O._sceneObj = O._sceneObj
        except RuntimeError:
            self.ok = False
        finally:
            faulthandler.cancel_dump_traceback_later()

    def content(self):
        """the number which all parts of the scene agree on"""
        k = len(O.bodies)
        want = {"bodies": [[b.id, b.shape.radius, b.state.mass, list(b.state.pos), list(b.state.vel), b.material.label, b.material.young, b.mask] for b in O.bodies], "materials": len(O.materials),
                "iter": O.iter, "engines": [[type(e).__name__, e.label] for e in O.engines], "stop": O.stopAtTime, "peri": O.periodic,
                "cell": list(O.cell.size) if O.periodic else None, "time": O.time, "sub": O.subStep,
                "dt": O.dt if k else 0, "tag": O.tags["description"] if k else "c0", "intrs": len(O.interactions)}
        exp = {"bodies": [[i, i + 1, i + 1, [i + 1, 0, 0], [0, i + 1, 0], "m%d" % (i + 1), i + 1, i + 1] for i in range(k)], "materials": k, "iter": k,
               "engines": [["ForceResetter", ""], ["ForceEngine", "theEngine"], ["NewtonIntegrator", ""]] if k else [], "stop": k, "peri": k % 2 == 1,
               "cell": [10 * k, 20, 30] if k % 2 else None, "time": k * (k + 1) // 2, "sub": -1, "dt": k, "tag": "c%d" % k, "intrs": 0}
        bad = [x for x in exp if want[x] != exp[x]]
        assert not bad, "scene with %d bodies has %s" % (k, ["%s=%s, not %s" % (x, want[x], exp[x]) for x in bad])
        if k:
            assert O.engines[1].ids == [k - 1] and O.engines[1].force == Vector3(k, 0, 0), "engine of content %d" % k
            assert not any("c%d" % j in str(O.tags["description"]) for j in range(k)), "tag"
        return k

    def obs(self):
        k = self.content()
        f = O.filename
        lab = int(builtins.theEngine.force[0]) if hasattr(builtins, "theEngine") else -1
        return {"now": k, "cur": O.thisScene, "ls": sorted(x[len(self.pre):] for x in O.lsTmp() if x.startswith(self.pre)),
                "file": f[len(":memory:" + self.pre):] if f else "", "lab": lab, "ok": self.ok}
