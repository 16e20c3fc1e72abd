"""interaction container (spec/IntrStore.tla)"""
from yd import *
POS = [(0, 0, 0), (1.5, .5, 0), (1.9, 1.9, 0), (3.8, 3.8, 0)]


class Driver:
    def __init__(self, params):
        self.pre = params.get("pre", 3)
        self.law = params.get("law", "frict")

    def mk(self, i):
        b = utils.sphere(POS[i], 1., dynamic=False)
        return b

    def reset(self):
        O.reset()
        O.materials.append(FrictMat(density=1, young=1, poisson=.5))
        O.engines = [ForceResetter(), InsertionSortCollider([Bo1_Sphere_Aabb()], verletDist=0),
                     InteractionLoop([Ig2_Sphere_Sphere_ScGeom()], [Ip2_FrictMat_FrictMat_FrictPhys()], [Law2_ScGeom_FrictPhys_CundallStrack()])]
        O.dt = 1e-3
        O.bodies.append([self.mk(i) for i in range(self.pre)])
        self.erased = {}
        self.res, self.stepped = "ok", False

    def do(self, o):
        op = o["op"]
        self.res, self.stepped = "ok", False
        if op == "step":
            O.step()
            self.stepped = True
        elif op == "append":
            O.bodies.append(self.mk(len(O.bodies)))
        elif op == "eraseBody":
            self.erased[o["id"]] = O.bodies[o["id"]]
            assert O.bodies.erase(o["id"])
        elif op == "insertBody":
            b = self.erased.pop(o["id"], None) if o["own"] else None
            r = O.bodies.insertAtId(b if b is not None else self.mk(o["id"]), o["id"])
            assert r == o["id"], r
        elif op == "create":
            try:
                utils.createInteraction(*o["p"])
            except RuntimeError:
                self.res = "RuntimeError"
        elif op == "eraseIntr":
            O.interactions.erase(*o["p"])
        elif op == "eraseNonReal":
            O.interactions.eraseNonReal()
        elif op == "clear":
            O.interactions.clear()
        elif op == "saveload":
            O.saveTmp("rt", quiet=True)
            O.loadTmp("rt", quiet=True)
            self.erased = {}
        else:
            raise KeyError(op)

    def obs(self):
        I, B = O.interactions, O.bodies
        n = len(B)
        alive = [b.id for b in B]
        A = set(alive)
        pr = lambda i: [min(i.id1, i.id2), max(i.id1, i.id2)]
        both = lambda p: p[0] in A and p[1] in A
        allp = [pr(i) for i in I.all(onlyReal=False)]
        real = sorted(pr(i) for i in I)
        assert len(I) == len(allp), "len %d, list %d" % (len(I), len(allp))
        assert real == sorted(pr(i) for i in I.all(onlyReal=True)), "iteration and list of real interactions differ"
        assert real == sorted(pr(I.nth(k)) for k in range(len(real))), "nth"
        try:
            I.nth(len(real))
            assert False, "nth beyond the end"
        except IndexError:
            pass
        for i in I.all(onlyReal=False):
            assert i.isReal == (pr(i) in real)
            assert i.isReal == (i.geom is not None and i.phys is not None)
        has = []
        for i in range(n):
            for j in range(n):
                if i == j or not both((i, j)):
                    continue
                h = I.has(i, j)
                try:
                    x = I[i, j]
                    assert pr(x) == [min(i, j), max(i, j)], "lookup of %d,%d gives %s" % (i, j, pr(x))
                    f = True
                    assert x.isReal == (pr(x) in real), "lookup of %d,%d gives an interaction that is not in the list" % (i, j)
                except IndexError:
                    f = False
                assert h == f, "has(%d,%d)=%s, lookup %s" % (i, j, h, f)
                if h and i < j:
                    has.append([i, j])
                if i > j:
                    assert h == ([j, i] in has), "has(%d,%d) depends on the order" % (i, j)
        other = lambda x, k: x.id2 if x.id1 == k else x.id1
        ofBody, ofAll = [], []
        for k in range(n):
            w = sorted(other(x, k) for x in I.withBody(k))
            if k in A:
                v = sorted(other(x, k) for x in B[k].intrs())
                assert v == w, "interactions of body %d: its own list %s, searched %s" % (k, v, w)
            ofBody.append(w)
            ofAll.append(sorted(q for q in (other(x, k) for x in I.withBodyAll(k)) if q in A and k in A))
        return {"res": self.res, "alive": alive, "list": real, "all": sorted(p for p in allp if both(p)), "count": I.countReal(), "has": sorted(has),
                "ofBody": ofBody, "ofBodyAll": ofAll}
