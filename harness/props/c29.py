"""C29 totals reported about a simulation"""


def scen(rng):
    peri = rng.random() < .3
    L = [rng.randint(14, 20) for _ in range(3)] if peri else []
    n = rng.randint(2, 8)
    v3 = lambda a: [rng.randint(-a, a) for _ in range(3)]
    bs = []
    for i in range(n):
        x = [rng.randint(0, L[k] - 1) for k in range(3)] if peri else v3(5)
        while any(b["x"] == x for b in bs):
            x[0] = (x[0] + 1) % 14
        k = "f" if not peri and rng.random() < .12 else "s"
        bs.append({"k": k, "x": x, "r": rng.randint(1, 3 if peri else 4), "fixed": k == "f" or rng.random() < .25, "fa": rng.choice([100, 300, 500])})
    sp = [i for i in range(n) if bs[i]["k"] == "s"]
    cl = [sorted(rng.sample(sp, rng.randint(2, 3)))] if len(sp) >= 4 and rng.random() < .5 else []
    if cl and not peri and len(sp) - len(cl[0]) >= 3 and rng.random() < .4:
        cl.append(sorted(rng.sample([i for i in sp if i not in cl[0]], 2)))
    G = [0] * 9
    if peri:
        G[rng.randrange(9)] = rng.choice([2, -2])
    st = []
    for i in range(n + len(cl)):
        q = [rng.uniform(-1, 1) for _ in range(3)]
        l = sum(c * c for c in q) ** .5 or 1
        st.append({"v": v3(5), "w": v3(5), "L": v3(9), "m": rng.randint(1, 9), "I": [rng.randint(1, 9) for _ in range(3)], "mask": rng.choice([1, 2, 3, 4, 5, 6, 8]), "asph": rng.random() < .4, "q": [c / l for c in q] + [rng.uniform(0, 3)]})
    ops = []
    grown = False

    def obs():
        ops.append({"op": "obs", "mask": rng.choice([[], [0], [1], [0, 2], [3], [1, 2]]), "ids": rng.sample(range(n + len(cl)), rng.randint(1, n)), "org": v3(6), "dir": rng.choice([[1, 0, 0], [0, 0, 1], [1, 2, -1], [-2, 1, 3]]),
                    "dz": rng.choice([1, 2, 3]), "z0": rng.randint(-8, 2), "nl": rng.randint(1, 7), "blo": [rng.randint(-7, 0) for _ in range(3)], "bhi": [rng.randint(1, 9) for _ in range(3)]})
    obs()
    for _ in range(rng.randint(2, 5)):
        r = rng.random()
        if r < .3:
            ops.append({"op": "erase", "id": rng.randrange(n + len(cl))})
        elif r < .42:
            ops.append({"op": "calm", "mask": rng.choice([[], [0], [1], [2], [0, 1]])})
        elif r < .54:
            ops.append({"op": "shift", "ids": rng.sample(range(n), rng.randint(1, n)), "by": v3(3)})
        elif r < .64:
            ops.append({"op": rng.choice(["pos", "vel"]), "id": rng.randrange(n), "by": v3(5), "axes": sorted(rng.sample([1, 2, 3], rng.randint(1, 3)))})
        elif r < .8 and not grown:
            grown = True
            ops.append({"op": "grow", "mass": rng.random() < .6, "dynOnly": rng.random() < .5})
        else:
            ops.append({"op": "friction", "angle": rng.choice([50, 200, 400])})
        obs()
    return {"peri": L, "shear": rng.choice([0, 3]) if peri else 0, "G": G, "bodies": bs, "clumps": cl, "clumpFixed": rng.random() < .2, "state": st, "g": rng.choice([[0, 0, 0], [0, 0, -5], [1, 2, 0]]),
            "forces": [v3(20) for _ in range(11)], "ext": [[rng.randrange(n + len(cl)), v3(20), v3(9)] for _ in range(rng.randint(0, 5))], "ops": ops}


def run(ctx):
    ctx.model_check("MCObserve", "MCObserve.cfg", need_actions=False)
    k = 12 if ctx.thorough else 1
    tr = ctx.record_and_validate("observe", "TObserve", "TObserve.cfg", [scen(ctx.rng) for _ in range(400 * k)], timeout=600)
    ob = [e for t in tr for e in t if e["op"] == "obs"]
    ctx.notes["observations"] = len(ob)
    ctx.notes["with_clumps"] = sum(any(b["clump"] for b in e["B"]) for e in ob)
    ctx.notes["actions"] = sum(e["op"] == "act" for t in tr for e in t)
    t = next(t for t in tr if len(t) > 1)
    e = t[0]
    ctx.expect_rejected("TObserve", "TObserve.cfg", [dict(e, o=dict(e["o"], mom=[e["o"]["mom"][0] + 1] + e["o"]["mom"][1:]))])
