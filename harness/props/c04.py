"""C04 collision detection, aperiodic"""


def body(rng, span, kinds):
    k = rng.choice(kinds)
    b = {"k": k, "x": [rng.randint(-span, span) for _ in range(3)], "r": rng.choice([1, 2, 2, 3, 5]), "ext": [rng.randint(1, 6) for _ in range(3)], "axis": rng.randint(1, 3),
         "bnd": rng.random() < .95, "mask": rng.choice([1, 1, 1, 2, 3, 6, 4, 0]), "sub": 0 if rng.random() < .9 else 1,
         "vert": [[rng.randint(-4, 4) for _ in range(3)] for _ in range(3)]}
    if k == "facet":
        ax = rng.randint(0, 5)
        v = b["vert"] = [[0, 0, 0], [4, 1, 0], [1, 5, 2]] if ax > 2 else [[0, 0, 0], [5, 1, 1], [2, 6, 3]]
        if ax < 3:   # parallel to a coordinate plane: flat box
            for q in v:
                q[ax] = 0
            if len({tuple(q) for q in v}) < 3:
                b["vert"] = [[0, 0, 0], [4, 1, 0], [1, 5, 2]]
    if k == "none":
        b["bnd"] = False
    if k == "wall":
        b["bnd"] = True
    return b


def vec(rng, a):
    return [rng.randint(-a, a) for _ in range(3)]


def scenario(rng, n, span, steps, big=False):
    verlet = rng.choice([0, 0, 1]) if not big else rng.choice([0, 1])
    enl = rng.choice([1, 1, 1, 2])
    opt = {"verlet": verlet, "axis": rng.randint(0, 2), "stc": rng.random() < .2 and not big, "omp": rng.choice([0, 1, 3]) if not big else 4, "ti": rng.choice([-1, 10]) if verlet else -1,
           "avoid": rng.choice([0, 0, 0, 1, 3]), "enl": enl, "slack": 2 * verlet}
    kinds = ["sphere"] * 6 + ["box", "facet", "wall", "none"] if not big else ["sphere"] * 400 + ["wall"]
    if rng.random() < .3:
        kinds = ["sphere"]
    ops = [{"op": "put", "bodies": [body(rng, span, kinds) for _ in range(n)]}, {"op": "run"}]
    if big:
        for b in ops[0]["bodies"]:
            b["mask"], b["sub"] = 1, 0
        opt["avoid"] = 0
    for _ in range(steps):
        k = rng.random()
        far = rng.random() < .3
        if k < .55:
            m = rng.randint(1, max(1, n // (1 if rng.random() < .3 else 4)))
            ops.append({"op": "move", "what": [[rng.randrange(1000000), vec(rng, span if far else 2)] for _ in range(m)]})
        elif k < .65:
            ops.append({"op": "put", "bodies": [body(rng, span, kinds) for _ in range(rng.choice([1, 1, 2] + ([120] if big else [])))]})
        elif k < .72:
            c = body(rng, span, ["sphere"])
            ops.append({"op": "clump", "mask": rng.choice([1, 3]), "bodies": [dict(c, bnd=True, sub=0, x=[a + d for a, d in zip(c["x"], q)]) for q in ([0, 0, 0], [1, 1, 0], [0, 3, 1])]})
        elif k < .80:
            ops.append({"op": "erase", "n": rng.randrange(1000000)})
        elif k < .86:
            ops.append({"op": "reuse", "n": rng.randrange(1000), "body": body(rng, span, kinds)})
        elif k < .88:
            ops.append({"op": "sort"})
        if rng.random() < .8:
            ops.append({"op": "run"})
    ops.append({"op": "run"})
    return {"opt": opt, "ops": ops}


def run(ctx):
    ctx.model_check("SweepPrune")
    ctx.model_check("SweepPrune", "SweepPrune2.cfg")
    r = ctx.rng
    k = 10 if ctx.thorough else 1
    sc = [scenario(r, r.choice([2, 3, 5, 8, 15, 30]), r.choice([5, 8, 14]), 12) for _ in range(200 * k)]
    tr = ctx.record_and_validate("collide", "TBoxes", "TBoxes.cfg", sc, threads=1)
    sc = [scenario(r, r.choice([3, 8, 20]), r.choice([5, 10]), 12) for _ in range(60 * k)]
    ctx.record_and_validate("collide", "TBoxes", "TBoxes.cfg", sc, threads=4)
    # more than 1000 bodies: the parallel sort
    sc = [scenario(r, 1010, 60, 3, True) for _ in range(4 * k)]
    ctx.record_and_validate("collide", "TBoxes", "TBoxes.cfg", sc, threads=4)
    t = next(t for t in tr if t[-1]["op"] == "run" and t[-1]["pairs"] and t[0]["slack"] == 0)
    e = dict(t[-1])
    # a missing pair may be one that only touches: drop all
    ctx.expect_rejected("TBoxes", "TBoxes.cfg", t[:-1] + [dict(e, pairs=e["pairs"] + [e["pairs"][0]])])
    full = [t for t in tr if sum(len(e["pairs"]) for e in t if e["op"] == "run") > 20]
    if full:
        ctx.expect_rejected("TBoxes", "TBoxes.cfg", [dict(e, pairs=[]) if e["op"] == "run" else e for e in full[0]])
