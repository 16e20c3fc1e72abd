"""C09 integration of motion"""


def body(rng, kind="alone"):
    v = lambda a: [rng.randint(-a, a) for _ in range(3)]
    fix = rng.choice([0, 0, 0, 1, 2])
    asph = kind == "alone" and rng.random() < .25
    c = {"kind": kind, "m": rng.choice([1, 2, 4, 8]), "I": [rng.choice([1, 2, 4, 8]) for _ in range(3)],
         "fixT": [0, 0, 0] if fix == 0 else [1, 1, 1] if fix == 2 else [rng.randint(0, 1) for _ in range(3)],
         "fixR": [0, 0, 0] if fix == 0 else [1, 1, 1] if fix == 2 else [rng.randint(0, 1) for _ in range(3)],
         "damp": rng.random() < .7, "ds": rng.choice([4, 4, 2, 1]), "act": rng.random() < .93, "asph": asph, "mem": [],
         "pos": v(20), "vel": v(3) if rng.random() < .6 else [0, 0, 0], "w": v(1) if rng.random() < .5 else [0, 0, 0], "L": v(3),
         "mask": rng.choice([1, 1, 2, 3, 4]), "r": 1.}
    if asph:
        c["I"] = [rng.choice([4, 8]) for _ in range(3)]
    if kind == "clump":
        c["ds"] = 4
        c["asph"] = False
        if not all(c["fixR"]):
            c["damp"] = False
    return c


def scenario(rng, size):
    bodies = []
    while len(bodies) < size:
        if rng.random() < .25:
            k = rng.choice([2, 3])
            c = body(rng, "clump")
            x = c["pos"]
            d = [[0, 0, 0], [2, 0, 1], [-1, 2, 0]]
            base = len(bodies)
            for j in range(k):
                m = body(rng, "member")
                m.update(pos=[a + b for a, b in zip(x, d[j])], mem=[base + k + 1], act=c["act"])
                bodies.append(m)
            c["mem"] = [base + j + 1 for j in range(k)]
            bodies.append(c)
        else:
            bodies.append(body(rng))
    mask = rng.choice([0, 0, 0, -1, 1, 2, 6])
    par = {"g": [rng.randint(-2, 2) for _ in range(3)] if rng.random() < .6 else [0, 0, 0], "d": rng.choice([0, 0, 1, 2]), "k": rng.choice([1, 2, 3, 3]),
           "dens": rng.random() < .3, "mask": mask}
    first = par
    mv = lambda c, m: m <= 0 or bool(c["mask"] & m)

    for c in bodies:
        c["moves"] = mv(c, mask)
    ops = []
    cfg = [dict(c) for c in bodies]
    for _ in range(rng.randint(4, 12)):
        k = rng.random()
        if k < .12:
            par = dict(par)
            q = rng.random()
            if q < .4:
                par["g"] = [rng.randint(-2, 2) for _ in range(3)]
            elif q < .7:
                par["d"] = rng.choice([0, 1, 2])
            else:
                par["k"] = rng.choice([1, 2, 3])
            ops.append({"op": "par", "par": par})
        elif k < .25:
            i = rng.randrange(len(cfg))
            c = cfg[i]
            if c["kind"] == "member":
                continue
            n = body(rng, c["kind"])
            n["asph"] = c["asph"]
            sel = rng.choice([["vel"], ["m"], ["fixT", "fixR"], ["vel", "w"]])
            if c["kind"] == "clump" and ("fixR" in sel or "w" in sel):
                continue
            if c["asph"] and ("w" in sel or "fixR" in sel):
                continue
            ch = {x: n[x] for x in sel}
            c.update(ch)
            c["changed"] = True
            ops.append({"op": "body", "i": i, "c": ch})
        fs = []
        for i, c in enumerate(cfg):
            for q in "ft":
                if rng.random() < .5:
                    a = 15 if q == "f" else 1 if c["asph"] else 3
                    fs.append([q, i, [rng.randint(-a, a) if rng.random() < .7 else 0 for _ in range(3)]])
            if c["kind"] == "alone" and rng.random() < .1:
                fs.append(["m", i, [rng.randint(-3, 3) for _ in range(3)]])
            if c["kind"] == "alone" and not c["asph"] and all(c["fixR"]) and all(c["fixT"]) and c["w"] == [0, 0, 0] and "changed" not in c and rng.random() < .3:
                fs.append(["r", i, [rng.randint(-1, 1) for _ in range(3)]])
        ops.append({"op": "step", "forces": fs})
    return {"bodies": bodies, "par": first, "ops": ops, "energy": rng.random() < .3, "split": rng.random() < .5}


def run(ctx):
    ctx.model_check("MCNewton")
    k = 12 if ctx.thorough else 1
    for th in (1, 4):
        sc = [scenario(ctx.rng, ctx.rng.choice([1, 2, 4, 8])) for _ in range(120 * k)]
        tr = ctx.record_and_validate("newton", "TNewton", "TNewton.cfg", sc, threads=th)
    t = next(t for t in tr if t[-1]["op"] == "step" and t[0]["bod"][0]["kind"] == "alone" and not t[0]["bod"][0]["asph"])
    import copy
    for q in ("vel", "pos", "w"):
        u = copy.deepcopy(t)
        u[-1]["obs"][0][q][1] += 4
        ctx.expect_rejected("TNewton", "TNewton.cfg", u)
