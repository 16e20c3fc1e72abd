"""C06 contacts while bodies move"""


def vec(rng, v):
    return [rng.randint(-v, v) for _ in range(3)]


def body(rng, L, v, dyn=False):
    k = rng.choice(["sphere"] * 7 + ["wall", "box", "facet"])
    c = {"k": k, "x": [rng.randint(0, L) for _ in range(3)], "mask": rng.choice([1, 1, 1, 3, 2]), "vel": vec(rng, v) if rng.random() < .8 else [0, 0, 0]}
    if k == "sphere":
        c["r"] = rng.choice([6, 10, 10, 15, 25])
        c["dyn"] = dyn
    elif k == "wall":
        c["axis"] = rng.randint(1, 3)
    elif k == "box":
        c["ext"] = [rng.randint(4, 30) for _ in range(3)]
    else:
        ax = [1, 2, 3]
        rng.shuffle(ax)
        c.update(n=ax[0], b=ax[1], c=ax[2], lb=rng.randint(20, 90), lc=rng.randint(20, 90))
    return c


def opts(rng, late=None):
    return {"verlet": rng.choice([-.5, -.2, .5, 1, 2, 3, 5, 7, 8, 15, 40, 0]), "ti": rng.choice([-1, 0, 5, 50, 100]), "msf": rng.choice([.1, .1, .5, 0, .9]), "axis": rng.randint(0, 2),
            "stc": rng.random() < .15, "dt": 1, "late": rng.random() < .2 if late is None else late}


def exact(rng):
    L = rng.choice([40, 80, 120])
    v = rng.choice([1, 2, 4, 10])
    n = rng.randint(3, 12)
    ops = [{"op": "put", "bodies": [body(rng, L, v) for _ in range(n)]}]
    for _ in range(rng.randint(3, 9)):
        ops.append({"op": "step", "n": rng.randint(1, 8)})
        r = rng.random()
        if r < .35:
            ids = rng.sample(range(n), rng.randint(1, n))
            w = rng.choice([v, 1, 15])
            ops.append({"op": "vel", "ids": ids, "v": [vec(rng, w) for _ in ids]})
        elif r < .45:       # everything stops, or everything turns back
            ops.append({"op": "vel", "ids": list(range(n)), "v": [[0, 0, 0]] * n if rng.random() < .5 else [vec(rng, v) for _ in range(n)]})
        elif r < .55:
            ops.append({"op": "put", "bodies": [body(rng, L, v)]})
        elif r < .65:
            ops.append({"op": "erase", "i": rng.randint(0, 20), "new": body(rng, L, v) if rng.random() < .6 else None})
        elif r < .72:
            ops.append({"op": "dt", "dt": rng.choice([1, 2])})
        elif r < .78:
            ops.append({"op": "verlet", "v": rng.choice([0, 1, 4, 12])})
        elif r < .84:
            ops.append({"op": "save"})
    ops.append({"op": "step", "n": rng.randint(5, 12)})
    return {"opt": opts(rng), "ops": ops, "scale": 1, "tol": 0}


def slow(rng):
    """bodies in a row creeping towards each other, for many steps, by steps smaller than the margin"""
    n = rng.randint(2, 5)
    ax = rng.randint(0, 2)
    lat = [rng.randint(0, 40) for _ in range(3)]
    bs, p = [], 0
    for _ in range(n):
        b = body(rng, 40, 0)
        b["x"] = [lat[i] + rng.randint(-4, 4) for i in range(3)]
        ext = b.get("r", 12 if b["k"] == "box" else 0)
        if b["k"] == "box":
            b["ext"] = [12, 12, 12]
        elif b["k"] == "wall":
            b["axis"] = ax + 1
        elif b["k"] == "facet":
            o = [i for i in range(3) if i != ax]
            b.update(n=ax + 1, b=o[0] + 1, c=o[1] + 1, lb=60, lc=60)
            for i in o:
                b["x"][i] = lat[i] - 12
        p += ext
        b["x"][ax] = p
        p += ext + rng.randint(2, 30)
        b["mask"] = 1
        b["vel"] = [rng.choice([-1, 0, 1, 2, -2]) if i == ax else 0 for i in range(3)]
        bs.append(b)
    rng.shuffle(bs)
    o = opts(rng)
    o["verlet"] = rng.choice([2, 3, 5, 7, 8, 12, 15, -.5])
    ops = [{"op": "put", "bodies": bs}]
    for _ in range(rng.randint(1, 3)):
        ops.append({"op": "step", "n": rng.randint(10, 25)})
        ids = rng.sample(range(n), rng.randint(1, n))
        ops.append({"op": "vel", "ids": ids, "v": [[rng.choice([-1, 0, 1, 3, -3]) if i == ax else 0 for i in range(3)] for _ in ids]})
    ops.append({"op": "step", "n": 20})
    return {"opt": o, "ops": ops, "scale": 1, "tol": 0}


def turning(rng):
    """rotating and translating clumps among bodies at rest, coordinates with rounding"""
    L = 60
    n = rng.randint(3, 8)
    still = rng.random() < .7
    bs = [body(rng, L, 0 if still else 2) for _ in range(n)]
    if rng.random() < .5:
        bs = [b for b in bs if b["k"] == "sphere"] or [dict(body(rng, L, 0), k="sphere", r=8)]
    ops = [{"op": "put", "bodies": bs}]
    for _ in range(1 if still else rng.randint(1, 2)):
        c = [rng.randint(10, L - 10) for _ in range(3)]
        ms = []
        for _ in range(rng.randint(2, 4)):
            m = {"k": "sphere", "r": rng.choice([3, 6, 10]), "x": [c[i] + rng.randint(-25, 25) for i in range(3)], "mask": 1, "vel": [0, 0, 0]}
            ms.append(m)
        w = [0, 0, 0]
        w[rng.randint(0, 2)] = rng.choice([-1, 1]) * rng.uniform(.03, .15)
        ops.append({"op": "clump", "bodies": ms, "vel": rng.choice([[0, 0, 0], vec(rng, 1)]), "angVel": w if rng.random() < .5 else [rng.uniform(-.1, .1) for _ in range(3)]})
    ops.append({"op": "step", "n": rng.randint(20, 50)})
    o = opts(rng, False)
    if still:
        o["verlet"] = rng.choice([3, 5, 8, 12])
    return {"opt": o, "ops": ops, "scale": 100, "tol": 3}


def free(rng):
    """bodies that collide and bounce"""
    L = 60
    n = rng.randint(3, 9)
    bs = [dict(body(rng, L, 6, dyn=True)) for _ in range(n)]
    ops = [{"op": "put", "bodies": bs}]
    for _ in range(rng.randint(1, 4)):
        ops.append({"op": "step", "n": rng.randint(4, 12)})
        if rng.random() < .4:
            ops.append({"op": "erase", "i": rng.randint(0, 20), "new": body(rng, L, 6, dyn=True)})
    return {"opt": opts(rng, False), "ops": ops, "scale": 100, "tol": 3, "young": rng.choice([.002, .01]), "damp": rng.choice([0, .3]), "g": [0, 0, rng.choice([0, -.05])]}


def run(ctx):
    ctx.model_check("Verlet")
    if ctx.thorough:
        ctx.model_check("Verlet", "Verlet3.cfg", timeout=900)
    k = 12 if ctx.thorough else 1
    for thr in (1, 4):
        sc = [f(ctx.rng) for f in (exact, slow, slow, slow, turning, turning, free) for _ in range((24 if thr == 1 else 8) * k)]
        ctx.rng.shuffle(sc)
        tr = ctx.record_and_validate("motion", "TMotion", "TMotion.cfg", sc, threads=thr, timeout=600)
        if thr == 1:
            for t in tr:
                j = next((i for i, e in enumerate(t) if e["op"] == "step" and e["real"]), None)
                if j is not None and t[0]["tol"] == 0:
                    e = t[j]
                    if len(e["real"]) > 2:
                        ctx.expect_rejected("TMotion", "TMotion.cfg", t[:j] + [dict(e, real=[])])
                        break
