"""C05 collision detection and contacts in periodic space"""


def scenario(rng, n, steps):
    verlet = rng.choice([0, 0, 1])
    ortho = rng.random() < .65
    if ortho:
        L = [rng.choice([16, 17, 20, 24, 31] if not verlet else [24, 29, 32]) for _ in range(3)]
        h = [[L[0], 0, 0], [0, L[1], 0], [0, 0, L[2]]]
        rs = [1, 2, 2, 3]
    else:
        L = [rng.choice([24, 32, 27]) for _ in range(3)]
        h = [[L[0], 0, 0], [0, L[1], 0], [0, 0, L[2]]]
        for _ in range(rng.choice([1, 1, 2])):
            a, b = rng.sample(range(3), 2)
            h[a][b] = rng.choice([-10, -6, 3, 8, 12])
        rs = [1, 2, 2, 3]
    opt = {"h": h, "ortho": ortho, "verlet": verlet, "axis": rng.randint(0, 2), "stc": rng.random() < .2, "omp": rng.choice([0, 1, 3]), "ti": rng.choice([-1, 10]) if verlet else -1,
           "slack": 2 * verlet, "loop": rng.random() < .7}

    far = 2 if ortho else 1

    def body():
        k = "sphere" if rng.random() < .85 or not ortho else "box"
        per = [rng.choice([0, 0, 0, -1, 1]) for _ in range(3)] if rng.random() < .4 else [0, 0, 0]
        u = [rng.randrange(x) for x in L]
        return {"k": k, "x": [u[i] + sum(per[j] * h[j][i] for j in range(3)) for i in range(3)], "r": rng.choice(rs), "ext": [rng.randint(1, 3) for _ in range(3)], "mask": rng.choice([1, 1, 1, 3, 2])}
    ops = [{"op": "put", "bodies": [body() for _ in range(n)]}, {"op": "run"}]
    drift = [[rng.randint(-2, 2) for _ in range(3)] for _ in range(n)] if rng.random() < .5 else None
    for t in range(steps):
        k = rng.random()
        if drift and k < .6 and t < 14:
            ops.append({"op": "move", "what": [[i, d] for i, d in enumerate(drift)]})
        elif k < .7:
            a = rng.choice([1, 2, 2, min(L) // 3])
            ops.append({"op": "move", "what": [[rng.randrange(1000), [rng.randint(-a, a) for _ in range(3)]] for _ in range(rng.randint(1, n))]})
        elif k < .78:
            ops.append({"op": "put", "bodies": [body() for _ in range(rng.choice([1, 2]))]})
        elif k < .84:
            ops.append({"op": "erase", "n": rng.randrange(1000)})
        elif k < .9:
            ops.append({"op": "reuse", "n": rng.randrange(1000), "body": body()})
        elif k < .92:
            ops.append({"op": "sort"})
        if rng.random() < .85:
            ops.append({"op": "run"})
    ops.append({"op": "run"})
    return {"opt": opt, "ops": ops}


def run(ctx):
    ctx.model_check("MCPeriodic")
    r = ctx.rng
    k = 10 if ctx.thorough else 1
    sc = [scenario(r, r.choice([2, 3, 5, 8, 12]), r.choice([8, 14, 25])) for _ in range(200 * k)]
    tr = ctx.record_and_validate("peri", "TPeriodic", "TPeriodic.cfg", sc, threads=1)
    sc = [scenario(r, r.choice([3, 8, 16]), 12) for _ in range(40 * k)]
    ctx.record_and_validate("peri", "TPeriodic", "TPeriodic.cfg", sc, threads=3)
    for t in tr:
        j = [i for i, e in enumerate(t) if e["op"] == "run" and any(q["real"] for q in e["intrs"])]
        if j:
            e = dict(t[j[0]], intrs=[dict(q) for q in t[j[0]]["intrs"]])
            q = next(q for q in e["intrs"] if q["real"])
            q["cd"] = [q["cd"][0] + 1] + q["cd"][1:]
            ctx.expect_rejected("TPeriodic", "TPeriodic.cfg", t[:j[0]] + [e])
            break
