"""C17 periodic cell"""


def grad(rng, z=.5):
    return [0 if rng.random() < z else rng.randint(-400, 400) / 10000. for _ in range(9)]


def scen(rng):
    H = [rng.randint(10, 60) if i % 4 == 0 else (rng.choice([0, 0, 0, rng.randint(-8, 8)])) for i in range(9)]
    n = rng.randint(1, 4)
    bs = [{"x": [rng.randint(-60, 90) + rng.choice([0, .25]) for _ in range(3)], "vel": [rng.choice([0, 0, rng.randint(-3, 3)]) for _ in range(3)], "w": [rng.choice([0, 0, rng.randint(-3, 3) / 8.]) for _ in range(3)],
           "blocked": rng.random() < .25, "f": [rng.choice([0, 0, rng.randint(-3, 3)]) for _ in range(3)]} for _ in range(n)]
    if rng.random() < .4:      # bodies at rest, no force
        for b in bs:
            b.update(vel=[0, 0, 0], w=[0, 0, 0], f=[0, 0, 0])
    ops = []
    for _ in range(rng.randint(3, 9)):
        r = rng.random()
        if r < .5:
            ops.append({"op": "grad", "g": grad(rng, rng.choice([.5, .8, 1]))})
        elif r < .6:
            ops.append({"op": "homo", "h": rng.randint(0, 2)})
        elif r < .65:
            ops.append({"op": "trsf"})
        elif r < .75:
            ops.append({"op": "vel", "i": rng.randint(0, n - 1), "v": [rng.randint(-3, 3) for _ in range(3)]})
        elif r < .8:
            ops.append({"op": "load"})
        ops.append({"op": "step", "n": rng.randint(1, 3)})
    W = [rng.randint(5, 40) if i % 4 == 0 else rng.randint(-6, 6) if rng.random() < .5 else 0 for i in range(9)]
    return {"H": H, "homo": rng.choice([2, 2, 2, 1, 0]), "bodies": bs, "ops": ops, "damp": rng.choice([0, 0, 20, 50]), "dt": rng.choice([[1, 2], [1, 4], [1, 1], [1, 8]]),
            "wrap": {"H": W, "pts": [[rng.randint(-150, 150) for _ in range(3)] for _ in range(8)]}}


def run(ctx):
    ctx.model_check("Cell")
    k = 12 if ctx.thorough else 1
    sc = [scen(ctx.rng) for _ in range(400 * k)]
    tr = ctx.record_and_validate("cell", "TCell", "TCell.cfg", sc, timeout=600)
    t = next(t for t in tr if any(e["op"] == "step" for e in t))
    j = next(i for i, e in enumerate(t) if e["op"] == "step")
    e = t[j]
    ctx.expect_rejected("TCell", "TCell.cfg", t[:j] + [dict(e, H=[e["H"][0] + 6] + e["H"][1:])])
    b = dict(e["b"][0], vel=[e["b"][0]["vel"][0] + 9] + e["b"][0]["vel"][1:])
    ctx.expect_rejected("TCell", "TCell.cfg", t[:j] + [dict(e, b=[b] + e["b"][1:])])
