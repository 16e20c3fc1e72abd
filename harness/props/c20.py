"""C20 friction law"""


def unit(rng):
    while True:
        v = [rng.uniform(-1, 1) for _ in range(3)]
        n = sum(x * x for x in v) ** .5
        if .2 < n < 1:
            return [x / n for x in v]


def add(a, b, k=1):
    return [p + k * q for p, q in zip(a, b)]


def scen(rng, peri=False):
    mat = lambda: {"E": rng.choice([.2, .5, 1, 1.5]), "nu": rng.choice([.3, .5, 1]), "mu": rng.choice([0, 100, 300, 500, 800])}
    k = "sphere" if peri else rng.choice(["sphere", "sphere", "sphere", "wall", "box", "facet"])
    r = rng.randint(5, 14)
    n = unit(rng)
    bs, sgn = [], 1
    if k == "sphere":
        r1 = rng.randint(5, 14)
        x1 = [rng.uniform(0, 90) for _ in range(3)] if peri else [0., 0., 0.]
        bs.append(dict(mat(), k=k, x=x1, r=r1))
        bs.append(dict(mat(), k=k, x=add(x1, n, r1 + r - rng.uniform(.3, 2.5)), r=r))
    else:
        ax = rng.randint(0, 2)
        n = [float(rng.choice([-1, 1])) if i == ax else 0. for i in range(3)]
        d = r - rng.uniform(.3, 2.5)
        if k == "wall":
            bs.append(dict(mat(), k=k, x=[0., 0., 0.], axis=ax))
            bs.append(dict(mat(), k="sphere", x=add([0, 0, 0], n, d), r=r))
        elif k == "box":
            ext = [20., 20., 20.]
            bs.append(dict(mat(), k=k, x=[0., 0., 0.], ext=ext))
            c = [n[i] * (20 + d) if i == ax else rng.uniform(-10, 10) for i in range(3)]
            if rng.random() < .3:        # over an edge
                j = (ax + 1) % 3
                c[ax], c[j] = 20 * n[ax] + d * .7 * n[ax], 20 + d * .7
            elif rng.random() < .3:      # centre inside
                c[ax] = n[ax] * (20 - rng.uniform(.5, 6))
                r = rng.randint(5, 8)
            bs.append(dict(mat(), k="sphere", x=c, r=r))
        else:
            v = [[0., 0., 0.], [0., 0., 0.], [0., 0., 0.]]
            p, q = (ax + 1) % 3, (ax + 2) % 3
            v[0][p], v[0][q] = -30., -30.
            v[1][p], v[1][q] = 50., -20.
            v[2][p], v[2][q] = -20., 45.
            bs.append(dict(mat(), k=k, x=[0., 0., 0.], v=v))
            bs.append(dict(mat(), k="sphere", x=[n[i] * d if i == ax else rng.uniform(-4, 4) for i in range(3)], r=r))
    if rng.random() < .3 and k == "sphere":
        r3 = rng.randint(5, 14)
        for _ in range(20):
            m = unit(rng)
            x3 = add(bs[1]["x"], m, r + r3 - rng.uniform(.3, 2))
            if sum((x3[i] - bs[0]["x"][i]) ** 2 for i in range(3)) > (bs[0]["r"] + r3 + 3) ** 2:
                bs.append(dict(mat(), k="sphere", x=x3, r=r3))
                break
    if rng.random() < .5 and len(bs) == 2:
        bs.reverse()
    if peri:     # the same contacts through the periodic images
        for b in bs:
            if rng.random() < .6:
                b["x"] = [x + rng.choice([-1, 0, 0, 1]) * h for x, h in zip(b["x"], [90., 100., 110.])]
    dt = rng.choice([1, 1, .5, 2])
    steps, sp = [], rng.choice([.05, .15, .4])
    which = 0 if bs[0]["k"] == "sphere" and rng.random() < .5 else 1
    if bs[which]["k"] != "sphere":
        which = 1 - which
    home = 0
    while len(steps) < 24:
        mode = rng.choice(["slide", "slide", "back", "press", "spin", "roll", "mix", "twist", "off"])
        u = unit(rng)
        tang = add(u, n, -sum(a * b for a, b in zip(u, n)))
        z = [0., 0., 0.]
        reps = rng.randint(1, 5)
        for j in range(reps):
            row = [[list(z), list(z)] for _ in bs]
            if mode == "slide" or mode == "back":
                g = sp if mode == "slide" or j < (reps + 1) // 2 else -sp
                row[which][0] = [x * g / dt for x in tang]
            elif mode == "press":
                row[which][0] = [x * (sp if (j + home) % 2 else -sp) / dt for x in n]
            elif mode == "spin":
                row[which][1] = [x * sp / 12 / dt for x in u]
            elif mode == "twist":
                for b in range(len(bs)):
                    if bs[b]["k"] == "sphere":
                        row[b][1] = [x * sp / 8 / dt for x in n]
            elif mode == "roll":
                for b in range(len(bs)):
                    if bs[b]["k"] == "sphere":
                        row[b][1] = [x * sp / 12 / dt for x in unit(rng)]
            elif mode == "off":       # leave and come back
                row[which][0] = [x * (3.5 if j == 0 else -3.5 if j == 1 else 0) * (1 if which == 1 else -1) / dt for x in n]
            else:
                for b in range(len(bs)):
                    if bs[b]["k"] == "sphere":
                        row[b] = [[rng.uniform(-sp, sp) / dt for _ in range(3)], [rng.uniform(-sp, sp) / 12 / dt for _ in range(3)]]
                    elif rng.random() < .5:
                        row[b][0] = [rng.uniform(-sp, sp) / dt for _ in range(3)]
            steps.append(row)
        if mode == "off" and reps == 1:
            steps.append([[[-x for x in row[b][0]], list(z)] for b in range(len(bs))])
        home += 1
    sc = {"bodies": bs, "steps": steps, "dt": dt, "ratch": rng.random() < .5, "track": rng.random() < .4, "trace": rng.random() < .1, "six": rng.random() < .3,
          "sph": all(b["k"] == "sphere" for b in bs), "verlet": rng.choice([0, 0, 2])}
    if peri:
        sc["cell"] = [90., 100., 110.]
        if rng.random() < .6:
            sc["grad"] = [rng.choice([0, 0, 0, -.002, .001, .003]) for _ in range(9)]
    return sc


def run(ctx):
    ctx.model_check("Friction", need_actions=False)
    k = 12 if ctx.thorough else 1
    sc = [scen(ctx.rng) for _ in range(260 * k)] + [scen(ctx.rng, True) for _ in range(60 * k)]
    tr = ctx.record_and_validate("friction", "TFriction", "TFriction.cfg", sc, timeout=600)
    ctx.notes["contact_steps"] = sum(len(e["contacts"]) for t in tr for e in t[1:])
    ctx.notes["sliding"] = sum(1 for t in tr for e in t[1:] for c in e["contacts"] if c["fnn"] and abs(sum(x * x for x in c["fs"]) ** .5 - c["mu"] * c["fnn"] / 1000.) < 2)
    for t in tr:
        j = next((i for i, e in enumerate(t) if e["op"] == "step" and e["contacts"] and e["contacts"][0]["fs"] != [0, 0, 0]), None)
        if j is not None:
            e = t[j]
            c = e["contacts"][0]
            ctx.expect_rejected("TFriction", "TFriction.cfg", t[:j] + [dict(e, contacts=[dict(c, fs=[x + 60 for x in c["fs"]])])])
            ctx.expect_rejected("TFriction", "TFriction.cfg", t[:j] + [dict(e, contacts=[dict(c, fnn=c["fnn"] + 200)])])
            break
