"""scenarios of contacts, shared by C07 and C24"""


def mat(rng):
    return {"E": rng.choice([1, 2, 3, 5, 7, 10]), "nu": rng.randint(1, 5), "mu": rng.choice([0, 250, 500, 750, 1000])}


def shape(rng, L, kinds):
    k = rng.choice(kinds)
    c = dict(mat(rng), k=k, x=[rng.randint(0, L) for _ in range(3)])
    if k == "sphere":
        c["r"] = rng.randint(4, 20)
    elif k == "wall":
        c["axis"] = rng.randint(1, 3)
    elif k == "box":
        c["ext"] = [rng.randint(2, 25) for _ in range(3)]
        if rng.random() < .4:
            c["perm"] = rng.randint(1, 3)
    else:
        ax = [1, 2, 3]
        rng.shuffle(ax)
        c.update(b=ax[1], c=ax[2], lb=rng.randint(15, 70), lc=rng.randint(15, 70), rot=rng.randint(0, 2))
        if rng.random() < .5:
            c["lc"] = c["lb"]
    return c


def degenerate(a, b, h=None):
    """a pair whose contact has no direction: a sphere centred on the other sphere, or on the surface of the other shape"""
    if a["k"] != "sphere":
        a, b = b, a
    if a["k"] != "sphere":
        return False
    if h is not None and b["k"] != "sphere":
        rr = range(-1, 2)
        return any(degenerate(dict(a, x=[a["x"][i] + sum(h[i][j] * n[j] for j in range(3)) for i in range(3)]), b) for n in [(p, q, r) for p in rr for q in rr for r in rr])
    x, d = a["x"], [a["x"][i] - b["x"][i] for i in range(3)]
    if b["k"] == "sphere":
        if h is None:
            return d == [0, 0, 0]
        rr = range(-2, 3)
        return any(all(d[i] + sum(h[i][j] * n[j] for j in range(3)) == 0 for i in range(3)) for n in [(p, q, r) for p in rr for q in rr for r in rr])
    if b["k"] == "wall":
        return d[b["axis"] - 1] == 0
    if b["k"] == "box":
        return all(abs(d[i]) <= b["ext"][i] for i in range(3)) and any(abs(d[i]) == b["ext"][i] for i in range(3))
    return d[6 - b["b"] - b["c"] - 1] == 0


def clean(bs, h=None):
    keep = []
    for b in bs:
        if not any(degenerate(b, o, h) for o in keep):
            keep.append(b)
    return keep


def static(rng, mode, peri=False):
    L = rng.choice([20, 40, 60])
    n = rng.randint(2, 10)
    if peri:
        h = [[rng.choice([90, 100, 130]) if i == j else 0 for j in range(3)] for i in range(3)]
        if rng.random() < .5:
            i, j = rng.sample(range(3), 2)
            h[i][j] = rng.choice([-15, 10, 20])
        ortho = not any(h[i][j] for i in range(3) for j in range(3) if i != j)
        home = mode == "geom" and ortho
        if home:      # cell and bodies for which contacts through images are frequent
            h = [[rng.choice([60, 70, 90]) if i == j else 0 for j in range(3)] for i in range(3)]
        bs = [shape(rng, 200, ["sphere"] * 4 + (["box", "facet"] if home else [])) for _ in range(n + 2 if home else n * 2)]
        for b in bs:
            b.get("ext") and b.update(ext=[min(e, 10) for e in b["ext"]])
            b.get("lb") and b.update(lb=min(b["lb"], 20), lc=min(b["lc"], 20))
            if home:
                b["r"] = min(b.get("r", 9), 13)
                b["x"] = [rng.choice([rng.randint(0, 9), h[i][i] - rng.randint(1, 9), rng.randint(0, h[i][i] - 1)]) for i in range(3)]
                if b["k"] == "facet":     # centre within the cell as well
                    for ax, ln in ((b["b"], b["lb"]), (b["c"], b["lc"])):
                        b["x"][ax - 1] = min(b["x"][ax - 1], h[ax - 1][ax - 1] - ln)
        return {"mode": mode, "bodies": clean(bs, h), "cell": h, "six": rng.random() < .3, "home": home}
    bs = [shape(rng, L, ["sphere"] * 4 + ["wall", "box", "facet", "facet"]) for _ in range(n)]
    rng.shuffle(bs)
    bs = clean(bs)
    if rng.random() < .3:
        bs = [b for b in bs if b["k"] == "sphere"]
    return {"mode": mode, "bodies": bs, "six": rng.random() < .3, "sph": all(b["k"] == "sphere" for b in bs)}


def dynamic(rng, peri=False):
    """spheres at rest in contact at first, then moving freely with friction"""
    sc = static(rng, "law", peri)
    v = rng.choice([.02, .1, .3])
    bs = []
    for b in sc["bodies"]:
        b = dict(b)
        if b["k"] == "sphere":
            b.update(dyn=True, vel=[rng.uniform(-v, v) for _ in range(3)], angVel=[rng.uniform(-v, v) / 5 for _ in range(3)], r=rng.randint(6, 14))
        bs.append(b)
    # no deep overlaps to begin with
    keep = []
    for b in bs:
        if b["k"] == "sphere" and not peri:
            if any(o["k"] == "sphere" and sum((b["x"][i] - o["x"][i]) ** 2 for i in range(3)) < (.85 * (b["r"] + o["r"])) ** 2 for o in keep):
                continue
        keep.append(b)
    sc.update(bodies=keep, steps=rng.randint(5, 15), rho=1 if peri else .02, dt=1, verlet=rng.choice([0, 1, 3]), ratch=rng.random() < .7, energy=rng.random() < .2, track=rng.random() < .2)
    if peri:
        for b in keep:
            b["r"] = rng.randint(4, 8)
    return sc
