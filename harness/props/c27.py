"""C27 packings: regions, generators, the packing object"""


def v3(rng, a, b):
    return [rng.randint(a, b) for _ in range(3)]


def prim(rng, kinds=None):
    k = rng.choice(kinds or ["sphere", "box", "skew", "cyl", "hyp", "ell", "notch", "half"])
    c = v3(rng, -4, 4)
    if k == "sphere":
        return {"k": k, "c": c, "r": rng.randint(1, 7)}
    if k == "box":
        return {"k": k, "lo": c, "hi": [x + rng.randint(1, 10) for x in c]}
    if k == "skew":
        while True:
            a, b, d = v3(rng, -6, 6), v3(rng, -6, 6), v3(rng, -6, 6)
            det = a[0] * (b[1] * d[2] - b[2] * d[1]) - a[1] * (b[0] * d[2] - b[2] * d[0]) + a[2] * (b[0] * d[1] - b[1] * d[0])
            if det < 0:          # the documented order of the vectors is right-handed
                a, b, det = b, a, -det
            if det > 20:
                return {"k": k, "o": c, "a": [x + y for x, y in zip(a, c)], "b": [x + y for x, y in zip(b, c)], "c": [x + y for x, y in zip(d, c)]}
    if k in ("cyl", "hyp"):
        d = rng.choice([[4, 0, 0], [0, -6, 0], [0, 0, 7], [3, 2, 0], [-2, 4, 1], [3, 3, -3]])
        r = {"k": k, "c1": c, "c2": [x + y for x, y in zip(c, d)], "r": rng.randint(2, 5)}
        if k == "hyp":
            r["w"] = rng.randint(1, r["r"] - 1)
        return r
    if k == "ell":
        return {"k": k, "c": c, "s": v3(rng, 4, 7)}
    if k == "notch":
        i, j = rng.sample(range(3), 2)
        e, n = [0, 0, 0], [0, 0, 0]
        e[i], n[j] = rng.choice([1, -1]), rng.choice([1, -1])
        return {"k": k, "c": c, "e": e, "n": n, "h": rng.randint(0, 2)}
    return {"k": k, "c": c, "d": rng.choice([[1, 0, 0], [0, -1, 0], [0, 0, 1], [1, 2, 0], [-1, 1, 2]])}


def kinds(r):
    return {r["k"]} if "A" not in r else kinds(r["A"]) | kinds(r["B"])


def comp(rng, ks=None, depth=2):
    if depth == 0 or rng.random() < .45:
        return prim(rng, ks)
    a, b = comp(rng, ks, depth - 1), comp(rng, ks, depth - 1)
    o = ["or", "and", "minus", "xor"]
    return {"k": rng.choice(o), "A": a, "B": b}


def regions(rng):
    q = []
    for _ in range(6):
        r = comp(rng)
        k = kinds(r)
        pads = [0] if "hyp" in k else [0, 0, 1, 2, 3, -1] if "ell" not in k else [0, 0, 1, 2, 3]
        q.append({"region": r, "pts": [[v3(rng, -9, 11), rng.choice(pads)] for _ in range(40)]})
    return {"op": "regions", "q": q}


def grids(rng):
    q = []
    for _ in range(3):
        if rng.random() < .5:
            while True:
                r = comp(rng, ["sphere", "box"], 1)
                if r["k"] != "and" or (r["A"]["k"] == "box" and r["B"]["k"] == "box"):
                    break
            q.append({"kind": "hexa", "region": scale(r, 100), "r": rng.choice([60, 75, 100]), "gap": rng.choice([0, 0, 20, 50])})
        else:
            q.append({"kind": "ortho", "region": comp(rng, ["sphere", "box", "skew", "ell"], 1), "r": rng.choice([1, 1, 2]), "gap": rng.choice([0, 1, 2])})
    return {"op": "grids", "q": q}


def scale(r, k):
    if "A" in r:
        return {"k": r["k"], "A": scale(r["A"], k), "B": scale(r["B"], k)}
    return {a: [x * k for x in b] if isinstance(b, list) else b * k if a != "k" else b for a, b in r.items()}


def even(r):
    return scale(r, 2)


def filt(rng):
    q = []
    for _ in range(5):
        s = [{"c": [2 * x for x in v3(rng, -5, 5)], "r": 2 * rng.randint(1, 2), "k": -1} for _ in range(rng.randint(1, 15))]
        q.append({"region": even(comp(rng, ["sphere", "box", "ell", "skew"], 1)), "s": s, "asPack": rng.random() < .5})
    return {"op": "filt", "q": q}


def cloud(rng):
    peri = rng.random() < .5
    lo = v3(rng, -1000, 1000)
    L = [rng.randint(2500, 6000) for _ in range(3)]
    flat = rng.random() < .12
    if flat:
        L[rng.randrange(3)] = 0
    sc = {"op": "cloud", "peri": peri, "lo": lo, "hi": [a + b for a, b in zip(lo, L)], "h": [], "pre": [], "psd": [], "fuzz": 0, "r": 0, "mass": rng.random() < .3, "num": rng.choice([-1, 1, 5, 10, 20, 40]), "seed": rng.choice([0, 1, 2, 77]), "poro": rng.choice([.5, .65, .8])}
    if peri and not flat and rng.random() < .6:
        g = lambda: rng.choice([0, 0, rng.randint(-1200, 1200), rng.randint(-2600, 2600)])
        sc["h"] = [[L[0], g(), g()], [g(), L[1], 0], [0, g(), L[2]]]
        if rng.random() < .3:
            sc["h"] = [[L[0], 0, 0], [rng.choice([1, -1]) * L[0] * rng.choice([1, 2]) // 2, L[1], 0], [0, 0, L[2]]]
    m = rng.random()
    if m < .4:
        sc["r"], sc["fuzz"] = rng.choice([200, 350, 500]), rng.choice([0, 20, 50])
    elif m < .65:
        sc["fuzz"] = rng.choice([0, 20, 50])
        sc["num"] = max(sc["num"], 5)
    else:
        n = rng.randint(2, 4)
        p = sorted(rng.sample(range(10, 91, 10), n - 2))
        sc["psd"] = {"d": sorted(rng.sample(range(300, 901, 60), n)), "p": [0] + p + [100]}
        if rng.random() < .15:
            sc["psd"]["p"][rng.choice([0, n - 1])] = 50
    if sc["num"] < 0:
        sc["hi"] = [a + b // 2 for a, b in zip(lo, L)]
        sc["h"] = [[x // 2 for x in c] for c in sc["h"]]
        sc["r"] = sc["r"] and max(sc["r"], 350)
    elif not flat and rng.random() < .25:
        k = [a + rng.randint(900, b - 900) for a, b in zip(lo, L)]
        sc["pre"] = [{"c": k, "r": rng.randint(300, 800)}]
    return sc


def clumps(rng):
    off = rng.choice([[0, 0, 0], [0, 0, 0], [300, -200, 0], [20000, 0, 0]])
    t = []
    for _ in range(rng.randint(1, 2)):
        r = rng.randint(150, 300)
        t.append([{"c": [a + b for a, b in zip(off, c)], "r": r + (50 if i else 0), "k": -1} for i, c in enumerate([[0, 0, 0], [rng.randint(100, 500), 0, 0], [0, rng.randint(100, 500), 100]][:rng.randint(1, 3)])])
    lo = v3(rng, -1000, 1000)
    pre = []
    if rng.random() < .35:
        pre = [{"c": [a + rng.randint(800, 2400) for a in lo], "r": rng.randint(200, 500), "k": rng.choice([-1, 0, 2])} for _ in range(rng.randint(1, 3))]
    return {"op": "clumps", "pre": pre, "lo": lo, "hi": [a + rng.randint(3000, 5000) for a in lo], "peri": rng.random() < .5, "num": rng.choice([-1, 3, 10, 20]), "t": t, "seed": rng.choice([0, 3, 9]), "must": 0 if pre else 1}


def container(rng):
    U = 16

    def ss(n, same=False):
        r = rng.randint(1, 3)
        return [{"c": [U * x for x in v3(rng, -5, 5)], "r": U * (r if same else rng.randint(1, 3)), "k": rng.choice([-1, -1, 0, 1, 4])} for _ in range(n)]
    ops = []
    half = 0
    size = 3
    for _ in range(rng.randint(3, 8)):
        k = rng.choice(["add", "list", "lists", "move", "scale", "turn", "cell", "cell", "repeat", "repeat", "fill", "file", "text", "sim", "sim", "from", "from"])
        o = {"op": k}
        if k == "add":
            o.update(c=[U * x for x in v3(rng, -5, 5)], r=U * rng.randint(1, 3))
        elif k in ("list", "lists"):
            o["l"] = ss(rng.randint(1, 4))
        elif k == "move":
            o["v"] = [U * x for x in v3(rng, -4, 4)]
        elif k == "scale":
            a, b = rng.choice([(2, 1), (-1, 1), (1, 2), (-1, 2)])
            half += b - 1
            if half > 2:
                continue
            o.update(a=a, b=b)
        elif k == "turn":
            o.update(a=rng.randint(1, 3), n=rng.randint(1, 3), len=rng.choice([1, 1, 2, .5]))
        elif k == "cell":
            o["v"] = [U * x for x in rng.choice([[10, 12, 14], [8, 8, 8], [0, 0, 0]])]
        elif k == "repeat":
            size *= 4
            if size > 50:
                continue
            o["n"] = rng.choice([[1, 1, 1], [2, 1, 1], [1, 2, 2], [1, 1, 3], [0, 1, 1], [2, -1, 2]])
        elif k == "fill":
            size *= 4
            if size > 50:
                continue
            o["v"] = [U * x for x in v3(rng, 4, 13)]
        elif k == "file":
            o.update(fresh=rng.random() < .5, l=ss(2))
        elif k == "text":
            o.update(l=ss(rng.randint(1, 5)), cell=[U * x for x in rng.choice([[0, 0, 0], [10, 12, 14]])])
        elif k == "sim":
            o.update(a=rng.randint(1, 3), n=rng.randint(0, 3), pre=rng.randint(0, 2))
        elif k == "from":
            n = rng.randint(2, 5)
            l = ss(n)
            if rng.random() < .3:
                l[rng.randrange(n)]["r"] = 0
            g = [j for j in range(n) if l[j]["r"]]
            rng.shuffle(g)
            g = g[:2]
            rest = [j for j in range(n) if j not in g]
            o.update(l=l, groups=[g] if rng.random() < .5 else [], gone=rng.sample(rest, rng.randint(0, len(rest))), cell=[U * x for x in rng.choice([[0, 0, 0], [10, 12, 14]])], fresh=rng.random() < .5)
        ops.append(o)
    return {"op": "container", "s": ss(rng.randint(0, 4)), "ops": ops}


def run(ctx):
    ctx.model_check("MCRegion", "MCRegion.cfg", need_actions=False)
    ctx.model_check("MCPacking", "MCPacking.cfg", need_actions=False)
    k = 10 if ctx.thorough else 1
    r = ctx.rng
    sc = [regions(r) for _ in range(100 * k)] + [grids(r) for _ in range(40 * k)] + [filt(r) for _ in range(40 * k)] + [cloud(r) for _ in range(150 * k)] + [clumps(r) for _ in range(60 * k)] + [container(r) for _ in range(150 * k)]
    r.shuffle(sc)
    tr = ctx.record_and_validate("pack", "TPack", "TPack.cfg", sc, timeout=600)
    ops = {}
    for t in tr:
        for e in t:
            ops[e["op"]] = ops.get(e["op"], 0) + 1
    ctx.notes["events"] = ops
