"""C21 cohesive law"""
import math
from props.c20 import unit, add


def scen(rng):
    incr = rng.random() < .5
    brk = rng.choice([1, 1, 3, 100])      # how strong the bonds are
    mat = lambda: {"E": rng.choice([.2, .5, 1, 1.5]), "nu": rng.choice([.3, .5, 1]), "mu": rng.choice([0, 100, 300, 500, 800]), "coh": rng.random() < .9,
                   "fragile": rng.random() < .6, "nc": rng.choice([.01, .03, .08]) * brk, "sc": rng.choice([.005, .02, .05]) * brk, "akr": rng.choice([.3, 1, 2, 2]) if rng.random() < .9 else 0., "akt": rng.choice([.3, 1, 2]),
                   "er": rng.choice([-1, -1, .05, .2]) if incr else -1, "et": rng.choice([-1, -1, .05, .2]) if incr else -1}
    frag = rng.choice([None, True, False])
    n = unit(rng)
    ra, rb = rng.randint(5, 14), rng.randint(5, 14)
    bs = [dict(mat(), x=[0., 0., 0.], r=ra), dict(mat(), x=add([0, 0, 0], n, ra + rb - rng.uniform(-.5, 1.5)), r=rb)]
    if rng.random() < .4:
        rc = rng.randint(5, 14)
        for _ in range(20):
            m = unit(rng)
            x = add(bs[1]["x"], m, rb + rc - rng.uniform(.1, 1.5))
            if sum(v * v for v in x) > (ra + rc + 6) ** 2:
                bs.append(dict(mat(), x=x, r=rc))
                break
    for b in bs:
        if frag is not None:
            b["fragile"] = frag
    dt = rng.choice([1, 1, .5, 2])
    sp = rng.choice([.05, .15, .4])
    ops, since = [], 9
    z = [0., 0., 0.]
    which = rng.randint(0, len(bs) - 1)
    while sum(o["op"] == "step" for o in ops) < 26:
        r = rng.random()
        if r < .12 and since > 2:
            ops.append({"op": "glue"})
            since = 0
        elif r < .3:
            nm = rng.choice(["only", "unpMax", "unpMax", "init"])
            ops.append({"op": "attr", "k": rng.randint(0, 2), "name": nm, "v": {"only": rng.random() < .7, "unpMax": rng.choice([-1., .5, 1., 3.]), "init": True}[nm]})
        mode = rng.choice(["slide", "slide", "back", "pull", "pull", "push", "spin", "roll", "twist", "mix", "still"])
        u = unit(rng)
        tang = add(u, n, -sum(a * b for a, b in zip(u, n)))
        reps = rng.randint(1, 6)
        for j in range(reps):
            row = [[list(z), list(z)] for _ in bs]
            s = 1 if which else -1
            if mode in ("slide", "back"):
                g = sp if mode == "slide" or j < (reps + 1) // 2 else -sp
                row[which][0] = [x * g / dt for x in tang]
            elif mode in ("pull", "push"):
                row[which][0] = [x * s * sp * (1 if mode == "pull" else -1) / dt for x in n]
            elif mode == "spin":
                row[which][1] = [x * sp / 20 / dt for x in u]
            elif mode == "twist":
                row[which][1] = [x * sp / 20 / dt for x in n]
            elif mode == "roll":
                for b in range(len(bs)):
                    row[b][1] = [x * sp / 30 / dt for x in unit(rng)]
            elif mode == "mix":
                for b in range(len(bs)):
                    row[b] = [[rng.uniform(-sp, sp) / dt for _ in range(3)], [rng.uniform(-sp, sp) / 30 / dt for _ in range(3)]]
            ops.append({"op": "step", "v": row})
            since += 1
    return {"bodies": bs, "ops": ops, "dt": dt, "incr": incr, "always": rng.random() < .3, "moments": rng.random() < .6, "onNew": rng.random() < .6, "ratch": rng.random() < .5,
            "creep": rng.choice([0, 0, 0, 60., 200.]), "verlet": rng.choice([0, 0, 2]), "track": rng.random() < .2}


def stretch(rng):
    """bonds that yield, drawn out to their largest displacement, then pushed back or glued again"""
    s = scen(rng)
    for b in s["bodies"]:
        b.update(coh=True, fragile=False, nc=rng.choice([.01, .03]), sc=rng.choice([.02, .05]))
    s["onNew"] = True
    z = [0., 0., 0.]
    d = [a - b for a, b in zip(s["bodies"][1]["x"], s["bodies"][0]["x"])]
    L = sum(x * x for x in d) ** .5
    d = [x / L for x in d]
    s["bodies"][1]["x"] = add([0., 0., 0.], d, s["bodies"][0]["r"] + s["bodies"][1]["r"] - rng.uniform(.05, .3))
    sp = rng.choice([.03, .08])
    row = lambda g: {"op": "step", "v": [[[x * g / s["dt"] for x in d] if i == 1 else list(z), list(z)] for i in range(len(s["bodies"]))]}
    s["ops"] = [row(0), {"op": "attr", "k": 0, "name": "unpMax", "v": rng.choice([-1., .2, .4, .6])}, {"op": "attr", "k": 1, "name": "unpMax", "v": .4}]
    for _ in range(3):
        s["ops"] += [row(sp) for _ in range(rng.randint(4, 14))] + [row(-sp) for _ in range(rng.randint(0, 5))]
        if rng.random() < .3:
            s["ops"].append({"op": "glue"})
    return s


def orbit(rng):
    """twist and bend a bond, then carry it around: the normal turns fast"""
    s = scen(rng)
    s["bodies"] = s["bodies"][:2]
    for b in s["bodies"]:
        b.update(coh=True, nc=3., sc=3., akr=rng.choice([.3, 1, 2]), akt=rng.choice([.3, 1, 2]), nu=rng.choice([.5, 1]))
    s.update(onNew=True, moments=True, incr=rng.random() < .8)
    d = unit(rng)
    u = unit(rng)
    t = add(u, d, -sum(a * b for a, b in zip(u, d)))
    k = sum(x * x for x in t) ** .5
    t = [x / k for x in t]
    L = s["bodies"][0]["r"] + s["bodies"][1]["r"] - .5
    s["bodies"][1]["x"] = [L * x for x in d]
    z = [0., 0., 0.]
    dt = s["dt"]
    s["ops"] = []
    for _ in range(6):
        w = [[a * rng.uniform(-.04, .04) / dt + b * rng.uniform(-.02, .02) / dt for a, b in zip(d, t)] for _ in range(2)]
        s["ops"].append({"op": "step", "v": [[list(z), w[0]], [list(z), w[1]]]})
    th, st = 0., rng.choice([.05, .1])
    for _ in range(14):
        st *= rng.choice([1, 1, 1, -1])
        v = [L * ((math.cos(th + st) - math.cos(th)) * a + (math.sin(th + st) - math.sin(th)) * b) / dt for a, b in zip(d, t)]
        th += st
        s["ops"].append({"op": "step", "v": [[list(z), list(z)], [v, [x * rng.choice([0, 0, .02 / dt]) for x in unit(rng)]]]})
    return s


def run(ctx):
    for c in "ABC":
        ctx.model_check("Cohesion", "Cohesion%s.cfg" % c, need_actions=False)
    k = 12 if ctx.thorough else 1
    tr = ctx.record_and_validate("cohesion", "TCohesion", "TCohesion.cfg", [scen(ctx.rng) for _ in range(280 * k)] + [stretch(ctx.rng) for _ in range(50 * k)] + [orbit(ctx.rng) for _ in range(40 * k)], timeout=600)
    st = [(t, e) for t in tr for e in t if e["op"] == "step"]
    ctx.notes["contact_steps"] = sum(len(e["contacts"]) for _, e in st)
    ctx.notes["lost"] = sum(len(e["gone"]) for _, e in st)
    ctx.notes["in_tension"] = sum(c["fn"] < 0 for _, e in st for c in e["contacts"])
    ctx.notes["broken_in_shear"] = sum(1 for t in tr for a, b in zip(t, t[1:]) if a["op"] == b["op"] == "step" for c in a["contacts"] if not c["broken"] for d in b["contacts"] if (c["id1"], c["id2"]) == (d["id1"], d["id2"]) and d["broken"])
    for t in tr:
        j = next((i for i, e in enumerate(t) if e["op"] == "step" and e["contacts"] and not e["contacts"][0]["broken"] and e["contacts"][0]["fs"] != [0, 0, 0]), None)
        if j is not None:
            e = t[j]
            c = e["contacts"][0]
            for d in (dict(fs=[x + 90 for x in c["fs"]]), dict(fn=c["fn"] + 300), dict(na=c["na"] * 2 + 50), dict(fragile=not c["fragile"])):
                ctx.expect_rejected("TCohesion", "TCohesion.cfg", t[:j] + [dict(e, contacts=[dict(c, **d)] + e["contacts"][1:])])
            break
