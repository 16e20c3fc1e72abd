"""C25 prescribed motions and loads"""


def axis(rng):
    while True:
        a = [rng.randint(-9, 9) for _ in range(3)] if rng.random() < .6 else rng.choice([[1, 0, 0], [0, 1, 0], [0, 0, 1], [0, 0, 5], [-3, 0, 0]])
        if any(a) and not (a[0] == a[1] == 0 and a[2] < 0):
            return a


def table(rng, hi):
    n = rng.randint(2, 5)
    ts = sorted(rng.sample(range(0, 25), n))
    return {"ts": ts, "vs": [rng.randint(-hi, hi) for _ in range(n)], "wrap": rng.random() < .5}


def kin(rng, k, ids):
    P = lambda: [rng.randint(-3000, 3000) for _ in range(3)]
    g = {"kind": k, "dead": False, "ids": ids}
    if k in ("rot", "hrot", "helix", "ihelix"):
        g.update(axis=axis(rng), zero=rng.random() < .6, zp=P())
    if k == "trans":
        g.update(vel=rng.randint(-500, 500), axis=axis(rng))
    elif k == "harm":
        g.update(A=[rng.choice([0, rng.randint(-1500, 1500)]) for _ in range(3)], a=[rng.randint(0, 6) for _ in range(3)], b=[rng.randint(-48, 96) for _ in range(3)])
    elif k == "rot":
        g.update(om=rng.randint(-1500, 1500))
    elif k == "hrot":
        g.update(A=rng.randint(-3000, 3000), a=rng.randint(0, 6), b=rng.randint(-48, 48))
    elif k == "helix":
        g.update(om=rng.randint(-1500, 1500), lin=rng.randint(-250, 250), turned=rng.choice([0, 0, 700]))
    elif k == "ihelix":
        g.update(table(rng, 1500), slope=rng.randint(-2000, 2000), turned=0)
    elif k == "pedal":
        g.update(om=rng.randint(-2000, 2000), axis=axis(rng), radius=rng.randint(200, 3000), fi=rng.randint(-30000, 30000))
    elif k == "servo":
        g.update(axis=axis(rng), max=rng.choice([100, 600, 3000]), target=rng.randint(0, 6000), kP=rng.randint(0, 20), kI=rng.choice([0, rng.randint(0, 4)]), kD=rng.choice([0, rng.randint(0, 20)]), period=rng.randint(1, 5),
                 it=0, err=0, cur=0, prev=-1)
    return g


def scen(rng):
    n = rng.randint(3, 7)
    bs = [{"shape": rng.choice(["sphere"] * 4 + ["box", "facet"]), "p": [rng.randint(-9000, 9000) for _ in range(3)], "r": rng.randint(1, 4), "mass": rng.randint(1, 30), "mask": rng.randint(1, 7), "clump": False} for _ in range(n)]
    if rng.random() < .25:
        for b in bs[-2:]:
            b.update(clump=True, shape="sphere")
    free = [i for i, b in enumerate(bs) if not b["clump"]]
    P = lambda: [rng.randint(-3000, 3000) for _ in range(3)]
    some = lambda: sorted(rng.sample(free, rng.randint(1, len(free))))
    pre, post = [], []
    for _ in range(rng.randint(1, 4)):
        r = rng.random()
        if r < .5:
            k = rng.choice(["trans", "harm", "rot", "rot", "hrot", "helix", "ihelix", "ihelix", "pedal"])
            if rng.random() < .3:
                ids = some()
                c = [dict(kin(rng, q, ids), dead=rng.random() < .2) for q in rng.sample(["trans", "harm", "rot", "hrot", "helix", "ihelix", "pedal"], rng.randint(2, 3))]
                c[0]["dead"] = False
                pre.append({"kind": "comb", "dead": False, "ids": ids, "comb": c})
            else:
                pre.append(kin(rng, k, some()))
        else:
            k = rng.choice(["force", "torque", "idf", "idf", "radial", "drag", "ldrag", "grav", "axial", "central", "disp"])
            g = {"kind": k, "dead": False}
            if k not in ("grav", "axial", "central"):
                g["ids"] = some()
            else:
                g["mask"] = rng.choice([0, 0, 1, 2, 5])
            if k in ("force", "torque"):
                g["f"] = [rng.randint(-9000, 9000) for _ in range(3)]
            elif k == "idf":
                g.update(table(rng, 9000), axis=axis(rng))
            elif k == "radial":
                g.update(pt=P(), axis=axis(rng), fn=rng.randint(-5000, 5000))
            elif k == "drag":
                g["k"] = rng.randint(1, 60)
            elif k == "ldrag":
                g["k"] = rng.randint(1, 300)
            elif k == "grav":
                g["g"] = [rng.randint(-300, 300) for _ in range(3)]
            elif k == "axial":
                g.update(pt=P(), axis=axis(rng), acc=rng.randint(-200, 200))
            elif k == "central":
                g.update(centre=rng.choice(free), acc=rng.randint(-200, 200), rec=rng.random() < .5)
            elif k == "disp":
                g.update(mov=[rng.randint(-300, 300) for _ in range(3)], axis=axis(rng), ang=rng.randint(100, 3000), vels=rng.random() < .6)
            pre.append(g)
    if rng.random() < .4 and len(free) > 1:
        # the controller moves bodies nobody else moves
        s = rng.sample(free, rng.randint(1, 2))
        for g in pre:
            if g["kind"] in ("trans", "harm", "rot", "hrot", "helix", "ihelix", "pedal", "comb", "disp"):
                g["ids"] = [i for i in g["ids"] if i not in s] or [next(i for i in free if i not in s)] if len(free) > len(s) else g["ids"]
                for c in g.get("comb", []):
                    c["ids"] = g["ids"]
        pre.append({"kind": "force", "dead": False, "ids": s, "f": [rng.randint(-6000, 6000) for _ in range(3)]})
        sv = kin(rng, "servo", s)
        if rng.random() < .4:
            post.append({"kind": "comb", "dead": False, "ids": s, "comb": [sv, kin(rng, rng.choice(["trans", "rot", "harm"]), s)]})
        else:
            post.append(sv)
    gs = pre + post
    ops = []
    noerase = {g["centre"] for g in pre if g["kind"] == "central"} | {i for g in gs if g["kind"] == "disp" for i in g["ids"]} | {i for g in gs if g["kind"] == "servo" or any(c["kind"] == "servo" for c in g.get("comb", [])) for i in g["ids"]}
    while sum(o["op"] == "step" for o in ops) < 22:
        r = rng.random()
        if r < .05:
            c = [i for i in free if i not in noerase]
            if c:
                ops.append({"op": "erase", "id": rng.choice(c)})
        elif r < .12:
            ops.append({"op": "dt", "m": rng.choice([1, 1, 2, 3])})
        elif r < .15 and not post:
            ops.append({"op": "time"})
        elif r < .2:
            ops.append({"op": "load"})
        elif r < .35:
            k = rng.randint(1, len(gs))
            g = gs[k - 1]
            c = [("dead", rng.random() < .5)]
            if g["kind"] in ("trans",):
                c += [("vel", rng.randint(-900, 900)), ("axis", axis(rng))]
            if g["kind"] in ("rot", "helix"):
                c += [("om", rng.randint(-1500, 1500)), ("axis", axis(rng)), ("zp", P())]
            if g["kind"] in ("radial", "idf", "axial"):
                c += [("axis", axis(rng))]
            if g["kind"] in ("force", "torque"):
                c += [("f", [rng.randint(-9000, 9000) for _ in range(3)])]
            if g["kind"] in ("grav", "axial", "central"):
                c += [("mask", rng.choice([0, 1, 2, 4]))]
            n_, v = rng.choice(c)
            ops.append({"op": "set", "k": k, "new": {n_: v}})
        elif r < .45:
            ops.append({"op": "vel", "id": rng.choice(free), "v": [rng.randint(-900, 900) for _ in range(3)], "w": [rng.randint(-900, 900) for _ in range(3)]})
        else:
            ops += [{"op": "step"}] * rng.randint(1, 4)
    return {"bodies": bs, "engines": gs, "late": len(pre) + 1, "ops": ops, "d0": rng.choice([1., .25, 1 / 1024.])}


def run(ctx):
    ctx.model_check("MCInterp", "MCInterp.cfg", need_actions=False)
    k = 12 if ctx.thorough else 1
    tr = ctx.record_and_validate("drive", "TDrive", "TDrive.cfg", [scen(ctx.rng) for _ in range(300 * k)], timeout=600)
    kinds = {}
    for t in tr:
        for g in t[0]["engines"]:
            for c in [g] + g.get("comb", []):
                kinds[c["kind"]] = kinds.get(c["kind"], 0) + 1
    ctx.notes["engines"] = kinds
    t = next(t for t in tr if len(t) > 4)
    j = next(i for i, e in enumerate(t) if e["op"] == "step")
    a = t[j]["after"][0]
    for d in (dict(v=[x + 40 for x in a["v"]]), dict(f=[x + 900 for x in a["f"]]), dict(w=[x + 90 for x in a["w"]])):
        ctx.expect_rejected("TDrive", "TDrive.cfg", t[:j] + [dict(t[j], after=[dict(a, **d)] + t[j]["after"][1:])])
