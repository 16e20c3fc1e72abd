"""C12 periodic activation"""


def par(rng):
    p = {"ip": rng.choice([0, 1, 2, 3, 5]), "vp": rng.choice([0, 0, 1, 2, 3, 7]), "rp": rng.choice(["off", "off", "off", "huge", "tiny"]), "nDo": rng.choice([-1, -1, 1, 2, 4]),
         "init": rng.random() < .5, "first": rng.choice([0, 0, 0, 1, 2, 4, 9])}
    return p


def scenario(rng):
    ps = [par(rng) for _ in range(rng.randint(2, 6))]
    first = [p["first"] for p in ps]
    ops = []
    n, it = len(ps), 0
    for _ in range(rng.randint(20, 50)):
        k = rng.random()
        if k < .75:
            it += 1
            ops.append({"op": "step", "run": rng.random() < .02})
        elif k < .82:
            ops.append({"op": "dt", "v": rng.choice([1, 2, 3, 8])})
        elif k < .87 and n < 9:
            p = par(rng)
            n += 1
            first.append(p["first"])
            ops.append({"op": "add", "p": p})
        elif k < .91:
            i = rng.randint(1, n)
            p = par(rng)
            p["first"] = first[i - 1]
            ops.append({"op": "set", "i": i, "p": p})
        elif k < .95:
            ops.append({"op": "dead", "i": rng.randint(1, n), "v": rng.random() < .5})
        elif k < .97 and not any(first):
            it = 0
            ops.append({"op": "time0"})
        else:
            ops.append({"op": "saveload"})
    return {"dt": rng.choice([1, 2]), "p": ps, "ops": ops}


def run(ctx):
    ctx.model_check("MCPeriodicRun")
    k = 12 if ctx.thorough else 1
    sc = [scenario(ctx.rng) for _ in range(400 * k)]
    for s in sc[::3]:      # a third without firstIterRun, so that time can be set back
        for p in s["p"] + [o["p"] for o in s["ops"] if "p" in o]:
            p["first"] = 0
        for _ in range(2):
            s["ops"].insert(ctx.rng.randrange(len(s["ops"])), {"op": "time0"})
    tr = ctx.record_and_validate("prun", "TPeriodicRun", "TPeriodicRun.cfg", sc)
    t = next(t for t in tr if any(e["op"] == "step" and e["ran"] for e in t))
    j = next(i for i, e in enumerate(t) if e["op"] == "step" and e["ran"])
    ctx.expect_rejected("TPeriodicRun", "TPeriodicRun.cfg", t[:j] + [dict(t[j], ran=[])])
