"""C28 automatic time step"""
from props.c20 import unit, add


def scen(rng):
    law = rng.choice(["frict", "frict", "coh", "visc", "visc", "mindlin"])
    n = rng.randint(2, 6)
    thick = law == "visc" and rng.random() < .5      # viscosity decides
    bs = []
    for i in range(n):
        r = rng.randint(1, 3)
        x = [0., 0., 0.] if not bs else add(bs[rng.randrange(len(bs))]["x"], unit(rng), rng.uniform(1.5, 5.5))
        bs.append({"x": x, "r": r, "E": 1. if thick else rng.choice([2., 5., 10., 20.]) * (4 if law == "mindlin" else 1), "nu": rng.choice([.2, .3] if law == "mindlin" else [.2, .5, 1.]), "fixed": rng.random() < .25, "cn": rng.choice([20., 60.] if thick else [0., 1., 4., 20.]), "cs": rng.choice([0., .5, 3.]), "coh": rng.choice([0., 5.]),
                   "akr": rng.choice([0., .5, 2.]), "akt": rng.choice([0., .5, 2.])})
    M = lambda: {"m": round(rng.uniform(5, 20), 3), "I": [round(rng.uniform(5, 40), 3) for _ in range(3)]}
    cl = sorted(rng.sample(range(n), rng.randint(2, 3))) if n >= 3 and rng.random() < (.7 if thick else .35) else []
    ops = []
    for _ in range(rng.randint(12, 25)):
        r = rng.random()
        if r < .06:
            ops.append({"op": "set", "n": "active", "v": rng.random() < .6})
        elif r < .1:
            ops.append({"op": "set", "n": "interval", "v": rng.randint(1, 4)})
        elif r < .14:
            ops.append({"op": "set", "n": "safety", "v": rng.choice([300, 500, 800])})
        elif r < .2 and law == "visc":
            ops.append({"op": "set", "n": "visc", "v": rng.random() < .7})
        elif r < .24:
            ops.append({"op": "set", "n": "max", "v": rng.choice([2000, 5000, 20000])})
        elif r < .28:
            ops.append({"op": "dt", "v": rng.randint(5, 5000)})
        elif r < .31:
            ops.append({"op": "load"})
        elif r < .35:
            ops.append(dict(M(), op="add", x=add(bs[0]["x"], unit(rng), rng.uniform(1.5, 6)), r=rng.randint(1, 3), fixed=rng.random() < .3))
        to = []
        for i in range(n):
            if rng.random() < .3:
                far = rng.random() < .2
                to.append([i, add(bs[(i + 1) % n]["x"], unit(rng), 60 + 20 * i if far else rng.uniform(1.5, 5.5))])
        ops.append({"op": "step", "to": to})
    return {"law": law, "bodies": bs, "mass": [M() for _ in range(n + 1)], "clump": cl, "clumpFixed": rng.random() < .2, "never": rng.random() < .3, "safety": rng.choice([300, 500, 800]), "interval": rng.choice([1, 1, 2, 3]),
            "visc": law == "visc" and (thick or rng.random() < .6), "def": rng.choice([-1, -1, 3000]), "max": rng.choice([-1, -1, 4000, 20000]), "ops": ops}


def run(ctx):
    ctx.model_check("MCTimeStep", "MCTimeStep.cfg", need_actions=False)
    k = 12 if ctx.thorough else 1
    tr = ctx.record_and_validate("tstep", "TTimeStep", "TTimeStep.cfg", [scen(ctx.rng) for _ in range(350 * k)], timeout=600)
    st = [e for t in tr for e in t if e["op"] == "step"]
    ctx.notes["steps"] = len(st)
    ctx.notes["with_contacts"] = sum(bool(e["contacts"]) for e in st)
    t = next(t for t in tr if len(t) > 3 and t[1]["contacts"] and t[1]["active"])
    ctx.expect_rejected("TTimeStep", "TTimeStep.cfg", t[:1] + [dict(t[1], dt=t[1]["dt"] * 2 + 50)])
