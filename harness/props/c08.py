"""C08 force accumulation"""


def scenario(rng, big):
    n = rng.choice([1, 2, 3, 5, 40]) if not big else rng.choice([3, 150, 700, 2500])
    cur = n
    ops = []
    hot = lambda: rng.choice([0, cur - 1, cur // 2, rng.randrange(cur), rng.randrange(cur)])
    vec = lambda: [rng.randint(-99, 99) for _ in range(3)]
    touched = [0]
    for _ in range(rng.randint(15, 60)):
        k = rng.random()
        i = hot() if rng.random() < .7 else rng.choice(touched)
        if k < .25:
            ops.append({"op": "add", "q": rng.choice("FTFTMR"), "id": i, "v": vec()})
        elif k < .37:
            ops.append({"op": rng.choice(["perm", "perm", "addperm"]), "q": rng.choice("FT"), "id": i, "v": vec() if rng.random() < .8 else [0, 0, 0]})
        elif k < .45:
            ops.append({"op": "reset", "all": rng.random() < .3} if rng.random() < .6 else {"op": "step"})
        elif k < .50:
            d = rng.choice([1, 2, 60, 400, 2100]) if big else rng.choice([1, 2])
            if cur + d < 4000:
                ops.append({"op": "append", "k": d})
                cur += d
        elif k < .53 and cur <= 42:
            ops.append({"op": "addall", "q": "F", "v": vec()})
        elif k < .57:
            same = rng.random() < .5     # several engines acting on one body
            ops.append({"op": "par", "groups": [[[rng.choice("FFT"), i if same else hot(), vec()] for _ in range(rng.randint(1, 3))] for _ in range(rng.randint(1, 6))]})
            touched.extend(x[1] for g in ops[-1]["groups"] for x in g)
        elif k < .59:
            ops.append({"op": "bad", "q": rng.choice(["f", "t", "permF"]), "id": rng.choice([-1, cur, cur + 1, cur + 150])})
        elif k < .66:
            ops.append({"op": "getperm", "q": rng.choice("FT"), "id": rng.choice(touched)})
        else:
            ops.append({"op": "get", "q": rng.choice("FTFTMR"), "id": rng.choice(touched) if rng.random() < .8 else hot(), "sync": rng.random() < .5})
        touched.append(i)
    for i in sorted(set(touched)) + [cur - 1]:
        for q in "FTMR":
            ops.append({"op": "get", "q": q, "id": i, "sync": rng.random() < .5})
    return {"n": n, "ops": ops}


def run(ctx):
    ctx.model_check("MCForceStore")
    k = 10 if ctx.thorough else 1
    for th in (1, 4):
        sc = [scenario(ctx.rng, False) for _ in range(150 * k)] + [scenario(ctx.rng, True) for _ in range(120 * k)]
        tr = ctx.record_and_validate("forces", "TForceStore", "TForceStore.cfg", sc, threads=th)
    t = next(t for t in tr if any(e["op"] == "get" for e in t))
    j = [i for i, e in enumerate(t) if e["op"] == "get"][-1]
    t = t[:j] + [dict(t[j], v=[t[j]["v"][0] + 1] + t[j]["v"][1:])]
    ctx.expect_rejected("TForceStore", "TForceStore.cfg", t)
