"""C11 run control"""


def scenario(rng, async_=False):
    """keeps just enough of the state to be sure that a started run stops"""
    ops, it, t, dt, si, st, arm = [], 0, 0, 1, 0, 0, None
    half = False

    def step():
        nonlocal it, t, dt, si, st, arm
        t0, stop = t, False
        if arm and arm["at"] == it:
            w, v = arm["what"], arm["to"]
            stop = w == "pause"
            if w == "dt":
                dt = v
            if w == "si":
                si = v
            if w == "st":
                st = v
            arm = None
        it, t = it + 1, t + dt
        return stop or (si > 0 and it == si) or (st > 0 and t0 < st <= t)

    def sim(n):
        """would the run stop within 40 steps?"""
        nonlocal it, t, dt, si, st, arm
        keep = (it, t, dt, si, st, arm)
        if n > 0:
            si = it + n
        for _ in range(40):
            if step():
                return True
        it, t, dt, si, st, arm = keep
        return False
    for _ in range(rng.randint(6, 25)):
        k = rng.random()
        if half:
            k = rng.uniform(.25, .5)
        if k < .2:
            step()
            ops.append({"op": "step"})
        elif k < .38:
            n = rng.choice([1, 1, 2, 3, 7])
            paused = arm is not None
            if not sim(n):      # cannot happen unless the target is moved away by an engine
                continue
            ops.append({"op": "run", "n": n, "wait": rng.random() < .15, "settle": paused})
            half = False
        elif k < .5:
            paused = arm is not None
            if sim(0):
                ops.append({"op": "run", "n": -1, "wait": rng.random() < .15, "settle": paused})
                half = False
        elif k < .6:
            si = rng.choice([0, it, it + 1, it + 2, it + 5, max(0, it - 1)])
            ops.append({"op": "si", "v": si})
        elif k < .74:
            st = rng.choice([0, t, t + 1, t + 2, t + 3, t + dt, t + 3 * dt, t + 3 * dt + 1, max(0, t - 1)])
            ops.append({"op": "st", "v": st})
        elif k < .79:
            dt = rng.choice([1, 2, 3, 5])
            ops.append({"op": "dt", "v": dt})
        elif k < .9:
            w = rng.choice(["pause", "pause", "si", "st", "dt"])
            at = it + rng.choice([0, 1, 2, 4])
            to = {"pause": 0, "si": rng.choice([at + 1, at + 1, at + 2, at + 3, 0]), "st": rng.choice([t + 1, t + 6, t + 9, 0]), "dt": rng.choice([1, 2, 4])}[w]
            arm = {"what": w, "at": at, "to": to}
            ops.append({"op": "arm", "v": arm})
        elif k < .92:
            it = t = 0
            ops.append({"op": "time0"})
        elif k < .95:
            ops.append({"op": rng.choice(["pause", "wait"])})
        elif k < .97:
            ops.append({"op": "saveload"})
        elif arm is None:
            half = True
            ops.append({"op": "half"})
    if half:
        ops.append({"op": "run", "n": 1})
    if async_:
        ops += [{"op": "arm", "v": {"what": "no", "at": 0, "to": 0}}, {"op": "si", "v": 0}, {"op": "st", "v": 0}]
        ops += [{"op": "async", "ms": rng.choice([0, 1, 3, 8])} for _ in range(3)] + [{"op": "step"}]
    return {"ops": ops}


def run(ctx):
    ctx.model_check("RunThreads")
    k = 12 if ctx.thorough else 1
    tr = ctx.record_and_validate("run", "TRunControl", "TRunControl.cfg", [scenario(ctx.rng) for _ in range(400 * k)] + [scenario(ctx.rng, True) for _ in range(24 * k)])
    t = next(t for t in tr if any(e["op"] == "run" for e in t))
    j = next(i for i, e in enumerate(t) if e["op"] == "run")
    ctx.expect_rejected("TRunControl", "TRunControl.cfg", t[:j] + [dict(t[j], post=dict(t[j]["post"], iter=t[j]["post"]["iter"] + 1))])
