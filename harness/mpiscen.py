"""scenarios of distributed runs, shared by C18 and C19"""
import math


def scenario(rng, np, merge):
    nx, ny, nz = rng.choice([(6, 2, 1), (4, 3, 1), (3, 3, 2), (8, 1, 1), (5, 2, 2), (6, 3, 1)])
    a = rng.choice([.985, .995, 1.02, 1.0])
    vmax = rng.choice([.5, 1.5, 3.]) if merge else .3
    bodies = []
    mode = rng.choice(["slab", "slab", "slaby", "random", "inter", "tiny"])
    n = nx * ny * nz
    k = 0
    for i in range(nx):
        for j in range(ny):
            for m in range(nz):
                w = np - 1
                sd = {"slab": 1 + i * w // nx, "slaby": 1 + j * w // ny, "random": rng.randint(1, w), "inter": 1 + k % w, "tiny": 1 if k else w}[mode]
                jit = [rng.uniform(-.004, .004) for _ in range(3)]
                r = .5 * rng.choice([1, 1, .96])
                bodies.append({"shape": "sphere", "pos": [i * a + jit[0], .5 + j * a + jit[1], m * a + jit[2]], "r": r, "sd": sd,
                               "vel": [rng.uniform(-vmax, vmax) for _ in range(3)], "angVel": [0, 0, 0] if merge else [rng.uniform(-1, 1) for _ in range(3)]})
                k += 1
    # every rank must own something
    for w in range(1, np):
        if not any(b["sd"] == w for b in bodies):
            bodies[w % len(bodies)]["sd"] = w
    for w in range(1, np):
        if not any(b["sd"] == w for b in bodies):
            return scenario(rng, np, merge)
    kind = rng.choice(["floor", "floor", "moving", "wall", "none"])
    if kind in ("floor", "moving"):
        bodies.append({"shape": "box", "pos": [nx * a / 2, -.01, nz * a / 2], "ext": [nx * (1 if rng.random() < .7 else .3), .01, 2], "sd": 0, "vel": [0, rng.choice([0, .5, -.5]) if kind == "moving" else 0, 0]})
    elif kind == "wall":
        bodies.append({"shape": "wall", "pos": -.5, "axis": 0, "sd": 0})
    for _ in range(rng.choice([0, 1, 1, 2])):      # movable bodies of the master
        bodies.append({"shape": "sphere", "pos": [rng.uniform(0, nx), .5 + ny * a + rng.choice([-.01, .1, .2, .4]), rng.uniform(0, nz - 1)], "r": .5, "sd": 0, "vel": [rng.choice([-6, -1, 0, 1, 6]) + rng.uniform(-1, 1), rng.uniform(-3, 1), 0]})
    # overlaps of the extra bodies would be violent: keep them apart from each other
    ms = [b for b in bodies if b["sd"] == 0 and b["shape"] == "sphere"]
    if len(ms) == 2 and math.dist(ms[0]["pos"], ms[1]["pos"]) < 1.05:
        bodies.remove(ms[1])
    order = list(bodies)
    if rng.random() < .5:
        rng.shuffle(order)
    return {"bodies": order, "young": rng.choice([1024, 4096]), "fric": 0 if merge else rng.choice([0, .5]), "verlet": rng.choice([.03, .08, .2]) if merge else .35, "damp": rng.choice([0, .2]),
            "g": [0, rng.choice([0, -10]), 0], "dt": 1 / 256., "merge": merge, "runs": [rng.randint(5, 25) for _ in range(rng.choice([1, 2]))] if merge else [rng.randint(5, 25)], "watch": True}
