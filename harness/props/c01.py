"""C01 body ids"""


def run(ctx):
    g = ctx.graph("BodyStore", "BodyStore_ids.cfg")
    paths = g.tour(ctx.rng, 60)
    ctx.notes["model_transitions_replayed"] = g.covered
    ctx.replay("bodies", paths, params={"K": 3, "pre": 0})
    ctx.replay("bodies", g.walks(ctx.rng, 400 if not ctx.thorough else 4000, 60), params={"K": 3, "pre": 0}, label="w")
    ctx.cov["exhaustive"] = True
