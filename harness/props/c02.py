"""C02 clump membership"""


def run(ctx):
    p = {"K": 4, "pre": 3}
    g = ctx.graph("BodyStore", "BodyStore_clumps.cfg")
    paths = g.tour(ctx.rng, 60, limit=None if ctx.thorough else 60000)
    ctx.notes["model_transitions_replayed"] = g.covered
    ctx.replay("bodies", paths, params=p)
    ctx.cov["exhaustive"] = g.covered == len(g.edges)
