"""C10 engine loop"""


def run(ctx):
    g = ctx.graph("EngineLoop", "EngineLoop.cfg")
    paths = g.tour(ctx.rng, 60, limit=None if ctx.thorough else 60000)
    ctx.notes["model_transitions_replayed"] = g.covered
    ctx.cov["exhaustive"] = g.covered == len(g.edges)
    ctx.replay("engines", paths)
