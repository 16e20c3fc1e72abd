"""C03 interaction bookkeeping"""


def run(ctx):
    g = ctx.graph("IntrStore", "IntrStore.cfg")
    paths = g.tour(ctx.rng, 60, limit=None if ctx.thorough else 60000)
    ctx.notes["model_transitions_replayed"] = g.covered
    ctx.replay("intrs", paths, params={"pre": 3})
    # the same with several threads (the collider and the loop then run their parallel branches)
    ctx.replay("intrs", g.walks(ctx.rng, 60 if not ctx.thorough else 600, 60), threads=3, params={"pre": 3}, label="t")
    ctx.cov["exhaustive"] = g.covered == len(g.edges)
