"""C14 scenes and memory slots"""


def run(ctx):
    for cfg in ["Omega.cfg", "Omega3.cfg"] + (["OmegaDeep.cfg"] if ctx.thorough else []):
        g = ctx.graph("Omega", cfg)
        paths = g.tour(ctx.rng, 60)
        ctx.notes["model_transitions_replayed"] = ctx.notes.get("model_transitions_replayed", 0) + g.covered
        ctx.cov["exhaustive"] = g.covered == len(g.edges)
        ctx.replay("omega", paths)
