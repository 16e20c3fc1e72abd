"""C19 exchange of bodies, states and forces between processes"""
import mpiscen


def drop(sc, tr):
    return [e for e in tr if e["op"] in ("new", "split", "step")]


def run(ctx):
    ctx.model_check("Decomp")
    ctx.model_check("Decomp", "Decomp3.cfg")
    k = 10 if ctx.thorough else 1
    for np in (2, 3, 4):
        sc = [mpiscen.scenario(ctx.rng, np, ctx.rng.random() < .8) for _ in range(10 * k)]
        tr = ctx.record_and_validate("mpi", "TDecomp", "TDecomp.cfg", sc, mpi=np, post=drop, chunks=4, timeout=600)
    for t in tr:
        j = next((i for i, e in enumerate(t) if e["op"] == "step" and any(e["copies"])), None)
        if j is not None:
            c = [[[i, "x"] for i, d in q] for q in t[j]["copies"]]
            ctx.expect_rejected("TDecomp", "TDecomp.cfg", t[:j] + [dict(t[j], copies=c)])
            break
