"""C18 a distributed run equals the serial run"""
import mpiscen


def drop(sc, tr):
    return [e for e in tr if e["op"] in ("new", "mpi")]


def run(ctx):
    ctx.model_check("Decomp")
    k = 10 if ctx.thorough else 1
    for np in (2, 3, 4):
        sc = [mpiscen.scenario(ctx.rng, np, ctx.rng.random() < .7) for _ in range(12 * k)]
        for s in sc:
            s["watch"] = False
        tr = ctx.record_and_validate("mpi", "TDecomp", "TDecomp.cfg", sc, mpi=np, post=drop, chunks=4, timeout=600)
    t = next(t for t in tr if t[-1]["op"] == "mpi")
    e = t[-1]
    ctx.expect_rejected("TDecomp", "TDecomp.cfg", t[:-1] + [dict(e, st=[[e["st"][0][0] + 10] + e["st"][0][1:]] + e["st"][1:])])
