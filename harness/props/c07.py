"""C07 contact forces"""
import contactscen as S


def run(ctx):
    k = 12 if ctx.thorough else 1
    for thr, n in ((1, 240), (4, 60)):
        sc = [S.static(ctx.rng, "law") for _ in range(n * k)] + [S.static(ctx.rng, "law", True) for _ in range(n // 2 * k)] + [S.dynamic(ctx.rng) for _ in range(n * k)] + [S.dynamic(ctx.rng, True) for _ in range(n // 2 * k)]
        tr = ctx.record_and_validate("contact", "TContact", "TContact.cfg", sc, threads=thr, timeout=600)
    ctx.notes["contacts"] = sum(len(e["contacts"]) for t in tr for e in t[1:])
    for t in tr:
        if t[1]["contacts"]:
            c = t[1]["contacts"][0]
            ctx.expect_rejected("TContact", "TContact.cfg", [t[0], dict(t[1], contacts=[dict(c, fn=[c["fn"][0] + 100 + c["kn"]] + c["fn"][1:])] + t[1]["contacts"][1:])])
            break
