"""C24 geometry of contacts"""
import contactscen as S


def run(ctx):
    k = 12 if ctx.thorough else 1
    sc = [S.static(ctx.rng, "geom") for _ in range(1500 * k)] + [S.static(ctx.rng, "geom", True) for _ in range(400 * k)]
    tr = ctx.record_and_validate("contact", "TContact", "TContact.cfg", sc, timeout=600)
    ctx.notes["contacts"] = sum(len(e["contacts"]) for t in tr for e in t[1:])
    t = next(t for t in tr if t[1]["contacts"] and all(b["k"] == "sphere" for b in t[1]["b"]))
    c = t[1]["contacts"][0]
    ctx.expect_rejected("TContact", "TContact.cfg", [t[0], dict(t[1], contacts=[dict(c, un=c["un"] + 5)])])
    ctx.expect_rejected("TContact", "TContact.cfg", [t[0], dict(t[1], contacts=[dict(c, cp=[c["cp"][0] + 20] + c["cp"][1:])])])
