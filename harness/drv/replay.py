"""replay.py <driver module> IN OUT: drive the real code along behaviours of the specification"""
import sys, json, os, traceback
from yd import *
import importlib


def norm(x):
    return json.loads(json.dumps(x))


def main():
    mod, inp, outp = sys.argv[1:4]
    D = importlib.import_module("d_" + mod)
    d = json.load(open(inp))
    paths, params = d["paths"], d.get("params") or {}
    pos = open(outp + ".pos", "w")

    def at(i, s):
        pos.seek(0)
        pos.write("%08d %08d" % (i, s))
        pos.flush()
    at(0, 0)
    drv = D.Driver(params)
    for i, p in enumerate(paths):
        for s, (op, exp) in enumerate(p):
            at(i, s)
            try:
                got = drv.reset() if op is None else drv.do(op)
                if got is None:
                    got = drv.obs()
            except AssertionError as e:
                got = {"assertion": str(e)}
            except Exception as e:
                got = {"exception": "%s: %s" % (type(e).__name__, str(e)[:300]), "tb": traceback.format_exc()[-600:]}
            got = norm(got)
            if got != exp:
                with open(outp + ".tmp", "w") as f:
                    json.dump({"bad": {"index": i, "step": s, "op": op, "expected": exp, "got": got}}, f)
                os.rename(outp + ".tmp", outp)
                finish()
    with open(outp + ".tmp", "w") as f:
        json.dump({"bad": None}, f)
    os.rename(outp + ".tmp", outp)
    finish()


main()
