"""record.py <driver module> IN OUT: run scenarios on the real code and record what happened"""
import sys, json, os, traceback
from yd import *
import importlib


def main():
    mod, inp, outp = sys.argv[1:4]
    D = importlib.import_module("d_" + mod)
    d = json.load(open(inp))
    params = d.get("params") or {}
    pos = open(outp + ".pos", "w")
    traces = []
    drv = D.Driver(params)
    for i, sc in enumerate(d["scenarios"]):
        pos.seek(0)
        pos.write("%08d" % i)
        pos.flush()
        try:
            traces.append(drv.run(sc))
        except Exception as e:
            with open(outp + ".tmp", "w") as f:
                json.dump({"error": traceback.format_exc()[-1500:], "at": i}, f)
            os.rename(outp + ".tmp", outp)
            finish()
    if traces and traces[0] is not None:
        with open(outp + ".tmp", "w") as f:
            json.dump({"traces": traces}, f)
        os.rename(outp + ".tmp", outp)
    finish()


main()
