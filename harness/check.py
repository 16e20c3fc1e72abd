#!/usr/bin/env python3
"""check.py <property id>: decide one property on /repo's current working tree.
exit 0: held on everything explored; exit 1 + VIOLATION line: broken; exit 2: the machinery failed."""
import sys, os, importlib, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import vlib


def main(pid):
    ctx = vlib.Ctx(pid)
    mod = importlib.import_module("props." + pid.lower())
    level = getattr(mod, "LEVEL", "model_checking")
    try:
        ctx.build()
        mod.run(ctx)
    except vlib.Violation as v:
        ctx.finish(level, v)
        return 1
    except vlib.CheckError as e:
        print("CHECK ERROR (no verdict): %s" % e)
        return 2
    except SystemExit as e:
        print("CHECK ERROR (no verdict): %s" % e)
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    ctx.finish(level)
    c = ctx.cov
    print("OK property=%s states=%d transitions=%d traces=%d" % (pid, c["states"], c["transitions"], c["traces_validated_against_impl"]))
    return 0


if __name__ == "__main__":
    sys.exit(main(sys.argv[1]))
