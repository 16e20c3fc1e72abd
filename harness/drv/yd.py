"""start yade in this process (lean build on PYTHONPATH)"""
import sys, os
from yade import *
import vp_iter
vp_iter.patch()
import yade.boot
from yade import utils
import yade
from minieigen import *


def finish(code=0):
    sys.stdout.flush()
    sys.stderr.flush()
    try:
        yade.boot.finalize()
    finally:
        os._exit(code)
