"""python -m sim.hashserver: runs C20's fresh programs in this interpreter (started with another PYTHONHASHSEED)"""
import os
import pickle
import shutil
import sys


def main():
    out = os.fdopen(os.dup(1), "wb")
    os.dup2(os.open(os.devnull, os.O_WRONLY), 1)
    from . import engine
    from .props import c20
    engine.boot()
    while True:
        try:
            scn = pickle.load(sys.stdin.buffer)
        except EOFError:
            break
        pickle.dump(c20.fresh(scn), out)
        out.flush()
    shutil.rmtree(engine.SCRATCH, True)
    os._exit(0)


main()
