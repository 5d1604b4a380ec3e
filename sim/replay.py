"""python -m sim.replay FILE: re-executes a replay file; exit 1 if it still fails."""
import json
import os
import sys

from . import engine
from .props import base


def main():
    with open(sys.argv[1]) as f:
        d = json.load(f)
    prop = base.load(d["prop"])
    engine.boot()
    out = prop.run(d["scn"])
    for e in out.events:
        if "-v" in sys.argv:
            print(e)
    for r in out.log:
        if "-v" in sys.argv:
            print(r)
    print("digest %s (recorded %s)" % (out.digest, d.get("digest")))
    for v in out.violations:
        print("%s: %s" % (v["cls"], v["msg"]))
    rc = 0
    if out.violations:
        print("VIOLATION property=%s replay=%s" % (d["prop"], sys.argv[1]))
        rc = 1
    for kf in out.known:
        print("known finding %s: %s" % (kf["finding"], kf["msg"]))
    sys.stdout.flush()
    import shutil
    shutil.rmtree(engine.SCRATCH, True)
    os._exit(rc)


main()
