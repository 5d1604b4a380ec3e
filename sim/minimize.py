"""Shrinks a violating scenario: python -m sim.minimize in.json out.json seconds"""
import copy
import json
import os
import sys
import time

from . import engine
from .props import base

PERF = time.perf_counter


def main():
    src, dst, secs = sys.argv[1], sys.argv[2], float(sys.argv[3])
    with open(src) as f:
        d = json.load(f)
    prop = base.load(d["prop"])
    engine.boot()
    end = PERF() + secs
    tries = 0

    def fails(scn, cls):
        nonlocal tries
        tries += 1
        try:
            out = prop.run(scn)
        except Exception:
            return None
        if tries % 20 == 0:
            base.collect()
        if set(out.classes()) & set(cls):
            return out
        return None

    scn, cls = d["scn"], d["cls"]
    out = fails(scn, cls)
    if out is None:
        json.dump(dict(d, reproduced=False), open(dst, "w"))
        return
    # 1. pin the schedule as an explicit list of deviations
    pinned = copy.deepcopy(scn)
    pinned["policy"] = {"kind": "replay", "dev": out.trace}
    o = fails(pinned, cls)
    if o is not None:
        scn, out = pinned, o

    def save(s, o):
        json.dump(dict(prop=d["prop"], scn=s, cls=sorted(set(o.classes())), msgs=[v["msg"] for v in o.violations][:5],
                       digest=o.digest, reproduced=True, original=d.get("i"), tries=tries,
                       seed=d.get("seed"),
                       last_events=[list(e) for e in o.events[-60:]]), open(dst, "w"), indent=1)

    save(scn, out)

    def is_replay(s):
        return s["policy"].get("kind") == "replay"

    changed = True
    while changed and PERF() < end:
        changed = False
        # 2. drop faults
        for cand in base.drop_each(scn, "faults"):
            if PERF() > end:
                break
            o = fails(cand, cls)
            if o is not None:
                scn, out, changed = cand, o, True
                save(scn, out)
                break
        # 3. ddmin on schedule deviations
        if is_replay(scn):
            dev = scn["policy"]["dev"]
            n = 2
            while len(dev) >= 1 and PERF() < end:
                size = max(1, len(dev) // n)
                hit = False
                for a in range(0, len(dev), size):
                    cand = copy.deepcopy(scn)
                    cand["policy"]["dev"] = dev[:a] + dev[a + size:]
                    o = fails(cand, cls)
                    if o is not None:
                        scn, out, dev, hit, changed = cand, o, cand["policy"]["dev"], True, True
                        save(scn, out)
                        break
                    if PERF() > end:
                        break
                if not hit:
                    if size == 1:
                        break
                    n = min(len(dev), n * 2)
        # 4. property-specific simplification, also under a default schedule
        for cand in prop.shrink(scn):
            if PERF() > end:
                break
            o = fails(cand, cls)
            if o is not None:
                scn, out, changed = cand, o, True
                save(scn, out)
                break
    save(scn, out)


main()
import shutil
shutil.rmtree(engine.SCRATCH, True)
os._exit(0)
