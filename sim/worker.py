"""Explores scenarios of one property: python -m sim.worker '{json config}'"""
import copy
import gc
import json
import os
import random
import sys
import time
import traceback

REPORT = os.fdopen(os.dup(1), "w")
os.dup2(os.open(os.devnull, os.O_WRONLY), 1)

from . import engine
from .props import base

PERF = time.perf_counter


def report(**kw):
    REPORT.write(json.dumps(kw) + "\n")
    REPORT.flush()


def rss_mb():
    with open("/proc/self/statm") as f:
        return int(f.read().split()[1]) * 4096 / 1e6


def main():
    cfg = json.loads(sys.argv[1])
    prop = base.load(cfg["prop"])
    engine.boot()
    gc.collect()
    gc.freeze()
    deadline = PERF() + cfg["seconds"]
    i, stride, seed = cfg["start"], cfg["stride"], cfg["seed"]
    stats = {"runs": 0, "faulted_runs": 0, "steps": 0, "switches": 0, "sim_s": 0.0, "ops": 0,
             "fired": {}, "probes": {}, "nontrivial": 0}
    digests, samples, known = set(), [], {}
    nrun = 0
    maxi = cfg.get("max_i")

    def one(scn, tag):
        nonlocal nrun
        nrun += 1
        report(at=i, tag=tag)
        out = prop.run(scn)
        s = out.stats
        stats["runs"] += 1
        if scn.get("faults"):
            stats["faulted_runs"] += 1
        for key in ("steps", "switches", "sim_s"):
            stats[key] += s.get(key, 0)
        stats["ops"] += s.get("nops", 0)
        for f, n in s.get("fired", {}).items():
            stats["fired"][f] = stats["fired"].get(f, 0) + n
        for f, n in s.get("probes", {}).items():
            stats["probes"][f] = stats["probes"].get(f, 0) + n
        if out.nontrivial:
            if out.digest not in digests:
                digests.add(out.digest)
                stats["nontrivial"] += 1
        for kf in out.known:
            known.setdefault(kf["finding"], [0, kf["msg"]])[0] += 1
        if len(samples) < 3 and (tag != "clean" or nrun % 7 == 0):
            samples.append({"scenario": scn, "trace_deviations": len(out.trace), "steps": s.get("steps"),
                            "digest": out.digest})
        if out.violations:
            again = prop.run(scn)
            if sorted(again.classes()) == sorted(out.classes()) or again.violations:
                report(violation=True, scn=scn, trace=out.trace, cls=out.classes(),
                       msgs=[v["msg"] for v in out.violations][:5], i=i, tag=tag,
                       deterministic=again.digest == out.digest,
                       stats=stats, digests=sorted(digests), samples=samples)
                return out, True
            report(flaky=True, scn=scn, msgs=[v["msg"] for v in out.violations][:5],
                   d1=out.digest, d2=again.digest)
        if nrun % 25 == 0:
            gc.collect()
        return out, False

    stop = False
    try:
        while PERF() < deadline and not stop and (maxi is None or i < maxi):
            rng = random.Random("%s:%s:%d" % (seed, cfg["prop"], i))
            scn = prop.gen(rng, i)
            scn.setdefault("seed", rng.getrandbits(48))
            out, stop = one(scn, "clean")
            if not stop and not (out.violations):
                for faults, policy in prop.fault_plans(rng, scn, out):
                    s2 = copy.deepcopy(scn)
                    s2["faults"] = faults
                    s2["seed"] = rng.getrandbits(48)
                    if policy is not None:
                        s2["policy"] = policy
                    o2, stop = one(s2, "fault")
                    if stop or PERF() > deadline:
                        break
            i += stride
            if nrun > cfg.get("recycle", 1200) or rss_mb() > 1500:
                break
        report(done=True, next=i, stats=stats, digests=sorted(digests), samples=samples, known=known)
    except BaseException:
        report(harness_error=traceback.format_exc(), i=i)
    REPORT.flush()
    import shutil
    shutil.rmtree(engine.SCRATCH, True)
    os._exit(0)


main()
