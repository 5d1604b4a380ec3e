"""python -m sim.check C01 [--tier quick|thorough] [--seconds S] [--workers N]

Explores one property with several worker processes, reports violations with a
minimised replay file, known findings, and writes the evidence file."""
import argparse
import json
import os
import re
import selectors
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = os.environ.get("VERIF_PYTHON", "/opt/venv/bin/python")


def env():
    e = dict(os.environ)
    for v in ("OPENBLAS_NUM_THREADS", "OMP_NUM_THREADS", "MKL_NUM_THREADS"):
        e[v] = "1"
    e["PYTHONDONTWRITEBYTECODE"] = "1"
    e.setdefault("PYTHONHASHSEED", "0")
    e["PYTHONPATH"] = HERE
    return e


class Worker:
    def __init__(self, cfg):
        self.cfg = cfg
        self.t = time.time()
        self.p = subprocess.Popen([PY, "-W", "ignore", "-m", "sim.worker", json.dumps(cfg)], cwd=HERE, env=env(),
                                  stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        os.set_blocking(self.p.stdout.fileno(), False)
        os.set_blocking(self.p.stderr.fileno(), False)
        self.buf = b""
        self.err = b""
        self.last = None


def load_known():
    try:
        with open(os.path.join(HERE, "known_findings.json")) as f:
            return json.load(f)
    except FileNotFoundError:
        return {"findings": [], "fixed": []}


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seconds", type=float)
    ap.add_argument("--workers", type=int, default=int(os.environ.get("VERIF_WORKERS", "8")))
    ap.add_argument("--max-i", type=int)
    ap.add_argument("--no-evidence", action="store_true")
    ap.add_argument("--no-min", action="store_true", help="do not minimise a violation")
    a = ap.parse_args()
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    sys.path.insert(0, HERE)
    meta = subprocess.run([PY, "-W", "ignore", "-c",
                           "import json,sys\nfrom sim.props import base\np=base.load(sys.argv[1])\n"
                           "print(json.dumps(dict(rule=p.rule,real=p.real,stub=p.stub,assumptions=p.assumptions,"
                           "q=p.quick_s,t=p.thorough_s,probes=[[f,s] for f,s in p.known_probes()])))", a.prop],
                          cwd=HERE, env=env(), stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if meta.returncode:
        print(meta.stderr.decode()[-3000:])
        return 2
    meta = json.loads(meta.stdout.decode().splitlines()[-1])
    secs = a.seconds or (meta["q"] if a.tier == "quick" else meta["t"])
    deadline = time.time() + secs
    print("property %s tier %s VERIF_SEED=%d budget %.0fs workers %d" % (a.prop, a.tier, seed, secs, a.workers), flush=True)

    known_file = load_known()
    listed = {f["id"]: f for f in known_file["findings"] if f["property"] == a.prop}
    known_seen = {}
    violations = []
    unlisted_known = []
    flaky = []
    errors = []

    # ---- dedicated probes of the listed findings
    for fid, scn in meta["probes"]:
        path = os.path.join("/tmp", "probe-%s-%d.json" % (a.prop, os.getpid()))
        with open(path, "w") as f:
            json.dump({"prop": a.prop, "scn": scn}, f)
        r = subprocess.run([PY, "-W", "ignore", "-m", "sim.replay", path], cwd=HERE, env=env(),
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120)
        os.unlink(path)
        txt = r.stdout.decode()
        if r.returncode not in (0, 1):
            errors.append("probe %s: %s%s" % (fid, txt[-500:], r.stderr.decode()[-2000:]))
        for m in re.finditer(r"^known finding (\S+): (.*)$", txt, re.M):
            known_seen.setdefault(m.group(1), m.group(2))
        if r.returncode == 1:
            violations.append({"scn": scn, "cls": re.findall(r"^([\w-]+): ", txt, re.M), "msgs": txt.splitlines()[:4],
                               "i": "probe:" + fid, "trace": []})

    tot = {"runs": 0, "faulted_runs": 0, "steps": 0, "switches": 0, "sim_s": 0.0, "ops": 0, "nontrivial": 0,
           "fired": {}, "probes": {}}
    digests, samples = set(), []
    workers = []
    sel = selectors.DefaultSelector()
    maxi = a.max_i

    def launch(start):
        cfg = {"prop": a.prop, "seed": seed, "start": start, "stride": a.workers,
               "seconds": max(1.0, deadline - time.time()), "tier": a.tier}
        if maxi is not None:
            cfg["max_i"] = maxi
        w = Worker(cfg)
        sel.register(w.p.stdout, selectors.EVENT_READ, w)
        sel.register(w.p.stderr, selectors.EVENT_READ, w)
        workers.append(w)

    def merge(m):
        s = m["stats"]
        for x in ("runs", "faulted_runs", "steps", "switches", "sim_s", "ops"):
            tot[x] += s[x]
        for x in ("fired", "probes"):
            for y, n in s[x].items():
                tot[x][y] = tot[x].get(y, 0) + n
        digests.update(m["digests"])
        samples.extend(m["samples"][:1])

    if not violations:
        for n in range(a.workers):
            launch(n)
    stop = False
    while workers:
        if not sel.get_map():
            break
        for key, _ in sel.select(timeout=1.0):
            w = key.data
            data = os.read(key.fileobj.fileno(), 1 << 16)
            if key.fileobj is w.p.stderr:
                if data:
                    w.err = (w.err + data)[-6000:]
                else:
                    sel.unregister(key.fileobj)
                continue
            if not data:
                sel.unregister(key.fileobj)
                w.p.wait()
                if w in workers:
                    workers.remove(w)
                    if not stop:
                        errors.append("worker died rc=%s last=%s: %s" % (w.p.returncode, w.last, w.err.decode(errors="replace")[-3000:]))
                continue
            w.t = time.time()
            w.buf += data
            *lines, w.buf = w.buf.split(b"\n")
            for ln in lines:
                m = json.loads(ln)
                if "at" in m:
                    w.last = m
                elif m.get("violation"):
                    violations.append(m)
                    merge(m)
                    stop = True
                elif m.get("flaky"):
                    flaky.append(m)
                elif m.get("harness_error"):
                    errors.append(m["harness_error"])
                    stop = True
                    workers.remove(w)
                elif m.get("done"):
                    merge(m)
                    for fid, (n, msg) in m["known"].items():
                        known_seen.setdefault(fid, msg)
                        tot["probes"]["known:" + fid] = tot["probes"].get("known:" + fid, 0) + n
                    workers.remove(w)
                    if not stop and time.time() < deadline - 2 and (maxi is None or m["next"] < maxi):
                        launch(m["next"])
        for w in list(workers):
            if time.time() - w.t > 150:
                w.p.kill()
                errors.append("worker stalled at %s" % (w.last,))
                workers.remove(w)
                stop = True
        if stop:
            # let the other workers go: one violation is enough
            for w in list(workers):
                w.p.kill()
                workers.remove(w)
            break
    wall = time.time() - t0

    rc = 0
    for fid, msg in sorted(known_seen.items()):
        if fid in listed:
            print("KNOWN-FINDING: property=%s %s: %s" % (a.prop, fid, listed[fid]["what"]))
        else:
            unlisted_known.append(fid)
    for fid in unlisted_known:
        violations.append({"scn": None, "cls": [fid], "msgs": [known_seen[fid]], "i": "unlisted", "trace": []})

    vpaths = []
    if violations:
        os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
        v = violations[0]
        out = os.path.join(HERE, "replays", "%s-%s.json" % (a.prop, v["i"] if isinstance(v["i"], int) else "probe"))
        raw = out + ".raw"
        with open(raw, "w") as f:
            json.dump({"prop": a.prop, "scn": v["scn"], "cls": v["cls"], "i": v["i"], "seed": seed,
                       "msgs": v["msgs"]}, f)
        done = False
        if v["scn"] is not None and not a.no_min:
            try:
                subprocess.run([PY, "-W", "ignore", "-m", "sim.minimize", raw, out, "60"], cwd=HERE, env=env(),
                               stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=150)
                with open(out) as f:
                    done = json.load(f).get("reproduced", False)
            except (subprocess.TimeoutExpired, FileNotFoundError, ValueError):
                pass
        if not done:
            os.replace(raw, out)
        elif os.path.exists(raw):
            os.unlink(raw)
        with open(out) as f:
            d = json.load(f)
        print("violation %s (run %s): %s" % (d.get("cls"), v["i"], "; ".join(str(x) for x in d.get("msgs", []))[:1500]))
        if done:
            print("minimised: faults=%s deviations=%s" % (json.dumps(d["scn"].get("faults")),
                                                         len(d["scn"]["policy"].get("dev", [])) if d["scn"]["policy"].get("kind") == "replay" else d["scn"]["policy"]))
        print("VIOLATION property=%s replay=%s" % (a.prop, out), flush=True)
        rc = 1
    elif errors:
        for e in errors[:3]:
            print("HARNESS-ERROR: " + e)
        rc = 2
    elif flaky:
        print("HARNESS-ERROR: non-reproducible violation: %s" % json.dumps(flaky[0])[:3000])
        rc = 2

    ev = {
        "property": a.prop, "tier": a.tier if a.tier in ("quick", "thorough") else "quick", "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": tot["runs"], "distinct_nontrivial": len(digests), "rule": meta["rule"],
            "samples": samples[:3],
            "simulated_runs": tot["runs"], "fault_injecting_runs": tot["faulted_runs"],
            "runs_per_hour": int(tot["runs"] / max(wall, 1e-3) * 3600),
            "simulated_seconds": round(tot["sim_s"], 3),
            "yield_points": tot["steps"], "seam_operations": tot["ops"], "context_switches": tot["switches"],
            "faults_fired": tot["fired"], "reach_probes": tot["probes"],
            "distinct_measure": "hash of the global order of seam operations and of every task switch with its "
                                "position; trivial runs (no schedule deviation, no fault) are not counted",
            "known_findings_seen": sorted(known_seen),
            "components_real": meta["real"], "components_stubbed": meta["stub"],
        },
        "assumptions": meta["assumptions"], "wall_s": round(wall, 2), "violations": len(violations),
    }
    if not a.no_evidence:
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", a.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    print("%d runs (%d with faults), %d distinct non-trivial, faults %s, %.1fs simulated, wall %.1fs" % (
        tot["runs"], tot["faulted_runs"], len(digests), tot["fired"], tot["sim_s"], wall))
    print("reach: %s" % json.dumps(tot["probes"], sort_keys=True))
    return rc


if __name__ == "__main__":
    sys.exit(main())
