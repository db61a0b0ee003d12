"""python run.py <prop> [--replay FILE] : decides one property.  See DESIGN.md."""
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
import bootstrap  # noqa

PY = "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else sys.executable
VERIF = bootstrap.VERIF
if os.path.realpath(sys.executable) != os.path.realpath(PY) or sys.prefix != os.path.dirname(os.path.dirname(PY)):
    if not os.environ.get("VERIF_REEXEC"):
        os.environ["VERIF_REEXEC"] = "1"
        os.execv(PY, [PY] + sys.argv)
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", MKL_NUM_THREADS="1",
           PYTHONHASHSEED="0", PYTHONWARNINGS="ignore", HYPOTHESIS_STORAGE_DIRECTORY="/nonexistent")


def replay(prop, path):
    import importlib
    import core
    data = json.load(open(path))
    mod = importlib.import_module(prop.lower())
    sub = [s for s in mod.SUBS if s.name == data["sub"]][0]
    try:
        bad, _ = core.run_case(sub, data["case"], retry=False)
    finally:
        core.cleanup()
    if bad is None:
        print("replay: property %s holds on this case" % prop)
        return 0
    print(bad[1])
    print("VIOLATION property=%s replay=%s" % (prop, path))
    return 1


def main():
    prop = sys.argv[1]
    if len(sys.argv) > 3 and sys.argv[2] == "--replay":
        sys.exit(replay(prop, sys.argv[3]))
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    jobs = int(os.environ.get("VERIF_JOBS", "0") or "0") or min(8, os.cpu_count() or 1)
    t0 = time.time()
    import importlib
    mod = importlib.import_module(prop.lower())
    subs = [s for s in mod.SUBS if not os.environ.get("VERIF_SUB") or s.name in os.environ["VERIF_SUB"].split(",")]
    hard = float(os.environ.get("VERIF_BUDGET", "0") or "0") or (150 if tier == "quick" else 600)
    tmp = tempfile.mkdtemp(prefix="hpelm_run_", dir="/dev/shm" if os.access("/dev/shm", os.W_OK) else None)
    ENV["VERIF_SCRATCH"] = tmp
    queue = []
    for s in subs:
        shards = s.shards if tier == "quick" else max(s.shards, jobs // max(1, len(subs)), 1)
        n = s.quick if tier == "quick" else s.thorough
        for i in range(shards):
            queue.append((s, seed * 1000 + i * 97 + 13, -(-n // shards), i, shards))
    queue.sort(key=lambda q: -q[0].weight * q[2])
    rounds = -(-len(queue) // jobs)
    budget = hard / rounds
    results, errors, running = [], [], []
    try:
        while queue or running:
            while queue and len(running) < jobs:
                s, sd, n, i, k = queue.pop(0)
                out = os.path.join(tmp, "%s_%d.json" % (s.name, i))
                log = open(out + ".log", "w")
                p = subprocess.Popen([PY, os.path.join(here, "worker.py"), prop, s.name, str(sd), str(n), str(budget), out, str(i), str(k)],
                                     stdout=log, stderr=subprocess.STDOUT, env=ENV, start_new_session=True)
                running.append((p, s, out, time.time()))
            for r in list(running):
                p, s, out, ts = r
                if p.poll() is None:
                    if time.time() - ts > budget + 300:
                        _kill(p)
                        errors.append("%s: worker did not finish" % s.name)
                        running.remove(r)
                    continue
                running.remove(r)
                if os.path.exists(out):
                    st = json.load(open(out))
                    if st.get("error"):
                        errors.append("%s: %s" % (s.name, st["error"]))
                    results.append((s, st))
                else:
                    errors.append("%s: worker ended with %s\n%s" % (s.name, p.returncode, open(out + ".log").read()[-2000:]))
            if any(st["violation"] for _, st in results) and tier == "quick":
                # one violation decides; stop what is still searching
                for r in running:
                    _kill(r[0])
                running, queue = [], []
            time.sleep(0.02)
    finally:
        for r in running:
            _kill(r[0])
        shutil.rmtree(tmp, ignore_errors=True)

    viol = []
    rep_dir = os.path.join(VERIF, "replays")
    for s, st in results:
        if st["violation"]:
            os.makedirs(rep_dir, exist_ok=True)
            v = st["violation"]
            path = os.path.join(rep_dir, "%s-%s-%s.json" % (prop, s.name, seed))
            with open(path, "w") as f:
                json.dump({"property": prop, "sub": s.name, "case": v["case"], "key": v["key"], "message": v["message"]}, f, indent=1)
            viol.append((s.name, v, path))

    known = {}
    for s, st in results:
        for k, c in st["known"].items():
            known[(s.name, k)] = known.get((s.name, k), 0) + c
    for k in bootstrap.known_findings(prop):
        print("KNOWN-FINDING: property=%s %s" % (prop, k["text"]))

    bysub = {}
    for s, st in results:
        b = bysub.setdefault(s.name, {"evaluations": 0, "nontrivial": set(), "tags": {}, "rule": s.rule, "wall_s": 0, "skipped_over_budget": 0})
        b["evaluations"] += st["evaluations"]
        b["nontrivial"] |= set(st["nontrivial"])
        b["skipped_over_budget"] += st["skipped"]
        b["wall_s"] = round(b["wall_s"] + st["wall_s"], 2)
        if st.get("slowest_s", 0) > b.get("slowest_case_s", 1.0):
            b["slowest_case_s"], b["slowest_case"] = st["slowest_s"], st["slowest"]
        for t, c in st["tags"].items():
            b["tags"][t] = b["tags"].get(t, 0) + c
    samples = []
    for s, st in results:
        samples += st["samples"][:2]
    distinct = sum(len(b["nontrivial"]) for b in bysub.values())
    cov = {
        "evaluations": sum(b["evaluations"] for b in bysub.values()),
        "distinct_nontrivial": distinct,
        "rule": "; ".join("%s: %s" % (n, b["rule"]) for n, b in sorted(bysub.items())),
        "samples": samples[:12],
        "sub_checks": {n: {"evaluations": b["evaluations"], "distinct_nontrivial": len(b["nontrivial"]), "classes": b["tags"],
                           "cpu_s": b["wall_s"], "skipped_over_budget": b["skipped_over_budget"],
                           **{q: b[q] for q in ("slowest_case_s", "slowest_case") if q in b}} for n, b in sorted(bysub.items())},
    }
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
          "assumptions": list(getattr(mod, "ASSUMPTIONS", [])), "wall_s": round(time.time() - t0, 2), "violations": len(viol)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")

    for name, v, path in viol:
        print("%s/%s %s" % (prop, name, v["message"][:1500]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
    print("%s: %d cases, %d distinct non-trivial, %.1f s" % (prop, cov["evaluations"], distinct, ev["wall_s"]))
    if viol:
        sys.exit(1)
    if errors:
        for e in errors:
            print("ERROR " + e)
        sys.exit(3)
    if not results or any(b["evaluations"] == 0 for b in bysub.values()):
        print("ERROR nothing was explored")
        sys.exit(3)
    sys.exit(0)


def _kill(p):
    try:
        os.killpg(p.pid, 9)
    except Exception:
        pass
    try:
        p.wait(5)
    except Exception:
        pass


main()
