#!/usr/bin/env python3
"""Decide one property: run its jobs against /repo, aggregate what the monitors observed, write the evidence.

    python3 run.py C01                     (VERIF_SEED, VERIF_TIER)
    python3 run.py C01 --replay <file>     re-run the job of a recorded violation
    python3 run.py C01 --only sqlite       only the jobs whose description contains the word

exit 0: held on everything explored     exit 1: VIOLATION line on stdout     exit 2: inconclusive / error
"""
import collections
import json
import os
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(HERE, "harness")
sys.path.insert(0, HARNESS)
sys.dont_write_bytecode = True

import plan      # noqa
import servers   # noqa

REPO = os.environ.get("VERIF_REPO", "/repo")
PY = "/opt/venv/bin/python"


def known_findings():
    """The mechanisms recorded in known-findings.txt: property -> set of keys."""
    out = collections.defaultdict(dict)
    with open(os.path.join(HERE, "known-findings.txt")) as f:
        for line in f:
            line = line.strip()
            if line.startswith("known: "):
                head, _, text = line[7:].partition(" :: ")
                prop, key = head.split()
                out[prop.split("=")[1]][key.split("=")[1]] = text
    return out


def describe(job):
    return "%s/%s/%s/%s" % (job["scenario"], job.get("case"), job["backend"], job.get("tag", job["seed"]))


def main():
    prop = sys.argv[1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = os.environ.get("VERIF_TIER", "quick")
    t0 = time.time()
    spec = plan.PROPERTIES[prop]
    jobs = spec["jobs"](tier)
    for i, j in enumerate(jobs):
        j.setdefault("seed", seed)
        j.setdefault("case", "main")
        j.setdefault("limit", 420 if tier == "quick" else 3000)
    if "--replay" in sys.argv:
        jobs = [json.load(open(sys.argv[sys.argv.index("--replay") + 1]))["job"]]
    if "--only" in sys.argv:
        words = sys.argv[sys.argv.index("--only") + 1].split(",")
        jobs = [j for j in jobs if all(x in describe(j) for x in words)]
    # no results of another run
    evidence = os.path.join(HERE, "evidence", prop + ".json")
    os.makedirs(os.path.join(HERE, "evidence", "replays"), exist_ok=True)
    if os.path.exists(evidence):
        os.unlink(evidence)
    if "--replay" not in sys.argv:
        for name in os.listdir(os.path.join(HERE, "evidence", "replays")):
            if name.startswith(prop + "-"):
                os.unlink(os.path.join(HERE, "evidence", "replays", name))
    srv = servers.Servers()
    try:
        srv.start(sorted(set(j["backend"] for j in jobs)))
        results = run_jobs(srv, jobs, tier)
    except servers.ServerError as e:
        print("ERROR: " + str(e))
        return 2
    finally:
        srv.stop()
    return report(prop, spec, tier, seed, results, evidence, t0)


def run_jobs(srv, jobs, tier):
    todo = collections.deque(sorted(enumerate(jobs), key=lambda x: -x[1].get("cost", 1)))
    running, results = [], {}
    slots = int(os.environ.get("VERIF_JOBS", "8"))
    until = None
    while todo or running:
        if until is not None:
            # decided: no need for the other jobs
            todo.clear()
            if time.time() > until:
                for r in running:
                    if r["job"]["scenario"] != "daemon":
                        r["proc"].kill()
        while todo and len(running) < slots:
            i, job = todo.popleft()
            running.append(start(srv, i, job))
        time.sleep(0.05)
        for r in list(running):
            if r["proc"].poll() is None:
                continue
            running.remove(r)
            r["log"].close()
            if until is not None and time.time() > until and not os.path.exists(r["out"]):
                continue
            try:
                res = json.load(open(r["out"]))
            except (OSError, ValueError):
                res = {"status": "error", "job": r["job"], "cov": {}, "evaluations": 0, "distinct": [], "samples": [],
                       "violations": [], "known": [],
                       "error": "no result, exit %s\n%s" % (r["proc"].returncode, open(r["log"].name).read()[-4000:])}
            res["wall"] = round(time.time() - r["t0"], 1)
            results[r["i"]] = res
            if res["status"] == "violation" and until is None:
                until = time.time() + 30
            if os.environ.get("VERIF_VERBOSE"):
                print("%6.1fs %-40s %s ev=%d distinct=%d" % (res["wall"], describe(r["job"]), res["status"],
                                                            res["evaluations"], len(res["distinct"])), flush=True)
    return [results[i] for i in sorted(results)]


def start(srv, i, job):
    b = job["backend"]
    cfg = dict(job)
    cfg["host"] = srv.host(b)
    cfg["dbname"] = srv.createdb(b, "j%d" % i)
    cfg["databases"] = dict((a, srv.createdb(b, "j%d_%s" % (i, a))) for a in job.get("aliases", ()))
    cfg["dir"] = os.path.join(srv.dir, "w%d" % i)
    os.mkdir(cfg["dir"])
    cfg["out"] = os.path.join(cfg["dir"], "result.json")
    env = {"PATH": servers.PATH, "HOME": cfg["dir"], "LC_ALL": "C.UTF-8", "TMPDIR": cfg["dir"],
           "PYTHONPATH": REPO + ":" + HARNESS, "VERIF_REPO": REPO, "PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": "0",
           "PYTHONWARNINGS": "ignore", "DJANGO_SETTINGS_MODULE": "vsettings", "VCASE": job["case"],
           "VCFG": json.dumps(cfg)}
    log = open(os.path.join(cfg["dir"], "log"), "w")
    proc = subprocess.Popen([PY, os.path.join(HARNESS, "worker.py")], env=env, cwd=cfg["dir"], stdout=log,
                            stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL)
    return {"i": i, "job": job, "proc": proc, "out": cfg["out"], "log": log, "t0": time.time()}


def report(prop, spec, tier, seed, results, evidence, t0):
    known = known_findings()[prop]
    cov = collections.Counter()
    distinct = set()
    samples, errors, new, old = [], [], [], []
    by_backend = collections.Counter()
    for r in results:
        cov.update(r["cov"])
        distinct.update(r["distinct"])
        by_backend[r["job"]["backend"]] += r["evaluations"]
        for s in r["samples"][:2]:
            if len(samples) < 12:
                samples.append(dict(s, job=describe(r["job"])))
        for k in r["known"]:
            if k["key"] in known:
                if k["key"] not in [x["key"] for x in old]:
                    old.append(k)
            else:
                new.append((r, {"kind": k["key"], "msg": k["msg"], "detail": {}, "trace": []}))
        for v in r["violations"]:
            new.append((r, v))
        if r["status"] == "error":
            errors.append((r["job"], r["error"]))
    lines = []
    for n, (r, v) in enumerate(new[:20]):
        path = os.path.join(HERE, "evidence", "replays", "%s-%d.json" % (prop, n))
        with open(path, "w") as f:
            json.dump({"property": prop, "job": r["job"], "violation": v}, f, indent=1)
        lines.append((path, r, v))
    missing = [k for k, n in spec.get("require", {}).items() if cov.get(k, 0) < n]
    with open(evidence, "w") as f:
        json.dump({
            "property": prop, "tier": tier, "seed": seed, "level": spec["level"],
            "coverage": {
                "evaluations": sum(r["evaluations"] for r in results),
                "distinct_nontrivial": len(distinct),
                "rule": spec["rule"],
                "samples": samples,
                "counters": dict(sorted(cov.items())),
                "evaluations_by_backend": dict(by_backend),
                "jobs": [{"job": describe(r["job"]), "status": r["status"], "evaluations": r["evaluations"],
                          "distinct": len(r["distinct"]), "wall_s": r["wall"]} for r in results],
            },
            "wall_s": round(time.time() - t0, 1),
            "assumptions": spec.get("assumptions", []),
            "violations": [{"kind": v["kind"], "msg": v["msg"], "job": describe(r["job"]), "replay": p}
                           for p, r, v in lines],
        }, f, indent=1)
    for k in old:
        print("KNOWN-FINDING: property=%s %s" % (prop, known[k["key"]]))
    for path, r, v in lines:
        print("  %s: %s: %s" % (describe(r["job"]), v["kind"], v["msg"][:600]))
    if lines:
        print("VIOLATION property=%s replay=%s" % (prop, lines[0][0]))
        return 1
    for job, e in errors:
        print("ERROR in %s:\n%s" % (describe(job), e))
    if errors:
        return 2
    if missing or len(distinct) < spec.get("min_distinct", 2):
        print("INCONCLUSIVE: the monitors of %s were not reached: %s (distinct %d)" % (prop, missing, len(distinct)))
        return 2
    print("OK property=%s evaluations=%d distinct=%d wall=%.1fs" % (
        prop, sum(r["evaluations"] for r in results), len(distinct), time.time() - t0))
    return 0


if __name__ == "__main__":
    sys.exit(main())
