import argparse
import importlib
import json
import multiprocessing as mp
import os
import shutil
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def load_findings():
    out = []
    path = os.path.join(HERE, "known_findings.json")
    if os.path.exists(path):
        with open(path) as f:
            out = json.load(f)
    return out


def worker(tasks, results, prop, seed, deadline, mod):
    # one scratch directory per worker
    import tempfile

    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    if not os.environ.get("PV_DEBUG"):
        os.dup2(devnull, 2)
    d = tempfile.mkdtemp(prefix="w", dir=os.environ["PV_WORK"])
    os.chdir(d)
    tempfile.tempdir = d
    from pv import core

    byname = {s.name: s for s in mod.SUBCHECKS}
    while True:
        t = tasks.get()
        if t is None:
            results.put(None)
            return
        name, shard, nshards, n = t
        try:
            r = core.run_shard(prop, byname[name], seed, shard, nshards, n, deadline)
        except BaseException:
            r = dict(sub=name, shard=shard, error=traceback.format_exc(),
                     evaluations=0, skipped=0, hashes=[], nontrivial_hashes=[],
                     labels={}, samples=[], failure=None, timeout=False, wall=0)
        results.put(r)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--only")
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--budget", type=float)
    a = ap.parse_args()
    t0 = time.time()
    prop = a.prop
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = "thorough" if a.tier == "thorough" else "quick"

    from pv import env

    env.setup()
    from pv import core

    mod = importlib.import_module("pv.checks.%s" % prop.lower())

    if a.replay:
        with open(a.replay) as f:
            rep = json.load(f)
        sub = {s.name: s for s in mod.SUBCHECKS}[rep["subcheck"]]
        try:
            labels = core.run_case(sub, rep["case"])
        except core.Violation as e:
            print(e)
            print("VIOLATION property=%s replay=%s" % (prop, a.replay))
            return 1
        print("replay holds:", labels)
        return 0

    # recorded defects: each is shown to be there still
    findings = [f for f in load_findings()
                if f["property"] == prop and f["status"] == "open"]
    known_lines = []
    for f in findings:
        sub = {s.name: s for s in mod.SUBCHECKS + getattr(mod, "FINDING_SUBS", [])}[f["subcheck"]]
        try:
            core.run_case(sub, f["case"])
        except core.Violation:
            known_lines.append("KNOWN-FINDING: property=%s %s" % (prop, f["what"]))

    budget = a.budget or (float(os.environ.get("PV_BUDGET", 0)) or
                          (330.0 if tier == "quick" else 5400.0))
    deadline = t0 + budget

    subs = [s for s in mod.SUBCHECKS if not a.only or s.name in a.only.split(",")]
    ncpu = min(8, os.cpu_count() or 1)
    tasklist = []
    for s in subs:
        total = int((s.quick if tier == "quick" else s.thorough) * a.scale)
        total = max(total, 1)
        nsh = min(s.shards if tier == "quick" else max(s.shards, 16), total)
        for i in range(nsh):
            k = total // nsh + (1 if i < total % nsh else 0)
            if k:
                tasklist.append((i, s, (s.name, i, nsh, k)))
    # interleave so that every subcheck starts early
    tasklist.sort(key=lambda x: x[0])

    ctx = mp.get_context("fork")
    tasks, results = ctx.Queue(), ctx.Queue()
    for _, _, t in tasklist:
        tasks.put(t)
    procs = []
    nw = min(ncpu, len(tasklist))
    for _ in range(nw):
        tasks.put(None)
    sys.stdout.flush()
    for _ in range(nw):
        p = ctx.Process(target=worker, args=(tasks, results, prop, seed, deadline, mod))
        p.daemon = False
        p.start()
        procs.append(p)

    got, done = [], 0
    failure = None
    import queue as _q
    while done < nw:
        try:
            r = results.get(timeout=5)
        except _q.Empty:
            if all(not p.is_alive() for p in procs):
                break
            continue
        if r is None:
            done += 1
            continue
        got.append(r)
        if r["failure"] is not None:
            failure = r
            break
    for p in procs:
        if failure is not None:
            p.terminate()
        p.join(20)
        if p.is_alive():
            p.kill()

    errors = [r for r in got if r["error"]]
    incomplete = len(got) < len(tasklist) and failure is None

    # evidence
    hashes, nontriv, labels, samples, per = set(), set(), {}, [], {}
    ev = skipped = 0
    timeout = False
    for r in got:
        ev += r["evaluations"]
        skipped += r["skipped"]
        timeout |= r["timeout"]
        hashes.update((r["sub"], h) for h in r["hashes"])
        nontriv.update((r["sub"], h) for h in r["nontrivial_hashes"])
        d = per.setdefault(r["sub"], dict(evaluations=0, nontrivial=0, cpu_s=0.0, distribution={}))
        d["evaluations"] += r["evaluations"]
        d["nontrivial"] += len(r["nontrivial_hashes"])
        d["cpu_s"] = round(d["cpu_s"] + r["wall"], 1)
        for k, v in r["labels"].items():
            d["distribution"][k] = round(d["distribution"].get(k, 0) + v, 6)
    for s in subs:
        for r in got:
            if r["sub"] == s.name and r["samples"]:
                samples.append(dict(subcheck=s.name, case=r["samples"][0]))
                break
    rules = {s.name: s.rule for s in subs}
    evidence = dict(
        property=prop, tier=tier, seed=seed, level="exploration",
        coverage=dict(
            evaluations=ev,
            distinct_nontrivial=len(nontriv),
            distinct=len(hashes),
            out_of_domain=skipped,
            rule="Hypothesis generates JSON cases per subcheck; a case is "
                 "non-trivial when: " + "; ".join("%s: %s" % kv for kv in rules.items()),
            samples=samples,
            subchecks=per,
            budget_exhausted=timeout,
        ),
        assumptions=getattr(mod, "ASSUMPTIONS", []),
        wall_s=round(time.time() - t0, 2),
        violations=1 if failure else 0,
    )
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    epath = os.path.join(HERE, "evidence", "%s.json" % prop)
    with open(epath, "w") as f:
        json.dump(evidence, f, indent=1, default=str)
        f.write("\n")

    for l in known_lines:
        print(l)

    if failure is not None:
        os.makedirs(os.path.join(HERE, "replay"), exist_ok=True)
        fc = failure["failure"]
        rp = os.path.join(HERE, "replay", "%s-%s.json" % (prop, core.case_hash(fc["case"])))
        with open(rp, "w") as f:
            json.dump(dict(property=prop, subcheck=failure["sub"], case=fc["case"],
                           message=fc["message"]), f, indent=1, default=str)
        print("subcheck %s: %s" % (failure["sub"], fc["message"]))
        print("VIOLATION property=%s replay=%s" % (prop, rp))
        return 1
    if errors:
        print("ERROR in %s: %s" % (errors[0]["sub"], errors[0]["error"]))
        return 2
    if incomplete:
        print("ERROR: %d of %d tasks reported" % (len(got), len(tasklist)))
        return 2
    missing = [s.name for s in subs if per.get(s.name, {}).get("evaluations", 0) == 0]
    if missing:
        print("ERROR: nothing explored for %s" % missing)
        return 2
    print("OK %s %s: %d cases, %d non-trivial, %.1f s" % (prop, tier, ev, len(nontriv), time.time() - t0))
    return 0


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
