#!/usr/bin/env python3
"""Decide one property: run_check.py C01 [--tier quick|thorough] [--only TEXT] [--replay FILE]."""
import argparse
import hashlib
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"
KNOWN = os.path.join(HERE, "known_findings.txt")


def known(prop):
    out = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if not line.startswith("finding:"):
                continue
            f = {}
            head, _, text = line.partition(" -- ")
            for tok in head.split()[1:]:
                k, _, v = tok.partition("=")
                f[k] = v
            if f.get("property") == prop:
                out[(f["harness"], f["label"])] = text
    return out


def env():
    e = dict(os.environ)
    e.update(
        JAX_PLATFORMS="cpu", PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1",
        OPENBLAS_NUM_THREADS="1", PYTHONHASHSEED="0",
        XLA_FLAGS="--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1",
    )
    return e


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", default=os.environ.get("VERIF_SEED", "1"))
    ap.add_argument("--only")
    ap.add_argument("--replay")
    ap.add_argument("--workers", type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    budget = 560 if a.tier == "quick" else 850
    cmd = [PY, "-m", "engine.worker", a.prop, "--tier", a.tier, "--seed", a.seed]
    if a.replay:
        p = subprocess.run(cmd + ["--replay", a.replay], cwd=HERE, env=env())
        sys.exit(p.returncode)
    work = tempfile.mkdtemp(prefix="verif-")
    try:
        rc = decide(a, cmd, work, t0, budget)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc)


def decide(a, cmd, work, t0, budget):
    counter = os.path.join(work, "counter")
    open(counter, "w").write("0")
    procs = []
    for w in range(a.workers):
        c = cmd + ["--counter", counter, "--out", os.path.join(work, f"out{w}")]
        if a.only:
            c += ["--only", a.only]
        err = open(os.path.join(work, f"err{w}"), "w")
        procs.append(subprocess.Popen(c, cwd=HERE, env=env(), stdout=err, stderr=err, start_new_session=True))
    timed_out = False
    while any(p.poll() is None for p in procs):
        time.sleep(0.1)
        if time.time() - t0 > budget:
            timed_out = True
            for p in procs:
                if p.poll() is None:
                    try:
                        os.killpg(p.pid, signal.SIGKILL)
                    except ProcessLookupError:
                        pass
            break
    for p in procs:
        p.wait()
    total, results, funcs, claimed, names = 0, {}, set(), [], []
    for w in range(a.workers):
        path = os.path.join(work, f"out{w}")
        if not os.path.exists(path):
            continue
        for line in open(path):
            try:
                r = json.loads(line)
            except ValueError:
                continue
            if "total" in r:
                total, names = r["total"], r["names"]
            elif "claimed" in r:
                claimed.append(r["claimed"])
            else:
                results[r["result"]["name"]] = r["result"]
                funcs.update(r["functions"])
    if a.only:
        names = [n for n in names if a.only in n]
        total = len(names)
    errs = [open(os.path.join(work, f"err{w}")).read()[-3000:] for w in range(a.workers)]
    if not total:
        print(f"ERROR property={a.prop}: no harness could be started")
        print(next((e for e in errs if e), ""))
        return 2
    kn = known(a.prop)
    fresh, old, undecided = [], [], []
    for n in names:
        r = results.get(n)
        if r is None:
            undecided.append((n, "worker ended" if n in claimed else "not started" + (" (time)" if timed_out else "")))
            continue
        if a.v:
            print(f"  {r['status']:10s} {r['wall']:6.1f}s paths={r['paths']} ops={r['ops']} elements={r['elements']} "
                  f"queries={r['queries']} solver={r['solver_s']:.2f}s {n} {r['detail'][-700:] if r['status'] == 'undecided' else ''}")
        if r["status"] == "violation":
            for v in r["violations"]:
                (old if (n, v["label"]) in kn else fresh).append((n, v))
        elif r["status"] == "undecided":
            undecided.append((n, r["detail"]))
    decided = [r for r in results.values() if r["status"] != "undecided"]
    for n, v in old:
        print(f"KNOWN-FINDING: property={a.prop} {n}/{v['label']}: {kn[(n, v['label'])]}")
    shown = 0
    for n, v in fresh:
        d = os.path.join(HERE, "evidence", "replays")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, f"{a.prop}-{hashlib.md5((n + v['label']).encode()).hexdigest()[:8]}.json")
        with open(path, "w") as f:
            json.dump({"property": a.prop, "harness": n, "tier": a.tier, **v}, f, indent=1)
        if shown < 20:
            print(f"  {n}: {v['label']}: {v['text']}")
            print(f"VIOLATION property={a.prop} replay={path}")
        shown += 1
    for n, why in undecided[:0 if a.v else 20]:
        print(f"UNDECIDED property={a.prop} {n}: {' '.join(why.split())[-400:]}")
    for e in errs:
        if e and a.v:
            print("worker:", e[-1500:])
            break
    write_evidence(a, t0, total, results, funcs, fresh, old, undecided)
    s = sum(r["solver_s"] for r in results.values())
    print(f"{a.prop} {a.tier}: {len(decided)}/{total} harnesses decided, {len(fresh)} violations, "
          f"{sum(r['queries'] for r in results.values())} queries, solver {s:.1f} s, wall {time.time() - t0:.1f} s")
    if fresh:
        return 1
    if len(decided) * 2 < total:
        return 2
    return 0


def write_evidence(a, t0, total, results, funcs, fresh, old, undecided):
    if a.only:
        return
    sys.path.insert(0, HERE)
    from checks.bounds import BOUNDS, ASSUMPTIONS

    rs = list(results.values())
    tot = lambda k: sum(r.get(k, 0) for r in rs)
    samples = []
    for r in sorted(rs, key=lambda r: -r.get("elements", 0)):
        if r.get("samples") and len(samples) < 6:
            samples.append({"harness": r["name"], "status": r["status"], **r["samples"][0]})
    if not samples:
        samples = [{"harness": r["name"], "status": r["status"], "detail": r["detail"][:200]} for r in rs[:5]] or [{"none": True}]
    ev = {
        "property": a.prop, "tier": a.tier if a.tier in ("quick", "thorough") else "quick", "seed": int(a.seed),
        "level": "model_checking",
        "coverage": {
            "states": tot("paths"), "transitions": tot("ops"),
            "traces_validated_against_impl": tot("validated"),
            "harnesses": total, "harnesses_decided": sum(r["status"] != "undecided" for r in rs),
            "undecided": [list(u)[:1] + [u[1][-200:]] for u in undecided[:20]],
            "obligations": tot("pairs"), "scalar_equalities": tot("elements"),
            "queries": tot("queries"), "unsat": tot("unsat"), "sat": tot("sat"), "unknown": tot("unknown"),
            "solver_s": round(tot("solver_s"), 3), "cvc5_agree": tot("cvc5_agree"),
            "vacuity_twins_refuted": tot("vacuity"),
            "symbolic_variables": tot("vars"),
            "functions_encoded": sorted(funcs),
            "bounds": BOUNDS.get(a.prop, ""),
            "known_findings_seen": len(old),
            "checker": "z3 (Python API); cvc5 cross-check on a fraction of queries in the thorough tier",
            "samples": samples,
        },
        "assumptions": ASSUMPTIONS,
        "wall_s": round(time.time() - t0, 2),
        "violations": len(fresh),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", a.prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)


if __name__ == "__main__":
    main()
