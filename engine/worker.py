"""Worker process: claims harnesses of one check and decides them."""
from __future__ import annotations

import argparse
import fcntl
import importlib
import json
import os
import resource
import sys
import traceback

REPO = os.environ.get("VERIF_REPO", "/repo")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def claim(path):
    with open(path, "r+") as f:
        fcntl.flock(f, fcntl.LOCK_EX)
        n = int(f.read() or "0")
        f.seek(0)
        f.truncate()
        f.write(str(n + 1))
        f.flush()
    return n


def watch(seen):
    """Record the functions of the real code that are executed symbolically."""
    mon = sys.monitoring
    tool = mon.PROFILER_ID
    mon.use_tool_id(tool, "encoded-functions")
    root = os.path.join(REPO, "horqrux") + os.sep

    def start(code, offset):
        if code.co_filename.startswith(root):
            seen.add(code.co_filename[len(root):] + ":" + code.co_qualname)
        return mon.DISABLE

    mon.register_callback(tool, mon.events.PY_START, start)
    mon.set_events(tool, mon.events.PY_START)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--seed", default="1")
    ap.add_argument("--counter")
    ap.add_argument("--out")
    ap.add_argument("--only")
    ap.add_argument("--replay")
    a = ap.parse_args()
    sys.path[:0] = [HERE, REPO]
    sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
    mod = importlib.import_module("checks." + a.prop.lower())
    from engine import harness

    import horqrux

    if not os.path.abspath(horqrux.__file__).startswith(REPO + os.sep):
        raise SystemExit(f"horqrux is imported from {horqrux.__file__}, not from {REPO}")
    hs = mod.harnesses(a.tier)
    names = [h.name for h in hs]
    assert len(set(names)) == len(names), "harness names repeat"
    if a.replay:
        rec = json.load(open(a.replay))
        h = hs[names.index(rec["harness"])]
        v = harness.replay_record(h, rec)
        print(json.dumps(v, indent=1) if v else "does not reproduce")
        raise SystemExit(1 if v else 0)
    # a harness that runs out of memory is undecided; it does not take the others down
    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
    seen = set()
    watch(seen)
    out = open(a.out, "a")
    out.write(json.dumps({"total": len(hs), "names": names}) + "\n")
    out.flush()
    order = sorted(range(len(hs)), key=lambda i: -hs[i].cost)
    while True:
        n = claim(a.counter)
        if n >= len(hs):
            break
        h = hs[order[n]]
        if a.only and a.only not in h.name:
            continue
        out.write(json.dumps({"claimed": h.name}) + "\n")
        out.flush()
        r = harness.run_harness(h, int(a.seed), a.tier)
        sys.stdout.flush()
        out.write(json.dumps({"result": r, "functions": sorted(seen)}, default=str) + "\n")
        out.flush()
        seen.clear()
    out.close()


if __name__ == "__main__":
    try:
        main()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        sys.stderr.flush()
        os._exit(3)
    sys.stdout.flush()
    os._exit(0)
