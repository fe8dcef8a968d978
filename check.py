#!/usr/bin/env python3
"""Run one check: check.py <property id> [--thorough] [--root DIR]"""
import argparse
import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
sys.setrecursionlimit(30000)
import threading
threading.stack_size(512 * 1024 * 1024)

from sa.checks import registry
from sa.checks.common import Result, World, Broken


def known():
    out = []
    p = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p, encoding="utf-8"):
            l = l.strip()
            if l.startswith("finding:"):
                out.append(dict(x.split("=", 1) for x in l[8:].strip().split(" ; ")))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--thorough", action="store_true")
    ap.add_argument("--root", default="/repo")
    a = ap.parse_args()
    tier = "thorough" if a.thorough else "quick"
    R = Result(a.id, a.thorough)
    level, note, fn = registry.CHECKS[a.id]
    try:
        W = World(a.root)
        with R.unit("the check"):
            fn(W, R)
        if R.failed >= R.units - 1 and R.failed:
            raise Broken("; ".join(R.undecided[-3:]))
    except Broken as e:
        print("ERROR: %s" % e)
        return 2
    wall = time.time() - R.t0
    kf = [k for k in known() if k.get("property") == a.id]
    new = []
    for v in R.violations:
        if any(k["key"] == v.key for k in kf):
            print("KNOWN-FINDING: property=%s %s" % (a.id, v.text()))
        else:
            new.append(v)
    ev = {
        "property": a.id, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": level,
        "coverage": {"explanation": note + " Measured: " + ", ".join("%s %d" % kv for kv in sorted(R.counts.items()))
                     + (". Undecided (quiet): %d" % len(R.undecided)),
                     "rules": R.rules, "counts": R.counts, "files": len(W.tree.project.files),
                     "undecided": R.undecided[:40], "samples": R.samples},
        "wall_s": round(wall, 2),
        "violations": len(new),
        "assumptions": R.assumptions or ["the modelled pandas / numpy operations behave as documented"],
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", a.id + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1)
    for v in new[:25]:
        print("  " + v.text())
    print("%s (%s): %s; undecided %d; %.1f s" % (a.id, tier, ", ".join("%s %d" % kv for kv in sorted(R.counts.items())),
                                                 len(R.undecided), wall))
    if os.environ.get("SA_DEBUG"):
        for u in R.undecided:
            print("   undecided:", u)
    if new:
        rp = os.path.join(HERE, "evidence", a.id + ".violation.txt")
        with open(rp, "w") as fh:
            fh.write("\n".join(v.text() for v in new) + "\n")
        print("VIOLATION property=%s replay=%s" % (a.id, rp))
        return 1
    return 0


def run():
    try:
        rc[0] = main()
    except BaseException:
        traceback.print_exc()
        rc[0] = 3


rc = [3]
t = threading.Thread(target=run)
t.start()
t.join()
sys.stdout.flush()
os._exit(rc[0])
