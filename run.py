#!/usr/bin/env python3
"""run.py PROPERTY [--tier quick|thorough]: decide one property on /repo's current source."""
import argparse
import importlib
import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "sa"))
sys.dont_write_bytecode = True
import threading

threading.stack_size(512 * 1024 * 1024)
sys.setrecursionlimit(60000)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="*")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--verbose", action="store_true")
    ap.add_argument("--all", action="store_true")
    ap.add_argument("--nowrite", action="store_true")
    args = ap.parse_args()
    import prep
    from core import Program
    from base import A, BrokenAnalysis
    import rules
    t0 = time.time()
    try:
        raw, T, cfg = prep.extract()
        P = Program(raw, T)
        del raw
    except prep.Broken as e:
        print("ANALYSIS-BROKEN: %s" % e)
        return 2
    tx = time.time() - t0
    props = sorted(rules.RULES) if args.all else args.prop
    rc = 0
    for pid in props:
        t1 = time.time()
        a = A(P, cfg, pid)
        broken = []
        for r in rules.RULES[pid]:
            # a rule that cannot be applied does not keep the others from being decided
            try:
                r(a)
            except BrokenAnalysis as e:
                broken.append(str(e))
            except Exception as e:
                traceback.print_exc()
                broken.append("%s: %s: %s" % (getattr(r, "__name__", "rule"), type(e).__name__, e))
        if not a.obl and not broken:
            broken.append("no obligation was generated")
        for b in broken:
            print("ANALYSIS-BROKEN: property=%s %s" % (pid, b))
        known = {}
        kf = os.path.join(HERE, "KNOWN_FINDINGS.json")
        if os.path.exists(kf):
            for k in json.load(open(kf)).get("findings", []):
                if k["property"] == pid:
                    known[k["key"]] = k["what"]
        seen, viol = set(), []
        for b in a.bad:
            if b["key"] in known:
                if b["key"] not in seen:
                    seen.add(b["key"])
                    print("KNOWN-FINDING: property=%s %s" % (pid, known[b["key"]]))
            else:
                viol.append(b)
        byrule = {}
        for r, w, what, ok in a.obl:
            d = byrule.setdefault(r, [0, 0])
            d[0] += 1
            d[1] += ok
        ev = dict(property=pid, tier=args.tier if args.tier in ("quick", "thorough") else "quick",
                  seed=int(os.environ.get("VERIF_SEED", "1") or 1), level="other",
                  coverage=dict(
                      explanation="static analysis of the type-resolved syntax trees and control-flow graphs of every "
                                  "unit the project's build compiles; one obligation per construct (function, call "
                                  "site, store, path) the rules select",
                      units=len(P.units), functions=len(P.funcs), obligations=len(a.obl),
                      discharged=sum(1 for o in a.obl if o[3]),
                      rules={r: dict(obligations=d[0], discharged=d[1], text=rules.TEXT.get(r, "")) for r, d in byrule.items()},
                      samples=["%s: %s: %s" % (r, w, what) for r, w, what, ok in a.obl][:60],
                      known_findings=sorted(seen)),
                  assumptions=rules.ASSUME,
                  violations=[dict(rule=b["rule"], where=b["where"], what=b["msg"]) for b in viol],
                  wall_s=round(tx + time.time() - t1, 2))
        if not args.nowrite:
            os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
            with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
                json.dump(ev, f, indent=1)
        print("%s: %d obligations, %d violated, %d rules (%s); facts %.1fs, rules %.1fs" % (
            pid, len(a.obl), len(viol), len(byrule),
            ", ".join("%s %d" % (r, d[0]) for r, d in sorted(byrule.items())), tx, time.time() - t1))
        if args.verbose:
            for r, w, what, ok in a.obl:
                print("   ", "ok  " if ok else "FAIL", r, w, what)
        for b in viol:
            print("  %s: %s: %s" % (b["where"], b["rule"], b["msg"]))
        if viol:
            rp = os.path.join(HERE, "evidence", pid + ".violation.txt")
            if not args.nowrite:
                with open(rp, "w") as f:
                    for b in viol:
                        f.write("%s: rule %s: %s\n  rule text: %s\n" % (b["where"], b["rule"], b["msg"], rules.TEXT.get(b["rule"], "")))
            print("VIOLATION property=%s replay=%s" % (pid, rp))
            rc = 1
        elif broken:
            rc = rc or 2
    return rc


def entry():
    try:
        R.append(main())
    except SystemExit as e:
        R.append(e.code)
    except BaseException:
        traceback.print_exc()
        print("ANALYSIS-BROKEN: internal error")
        R.append(3)


R = []
t = threading.Thread(target=entry)
t.start()
t.join()
sys.stdout.flush()
os._exit(R[0] if R and isinstance(R[0], int) else 3)
