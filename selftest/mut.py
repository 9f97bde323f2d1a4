#!/usr/bin/env python3
"""mut.py [-b|-q] [FILTER...]: apply small edits to a scratch copy of /repo/src one at a time and report which property rules react.
Developer's tool, not a check.  selftest/break_*.py: edits that break a property (must be reported); selftest/quiet_*.py: edits
that keep the behaviour (must not be)."""
import atexit
import glob, importlib.util, os, pickle, shutil, subprocess, sys, threading, time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(os.path.dirname(HERE), "sa"))
sys.dont_write_bytecode = True
threading.stack_size(512 * 1024 * 1024)
sys.setrecursionlimit(60000)
import prep
import concurrent.futures as cf

SH = [x[8:].split("/") for x in sys.argv if x.startswith("--shard=")]      # --shard=i/n
SI, SN = (int(SH[0][0]), int(SH[0][1])) if SH else (0, 1)
T = "/tmp/mt.%d" % os.getpid()
import json
KNOWN = set(k["key"] for k in json.load(open("/verif/KNOWN_FINDINGS.json"))["findings"])
atexit.register(lambda: shutil.rmtree(T, ignore_errors=True))


def one(exe, ix, units):
    d, s, fl = units[ix]
    out = os.path.join(T, "facts.%d" % ix)
    r = subprocess.run([exe, T, out, s, "--"] + fl, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise prep.Broken("cannot parse %s: %s" % (s, [l for l in r.stdout.splitlines() if "error:" in l][:3]))
    return open(out).read().splitlines()


def load(names):
    res = []
    for f in sorted(sum([glob.glob(os.path.join(HERE, n)) for n in names], [])):
        sp = importlib.util.spec_from_file_location("m", f)
        m = importlib.util.module_from_spec(sp)
        sp.loader.exec_module(m)
        kind = "break" if os.path.basename(f).startswith("break") else "quiet"
        for x in m.M:
            res.append((kind,) + tuple(x))
    return res


def main():
    args = [x for x in sys.argv[1:]]
    kinds = ["break_*.py"] if "-b" in args else ["quiet_*.py"] if "-q" in args else ["break_*.py", "quiet_*.py"]
    allrules = "--all" in args
    filt = [x for x in args if not x.startswith("-")]
    exe = prep.build_tool()
    shutil.rmtree(T, ignore_errors=True)
    os.makedirs(T)
    shutil.copytree(os.environ.get("MUT_SRC", "/repo/src"), T + "/src", symlinks=True, ignore=prep._ignore)
    units = prep.compile_commands(T)
    with cf.ThreadPoolExecutor(8) as ex:
        base = list(ex.map(lambda i: one(exe, i, units), range(len(units))))
    names = [s.replace(T + "/", "") for d, s, fl in units]
    cfgp = T + "/src/main/zmdp.config"
    from core import Program
    from base import A, BrokenAnalysis
    import rules

    def run(facts, props):
        P = Program(list(zip(names, facts)), T)
        cfg = open(cfgp, errors="replace").read()
        def some(ps):
            out = {}
            for p in ps:
                a = A(P, cfg, p)
                try:
                    for r in rules.RULES[p]:
                        r(a)
                    a.bad = [b for b in a.bad if b["key"] not in KNOWN]
                    if a.bad:
                        out[p] = a.bad
                except BrokenAnalysis as e:
                    out[p] = "BROKEN %s" % e
                except Exception as e:
                    import traceback
                    traceback.print_exc()
                    out[p] = "CRASH %r" % e
            return out
        J = int(os.environ.get("MUT_J", "6"))
        if len(props) < 4 or J < 2:
            return some(props)
        heavy = [p for p in ("C05", "M09", "C02", "M05") if p in props]
        rest = [p for p in props if p not in heavy]
        parts = [[p] for p in heavy] + [rest[i::J - 2] for i in range(J - 2)]
        kids = []
        for ps in parts:
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                try:
                    with os.fdopen(w, "wb") as f:
                        pickle.dump(some(ps), f)
                finally:
                    os._exit(0)
            os.close(w)
            kids.append((pid, r))
        out = {}
        for pid, r in kids:
            with os.fdopen(r, "rb") as f:
                out.update(pickle.load(f))
            os.waitpid(pid, 0)
        return out
    clean = run(base, sorted(rules.RULES))
    if clean:
        print("unchanged tree:", {k: (v if isinstance(v, str) else [b["msg"] for b in v][:2]) for k, v in clean.items()})
    bad = 0
    muts = load(kinds)[SI::SN]
    for m in muts:
        kind, mid, props, edits = m[0], m[1], m[2], m[3]
        props = props.split()
        if filt and not any(f == mid or f in props or mid.startswith(f) for f in filt):
            continue
        run_props = sorted(rules.RULES) if (kind == "quiet" or allrules) else [p for p in props if p in rules.RULES]
        if not run_props:
            continue
        saved = {}
        ok = True
        for f, old, new in edits:
            p = T + "/src/" + f
            s = open(p).read()
            saved.setdefault(p, s)
            if s.count(old) < 1:
                print("?? %s: text not found in %s" % (mid, f))
                ok = False
                break
            open(p, "w").write(s.replace(old, new, 1))
        if ok:
            try:
                files = [p.replace(T + "/", "") for p in saved]
                if all(f in names for f in files):
                    facts = list(base)
                    for f in files:
                        i = names.index(f)
                        facts[i] = one(exe, i, units)
                    # other units: unchanged
                else:
                    prep.compile_commands(T)
                    with cf.ThreadPoolExecutor(8) as ex:
                        facts = list(ex.map(lambda i: one(exe, i, units), range(len(units))))
                r = run(facts, run_props)
            except prep.Broken as e:
                r = {"PARSE": str(e)}
            txt = {k: (v if isinstance(v, str) else [b["rule"] + " " + b["msg"][:140] for b in v][:2]) for k, v in r.items()}
            if kind == "quiet":
                good = not r
            else:
                good = any(p in r and not isinstance(r[p], str) for p in props)
            bad += not good
            print("%s %s %s %s" % ("ok  " if good else "MISS" if kind == "break" else "ALARM", mid, " ".join(props), txt if (not good or "-v" in args) else ""), flush=True)
        for p, s in saved.items():
            open(p, "w").write(s)
        if not all(p.replace(T + "/", "") in names for p in saved):
            prep.compile_commands(T)
    print("wrong:", bad)


t = threading.Thread(target=main)
t.start()
t.join()
