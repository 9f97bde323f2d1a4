"""M10, C01..C05: message tables and options."""
from rules.common import *
from absint import *

RULES, TEXT = {}, {}

CFG = "zmdp::ZMDPConfig"


# -- the declared options ----------------------------------------------------

def declared(a):
    """option -> default and alias list, as documented in the embedded default configuration"""
    opts, al = {}, []
    for line in a.cfgfile.split("\n"):
        if not line.strip() or line.startswith("#"):
            continue
        w = line.split()
        if w[0] == "alias":
            al.append((w[1] if len(w) > 1 else "", w[2:]))
        elif len(w) >= 2:
            opts[w[0]] = w[1]
    a.need("options", len(opts), 20, "options the default configuration declares options")
    return opts, al


def main_of(a):
    gs = [g for g in a.P.find("main") if g.file.endswith("main/zmdp.cc")]
    a.need("main", len(gs), 1, "main of the zmdp command")
    return gs[0]


REL = ("<", "<=", ">", ">=", "==", "!=")


class Probe(object):
    """one interpretation of the command under assumed option values; what it can reach"""

    def __init__(self, a, over, stop=None, ret=None, limit=30000, avoid=None, cmps=False):
        self.a, P = a, a.P
        opts, _ = declared(a)
        opts.update({"command": "solve", "simulatorModel": "model.pomdp", "binaryName": "zmdp"})
        opts.update(over)
        self.tags, self.stops, self.fatals = {}, [], []
        self.cmps = {}
        memo = a.__dict__.setdefault("_enter", {})
        getters = a.__dict__.setdefault("_getters", {})

        def consults(h):
            if h.usr not in getters:
                getters[h.usr] = P.reaches_call(h, lambda n: n.k == "Call" and (n.d.get("q") or "").startswith(CFG + "::get")) is not None
            return getters[h.usr]

        def enter(h):
            if h.usr not in memo:
                r = consults(h) or "/main/" in h.file or (h.ctor and len(h.blocks) < 8)
                if not r and len(h.blocks) < 60 and not h.ctor:
                    # a function steered by an object's own copy of an option
                    r = any(b.cond is not None and any(n.k == "Mem" and n.d["n"] in opts for n in b.cond.walk()) for b in h.blocks.values()) or \
                        cmps and any(n.k == "Bin" and n.d["op"] in REL and any(strip(y).k == "Mem" and strip(y).d["n"] in opts for y in n.c) for n in P.all_nodes(h))
                memo[h.usr] = r
            return memo[h.usr]

        def on(n, fr, st, I):
            if n.k == "New":
                t = ("new", re.sub(r"\s*\*$", "", n.t or "").replace("const ", "").strip())
                self.tag(t, n)
                if avoid and avoid(t):
                    return "stop"
            elif n.k == "Call":
                nm = last(n.d.get("q"))
                vals = tuple(I.val(c, fr, st) for c in n.c[:8])
                self.tag(("call", n.d.get("q") or "", vals), n)
                if avoid and avoid(("call", n.d.get("q") or "", vals)):
                    return "stop"
                if stop and nm in stop:
                    self.stops.append((n, st))
                    return "stop"
            elif cmps and n.k == "Bin" and n.d["op"] in REL:
                x, y = (I.val(c, fr, st) for c in n.c)
                self.cmps.setdefault((n.fn.usr, n.id), (n, set()))[1].add((x, y))
            return None

        # files can be opened and written
        base = {"getDiscount": 0.95, "fail": 0, "operator!": 0, "operator bool": 1}

        def size(n, fr, st, I):
            # no plain arguments besides the assumed values
            o = n.slot("obj")
            return 0 if o is not None and "vector" in (o.t or "") and "/main/" in n.fn.file else None
        base["size"] = size
        base["empty"] = lambda n, fr, st, I: None if size(n, fr, st, I) is None else 1
        base.update(ret or {})
        self.I = Interp(a, opts, enter, on, ret=base, limit=limit)
        g = main_of(a)
        args = {g.params[0]: 1} if g.params else {}
        self.out = self.I.start(g, args=args)
        self.over = self.I.over or any(k == "limit" for k, _, _, _ in self.out)
        for k, v, s, n in self.out:
            if k == "fatal" and n is not None:
                self.fatals.append(n)

    def tag(self, t, n):
        self.tags.setdefault(t, n)

    def news(self):
        return {t[1] for t in self.tags if t[0] == "new"}

    def calls(self, name):
        return [(t, n) for t, n in self.tags.items() if t[0] == "call" and last(t[1]) == name]


def begins(a):
    """names of the calls with which the work on an accepted configuration starts"""
    return ("planInit", "getRewardSamples")


def probe(a, over, stop=True, ret=None):
    key = (tuple(sorted(over.items())), bool(stop), tuple(sorted((ret or {}).items())))
    memo = a.P.__dict__.setdefault("_probes", {})
    if key not in memo:
        memo[key] = Probe(a, over, begins(a) if stop else None, ret)
    p = memo[key]
    p.a = a
    return p


def where(n):
    return n.fn.where(n)


def known(a, *qs):
    return {q for q in qs if q in a.P.recq}


# -- C03 ---------------------------------------------------------------------

def classify_new(p, group):
    if group and group <= set(LOWERS.values()) and p.stops:
        vs = fieldvals(p, "zmdp::BoundPair", "lowerBound")
    elif group and group <= set(UPPERS.values()) and p.stops:
        vs = fieldvals(p, "zmdp::BoundPair", "upperBound")
    else:
        vs = None
    if vs and all(isinstance(v, Ptr) and isinstance(v.loc, tuple) and v.loc[0] == "O" for v in vs):
        return {v.loc[1]: p.stops[0][0] for v in vs}
    return {c: n for (k, c, *_), n in p.tags.items() if k == "new" and c in group}


def selects(a, rule, opt, val, over, group, want, got, over_limit, what):
    """one documented value: its effect must be reachable, and if another one is, the analysis must not be sure of it"""
    w = "src/main/zmdp.config: %s" % opt
    if want is None or want not in group:
        return
    if want in got:
        if set(got) == {want}:
            a.ok(rule, w, "%s=%s selects %s and nothing else" % (opt, val, short(want)))
        elif not over_limit and over:
            for x in sorted(set(got) - {want}):
                hit = unavoidable(a, over, lambda t: t[0] == "new" and t[1] == x)
                if hit:
                    a.fail(rule, w, "%s=%s always creates a %s at %s: it is documented to %s" % (opt, val, short(x), where(hit[0]), what), key="%s %s=%s %s" % (rule, opt, val, short(x)))
        return
    if over_limit:
        return
    other = sorted(short(x) for x in got)
    a.fail(rule, w, "%s=%s %s: it is documented to %s" % (
        opt, val, "selects " + ", ".join(other) if other else "is refused or selects nothing", what), key="%s %s=%s" % (rule, opt, val))


SOLVERS = {"frtdp": "zmdp::FRTDP", "hsvi": "zmdp::HSVI", "rtdp": "zmdp::RTDP", "lrtdp": "zmdp::LRTDP", "hdp": "zmdp::HDP", "script": "zmdp::ScriptedUpdater"}
MODELS = {"pomdp": "zmdp::Pomdp", "mdp": "zmdp::GenericDiscreteMDP", "racetrack": "zmdp::RaceTrack", "custom": "zmdp::CustomMDP"}
LOWERS = {"point": "zmdp::PointLowerBound", "maxPlanes": "zmdp::MaxPlanesLowerBound"}
UPPERS = {"point": "zmdp::PointUpperBound", "sawtooth": "zmdp::SawtoothUpperBound"}


def c03_classes(a):
    """searchStrategy, modelType and the bound representations select the class they name"""
    def run(opt, table, extra, label):
        group = known(a, *table.values())
        for val, cls in sorted(table.items()):
            over = dict(extra(val))
            over[opt] = val
            p = probe(a, over)
            selects(a, "C03.select", opt, val, over, group, cls, classify_new(p, group), p.over, "select " + label % short(cls))

    run("searchStrategy", SOLVERS, lambda v: {}, "the search strategy %s")
    run("modelType", MODELS, lambda v: {"simulatorModel": "some.file"}, "the model class %s")
    run("lowerBoundRepresentation", LOWERS, lambda v: {}, "the lower bound %s")
    run("upperBoundRepresentation", UPPERS, lambda v: {}, "the upper bound %s")
    # '-' : by the model's file name, then by the model type
    mg, lg, ug = (known(a, *t.values()) for t in (MODELS, LOWERS, UPPERS))
    for name, m in (("dir.a/x.pomdp", "pomdp"), ("x.mdp", "mdp"), ("mdp/x.racetrack", "racetrack"), ("custom", "custom")):
        p = probe(a, {"modelType": "-", "simulatorModel": name})
        selects(a, "C03.select", "modelType", "- with model " + name, {"modelType": "-", "simulatorModel": name}, mg, MODELS[m], classify_new(p, mg), p.over, "infer the model class from the name")
        lo, up = ("maxPlanes", "sawtooth") if m == "pomdp" else ("point", "point")
        selects(a, "C03.select", "lowerBoundRepresentation", "- with model " + name, {}, lg, LOWERS[lo], classify_new(p, lg), p.over, "take the default for the model type")
        selects(a, "C03.select", "upperBoundRepresentation", "- with model " + name, {}, ug, UPPERS[up], classify_new(p, ug), p.over, "take the default for the model type")
        # and when the type is given instead of inferred
        p = probe(a, {"modelType": m, "simulatorModel": "some.file"})
        selects(a, "C03.select", "lowerBoundRepresentation", "- with modelType " + m, {}, lg, LOWERS[lo], classify_new(p, lg), p.over, "take the default for the model type")
        selects(a, "C03.select", "upperBoundRepresentation", "- with modelType " + m, {}, ug, UPPERS[up], classify_new(p, ug), p.over, "take the default for the model type")
    # an explicit type wins over the name
    p = probe(a, {"modelType": "mdp", "simulatorModel": "x.pomdp"})
    selects(a, "C03.select", "modelType", "mdp with model x.pomdp", {}, mg, MODELS["mdp"], classify_new(p, mg), p.over, "select the model class")


def unavoidable(a, over, pred):
    """every way to start work under these options passes a node satisfying pred"""
    q = probe(a, over)
    if not q.stops or q.over:
        return None
    hit = [n for t, n in q.tags.items() if pred(t)]
    if not hit:
        return []
    r = Probe(a, over, begins(a), avoid=pred)
    return hit if not r.stops and not r.over else None


def c03_maintain(a):
    """which bounds are kept"""
    lg, ug = known(a, *LOWERS.values()), known(a, *UPPERS.values())
    rule = "C03.maintain"

    def present(over, group, what, opt):
        p = probe(a, over)
        if p.stops and not p.over:
            a.check(any(t[0] == "new" and t[1] in group for t in p.tags), rule, "src/main/zmdp.config: " + opt, "%s: %s" % (txt(over), what),
                    "%s: no %s object is created on any path" % (txt(over), what), key="%s %s" % (rule, txt(over)))
        elif not p.over:
            a.fail(rule, "src/main/zmdp.config: " + opt, "%s is refused" % txt(over), key="%s %s" % (rule, txt(over)))

    def absent(over, group, what, opt):
        r = unavoidable(a, over, lambda t: t[0] == "new" and t[1] in group)
        if r is None:
            p = probe(a, over)
            if not p.stops and not p.over:
                a.fail(rule, "src/main/zmdp.config: " + opt, "%s is refused" % txt(over), key="%s %s" % (rule, txt(over)))
            return
        a.check(not r, rule, "src/main/zmdp.config: " + opt, "%s: %s" % (txt(over), what),
                "%s: a %s object is created all the same at %s" % (txt(over), what, r and where(r[0])), key="%s %s" % (rule, txt(over)))

    if not lg or not ug:
        return
    o = "maintainLowerBound"
    for s in ("frtdp", "hsvi"):
        present({"searchStrategy": s}, lg, "lower bound", o)
        present({"searchStrategy": s, o: "1"}, lg, "lower bound", o)
        present({"searchStrategy": s}, ug, "upper bound", "maintainUpperBound")
    for s in ("rtdp", "lrtdp", "hdp"):
        absent({"searchStrategy": s}, lg, "lower bound", o)
        absent({"searchStrategy": s, o: "0"}, lg, "lower bound", o)
        present({"searchStrategy": s, o: "1"}, lg, "lower bound", o)
        present({"searchStrategy": s}, ug, "upper bound", "maintainUpperBound")
    absent({"searchStrategy": "script", o: "1", "maintainUpperBound": "0"}, ug, "upper bound", "maintainUpperBound")
    present({"searchStrategy": "script", o: "1", "maintainUpperBound": "0"}, lg, "lower bound", o)
    absent({"searchStrategy": "script", o: "0", "maintainUpperBound": "1"}, lg, "lower bound", o)
    present({"searchStrategy": "script", o: "0", "maintainUpperBound": "1"}, ug, "upper bound", "maintainUpperBound")
    # the solver is told what it may use
    for over, lo, up in (({}, 1, 1), ({"searchStrategy": "rtdp"}, 0, 1), ({"searchStrategy": "rtdp", o: "1"}, 1, 1),
                         ({"searchStrategy": "script", o: "1", "maintainUpperBound": "0"}, 1, 0)):
        fieldis(a, rule, over, "zmdp::BoundPair", "maintainLowerBound", lo, o)
        fieldis(a, rule, over, "zmdp::BoundPair", "maintainUpperBound", up, "maintainUpperBound")


def txt(over):
    return ", ".join("%s=%s" % x for x in sorted(over.items())) or "the defaults"


def fieldvals(p, cls, fld):
    """known values of a field of the one object of a class when work starts; None: not known"""
    vs = set()
    for n, st in p.stops:
        locs = {k[1] for k in st.m if isinstance(k, tuple) and k[0] == "F" and isinstance(k[1], tuple) and k[1][0] == "O" and k[1][1] == cls}
        if not locs:
            return None
        for l in locs:
            v = st.m.get(("F", l, fld))
            if v is None:
                return None
            vs.add(v)
    return vs or None


def fieldis(a, rule, over, cls, fld, want, opt):
    p = probe(a, over)
    vs = fieldvals(p, cls, fld)
    if vs is None or p.over:
        return
    a.check(want in vs, rule, "src/main/zmdp.config: " + opt, "%s gives %s of %s the value %s" % (txt(over), fld, short(cls), want),
            "%s gives %s of %s the value %s, not %s" % (txt(over), fld, short(cls), sorted(vs, key=str), want), key="%s %s %s" % (rule, fld, txt(over)))


def c03_runtime(a):
    """runTimeActionSelection: which bound the resulting policy uses"""
    for over, want in (({}, 0), ({"runTimeActionSelection": "lower"}, 0), ({"runTimeActionSelection": "upper"}, 1),
                       ({"searchStrategy": "rtdp"}, 1), ({"searchStrategy": "rtdp", "maintainLowerBound": "1"}, 0),
                       ({"searchStrategy": "rtdp", "maintainLowerBound": "1", "runTimeActionSelection": "upper"}, 1),
                       ({"searchStrategy": "script", "maintainLowerBound": "1", "maintainUpperBound": "0"}, 0)):
        fieldis(a, "C03.runtime", over, "zmdp::BoundPair", "useUpperBoundRunTimeActionSelection", want, "runTimeActionSelection")


def reach1(a, rule, opt, over, group, want, what):
    """group: effect -> call name (with class); exactly the wanted one is reachable"""
    names = {q for q in group if a.P.find(q) or a.P.find("zmdp::" + q)}
    if want is not None and want not in names or len(names) < 2 and want is not None and len(group) > 1:
        return
    p = probe(a, over)
    got = {q for q in names if p.calls(last(q)) and any(t[1].endswith(q) or last(q) == t[1] for t, n in p.calls(last(q)))}
    if want is None:
        return
    selects(a, rule, opt, txt(over), over, names, want, got, p.over, what)


def c03_command(a):
    g = ["doSolve", "doBenchmark", "doEvaluate"]
    for c in ("solve", "benchmark", "evaluate"):
        reach1(a, "C03.command", "command", {"command": c}, g, "do" + c.capitalize(), "run " + c)


def c03_policyfile(a):
    """policyOutputFile: where the policy goes"""
    rule, w = "C03.policy-file", "src/main/zmdp.config: policyOutputFile"
    for cmd in ("solve", "benchmark"):
        for val in ("-", "none", "some.policy"):
            over = {"command": cmd, "policyOutputFile": val, "evaluationTrialsPerEpoch": "10"}
            p = probe(a, over, stop=False)
            if p.over:
                continue
            want = None if val == "none" or (val == "-" and cmd == "benchmark") else "out.policy" if val == "-" else val
            calls = [(t[2][0] if t[2] else None, n) for t, n in p.calls("writePolicy") if t[1].startswith("zmdp::BoundPair")]
            names = {v.v if isinstance(v, Str) else v for v, n in calls}
            if want is None:
                named = {x for x in names if isinstance(x, str)}
                a.check(not named, rule, w, "%s: no policy is written" % txt(over), "%s: a policy is written to '%s'" % (txt(over), sorted(named)[:1]),
                        key="%s %s %s" % (rule, cmd, val))
            elif not names:
                a.fail(rule, w, "%s: no policy is ever written" % txt(over), key="%s %s %s" % (rule, cmd, val))
            elif None not in names:
                a.check(names == {want}, rule, w, "%s: the policy is written to '%s'" % (txt(over), want),
                        "%s: the policy is written to %s, not '%s'" % (txt(over), sorted(map(str, names)), want), key="%s %s %s" % (rule, cmd, val))


def c03_parser(a):
    rule = "C03.parser"
    if not known(a, "zmdp::FastParser") or not known(a, "zmdp::CassandraParser"):
        return
    for model in ("x.pomdp", "x.mdp"):
        for cmd in ("solve", "benchmark", "evaluate"):
            if cmd == "evaluate" and model == "x.mdp":
                continue
            for val, cls in (("0", "CassandraParser"), ("1", "FastParser")):
                over = {"command": cmd, "simulatorModel": model, "useFastModelParser": val}
                p = probe(a, over)
                got = {"zmdp::" + t[1].split("::")[1] for t in p.tags if t[0] == "call" and re.match(r"zmdp::(Fast|Cassandra)Parser::", t[1])}
                selects(a, rule, "useFastModelParser", txt(over), over, {"zmdp::FastParser", "zmdp::CassandraParser"}, "zmdp::" + cls, got, p.over, "read the model with the " + cls)


def c03_evaluate(a):
    """evaluate: policyType, useEvaluationCache, plannerModel"""
    B = {"command": "evaluate"}
    rd = ["MaxPlanesLowerBound::readFromFile", "MaxPlanesLowerBound::readFromCassandraAlphaFile"]
    for v, q in (("maxPlanes", rd[0]), ("cassandraAlpha", rd[1])):
        reach1(a, "C03.policy-type", "policyType", dict(B, policyType=v), rd, q, "read that kind of policy file")
        p = probe(a, dict(B, policyType=v, policyInputFile="my.policy"))
        for t, n in p.calls(last(q)):
            if t[2] and isinstance(t[2][0], Str):
                a.check(t[2][0].v == "my.policy", "C03.policy-type", where(n), "the policy is read from policyInputFile",
                        "the policy is read from '%s', not from policyInputFile" % t[2][0].v)
    ex = {"zmdp::BoundPairExec", "zmdp::LSPathAndReactExec"}
    ex = known(a, *ex)
    for v, c in (("maxPlanes", "zmdp::BoundPairExec"), ("cassandraAlpha", "zmdp::BoundPairExec"), ("lspath", "zmdp::LSPathAndReactExec"), ("lsblind", "zmdp::LSPathAndReactExec")):
        p = probe(a, dict(B, policyType=v, customModel="x.lifeSurvey"))
        selects(a, "C03.policy-type", "policyType", v, {}, ex, c, classify_new(p, ex), p.over, "execute that kind of policy")
        if v.startswith("ls"):
            vs = fieldvals(p, "zmdp::LSPathAndReactExec", "useBlindActionSelection")
            if vs is not None:
                a.check(vs == {int(v == "lsblind")}, "C03.policy-type", "src/main/zmdp.config: policyType", "%s sets the blind mode accordingly" % v,
                        "policyType=%s sets the blind mode to %s" % (v, sorted(vs)))
    bt = ["PolicyEvaluator::doBatchCache", "PolicyEvaluator::doBatchSimple"]
    for v, q in (("1", bt[0]), ("0", bt[1])):
        p = probe(a, dict(B, useEvaluationCache=v), stop=False)
        got = {x for x in bt if p.calls(last(x))}
        if all(a.P.find("zmdp::" + x) for x in bt):
            selects(a, "C03.cache", "useEvaluationCache", v, {}, set(bt), q, got, False if got else p.over, "evaluate that way")


def c03_models(a):
    """evaluate: which file is the planner's model, which the simulator's"""
    rule, w = "C03.models", "src/main/zmdp.config: plannerModel"
    p = probe(a, {"command": "evaluate", "simulatorModel": "sim.pomdp", "plannerModel": "plan.pomdp"})
    plan, sim = set(), set()
    for t, n in p.tags.items():
        if t[0] == "call" and last(t[1]).startswith("init") and t[1].startswith("zmdp::BoundPairExec"):
            plan |= {v.v for v in t[2] if isinstance(v, Str) and v.v.endswith(".pomdp")}
    for n, st in p.stops:
        for k, v in st.m.items():
            if isinstance(k, tuple) and k[0] == "F" and k[2] == "fileName" and isinstance(v, Str):
                pass
    if plan and not p.over:
        a.check(plan == {"plan.pomdp"}, rule, w, "the policy is interpreted with plannerModel", "the policy is interpreted with %s, not with plannerModel" % sorted(plan))
    q = probe(a, {"command": "evaluate", "simulatorModel": "sim.pomdp", "plannerModel": "-"})
    plan = set()
    for t, n in q.tags.items():
        if t[0] == "call" and last(t[1]).startswith("init") and t[1].startswith("zmdp::BoundPairExec"):
            plan |= {v.v for v in t[2] if isinstance(v, Str) and v.v.endswith(".pomdp")}
    if plan and not q.over:
        a.check(plan == {"sim.pomdp"}, rule, w, "plannerModel=- means simulatorModel", "with plannerModel=- the policy is interpreted with %s, not simulatorModel" % sorted(plan))
    for pr, wantsim in ((p, "sim.pomdp"),):
        names = set()
        for t, n in pr.tags.items():
            if t[0] == "call" and last(t[1]) in ("readPomdpFromFile", "readFromFile") and t[1].startswith(("zmdp::Pomdp", "zmdp::CassandraParser", "zmdp::FastParser")):
                names |= {v.v for v in t[2] if isinstance(v, Str)}
        if names and not pr.over:
            a.check(names >= {"sim.pomdp", "plan.pomdp"}, rule, w, "both models are read", "with different models only %s is read" % sorted(names))


JUNK = [("searchStrategy", {}), ("modelType", {}), ("lowerBoundRepresentation", {}), ("upperBoundRepresentation", {}), ("maintainLowerBound", {}),
        ("runTimeActionSelection", {}), ("command", {}), ("policyType", {"command": "evaluate"})]


def refused(a, rule, over, what, opt=None):
    p = probe(a, over)
    w = "src/main/zmdp.config: %s" % (opt or sorted(over)[0])
    if p.over:
        return
    if not p.stops:
        a.ok(rule, w, "%s: %s" % (txt(over), what))
    elif not p.fatals:
        a.fail(rule, w, "%s: accepted, work starts at %s and no path refuses it: %s" % (txt(over), where(p.stops[0][0]), what), key="%s %s" % (rule, txt(over)))


def accepted(a, rule, over, what, opt=None):
    p = probe(a, over)
    if p.over:
        return
    a.check(bool(p.stops), rule, "src/main/zmdp.config: %s" % (opt or (sorted(over) or ["defaults"])[0]), "%s: %s" % (txt(over), what),
            "%s: refused on every path%s: %s" % (txt(over), " (at %s)" % where(p.fatals[0]) if p.fatals else "", what), key="%s %s" % (rule, txt(over)))


def c03_junk(a):
    """an undocumented value of an option with a list of values ends the run"""
    for opt, extra in JUNK:
        accepted(a, "C03.junk", dict(extra), "the documented default is accepted", opt)
        for v in ("zzz", "", "-1", "frtdpx"):
            if v == "" and opt == "command":
                continue
            refused(a, "C03.junk", dict(extra, **{opt: v}), "not a documented value of " + opt, opt)
    refused(a, "C03.junk", {"modelType": "-", "simulatorModel": "model.txt"}, "the model type cannot be inferred", "modelType")
    refused(a, "C03.junk", {"modelType": "-", "simulatorModel": "pomdp"}, "the model type cannot be inferred", "modelType")
    refused(a, "C03.junk", {"simulatorModel": "none"}, "no model given", "simulatorModel")
    refused(a, "C03.junk", {"command": "none"}, "no command given", "command")


def c03_typed(a):
    """integers, numbers and switches: a text that is not one is refused, one that is has its value"""
    rule = "C03.typed"
    for nm, good, bad in (("getInt", (("12", 12), ("-1", -1), ("0", 0)), ("abc", "1x", "")),
                          ("getDouble", (("1e-3", 1e-3), ("-1", -1.0), ("12", 12.0)), ("abc", "")),
                          ("getBool", (("0", 0), ("1", 1)), ("2", "yes", "true", ""))):
        gs = [g for g in a.P.find(CFG + "::" + nm) if g.blocks]
        for g in gs:
            for text, want in good:
                r = typed(a, g, text)
                vs = {v for k, v, s, n in r if k == "ret"}
                if any(k == "limit" for k, *_ in r):
                    continue
                a.check(bool(vs), rule, g.where(), "%s of '%s' returns" % (nm, text), "%s of '%s' is refused on every path" % (nm, text))
                if vs and None not in vs:
                    a.check(vs == {want}, rule, g.where(), "%s of '%s' is %s" % (nm, text, want), "%s of '%s' is %s" % (nm, text, sorted(vs)))
            for text in bad:
                r = typed(a, g, text)
                if any(k == "limit" for k, *_ in r):
                    continue
                a.check(any(k == "fatal" for k, *_ in r), rule, g.where(), "%s of '%s' can be refused" % (nm, text),
                        "%s of '%s' is never refused: no path ends the run with an error" % (nm, text))


def typed(a, g, text):
    def enter(h):
        return h.cls == CFG and last(h.q) != "getString" or not h.cls
    I = Interp(a, {}, enter, None, config=False, limit=5000, ret={"getString": Str(text)})
    return I.start(g, this=("cfg",))


RULES["C03"] = [c03_classes, c03_maintain, c03_runtime, c03_command, c03_policyfile, c03_parser, c03_evaluate, c03_models, c03_junk, c03_typed]


# -- C04 ---------------------------------------------------------------------

def c04_refused(a):
    r = "C04.refused"
    req = lambda over, what, opt=None, ret=None: refused(a, r, over, what, opt)
    accepted(a, "C04.accepted", {}, "the default configuration is accepted", "defaults")
    for s in ("frtdp", "hsvi"):
        req({"searchStrategy": s, "maintainLowerBound": "0"}, "%s needs the lower bound" % s, "maintainLowerBound")
    for s in ("frtdp", "hsvi", "rtdp", "lrtdp", "hdp"):
        req({"searchStrategy": s, "maintainUpperBound": "0"}, "%s needs the upper bound" % s, "maintainUpperBound")
        req({"searchStrategy": s, "maintainUpperBound": "0", "maintainLowerBound": "1"}, "%s needs the upper bound" % s, "maintainUpperBound")
    req({"searchStrategy": "script", "maintainLowerBound": "0", "maintainUpperBound": "0"}, "at least one bound is needed", "maintainLowerBound")
    req({"searchStrategy": "script", "maintainLowerBound": "-", "maintainUpperBound": "0"}, "at least one bound is needed", "maintainLowerBound")
    for s in ("rtdp", "lrtdp", "hdp"):
        for m in ("0", "-"):
            req({"searchStrategy": s, "maintainLowerBound": m, "runTimeActionSelection": "lower"}, "the run-time bound is not kept", "runTimeActionSelection")
    req({"searchStrategy": "script", "maintainLowerBound": "1", "maintainUpperBound": "0", "runTimeActionSelection": "upper"}, "the run-time bound is not kept", "runTimeActionSelection")
    for m in ("mdp", "racetrack", "custom"):
        req({"modelType": m, "lowerBoundRepresentation": "maxPlanes"}, "planes need a POMDP", "lowerBoundRepresentation")
        req({"modelType": m, "upperBoundRepresentation": "sawtooth"}, "sawtooth needs a POMDP", "upperBoundRepresentation")
        accepted(a, "C04.accepted", {"modelType": m, "lowerBoundRepresentation": "point", "upperBoundRepresentation": "point"}, "a valid combination", "modelType")
    for n, e in (("x.mdp", "mdp"), ("x.racetrack", "racetrack")):
        req({"simulatorModel": n, "lowerBoundRepresentation": "maxPlanes"}, "planes need a POMDP", "lowerBoundRepresentation")
        req({"simulatorModel": n, "upperBoundRepresentation": "sawtooth"}, "sawtooth needs a POMDP", "upperBoundRepresentation")
    req({"command": "evaluate", "policyType": "lspath", "customModel": "none"}, "the policy needs customModel", "customModel")
    for sw in ({"useMaxPlanesSupportList": "1", "useMaxPlanesMasking": "0"}, {"useMaxPlanesExtraPruning": "1", "useMaxPlanesCache": "0"}):
        w = "%s without %s" % tuple(sorted(sw, key=lambda k: -int(sw[k])))
        for base in ({}, {"command": "benchmark"}, {"searchStrategy": "rtdp", "maintainLowerBound": "1"}, {"command": "evaluate"}):
            req(dict(base, **sw), w, [k for k in sw if sw[k] == "1"][0])
    for sw in ({"useMaxPlanesSupportList": "0", "useMaxPlanesMasking": "0"}, {"useMaxPlanesExtraPruning": "0", "useMaxPlanesCache": "0"},
               {"useMaxPlanesSupportList": "0"}, {"useMaxPlanesExtraPruning": "0"}, {"useSawtoothSupportList": "0"}):
        accepted(a, "C04.accepted", sw, "a valid combination", sorted(sw)[0])


def c04_undiscounted(a):
    for h, ok in (("-1", False), ("0", False), ("10", True)):
        for m in ("model.pomdp",):
            over = {"maxHorizon": h, "simulatorModel": m}
            p = probe(a, over, ret={"getDiscount": 1.0})
            w = "src/main/zmdp.config: maxHorizon"
            if p.over:
                continue
            if ok:
                a.check(bool(p.stops), "C04.undiscounted", w, "an undiscounted POMDP with maxHorizon=%s is accepted" % h,
                        "an undiscounted POMDP with maxHorizon=%s is refused" % h)
            elif not p.stops:
                a.ok("C04.undiscounted", w, "an undiscounted POMDP with maxHorizon=%s is refused" % h)
            elif not p.fatals:
                a.fail("C04.undiscounted", w, "an undiscounted POMDP with maxHorizon=%s is accepted: work starts at %s with no finite initial bounds" % (h, where(p.stops[0][0])))
    p = probe(a, {"maxHorizon": "-1", "simulatorModel": "x.racetrack"}, ret={"getDiscount": 1.0})
    if not p.over:
        a.check(bool(p.stops), "C04.undiscounted", "src/main/zmdp.config: maxHorizon", "an undiscounted MDP needs no maxHorizon", "an undiscounted MDP without maxHorizon is refused")


RULES["C04"] = [c04_refused, c04_undiscounted]


# -- C01 ---------------------------------------------------------------------

def cfgf(a, nm):
    gs = [g for g in a.P.find(CFG + "::" + nm) if g.blocks]
    return gs[0] if gs else None


def c01_order(a):
    """the command reads the defaults, closes the table, then the file, then the command line"""
    P, r = a.P, "C01.order"
    g = main_of(a)
    seq, known_seq = [], set()

    def on(n, fr, st, I):
        if n.k == "Call" and (n.d.get("q") or "").startswith(CFG + "::"):
            nm = last(n.d["q"])
            if nm in ("readFromString", "readFromFile", "processArgs", "setNoNewFieldsAllowed", "readFromStream", "readFromConfig") or nm.startswith("get"):
                tag = "get" if nm.startswith("get") else nm
                if tag == "get" and "get" in st.ev:
                    return "stop"
                if nm == "setNoNewFieldsAllowed":
                    tag = ("closed", I.val(n.c[0], fr, st))
                if (tag, n.id, st.ev) not in known_seq:
                    known_seq.add((tag, n.id, st.ev))
                    seq.append((tag, n, st.ev))
                if tag == "get":
                    return "stop"
                return tag
        return None
    I = Interp(a, {"command": "solve"}, lambda h: "/main/" in h.file, on, limit=20000)
    I.start(g)
    gets = [(n, ev) for t, n, ev in seq if t == "get"]
    if not gets or I.over:
        return
    for n, ev in gets:
        a.check("readFromString" in ev, r, where(n), "defaults are read before the first lookup", "an option is looked up before the defaults are read")
        a.check("processArgs" in ev, r, where(n), "the command line is read before the first lookup", "an option is looked up on a path where the command line was not read")
        a.check(("closed", 1) in ev, r, where(n), "unknown names are refused from then on",
                "on this path unknown option names are never refused (setNoNewFieldsAllowed not called with true)")
    files = False
    for t, n, ev in seq:
        if t == "readFromString":
            a.check("readFromFile" not in ev and "processArgs" not in ev, r, where(n), "defaults come first", "the defaults overwrite values read earlier")
        elif t == "readFromFile":
            files = True
            a.check("readFromString" in ev, r, where(n), "the file comes after the defaults", "the configuration file is read before the defaults, which then overwrite it")
            a.check("processArgs" not in ev, r, where(n), "the file comes before the command line", "the configuration file overwrites values given on the command line")
            a.check(("closed", 1) in ev, r, where(n), "unknown names in the file are refused", "unknown option names in the configuration file are accepted: the table is not closed yet")
        elif t == "processArgs":
            a.check(("closed", 1) in ev, r, where(n), "unknown names on the command line are refused", "unknown option names on the command line are accepted: the table is not closed yet")
    a.check(files, r, g.where(), "a configuration file is read", "no path reads a configuration file")
    both = [ev for n, ev in gets if "readFromFile" in ev]
    a.check(bool(both), r, g.where(), "a file's values reach the lookups", "no path reads a configuration file before the lookups")


def cfgrun(a, g, hit, opts=None, args=None, ret=None, on=None, this=("cfg",), limit=8000, follow=()):
    """interpret a configuration method; hit: is the name in the table"""
    def enter(h):
        return (h.cls == CFG or not h.cls) and last(h.q) not in follow
    base = {"find": 1 if hit else 0, "end": 0, "count": int(bool(hit)), "contains": int(bool(hit))}
    base.update(ret or {})
    I = Interp(a, {}, enter, on, config=False, limit=limit, ret=base)
    return I, I.start(g, this=this, args=args or {})


def closed_state(a, g, v):
    """fields of the table object that setNoNewFieldsAllowed(v) leaves behind"""
    s = cfgf(a, "setNoNewFieldsAllowed")
    if s is None:
        return None
    I, out = cfgrun(a, s, True, args={s.params[0]: v})
    fs = {}
    for k, _, st, n in out:
        if k == "ret":
            for l, x in st.m.items():
                if isinstance(l, tuple) and l[0] == "F" and l[1] == ("cfg",):
                    fs[l] = x
    return fs


def is_table_store(n):
    """the element a lookup-or-create of the option table gives access to"""
    return n.k == "Call" and n.d.get("oper") == "[]" and "map" in ((n.slot("obj").t or "") if n.slot("obj") is not None else "")


def reffed(x):
    """what a local reference names"""
    if x.k == "Var":
        for n in x.fn.nodes.values():
            if n.k == "Decl":
                for v in n.vars:
                    if v[0] == x.d["v"] and v[3] is not None and (v[2] or "").rstrip().endswith("&"):
                        return strip(v[3])
    return x


def c01_set(a):
    P, r = a.P, "C01.set"
    g = cfgf(a, "setString")
    if g is None or len(g.params) < 2:
        return
    for closed in (1, 0):
        fs = closed_state(a, g, closed)
        if not fs:
            continue
        for hit in (1, 0):
            def enter(h):
                return h.cls == CFG or not h.cls
            stores = []

            def on(n, fr, st, I):
                if n.k == "Call" and n.d.get("oper") == "=" or n.k == "Assign":
                    lhs = n.slot("obj") if n.k == "Call" and n.slot("obj") is not None else n.c[0]
                    x = reffed(strip(lhs))
                    if is_table_store(x):
                        stores.append((n, I.val(x.c[0], fr, st) if x.c else None, I.val(n.c[-1], fr, st)))
                elif n.k == "Call" and last(n.d.get("q")) in ("insert", "emplace", "insert_or_assign", "try_emplace") and "map" in (
                        (n.slot("obj").t or "") if n.slot("obj") is not None else ""):
                    stores.append((n, None, last(n.d.get("q"))))
                return None
            I = Interp(a, {}, enter, on, config=False, limit=5000,
                       ret={"find": hit, "end": 0, "count": hit, "contains": hit})
            st = St(dict(fs))
            fr = (g.usr,)
            st = st.set(("this", fr), Ptr(("cfg",)))
            st = st.set(("L", fr, g.params[0]), Str("someField")).set(("L", fr, g.params[1]), Str("someValue"))
            out = I.run(g, fr, st, 0)
            kinds = {k for k, *_ in out}
            if "limit" in kinds:
                continue
            if closed and not hit:
                if "ret" in kinds and "fatal" not in kinds:
                    a.fail(r, g.where(), "an unknown option name is accepted although the table is closed: no path refuses it")
                elif kinds == {"fatal"}:
                    a.ok(r, g.where(), "an unknown name is refused when the table is closed")
                continue
            a.check("ret" in kinds, r, g.where(), "a known name, or any name while the table is open, is accepted",
                    "%s is refused" % ("a known option name" if hit else "a new option name while the table is still open"))
            if "ret" in kinds:
                bad = [s for s in stores if s[2] in ("insert", "emplace", "try_emplace")]
                if hit:
                    a.check(not bad, r, where(bad[0][0]) if bad else g.where(), "a later value replaces an earlier one",
                            "%s keeps the earlier value of the option" % (bad and bad[0][2]))
                for n, k, v in stores:
                    if isinstance(k, Str) and isinstance(v, Str):
                        a.check(k.v == "someField" and v.v == "someValue", r, where(n), "the value is filed under its option's name",
                                "the table gets '%s' = '%s' for option someField with value someValue" % (k.v, v.v))
                a.check(bool(stores), r, g.where(), "the value is stored", "no path stores the value")


def c01_get(a):
    P, r = a.P, "C01.get"
    g = cfgf(a, "getString")
    if g is None:
        return
    for hit in (1, 0):
        I, out = cfgrun(a, g, hit, args={g.params[0]: Str("someField")})
        kinds = {k for k, *_ in out}
        if "limit" in kinds:
            continue
        if hit:
            a.check("ret" in kinds, r, g.where(), "a known option has a value", "looking up a known option always ends the run")
        elif kinds == {"fatal"}:
            a.ok(r, g.where(), "looking up an unknown option ends the run")
        elif "fatal" not in kinds:
            a.fail(r, g.where(), "looking up an unknown option returns instead of ending the run")
    # the typed readers read the option they are asked for
    for nm in ("getInt", "getDouble", "getBool"):
        h = cfgf(a, nm)
        if h is None:
            continue
        asked = []

        def on(n, fr, st, I):
            if n.k == "Call" and last(n.d.get("q")) == "getString" and n.c:
                asked.append((n, I.val(n.c[0], fr, st)))
            return None
        cfgrun(a, h, 1, args={h.params[0]: Str("someField")}, on=on, follow=("getString",))
        for n, v in asked:
            if isinstance(v, Str):
                a.check(v.v == "someField", r, where(n), "%s reads the option it is asked for" % nm, "%s reads '%s'" % (nm, v.v))
    for nm in ("setInt", "setDouble", "setBool"):
        h = cfgf(a, nm)
        if h is None:
            continue
        asked = []

        def on2(n, fr, st, I):
            if n.k == "Call" and last(n.d.get("q")) in ("setString", "setInt") and n.c and n.fn is not None:
                asked.append((n, I.val(n.c[0], fr, st)))
            return None
        cfgrun(a, h, 1, args={h.params[0]: Str("someField")}, on=on2, follow=("setString",))
        for n, v in asked:
            if isinstance(v, Str):
                a.check(v.v == "someField", r, where(n), "%s sets the option it is given" % nm, "%s sets '%s'" % (nm, v.v))


def scan_ret(count):
    """sscanf converts `count` words: the i-th becomes the text $i"""
    def f(x, fr, st, I):
        return count
    return f


def hk(n):
    n = strip(n)
    while n.k in ("Cast", "Idx") and n.c:
        n = strip(n.c[0])
    return ("v", n.d["v"]) if n.k == "Var" else ("m", n.d["n"]) if n.k == "Mem" else None


def c01_lines(a):
    """each configuration line: a name and a value; anything else is refused"""
    P, r = a.P, "C01.lines"
    g = cfgf(a, "readFromStream")
    if g is None:
        return
    for count in (2, 1, 0, -1):
        sets = []

        def on(n, fr, st, I):
            if n.k == "Call" and last(n.d.get("q")) in ("setString", "setAlias"):
                sets.append((n, last(n.d["q"]), [strip(y) for y in n.c]))
                return ("set", last(n.d["q"]), n.id)
            return None
        scans = [n for h in P.closure([g]).values() for n in P.all_nodes(h) if n.k == "Call" and last(n.d.get("q")) == "sscanf"]
        if not scans:
            return
        I, out = cfgrun(a, g, 1, ret={"sscanf": count, "strncmp": 1, "allWhiteSpace": 0, "getline": 1, "operator bool": None, "eof": 1},
                        on=on, follow=("setString", "setAlias", "allWhiteSpace"))
        done = [n for n, q, c in sets if q == "setString"]
        if I.over and not done:
            continue
        if count == 2:
            a.check(bool(done), r, g.where(), "a line with a name and a value sets the option", "a line with a name and a value never sets an option")
        else:
            a.check(not done, r, where(done[0]) if done else g.where(), "a line of %d words sets nothing" % max(count, 0),
                    "a line of which only %d words could be read still sets an option (with a stale value)" % max(count, 0))
    # roles of the two words
    for n in [n for h in P.closure([g]).values() for n in P.all_nodes(h) if n.k == "Call" and last(n.d.get("q")) == "sscanf" and n.fn.file.endswith("zmdpConfig.cc")]:
        if len(n.c) < 4:
            continue
        k1, k2 = hk(n.c[2]), hk(n.c[3])
        for m in P.all_nodes(n.fn):
            if m.k == "Call" and last(m.d.get("q")) == "setString" and len(m.c) >= 2 and P.can_reach(n.fn, P.position(n), lambda z: z is m):
                x, y = ([hk(z) for z in c.walk() if z.k in ("Var", "Mem")] for c in m.c[:2])
                if k1 in x + y or k2 in x + y:
                    a.check(k1 in x and k2 in y, r, where(m), "the first word is the name, the second the value", "the words of a line are not filed as name and value")
                    fmt = strip(n.c[1])
                    if fmt.k == "Str":
                        a.check(len(re.findall(r"%\d*s", fmt.d["v"])) == 2, r, where(n), "two words are read", "the line format is '%s'" % fmt.d["v"])


def c01_args(a):
    """command line: --name value; a name without a value and extra arguments are refused"""
    P, r = a.P, "C01.args"
    g = cfgf(a, "processArgs")
    if g is None:
        return
    # moving on to the next argument is followed by a test that there is one before it is used
    sites = [n for n in P.all_nodes(g) if n.k == "Call" and last(n.d.get("q")) == "setString"]
    steps = [n for n in P.all_nodes(g) if (n.k == "Un" and "++" in n.d["op"] or n.k == "Call" and n.d.get("oper") == "++")]

    def tests_end(z):
        return isinstance(z, Node) and (z.k == "Bin" or z.k == "Call") and (z.d.get("op") or z.d.get("oper")) in ("==", "!=", "<", ">=", ">", "<=") and any(
            y.k == "Call" and last(y.d.get("q")) in ("end", "cend", "size") or y.k == "Var" and y.fn.vars[y.d["v"]]["n"] in ("argc", "end", "n", "size") for y in z.walk())
    for n in sites:
        bad = [x for x in steps if P.position(x) and P.can_reach(g, P.position(x), lambda z: z is n, tests_end) is not None]
        a.check(not bad, r, where(n), "the option's argument is known to exist", "after the step to the next argument at %s its value is used without testing that there is one"
                % (bad and where(bad[0])))
    # the word after '--name' is its value
    def deref(n, fr, st, I):
        return Str("VALUE") if "adv" in st.ev else Str("--name")

    def on(n, fr, st, I):
        if n.k == "Call" and last(n.d.get("q")) == "setString" and len(n.c) == 2:
            vals = [I.val(c, fr, st) for c in n.c]
            for i, want in ((0, "name"), (1, "VALUE")):
                if isinstance(vals[i], Str) and ("adv" in st.ev or i == 0):
                    a.check(vals[i].v == want, r, where(n), "'--name VALUE' sets %s" % ("the option called name", "it to VALUE")[i],
                            "'--name VALUE' %s '%s'" % (("sets an option called", "sets the option to")[i], vals[i].v))
            return "stop"
        if n.k == "Un" and "++" in n.d["op"] or n.k == "Call" and n.d.get("oper") == "++":
            return "adv"
        return None
    I = Interp(a, {}, lambda h: False, on, config=False, limit=3000, ret={"operator*": deref})
    I.start(g, this=("cfg",))
    # more than two plain arguments are refused
    m = main_of(a)
    for cnt, bad in ((0, False), (1, False), (2, False), (3, True), (7, True)):
        def size(n, fr, st, I, cnt=cnt):
            o = n.slot("obj")
            return cnt if o is not None and "vector" in (o.t or "") and "/main/" in n.fn.file else None
        p = Probe(a, {}, begins(a), ret={"size": size, "empty": lambda n, fr, st, I, cnt=cnt: None if size(n, fr, st, I) is None else int(cnt == 0)})
        if p.over:
            continue
        if bad:
            if p.stops and not p.fatals:
                a.fail(r, m.where(), "%d plain arguments are accepted and the extra ones ignored" % cnt)
            elif not p.stops:
                a.ok(r, m.where(), "%d plain arguments are refused" % cnt)
        elif cnt == 0:
            a.check(bool(p.stops), r, m.where(), "no plain arguments: the configured command runs", "a run with command and model set by options is refused")
    # the first is the command, the second the model
    def two(n, fr, st, I):
        o = n.slot("obj")
        return 2 if o is not None and "vector" in (o.t or "") and "/main/" in n.fn.file else None

    def elem(n, fr, st, I):
        o = n.slot("obj")
        if o is not None and "vector" in (o.t or "") and "/main/" in n.fn.file and n.c:
            i = I.val(n.c[0], fr, st)
            return {0: Str("evaluate"), 1: Str("given.pomdp")}.get(i)
        return None
    p = Probe(a, {}, begins(a), ret={"size": two, "empty": lambda n, fr, st, I: None if two(n, fr, st, I) is None else 0, "operator[]": elem, "at": elem})
    if not p.over and p.tags:
        cm = {q for q in ("doSolve", "doBenchmark", "doEvaluate") if p.calls(q)}
        if len(cm) == 1:
            a.check(cm == {"doEvaluate"}, r, m.where(), "the first plain argument is the command", "the first plain argument does not select the command")
        names = set()
        for n, st in p.stops:
            v = st.m.get(("C", "simulatorModel"))
            names.add(v.v if isinstance(v, Str) else None)
        if names and None not in names:
            a.check(names == {"given.pomdp"}, r, m.where(), "the second plain argument is the model", "the second plain argument does not set the model but %s is used" % sorted(names))


def c01_alias(a):
    P, r = a.P, "C01.alias"
    g = cfgf(a, "setAlias")
    if g is None or len(g.params) < 2:
        return
    for n in P.all_nodes(g):
        if n.k == "Call" and n.d.get("oper") == "=" or n.k == "Assign":
            lhs = strip(n.slot("obj") if n.k == "Call" and n.slot("obj") is not None else n.c[0])
            if is_table_store(lhs):
                k = [y.d["v"] for y in lhs.c[0].walk() if y.k == "Var"]
                v = [y.d["v"] for y in n.c[-1].walk() if y.k == "Var"]
                if k and v:
                    a.check(g.params[0] in k and g.params[1] in v, r, where(n), "an alias maps its name to its text", "name and text of an alias are exchanged")
    al = declared(a)[1]
    opts = declared(a)[0]
    cmds = {"solve", "benchmark", "evaluate"}
    for nm, ws in al:
        w = "src/main/zmdp.config: alias %s" % nm
        if not ws:
            a.fail(r, w, "alias without a text")
            continue
        if nm.startswith("-"):
            a.check(ws[0].startswith("--") and ws[0][2:] in opts, r, w, "the alias stands for a declared option", "the alias stands for '%s', which is no option" % ws[0])
        else:
            a.check(ws[0] in cmds, r, w, "the alias stands for a command", "the alias stands for '%s', which is no command" % ws[0])


RULES["C01"] = [c01_order, c01_set, c01_get, c01_lines, c01_args, c01_alias]


# -- C02 ---------------------------------------------------------------------

LOOKUPS = ("getString", "getInt", "getDouble", "getBool")


def keysof(a, n, depth=0, seen=None):
    """texts an option-name argument can be; None in the set: not resolved"""
    P = a.P
    n = strip(n)
    while n.k in ("Ctor", "Cast", "Paren") and n.c:
        n = strip(n.c[0])
    if n.k == "Str":
        return {n.d["v"]}
    if n.k == "Cond":
        return keysof(a, n.c[1], depth, seen) | keysof(a, n.c[2], depth, seen)
    if n.k == "Var" and depth < 3:
        fn = n.fn
        if n.d["v"] in fn.params:
            i = fn.params.index(n.d["v"])
            out = set()
            for _, c in P.callers.get(fn.usr, ()):
                out |= keysof(a, c.c[i], depth + 1) if i < len(c.c) else {None}
            return out or {None}
        out = set()
        for x in P.all_nodes(fn):
            if x.k == "Decl":
                for v in x.vars:
                    if v[0] == n.d["v"] and v[3] is not None:
                        out |= keysof(a, v[3], depth + 1)
            elif x.k == "Assign" and strip(x.c[0]).k == "Var" and strip(x.c[0]).d["v"] == n.d["v"]:
                out |= keysof(a, x.c[1], depth + 1)
        return out or {None}
    return {None}


def optcalls(a):
    """every call of the option table's lookups and setters outside it"""
    P = a.P
    for g in P.funcs.values():
        if g.cls == CFG or not g.blocks:
            continue
        for n in P.all_nodes(g):
            if n.k == "Call" and (n.d.get("q") or "").startswith(CFG + "::"):
                nm = last(n.d["q"])
                if nm in LOOKUPS or nm in ("setString", "setInt", "setDouble", "setBool"):
                    yield n, nm


def fits(nm, d):
    try:
        if nm == "getInt":
            int(d)
        elif nm == "getDouble":
            float(d)
        elif nm == "getBool":
            return d in ("0", "1")
    except ValueError:
        return False
    return True


def c02_keys(a):
    opts, al = declared(a)
    used, unresolved, made = set(), [], set()
    sites = sorted(optcalls(a), key=lambda x: x[0].fn.where(x[0]))
    for n, nm in sites:
        if nm.startswith("set"):
            made |= {k for k in keysof(a, n.c[0]) if k}
    for n, nm in sites:
        ks = keysof(a, n.c[0])
        if None in ks:
            unresolved.append(n)
        for k in sorted(x for x in ks if x is not None):
            if nm in LOOKUPS:
                used.add(k)
                if k not in opts:
                    a.check(k in made and k == "binaryName", "C02.declared", where(n), "'%s' is set by the program itself" % k,
                            "'%s' is looked up but is not a declared option%s" % (k, ": the lookup always fails" if k not in made else ""), key="C02.declared " + k)
                    continue
                a.ok("C02.declared", where(n), "'%s' is a declared option" % k)
                a.check(fits(nm, opts[k]), "C02.type", where(n), "the default of '%s' can be read with %s" % (k, nm),
                        "the default '%s' of '%s' cannot be read with %s: the program fails with the default configuration" % (opts[k], k, nm))
            else:
                a.check(k in opts or k == "binaryName", "C02.declared", where(n), "'%s' is a declared option" % k, "'%s' is set but is not a declared option" % k)
    a.need("C02.declared", len(sites), 20, "option lookups")
    if not unresolved:
        for k in sorted(opts):
            a.check(k in used, "C02.consulted", "src/main/zmdp.config: " + k, "the option is looked up", "the option is declared but never looked up: setting it has no effect")
    a.need("C02.consulted", len(opts), 20, "declared options")


def c02_types(a):
    """an option is read as the type its documented values have: a fraction is not read as an integer, a number not as a switch"""
    opts, _ = declared(a)
    kinds = {}
    for n, nm in optcalls(a):
        if nm in LOOKUPS:
            for k in keysof(a, n.c[0]):
                if k in opts:
                    kinds.setdefault(k, {}).setdefault(nm, n)
    for k, m in sorted(kinds.items()):
        typed_ = {x for x in m if x != "getString"}
        a.check(len(typed_) < 2, "C02.type", where(sorted(m.items())[0][1]), "'%s' is read as one type everywhere" % k,
                "'%s' is read both with %s" % (k, " and ".join(sorted(typed_))))
        d = opts[k]
        if "getInt" in m and re.search(r"[.eE]", d) and fits("getDouble", d):
            a.fail("C02.type", where(m["getInt"]), "'%s' has the fractional default %s but is read as an integer" % (k, d))


def c02_place(a):
    """a place named like an option holds that option's value"""
    P = a.P
    opts, _ = declared(a)

    def lookup(n):
        n = strip(n)
        for x in n.walk():
            if x.k == "Call" and (x.d.get("q") or "").startswith(CFG + "::") and last(x.d["q"]) in LOOKUPS:
                return x
        return None

    def one(nm, c, at):
        for k in keysof(a, c.c[0]):
            if k is None:
                continue
            a.check(k == nm or k not in opts or nm not in opts, "C02.place", where(at), "%s takes the option of its name" % nm,
                    "%s is set from option '%s', not from '%s'" % (nm, k, nm))
    seen = 0
    for g in P.funcs.values():
        if not g.blocks or g.cls == CFG:
            continue
        for n in P.all_nodes(g):
            if n.k == "Decl":
                for v in n.vars:
                    if v[1] in opts and v[3] is not None and lookup(v[3]) is not None:
                        seen += 1
                        one(v[1], lookup(v[3]), n)
            elif n.k == "Assign" or n.k == "Call" and n.d.get("oper") == "=":
                lhs = strip(n.slot("obj") if n.k == "Call" and n.slot("obj") is not None else n.c[0])
                nm = lhs.d.get("n") if lhs.k in ("Var", "Mem") else None
                c = lookup(n.c[-1]) if n.c else None
                if nm in opts and c is not None:
                    seen += 1
                    one(nm, c, n)
    a.need("C02.place", seen, 5, "places named like an option")


def widep(a, over):
    """what the command can reach when work is followed as well, with its comparisons"""
    key = ("wide",) + tuple(sorted(over.items()))
    memo = a.P.__dict__.setdefault("_probes", {})
    if key not in memo:
        memo[key] = Probe(a, over, None, cmps=True, limit=60000)
    memo[key].a = a
    return memo[key]


def lands(p, t):
    """nodes at which the value t is one operand and the other is not a constant: node -> side"""
    out = {}
    for k, (n, vs) in p.cmps.items():
        for i in (0, 1):
            o = strip(n.c[1 - i])
            if any(isinstance(v[i], (int, float)) and abs(v[i] - t) < 1e-9 and any(y.k in ("Var", "Mem", "Call") for y in o.walk()) for v in vs):
                out[k] = (n, i)
    return out


def names_in(n):
    return {y.d.get("n") for y in n.walk() if y.k in ("Mem", "Var")} | {last(y.d.get("q")) for y in n.walk() if y.k == "Call"}


TESTVALS = {"terminateNumBackups": 777, "evaluationMaxStepsPerTrial": 778, "evaluationTrialsPerEpoch": 4, "terminateWallclockSeconds": 780, "terminateLowerBoundValue": 782,
            "terminateUpperBoundValue": 788, "terminateRegretBound": 0.783, "simulationTracesToLogPerEpoch": 784, "evaluationEpochsPerMagnitude": 785,
            "evaluationFirstEpochWallclockSeconds": 786, "maxHorizon": 781}

# option -> command -> what the comparison it ends up in is about (a name in the other operand), None: any
LANDS = {"terminateNumBackups": (("solve", "benchmark"), ("numBackups",), ()),
         "terminateWallclockSeconds": (("solve", "benchmark"), (), ("numBackups", "lbVal", "ubVal")),
         "terminateRegretBound": (("benchmark",), ("ubVal", "lbVal", "u", "l"), ("numBackups",)),
         "terminateLowerBoundValue": (("benchmark",), ("lbVal",), ("ubVal",)),
         "terminateUpperBoundValue": (("benchmark",), ("ubVal",), ("lbVal",)),
         "evaluationFirstEpochWallclockSeconds": (("benchmark",), (), ("numBackups", "lbVal", "ubVal", "log"))}


def c02_use(a):
    """the number given for an option is the one compared where the option is documented to act"""
    r = "C02.use"
    over = {k: str(v) for k, v in TESTVALS.items()}
    ps = {c: widep(a, dict(over, command=c)) for c in ("solve", "benchmark", "evaluate")}
    for opt, (cmds, roles, wrong) in sorted(LANDS.items()):
        for c in cmds:
            p = ps[c]
            if p.over:
                continue
            ls = [(n, i) for n, i in lands(p, TESTVALS[opt]).values() if n.d["op"] in REL]
            w = "src/main/zmdp.config: " + opt
            if not a.check(bool(ls), r, w, "%s: the value of %s is compared" % (c, opt), "%s: the value given for %s is never compared with anything: it has no effect" % (c, opt), key="C02.use %s %s" % (opt, c)):
                continue
            for n, i in ls:
                ns = names_in(n.c[1 - i])
                if wrong and ns & set(wrong) and not ns & set(roles):
                    a.fail(r, where(n), "%s: the value of %s is compared with %s" % (c, opt, sorted(ns & set(wrong))[0]))
                elif roles and ns & set(roles):
                    a.ok(r, where(n), "%s: the value of %s is compared with %s" % (c, opt, sorted(ns & set(roles))[0]))
    # ticks per order of magnitude
    p = ps["benchmark"]
    if not p.over:
        ls = lands(p, TESTVALS["evaluationEpochsPerMagnitude"])
        for n, i in ls.values():
            a.check(n.d["op"] not in REL or "log" in names_in(n), r, where(n), "evaluationEpochsPerMagnitude divides the magnitude",
                    "the value of evaluationEpochsPerMagnitude is compared directly with %s" % sorted(names_in(n.c[1 - i]), key=str)[:1])
    # the target regret reaches the solver
    for c in ("solve", "benchmark"):
        p = ps[c]
        cs = [(t, n) for t, n in p.calls("planFixedTime")]
        for t, n in cs:
            v = t[2][2] if len(t[2]) > 2 else None
            if isinstance(v, (int, float)):
                a.check(abs(v - TESTVALS["terminateRegretBound"]) < 1e-9, r, where(n), "the solver is given terminateRegretBound",
                        "the solver is given %s as its target regret, not the value of terminateRegretBound" % v)
    for c in ("evaluate",):
        p = widep(a, {"command": c, "evaluationTrialsPerEpoch": "750"})
        for nm in ("doBatch",):
            bs = [(t, n) for t, n in p.calls(nm)]
            known_ = [t[2][2] for t, n in bs if len(t[2]) > 2 and isinstance(t[2][2], (int, float))]
            if known_ and len(known_) == len(bs):
                a.check(set(known_) == {25}, r, where(bs[0][1]), "the trials are those of evaluationTrialsPerEpoch in 30 batches",
                        "with evaluationTrialsPerEpoch=750 the 30 batches have %s trials each, not 25" % sorted(set(known_)))


FILEOPTS = ("evaluationOutputFile", "boundsOutputFile", "simulationTraceOutputFile", "scoresOutputFile", "storageOutputFile", "stateIndexOutputFile", "backupsOutputFile",
            "boundValuesOutputFile", "qValuesOutputFile", "policyInputFile", "customModel")


RULES["C02"] = [c02_keys, c02_types, c02_place, c02_use]


# -- C05 ---------------------------------------------------------------------

def c05_huge(a):
    """terminateNumBackups, terminateWallclockSeconds: not positive means no limit"""
    r = "C05.limit"
    for opt, cmds in (("terminateNumBackups", ("solve", "benchmark")), ("terminateWallclockSeconds", ("solve", "benchmark"))):
        for c in cmds:
            base = {k: str(v) for k, v in TESTVALS.items()}
            base["command"] = c
            p = widep(a, base)
            ls = {k: v for k, v in lands(p, TESTVALS[opt]).items() if v[0].d["op"] in REL}
            if p.over or not ls:
                continue
            for s in ("-1", "0"):
                q = widep(a, dict(base, **{opt: s}))
                if q.over:
                    continue
                for k, (n, i) in sorted(ls.items(), key=lambda x: where(x[1][0])):
                    if opt == "terminateWallclockSeconds" and strip(n.c[1 - i]).cv is not None:
                        continue
                    vs = {v[i] for v in q.cmps.get(k, (n, ()))[1] if isinstance(v[i], (int, float))}
                    if opt == "terminateNumBackups" and "numBackups" not in names_in(n.c[1 - i]):
                        continue
                    bad = {v for v in vs if v < 1e6}
                    a.check(not bad, r, where(n), "%s, %s=%s: the limit is out of reach" % (c, opt, s), "%s: %s=%s is documented to mean no limit, but the limit compared here is %s" % (c, opt, s, sorted(bad)[:1]))


def c05_values(a):
    """terminateLowerBoundValue, terminateUpperBoundValue: -999 switches the test off"""
    r = "C05.value"
    for opt in ("terminateLowerBoundValue", "terminateUpperBoundValue"):
        base = {k: str(v) for k, v in TESTVALS.items()}
        base.update({"command": "benchmark", opt: "-999"})
        q = widep(a, base)
        if q.over:
            continue
        bad = [n for n, i in lands(q, -999).values() if n.d["op"] in ("<", "<=", ">", ">=")]
        a.check(not bad, r, "src/main/zmdp.config: " + opt, "with -999 no bound is compared", "%s=-999 is documented to switch the test off, but it is compared at %s" % (opt, bad and where(bad[0])))


def c05_steps(a):
    """evaluationMaxStepsPerTrial, simulationTracesToLogPerEpoch"""
    r = "C05.steps"
    acts = [g for g in a.P.find("zmdp::MDPSim::performAction")]
    if not acts:
        return
    for g in a.P.funcs.values():
        if not g.cls or not g.blocks:
            continue
        flds = {n.d["n"] for n in a.P.all_nodes(g) if n.k == "Mem" and n.d["n"] == "evaluationMaxStepsPerTrial"}
        if not flds or not any(n.k == "Call" and last(n.d.get("q")) in ("performAction", "chooseAction") for n in a.P.all_nodes(g)):
            continue
        for s in ("-1", "0", "3"):
            steps = trial_steps(a, g, s)
            if steps is None:
                continue
            a.check(bool(steps), r, g.where(), "with %s steps at least one action is performed" % s, "evaluationMaxStepsPerTrial=%s: no action is ever performed in a trial" % s, key="%s %s %s" % (r, g.q, s))


def trial_steps(a, g, s):
    """can the trial loop of g perform an action under this step limit?"""
    vals = evaluator_fields(a, s)
    if vals is None:
        return None
    hit = []

    def on(n, fr, st, I):
        if n.k == "Call" and last(n.d.get("q")) in ("performAction", "chooseAction"):
            hit.append(n)
            return "stop"
        return None
    I = Interp(a, {"evaluationMaxStepsPerTrial": s}, lambda h: False, on, config=True, limit=20000)
    out = None
    for v in vals:
        st = St({("C", "evaluationMaxStepsPerTrial"): Str(s)})
        fr = (g.usr,)
        st = st.set(("this", fr), Ptr(("self",)))
        st = st.set(("F", ("self",), "evaluationMaxStepsPerTrial"), v)
        out = I.run(g, fr, st, 0)
    return None if I.over else hit


def evaluator_fields(a, s):
    """what the evaluator makes of the option: values of its field when a batch of trials starts"""
    vs = set()
    p = Probe(a, {"command": "evaluate", "evaluationMaxStepsPerTrial": s, "evaluationTrialsPerEpoch": "30"}, ("doBatch", "doBatchCache", "doBatchSimple"))
    for n, st in p.stops:
        objs = {st.m[k] for k in st.m if isinstance(k, tuple) and k[0] == "this" and k[1] and k[1][-1] == n.fn.usr}
        objs = {getattr(o, "loc", o) for o in objs}
        got = {st.m[k] for k in st.m if isinstance(k, tuple) and k[0] == "F" and k[2] == "evaluationMaxStepsPerTrial" and k[1] in objs}
        if len(got) != 1 or None in got:
            return None
        vs |= got
    return None if p.over or not vs else vs


def c05_traces(a):
    """simulationTracesToLogPerEpoch: negative means all"""
    r = "C05.traces"
    for c in ("benchmark", "evaluate"):
        base = {k: str(v) for k, v in TESTVALS.items()}
        base["command"] = c
        p = widep(a, base)
        q = widep(a, dict(base, simulationTracesToLogPerEpoch="-1"))
        if p.over or q.over:
            continue
        for nm in ("doBatch", "doBatchSimple", "doBatchCache"):
            for t, n in q.calls(nm):
                v = t[2][3] if len(t[2]) > 3 else None
                m = t[2][2] if len(t[2]) > 3 else None
                if isinstance(v, (int, float)) and isinstance(m, (int, float)):
                    a.check(v >= m, r, where(n), "every trace of a batch is logged", "simulationTracesToLogPerEpoch=-1 is documented to log every trace, but at most %d of a batch are logged" % v)
            for t, n in p.calls(nm):
                v = t[2][3] if len(t[2]) > 3 else None
                if isinstance(v, (int, float)):
                    a.check(v <= 784, r, where(n), "no more traces than asked for", "simulationTracesToLogPerEpoch=784 lets a batch log %d traces" % v)


def c05_horizon(a):
    """maxHorizon: not positive means no horizon"""
    P, r = a.P, "C05.horizon"
    for cls, model in (("zmdp::Pomdp", "x.pomdp"), ("zmdp::GenericDiscreteMDP", "x.mdp")):
        if cls not in P.recq:
            continue
        given = [g for g in P.funcs.values() if g.ctor and g.cls == cls and g.blocks and any(n.k == "Mem" and n.d["n"] == "maxHorizon" for n in P.all_nodes(g))]
        if not given:
            continue
        for s, want in (("-1", None), ("0", None), ("50", 50)):
            vs = set()
            for g in given:
                I = Interp(a, {"maxHorizon": s, "useFastModelParser": "0"}, lambda h: h.ctor and h.cls != cls, None, limit=8000)
                for k, v, st, n in I.start(g, this=("self",)):
                    if k == "ret":
                        vs.add(st.m.get(("F", ("self",), "maxHorizon")))
            if not vs or None in vs:
                continue
            for g, n in horizon_uses(P, cls):
                ok = set()
                for v in vs:
                    ok.add(blocked(P, n, v))
                if want is None:
                    a.check(False not in ok, r, where(n), "maxHorizon=%s: no horizon is applied" % s,
                            "maxHorizon=%s is documented to mean no horizon, but the value %s is used as one here" % (s, sorted(vs)[0]))
                else:
                    a.check(True not in ok and vs == {want}, r, where(n), "maxHorizon=%s is applied" % s, "maxHorizon=%s is not applied here" % s)


def horizon_uses(P, cls):
    """reads of the horizon as a number (not in a comparison, not a store)"""
    for g in P.funcs.values():
        if not g.blocks:
            continue
        for n in P.all_nodes(g):
            if n.k == "Mem" and n.d["n"] == "maxHorizon" and mem_of(P, n, cls):
                up = n
                while up.p is not None and up.p.k in ("Cast", "Paren"):
                    up = up.p
                if up.p is not None and (up.p.k == "Bin" and up.p.d["op"] in REL or up.p.k == "Assign" and strip(up.p.c[0]) is n):
                    continue
                if up.p is not None and up.p.k in ("Un",) and up.p.d["op"] == "!":
                    continue
                if not P.reachable(n):
                    continue
                yield g, n


def mem_of(P, n, cls):
    b = n.c[0] if n.c else None
    t = (b.t or "") if b is not None else ""
    t = t.replace("const ", "").replace("*", "").replace("&", "").strip()
    t = t if t.startswith("zmdp::") else "zmdp::" + t
    return t == cls or n.fn.cls == cls and (b is None or strip(b).k == "This")


def blocked(P, n, v):
    """under the value v of the horizon no path reaches n"""
    for atom, tr in P.facts_at(n):
        x = strip(atom)
        if x.k == "Bin" and x.d["op"] in REL:
            l, rr = strip(x.c[0]), strip(x.c[1])
            if rr.k == "Mem" and rr.d["n"] == "maxHorizon" and l.cv is not None:
                val = cmpop(x.d["op"], l.cv, v)
            elif l.k == "Mem" and l.d["n"] == "maxHorizon" and rr.cv is not None:
                val = cmpop(x.d["op"], v, rr.cv)
            else:
                continue
            if val != bool(tr):
                return True
    return False


def cmpop(op, x, y):
    x, y = float(x), float(y)
    return {"<": x < y, "<=": x <= y, ">": x > y, ">=": x >= y, "==": x == y, "!=": x != y}[op]


RULES["C05"] = [c05_huge, c05_values, c05_steps, c05_traces, c05_horizon]


# -- M10 ---------------------------------------------------------------------

def strtable(P, q):
    g = P.globals.get(q)
    i = g.get("init") if g else None
    if not isinstance(i, Node) or i.k != "InitList":
        return None
    return [strip(x) for x in i.c]


def pglobal(P, name):
    """a global table by its name, whatever namespace it is in"""
    for q, g in P.globals.items():
        if last(q) == name and isinstance(g.get("init"), Node) and g["init"].k == "InitList":
            return q, [strip(x) for x in g["init"].c]
    return None, None


def intof(n):
    n = strip(n)
    if n.cv is not None:
        return n.cv
    v = n.d.get("v") if n.k == "Lit" else None
    return v if isinstance(v, int) else None


COUNTS = {"gNumStates": "state", "gNumActions": "action", "gNumObservations": "observation"}


def m10_codes(a):
    P = a.P
    gs = [g for g in P.find("ERR_enter") if g.blocks]
    if not gs:
        return
    g = gs[0]
    tabs = {y.d["q"] for f in P.funcs.values() if f.file == g.file for n in P.all_nodes(f) if n.k == "Idx" for y in n.c[0].walk() if y.k == "Global"}
    tab, q = None, None
    for x in sorted(tabs):
        t = strtable(P, x)
        if t and all(y.k == "Str" for y in t):
            tab, q = [y.d["v"] for y in t], x
    if tab is None:
        return
    asz = P.globals[q].get("asz") or len(tab)
    w = g.file + ": " + q
    a.check(asz == len(tab), "M10.messages", w, "every entry of the message table has a text", "the message table has %d entries but only %d texts: the rest are null" % (asz, len(tab)))
    for i, s in enumerate(tab):
        a.check(bool(s.strip()), "M10.messages", w, "message %d has a text" % i, "message %d is empty" % i, key="M10.messages %d" % i)
        a.check(tab.index(s) == i, "M10.messages", w, "message %d is its own" % i, "messages %d and %d have the same text" % (tab.index(s), i), key="M10.same %d" % i)
    # every code that is raised is recorded
    codes = {}
    for f, n in P.callers.get(g.usr, ()):
        if len(n.c) < 4 or not P.reachable(n):
            continue
        c = intof(n.c[2])
        if c is not None:
            codes.setdefault(c, []).append(n)
    a.need("M10.codes", len(codes), 5, "error codes raised")
    for c, ns in sorted(codes.items()):
        if not a.check(0 <= c < len(tab), "M10.codes", where(ns[0]), "code %d has a message" % c, "error code %d has no message: the table has %d" % (c, len(tab))):
            continue
        I = Interp(a, {}, lambda h: False, None, config=False, limit=3000)
        done = []

        def on(n, fr, st, I):
            if n.k == "Assign" and strip(n.c[0]).k == "Mem" and strip(n.c[0]).d["n"] == "errorNumber":
                done.append((n, I.val(n.c[1], fr, st)))
            return None
        I.on = on
        I.start(g, args={p: v for p, v in zip(g.params, (None, None, c, None)) if v is not None})
        if not I.over:
            a.check(bool(done), "M10.codes", where(ns[0]), "code %d is recorded" % c, "error code %d is raised here but dropped when it is entered: the file is then accepted" % c)
            for n, v in done:
                if isinstance(v, int):
                    a.check(v == c, "M10.codes", where(n), "the code is recorded as it is", "error code %d is recorded as %d" % (c, v))
        msg = tab[c]
        for n in ns:
            s = strip(n.c[3])
            empty = s.k == "Str" and s.d["v"] == "" or s.k in ("Null", "NullPtr") or intof(s) == 0
            a.check(("@" in msg) == (not empty), "M10.insert", where(n), "the message's insertion point and the inserted text agree",
                    "message %d ('%s') %s" % (c, msg, "has an insertion point but no text is given" if "@" in msg else "has no insertion point for the text given"))
            # what the message is about
            low = msg.lower()
            about = {x for x in COUNTS.values() if re.search(r"\b%ss?\b" % x, low)}
            cmpd = set()
            for at in conds(P, n):
                for y in at.walk():
                    if y.k == "Global" and last(y.d["q"]) in COUNTS:
                        cmpd.add(COUNTS[last(y.d["q"])])
            if len(about) == 1 and len(cmpd) == 1 and re.search("number|range", low):
                a.check(about == cmpd, "M10.about", where(n), "the message names what was checked", "the number of %ss was checked but the message is '%s'" % (sorted(cmpd)[0], msg))
            nt = looked(P, n)
            nt = {x[3:] for x in nt if x[3:] in COUNTS.values()}
            if len(about) == 1 and len(nt) == 1 and "name" in low and "@" in msg:
                a.check(about == nt, "M10.about", where(n), "the message names what was looked up", "a name of an %s was looked up but the message is '%s'" % (sorted(nt)[0], msg))


def conds(P, n):
    """comparisons that decide whether n is reached: of the nearest enclosing if, else the facts at n"""
    c, prev = None, n
    for x in n.ancestors():
        if x.k == "If" and x.slot("then") is prev and x.slot("cond") is not None:
            c = x.slot("cond")
            break
        if x.k in ("For", "While", "Do", "ForRange", "Case", "Default") or x.k == "If":
            break
        prev = x
    src = [c] if c is not None else [at for at, tr in P.facts_at(n)]
    return [y for x in src for y in x.walk() if y.k == "Bin" and y.d["op"] in REL]


def looked(P, n):
    """name kinds of the lookup whose result is tested on the way to n"""
    out = set()
    cs = conds(P, n)
    vs = {y.d["v"] for c in cs for y in c.walk() if y.k == "Var"}
    calls = [y for c in cs for y in c.walk() if y.k == "Call"]
    best = None
    for x in P.all_nodes(n.fn):
        r = None
        if x.k == "Assign" and strip(x.c[0]).k == "Var" and strip(x.c[0]).d["v"] in vs:
            r = x.c[1]
        elif x.k == "Decl":
            r = next((v[3] for v in x.vars if v[0] in vs and v[3] is not None), None)
        for y in r.walk() if r is not None else ():
            if y.k == "Call" and (x.l or 0) <= (n.l or 0) and (best is None or y.l >= best.l):
                best = y
    for x in calls + ([best] if best is not None else []):
        for y in x.walk():
            if y.k == "Enum" and last(y.d.get("q")).startswith("nt_"):
                out.add(last(y.d["q"]))
    return out


def m10_report(a):
    """errors recorded make the report fail, none make it pass"""
    for g in a.P.find("ERR_dump"):
        if not g.blocks:
            continue
        for first, want in ((0, True), (Ptr(("err",)), False)):
            I = Interp(a, {}, lambda h: False, None, config=False, limit=4000)
            fr = (g.usr,)
            st = St({}).set(("G", "Err_list"), Ptr(("list",))).set(("F", ("list",), "nextError"), first).set(("F", ("err",), "nextError"), 0)
            r = I.run(g, fr, st, 0)
            vs = {v for k, v, s, n in r if k == "ret"}
            if I.over or not vs or None in vs:
                continue
            if want:
                a.check(vs == {0}, "M10.report", g.where(), "no recorded error: the report says so", "with no recorded error the report returns %s" % sorted(vs))
            else:
                a.check(0 not in vs, "M10.report", g.where(), "a recorded error makes the report fail", "with a recorded error the report can return 0: the file is accepted")


def m10_words(a):
    P = a.P
    qs, words = pglobal(P, "reserved_str")
    qt, toks = pglobal(P, "reserved_token")
    gs = [g for g in P.find("CheckReserved") if g.blocks]
    if not words or not toks or not gs:
        return
    w = "src/parsers/pomdp_spec.l"
    ws = [x.d.get("v") for x in words]
    a.check(len(ws) == len(toks), "M10.words", w, "as many tokens as reserved words", "%d reserved words but %d tokens" % (len(ws), len(toks)))
    a.check(len(set(ws)) == len(ws), "M10.words", w, "no reserved word is listed twice", "a reserved word is listed twice")
    cvs = [intof(t) for t in toks]
    a.check(len(set(cvs)) == len(cvs), "M10.words", w, "no token is used for two words", "two reserved words have the same token")
    g = gs[0]
    tokname = {}
    for t in toks:
        tokname[intof(t)] = last(t.d.get("q")) if t.k == "Enum" else None
    for i, word in enumerate(ws + ["nosuchword", "disc", "Discount", "t"]):
        def cmpw(n, fr, st, I, word=word):
            vals = [I.val(c, fr, st) for c in n.c[:2]]
            s = [v for v in vals if isinstance(v, Str)]
            return None if len(s) != 1 else 0 if s[0].v == word else 1
        I = Interp(a, {}, lambda h: False, None, config=False, limit=6000, ret={"strcmp": cmpw})
        r = I.start(g)
        vs = {v for k, v, s, n in r if k == "ret"}
        if I.over or not vs or None in vs:
            continue
        if i >= len(ws):
            a.check(not vs & set(cvs), "M10.words", g.where(), "'%s' is no reserved word" % word, "'%s' is taken for a reserved word" % word)
            continue
        got = {tokname.get(v) for v in vs}
        if not a.check(all(v in tokname for v in vs), "M10.words", g.where(), "'%s' has a token" % word, "the reserved word '%s' is not recognised" % word, key="M10.words " + word):
            continue
        # the token named after the word
        cand = {}
        for nm in tokname.values():
            if nm and nm.endswith("TOK"):
                cand[nm] = nm[:-3]
        stem = [nm for nm, s in cand.items() if s and stemmed(s, word)]
        if stem:
            bl = max(len(cand[x]) for x in stem)
            want = {x for x in stem if len(cand[x]) == bl}
            a.check(bool(got & want), "M10.words", g.where(), "'%s' yields its own token" % word, "the reserved word '%s' yields the token %s" % (word, sorted(got, key=str)[0]), key="M10.words tok " + word)


def stemmed(s, word):
    u = word.upper()
    return u == s or len(s) > 1 and u.startswith(s)


RULES["M10"] = [m10_codes, m10_report, m10_words]

TEXT.update({
    "C01.order": "in main: defaults read, table closed, file read, command line read, then the first lookup; no source overwrites a later one",
    "C01.set": "a closed table refuses an unknown name (fatal exit) and stores every known one",
    "C01.get": "a lookup returns the stored text of its own name; an unknown name ends the run",
    "C01.lines": "a configuration line that is neither blank, comment, alias nor name and value ends the run",
    "C01.args": "command-line words: '--name value' sets an option, plain words are command and model, extra words are refused",
    "C01.alias": "an alias maps its name to its text; every alias of the built-in configuration stands for a declared option or a command",
    "C02.declared": "every literal option name at a lookup or set call is declared in the built-in configuration",
    "C02.type": "the declared default can be read by the getter used; one option is read as one type",
    "C02.consulted": "every declared option is looked up somewhere",
    "C02.place": "a variable or field named like an option is set from that option",
    "C02.use": "the distinct number assumed for an option is the one that arrives at its documented comparison or call",
    "C03.select": "each documented value of a selection option makes its own class reachable and (when certain) no other",
    "C03.maintain": "bounds are created exactly when maintain*Bound says so, and the solver is told",
    "C03.runtime": "runTimeActionSelection decides which bound the executed policy uses",
    "C03.command": "each command runs its own function",
    "C03.policy-file": "policyOutputFile: none writes nothing, a name is the file written, '-' the command's default",
    "C03.parser": "useFastModelParser selects the reader",
    "C03.policy-type": "policyType selects the policy reader and executor, policyInputFile the file",
    "C03.cache": "useEvaluationCache selects the evaluation method",
    "C03.models": "plannerModel and simulatorModel reach the planner and the simulator",
    "C03.junk": "an undocumented value of a selection option cannot start work",
    "C03.typed": "typed lookups return the value of a valid text and can refuse an invalid one",
    "C04.refused": "a conflicting combination cannot start work",
    "C04.accepted": "a valid combination can start work",
    "C04.undiscounted": "an undiscounted POMDP without a positive maxHorizon cannot start work",
    "C05.limit": "a count or time limit that is not positive is out of reach where it is compared",
    "C05.value": "a reserved bound value is never compared as a number",
    "C05.steps": "a trial with no step limit performs actions",
    "C05.traces": "a negative trace count allows all traces of a batch",
    "C05.horizon": "a horizon that is not positive reaches no arithmetic; a positive one does",
    "M10.messages": "the message table has as many non-empty, distinct texts as entries",
    "M10.codes": "every code raised indexes the message table and is recorded unchanged",
    "M10.insert": "a message has an insertion point exactly when a text to insert is given",
    "M10.about": "a range or name message names the kind of thing that was checked",
    "M10.report": "the error report fails exactly when an error is recorded",
    "M10.words": "each reserved word yields the token named after it; nothing else does",
})
