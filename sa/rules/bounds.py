"""B01-B07: provenance, form, monotonicity, extrema, evaluation and pruning of the two bounds."""
from rules.common import *

LOW, UP = "lower", "upper"

# ---------------------------------------------------------------- flavours


def classflav(c):
    if not c:
        return None
    c = c.split("::")[-1]
    i = max(c.rfind("Lower"), c.rfind("LB"))
    j = max(c.rfind("Upper"), c.rfind("UB"))
    if i < 0 and j < 0:
        return None
    return LOW if i > j else UP


def pathflav(s):
    """the flavour a path's last mention of a bound side has"""
    i = max(s.rfind("ower"), s.rfind("LB"), s.rfind("lbVal"))
    j = max(s.rfind("pper"), s.rfind("UB"), s.rfind("ubVal"))
    if i < 0 and j < 0:
        return None
    return LOW if i > j else UP


def flavour(x):
    """flavour of one atom of a value"""
    if not isinstance(x, str) or x.startswith(("iv:", '"', "fn:", "enum:", "#")):
        return None
    s = noargs(x).lstrip("/(")
    s = s.rstrip(")")
    last = s.split(".")[-1]
    last = re.sub(r"\[\]|\^t|\*", "", last)
    if last == "alpha":
        return pathflav(s[:s.rfind(".")]) or LOW
    if last in ("lbVal", "l"):
        return LOW
    if last in ("ubVal", "cornerPts", "u"):
        return UP
    if last == "v" and re.search(r"pts|supportList|BVPair|BV|currLists", s):
        return UP
    if re.search(r"UBVal$|maxUB$|^ub[A-Z]", last):
        return UP
    if re.search(r"LBVal$|maxLB$|^lb[A-Z]", last):
        return LOW
    if last in ("getValue", "getValueAt", "getQValue", "getNewUBValue", "getNewUBValueQ") or last.startswith("initBound"):
        return pathflav(s)
    return None


def flavours(v):
    r = {}
    for x in atoms(v):
        f = flavour(x)
        if f:
            r.setdefault(f, set()).add(noargs(x))
    return r


FIELD_FL = [
    (r"(^|::)lbVal$", LOW), (r"(^|::)ubVal$", UP), (r"LBPlane::alpha$", LOW), (r"BVPair::v$", UP),
    (r"SawtoothUpperBound::cornerPts$", UP), (r"ValueInterval::l$", LOW), (r"ValueInterval::u$", UP),
    (r"[a-z]UBVal$", UP), (r"[a-z]LBVal$", LOW),
]


def field_flavour(q):
    for p, f in FIELD_FL:
        if re.search(p, q):
            return f
    return None


def returns(fn):
    for n in fn.body.walk():
        if n.k == "Return" and n.c:
            yield n


def b01(a):
    P, E = a.P, a.E
    n_sinks = 0

    def sink(where, what, v, want, chain=""):
        fl = flavours(v)
        other = UP if want == LOW else LOW
        a.check(other not in fl, "B01.provenance", where, what,
                "%s is a value of the %s bound but is computed from %s-bound values (%s)%s" % (
                    what, want, other, ", ".join(sorted(fl.get(other, ()))[:4]), chain),
                key="%s<-%s" % (what, ",".join(sorted(fl.get(other, ()))[:4])))

    # fields
    for fn, n, op, rhs, lhs, ch in field_stores(a, field_flavour):
        if fn.impl or rhs is None:
            continue
        q = lhs.d["q"] if lhs is not None else [i["m"] for i in fn.inits if i["e"] is n][0]
        ctx = a.build(ch)
        sink(fn.where(n), "%s in %s" % (short(q), short(fn.q)), E.ev(rhs, ctx), field_flavour(q), a.chain_str(ch))
        n_sinks += 1
    # element stores into flavoured containers held by value: cornerPts(i) = ...
    for fn in P.funcs.values():
        for n, lhs, op, rhs in assigns(P, fn):
            if lhs.k == "Mem" or rhs is None:
                continue
            rt = lhs
            while rt.k in ("Idx", "Cast") or (rt.k == "Call" and rt.d.get("oper") in ("[]", "()") and rt.slot("obj") is not None) \
                    or (rt.k == "Un" and rt.d["op"] == "*"):
                rt = rt.slot("obj") if rt.k == "Call" else rt.c[0]
            if rt.k == "Mem" and rt is not lhs:
                f = field_flavour(rt.d["q"])
                if f:
                    sink(fn.where(n), "element of %s in %s" % (short(rt.d["q"]), short(fn.q)), E.ev(rhs), f)
                    n_sinks += 1
    # values returned by bound classes
    for fn in P.funcs.values():
        if not fn.cls or fn.impl:
            continue
        f = classflav(fn.cls)
        if f is None:
            continue
        nm = fn.short
        if fn.rt in ("double", "float") and re.search(r"[vV]alue|[bB]ound|[uU]pdate", nm):
            for r in returns(fn):
                sink(fn.where(r), "result of %s" % short(fn.q), E.ev(r.c[0]), f)
                n_sinks += 1
    # intervals
    for fn in P.funcs.values():
        if fn.impl:
            continue
        for n in P.all_nodes(fn):
            if n.k == "Ctor" and (n.d.get("q") or "").split("::")[-1] == "ValueInterval" and len(n.c) == 2 and not n.d.get("copy"):
                for i, f in ((0, LOW), (1, UP)):
                    for v, ch in a.resolved(n.c[i], 2):
                        sink(fn.where(n), "%s end of an interval built in %s" % ("lower" if i == 0 else "upper", short(fn.q)), v, f, a.chain_str(ch))
                n_sinks += 2
    for fn in P.funcs.values():
        if fn.ctor and fn.cls and fn.cls.split("::")[-1] == "ValueInterval" and len(fn.params) == 2:
            for i in fn.inits:
                if i["m"] and i["e"] is not None and i["w"]:
                    v = [x for x in i["e"].walk() if x.k == "Var"]
                    k = 0 if i["m"].endswith("::l") else 1
                    a.check(len(v) == 1 and v[0].d["v"] == fn.params[k], "B01.interval-members", fn.where(),
                            "%s initialised from argument %d" % (short(i["m"]), k), "interval end %s is not initialised from argument %d of the constructor" % (short(i["m"]), k))
    # handles: a lower-bound slot only ever receives lower-bound objects (and vice versa)
    for fn in P.funcs.values():
        if fn.impl:
            continue
        for n, lhs, op, rhs in assigns(P, fn):
            if op != "=" or lhs.k != "Mem" or not lhs.ct.endswith("*"):
                continue
            nm = lhs.d["n"]
            if not re.search(r"[lL]owerBound$|[uU]pperBound$|^initBound$", nm):
                continue
            want = pathflav(nm) or classflav(fn.cls)
            for x in atoms(E.ev(rhs)):
                f = pathflav(noargs(x)) if isinstance(x, str) else None
                if f and want:
                    a.check(f == want, "B01.handle", fn.where(n), "%s = %s" % (short(lhs.d["q"]), noargs(x)),
                            "%s receives the %s bound %s" % (short(lhs.d["q"]), f, noargs(x)))
    # printing order
    for fn in P.funcs.values():
        if fn.impl:
            continue
        for n in P.all_nodes(fn):
            ops = None
            if outer_stream(n):
                ops = stream_chain(n)[1]
            elif n.k == "Call" and (n.d.get("q") or "") in ("printf", "fprintf", "std::printf", "std::fprintf", "snprintf", "sprintf"):
                ops = n.c
            if not ops:
                continue
            seq = []
            for o in ops:
                if "basic_string" in o.ct or "char" in o.ct and "*" in o.ct:
                    continue
                v = E.ev(o)
                fl = set()
                for p in v:
                    if len(p) == 1:
                        (s, m), = p
                        if len(m) == 1:
                            f = flavour(m[0])
                            if f:
                                fl.add(f)
                if len(fl) == 1:
                    seq.append((fl.pop(), o))
            i = 0
            while i < len(seq):
                if i + 1 < len(seq) and seq[i][0] == LOW and seq[i + 1][0] == UP:
                    a.ok("B01.print-order", fn.where(n), "lower before upper in %s" % short(fn.q))
                    i += 2
                elif i + 1 < len(seq) and seq[i][0] == UP and seq[i + 1][0] == LOW:
                    a.fail("B01.print-order", fn.where(n), "%s prints the upper bound before the lower bound" % short(fn.q))
                    i += 2
                else:
                    i += 1
    # widths: upper minus lower
    for fn in P.funcs.values():
        if fn.impl:
            continue
        for n in P.all_nodes(fn):
            if n.k == "Bin" and n.d["op"] == "-" and n.ct in ("double", "float"):
                x, y = E.ev(n.c[0]), E.ev(n.c[1])
                fx, fy = pure(x), pure(y)
                if fx and fy and fx != fy:
                    a.check(fx == UP, "B01.width", fn.where(n), "width in %s is upper - lower" % short(fn.q),
                            "%s computes a width as lower minus upper" % short(fn.q))
    # printed or returned as a bound by name: locals that name a side
    for fn in P.funcs.values():
        if fn.impl:
            continue
        for v in range(len(fn.vars)):
            nm, t = fn.vars[v]["n"], fn.vars[v]["t"]
            if t not in ("double", "float") or fn.vars[v]["p"]:
                continue
            f = LOW if re.match(r"^(lb|lbVal|lowerBound)$|LB(Val)?$|^lb[A-Z]\w*$", nm) else UP if re.match(r"^(ub|ubVal|upperBound)$|UB(Val)?$|^ub[A-Z]\w*$", nm) else None
            if not f:
                continue
            for d in fn_defs(P, fn).byvar.get(v, ()):
                if d.rhs is not None and d.field is None and d.kind in ("init", "="):
                    fl = flavours(E.ev(d.rhs))
                    other = UP if f == LOW else LOW
                    a.check(not (set(fl) == {other}), "B01.local", fn.where(d.node), "%s in %s" % (nm, short(fn.q)),
                            "%s in %s names the %s bound but holds only %s-bound values (%s)" % (nm, short(fn.q), f, other, ", ".join(sorted(fl.get(other, ()))[:3])))
    a.need("B01", n_sinks, 25, "places that store or return a bound")


def pure(v):
    """flavour when every alternative is one atom of that flavour"""
    r = set()
    for p in v:
        if len(p) != 1:
            return None
        (s, m), = p
        if len(m) != 1 or s != 1:
            return None
        f = flavour(m[0]) if isinstance(m[0], str) else None
        if f is None:
            return None
        r.add(f)
    return r.pop() if len(r) == 1 else None



# ---------------------------------------------------------------- B02
OPQ = {"getValue", "getPlaneForNode", "getBestLBPlane", "getBestLBPlaneConst", "getBestLBPlaneWithCache", "getBVValue",
       "getValueAt", "getNode"}


def opq(a):
    if not hasattr(a, "_opq"):
        a._opq = Eval(a.P, opaque=OPQ)
    return a._opq


def islow(x):
    return flavour(x) == LOW


def isup(x):
    return flavour(x) == UP


def succ(x):
    """the atom is a value of a successor state"""
    return isinstance(x, str) and re.search(r"nextState|getNextState|getOutcome\(", x) is not None


VOC = dict(
    R=["*.immediateReward", "*getReward(*)", "*.R[]"],
    g=["*.discount", "*getDiscount()"],
    p=["*.obsProb", "*getOutcomeProbVector(*)*", "*opv*[]", "*ProbVector*[]"],
    SL=lambda x: succ(x) and islow(x),
    SU=lambda x: succ(x) and isup(x),
    V=lambda x: isinstance(x, str) and noargs(x).endswith(".alpha"),
    O=["*.O[][]"],
    T=["*.T[]"],
    s=["*.s", "*belief_vector*", "*$cvector*"],
    QL=["*.Q[].lbVal"],
    QU=["*.Q[].ubVal"],
)
BELL_L = ["+R +g*p*SL"]
BELL_U = ["+R +g*p*SU"]
PLANE = ["+R +V*O*T*g"]
PLANEV = ["+R*s +V*O*T*g*s"]
RELAX_L = ["+R +g*QL", "+R +g*SL"]
RELAX_U = ["+R +g*QU", "+R +g*SU"]


def indices(p):
    """index texts used in the roles action / outcome of one polynomial"""
    act, out = set(), set()
    for s, m in p:
        for x in m:
            if not isinstance(x, str):
                continue
            for r in (r"\.Q\[([^\[\]]*)\]", r"\.T\[([^\[\]]*)\]", r"\.O\[([^\[\]]*)\]", r"\.R\[:,([^\[\]]*)\]"):
                act |= set(re.findall(r, x))
            for r in (r"outcomes\[([^\[\]]*)\]", r"\.O\[[^\[\]]*\]\[:,([^\[\]]*)\]"):
                out |= set(re.findall(r, x))
            mm = re.search(r"getOutcomeProbVector\(([^()]*)\)", x)
            if mm:
                act.add(mm.group(1).split(",")[1].lstrip("+"))
            mm = re.search(r"getReward\(([^()]*)\)", x)
            if mm:
                act.add(mm.group(1).split(",")[1].lstrip("+"))
            mm = re.search(r"getNextState\(([^()]*)\)", x)
            if mm:
                act.add(mm.group(1).split(",")[1].lstrip("+"))
                out.add(mm.group(1).split(",")[2].lstrip("+"))
    return act, out


def has_succ(p):
    return any(succ(x) and flavour(x) for pp in [p] for s, m in pp for x in allatoms(m))


def allatoms(m):
    for x in m:
        if isinstance(x, tuple) and x and x[0] in ("MAX", "MIN"):
            for q in x[1]:
                for s, mm in q:
                    for y in allatoms(mm):
                        yield y
        else:
            yield x


def isqstore(q):
    return re.search(r"MDPQEntry::[lu]bVal$", q) is not None


def b02(a):
    P = a.P
    E = opq(a)
    nq = 0

    def form(where, what, p, specs, rule="B02.form"):
        okk = match_any(p, specs, VOC)
        a.check(okk, rule, where, what, "%s is not reward + discount * probability * successor value: %s" % (what, pstr(p)[:260]),
                key="%s:%s" % (what, noargs(pstr(p))[:160]))
        if okk:
            act, out = indices(p)
            a.check(len(act) <= 1 and len(out) <= 1, "B02.index", where, what,
                    "%s combines different actions or outcomes: %s / %s" % (what, sorted(act), sorted(out)))

    class _A(object):
        pass
    b = A.__new__(A)
    b.__dict__ = dict(a.__dict__)
    b.E = E
    relaxfn = lambda fn: (fn.cls or "").endswith("RelaxUBInitializer") or "Relax" in fn.q
    accs = []
    for fn, n, op, rhs, lhs, ch in field_stores(b, isqstore):
        if fn.impl or lhs is None:
            continue
        low = lhs.d["q"].endswith("lbVal")
        ctx = a.build(ch)
        v = maximal(E.ev(rhs, ctx))
        what = "%s in %s" % (short(lhs.d["q"]), short(fn.q))
        for p in flat(v):
            if len(p) == 1 and next(iter(p)) == (-1, ("#BIG",)):
                continue  # not yet known
            specs = list(BELL_L if low else BELL_U)
            if low:
                specs += PLANE + PLANEV
            if relaxfn(fn):
                specs = (RELAX_L if low else RELAX_U) + (["+SL", "+QL"] if low else ["+SU", "+QU"])
            form(fn.where(n), what, p, specs)
        # the entry written is the entry whose model data was used
        li = re.findall(r"\.Q\[([^\[\]]*)\]", vstr(E.ev(lhs, ctx)))
        for p in flat(v):
            act, _ = indices(p)
            if li and act and not any("#BIG" in pstr(p) for _ in (0,)):
                a.check(act <= set(li[-1:]) or relaxfn(fn), "B02.entry", fn.where(n), what,
                        "%s: value of action %s stored in the entry of action %s" % (what, sorted(act), li[-1]))
        nq += 1
        accs.append((fn, n))
    # planes
    npl = 0
    for fn in P.funcs.values():
        if not (fn.cls or "").endswith("MaxPlanesLowerBound"):
            continue
        for n, lhs, op, rhs in assigns(P, fn):
            if lhs.k == "Mem" and lhs.d["q"].endswith("LBPlane::alpha") and op == "=":
                v = maximal(E.ev(rhs))
                for p in v:
                    if any(gm(x, VOC["T"]) or gm(x, VOC["O"]) or gm(x, VOC["g"]) for s, m in p for x in m):
                        form(fn.where(n), "backed-up plane in %s" % short(fn.q), p, PLANE)
                        a.check(any("nextState" in x for s, m in p for x in m if isinstance(x, str)), "B02.plane-successor", fn.where(n),
                                "plane of the successor used in %s" % short(fn.q), "backed-up plane in %s never uses the successors' planes" % short(fn.q))
                        npl += 1
        for n in P.all_nodes(fn):
            if n.k == "Call" and (n.d.get("q") or "").endswith("getPlaneForNode"):
                pass
    a.need("B02.plane", npl, 1, "plane backups")
    # returned values and candidates of extrema
    for fn in P.funcs.values():
        if fn.impl or fn.rt not in ("double", "float") or not re.search(r"/(bounds|pomdpBounds|search|exec)/", "/" + fn.file):
            continue
        for r in returns(fn):
            v = maximal(E.ev(r.c[0]))
            for p in flat(v):
                if has_succ(p) and any(gm(x, VOC["p"]) for s, m in p for x in m) and not relaxfn(fn):
                    low = any(succ(x) and islow(x) for s, m in p for x in allatoms(m))
                    form(fn.where(r), "result of %s" % short(fn.q), p, BELL_L if low else BELL_U)
    nx = 0
    for x in find_ext(a):
        if not re.search(r"/(bounds|pomdpBounds|exec)/", "/" + x.fn.file):
            continue
        v = maximal(E.ev(x.cand))
        for p in flat(v):
            if has_succ(p) and any(gm(y, VOC["p"]) for s, m in p for y in m) and not relaxfn(x.fn):
                low = any(succ(y) and islow(y) for s, m in p for y in allatoms(m))
                form(x.fn.where(x.upd), "candidate compared in %s" % short(x.fn.q), p, BELL_L if low else BELL_U)
                nx += 1
    for fn in P.funcs.values():
        if fn.impl:
            continue
        for n in P.all_nodes(fn):
            if n.k == "Ctor" and (n.d.get("q") or "").split("::")[-1] == "ValueInterval" and len(n.c) == 2 and not n.d.get("copy"):
                for i in (0, 1):
                    for p in flat(maximal(E.ev(n.c[i]))):
                        if has_succ(p):
                            form(fn.where(n), "%s end of the interval built in %s" % (("lower", "upper")[i], short(fn.q)), p, (BELL_L, BELL_U)[i])
                            nx += 1
                        elif any(gm(y, VOC["R"]) or gm(y, VOC["g"]) for s, m in p for y in m):
                            form(fn.where(n), "%s end of the interval built in %s" % (("lower", "upper")[i], short(fn.q)), p, (BELL_L, BELL_U)[i])
    # direction: backed-up values are maximised over actions
    nd = 0
    for x in find_ext(a):
        if not re.search(r"/(bounds|pomdpBounds|exec|search)/", "/" + x.fn.file) or "chooseAction" in x.fn.q:
            continue
        v = maximal(E.ev(x.cand))
        isq = False
        for p in flat(v):
            if len(p) == 1:
                (s, m), = p
                isq |= len(m) == 1 and isinstance(m[0], str) and (gm(m[0], VOC["QL"]) or gm(m[0], VOC["QU"]))
            isq |= match_any(p, BELL_L + BELL_U + PLANE + PLANEV + RELAX_L[:1] + RELAX_U[:1], VOC)
        if isq:
            nd += 1
            a.check(x.dir == "max", "B02.max", x.fn.where(x.upd), "maximum over actions in %s" % short(x.fn.q),
                    "%s takes the minimum of the action values" % short(x.fn.q))
    a.need("B02.max", nd, 5, "maximisations over actions")
    for fn in P.funcs.values():
        if fn.impl or not re.search(r"/(bounds|pomdpBounds|exec|search)/", "/" + fn.file):
            continue
        for n in P.all_nodes(fn):
            if is_call(n, "argmin_elt", "min_elt", "argmax_elt") and n.c:
                a.check(not n.d["q"].split("::")[-1].startswith(("argmin", "min")), "B02.max", fn.where(n), "maximal element in %s" % short(fn.q),
                        "%s selects the smallest action value" % short(fn.q))
    # the state value is taken from the action values
    for fn, n, op, rhs, lhs, ch in field_stores(b, lambda q: re.search(r"MDPNode::[lu]bVal$", q)):
        if fn.impl or lhs is None or not (fn.cls or "").endswith(("PointLowerBound", "PointUpperBound", "BoundPair", "SawtoothUpperBound")):
            continue
        for p in flat(maximal(E.ev(rhs, a.build(ch)))):
            if has_succ(p):
                low = lhs.d["q"].endswith("lbVal")
                form(fn.where(n), "%s in %s" % (short(lhs.d["q"]), short(fn.q)), p, BELL_L if low else BELL_U)
    a.need("B02", nq, 6, "stores of backed-up action values")
    # completeness
    complete(a, E)


def loop_breaks(loop):
    """break/return statements that leave this loop early"""
    body = loop.slot("body")
    for n in (body.walk() if body is not None else ()):
        if n.k == "Return":
            yield n
        elif n.k == "Break":
            for x in n.ancestors():
                if x.k in ("For", "While", "Do", "ForRange", "Switch"):
                    if x is loop:
                        yield n
                    break
        elif n.k == "Goto":
            yield n


def nullish(P, E, c):
    """an available condition that only asks whether an edge / outcome is possible"""
    x = c
    while x.k == "Cast" or (x.k == "Un" and x.d["op"] == "!"):
        x = x.c[0]
    if x.k == "Bin" and x.d["op"] in ("==", "!="):
        y = [strip(z) for z in x.c]
        if any(z.k in ("Null", "Zero", "Lit") and not z.d.get("v") for z in y):
            return True
        if any(z.ct.endswith("*") for z in y):
            return True
    if x.ct.endswith("*"):
        return True
    if x.k == "Bin" and x.d["op"] in ("<", ">", "<=", ">="):
        for i in (0, 1):
            v = E.ev(x.c[i])
            w = E.ev(x.c[1 - i])
            if all(len(p) == 1 and (gm(next(iter(p))[1][0], VOC["p"]) if next(iter(p))[1] else False) for p in v) and \
                    all(all(isconstm(m) for _, m in p) for p in w):
                return True
    if x.k == "Call" and x.ct == "bool":
        return True
    return False


def complete(a, E):
    """loops that accumulate or maximise backup values cover every action and outcome"""
    P = a.P
    n_loops = 0
    loops = {}
    for fn in P.funcs.values():
        if fn.impl or not re.search(r"/(bounds|pomdpBounds)/", "/" + fn.file):
            continue
        for n, lhs, op, rhs in assigns(P, fn):
            if op != "+=" or rhs is None:
                continue
            ls = loops_of(n)
            if not ls or not P.reachable(n):
                continue
            v = E.ev(rhs)
            acc = False
            for p in v:
                for s, m in p:
                    if any(succ(x) and flavour(x) for x in allatoms(m)) or (any(gm(x, VOC["O"]) for x in m) and any(VOC["V"](x) for x in m)):
                        acc = True
            if acc:
                loops.setdefault(ls[0].id, (fn, ls[0], []))[2].append((n, lhs, rhs))
    for fn, loop, accs in loops.values():
        n_loops += 1
        L = loop_info(a, loop)
        w = fn.where(loop)
        what = "sum over outcomes in %s" % short(fn.q)
        full_range(a, "B02.complete", w, what, L)
        for x in loop_breaks(loop):
            a.fail("B02.complete", fn.where(x), "%s is left early" % what)
        ids = set(y.id for y in loop.walk())
        seen = {}
        for n, lhs, rhs in accs:
            for c, t in P.facts_at(n):
                if c.id in ids and L is not None and c is not L.test and not any(y is c for y in ([loop.slot("cond")] if loop.slot("cond") is not None else [])):
                    inv = not (vars_of(c) & changed(P, fn, loop))
                    a.check(inv or nullish(P, E, c), "B02.complete", fn.where(n), "guard of the contribution in %s" % short(fn.q),
                            "%s skips outcomes on a condition that is not about the outcome being possible (%s)" % (what, fn.where(c)))
            k = (place_key(a.E, lhs), vstr(E.ev(rhs)))
            if k in seen and all((x[0].id, x[1]) in [(y[0].id, y[1]) for y in P.facts_at(n)] for x in P.facts_at(seen[k])):
                a.fail("B02.complete", fn.where(n), "%s adds the same outcome twice" % what)
            seen[k] = n
    a.need("B02.complete", n_loops, 5, "sums over outcomes")
    m = 0
    for x in find_ext(a):
        if not re.search(r"/(bounds|pomdpBounds|search|exec)/", "/" + x.fn.file):
            continue
        L = loop_info(a, x.loop)
        if L is None or L.kind != "count":
            continue
        m += 1
        full_range(a, "B02.complete", x.fn.where(x.loop), "maximisation in %s" % short(x.fn.q), L, first=(x.place, x))
    a.need("B02.complete", m, 8, "maximisations")


def vars_of(n):
    return set(x.d["v"] for x in n.walk() if x.k == "Var")


def changed(P, fn, loop):
    ids = set(y.id for y in loop.walk())
    return set(d.var for d in fn_defs(P, fn).all if d.node.id in ids)


def full_range(a, rule, w, what, L, first=None):
    if L is None:
        return a.ok(rule, w, what + " (not a counted loop)")
    if L.kind == "range" or L.kind == "iter":
        return a.ok(rule, w, what)
    lo = L.lo == ZERO
    if not lo and first is not None and L.lo == const(1):
        # the maximum starts from element 0
        pre = [p for p in a.E.ev(first[0])]
        lo = "[0]" in vstr(a.E.ev(first[0]))
    hi = L.hi is not None and all(len(p) == 1 and next(iter(p))[0] == 1 and len(next(iter(p))[1]) == 1 and not isconstm(next(iter(p))[1]) for p in L.hi)
    if L.hi is not None and all(all(isconstm(m) for _, m in p) and p for p in L.hi):
        hi = True
    a.check(lo and hi, rule, w, what, "%s does not cover the full range: from %s below %s" % (what, vstr(L.lo), vstr(L.hi) if L.hi is not None else "?"))


# ---------------------------------------------------------------- B05
def isbig(v, sign):
    return all(len(p) == 1 and next(iter(p)) in ((sign, ("#BIG",)), (sign, ("INF",))) for p in v) and bool(v)


def nonneg(v):
    for p in v:
        for s, m in p:
            if s < 0:
                return False
            if not all(isinstance(x, str) and (re.search(r"(norm_\w+|fabs|abs|size|strlen|log)\(", x) or x == "rec" or x.startswith("#")) for x in m):
                return False
    return True


def b05(a):
    P, E = a.P, a.E
    ex = find_ext(a)
    a.need("B05", len(ex), 20, "running extrema")
    upd_ids = set(x.upd.id for x in ex)
    for x in ex:
        fn = x.fn
        if "/include/" in fn.file or fn.file.endswith((".y", ".l")):
            continue
        w = fn.where(x.upd)
        what = "running %s in %s" % ("maximum" if x.dir == "max" else "minimum", short(fn.q))
        a.ok("B05.selection", w, what)
        fl = x.place.ct in ("double", "float")
        # initial value
        if x.place.k == "Var" and fl and not getattr(x, "first", False):
            v = x.place.d["v"]
            ids = set(y.id for y in x.loop.walk())
            ini = x.loop.slot("init")
            iniids = set(y.id for y in ini.walk()) if ini is not None else set()
            defs, entry = E.reaching(fn, v, P.position(x.upd), None)
            inside = [d for d in fn_defs(P, fn).byvar.get(v, ()) if d.node.id in ids and d.node.id not in iniids and d.kind in ("=", "init")
                      and d.node.id not in upd_ids]
            outer = [d for d in E.reaching(fn, v, P.position(x.loop.slot("cond") or x.loop), None)[0] if d.node.id not in ids or d.node.id in iniids]
            if inside:
                a.check(all(not E_unconditional_reset(P, fn, x, d) for d in inside), "B05.carried", w, what,
                        "%s is overwritten inside its own loop" % what)
            for d in outer:
                if d.kind not in ("init", "=") or d.rhs is None:
                    continue
                v0 = E.ev(d.rhs)
                c = all(all(isconstm(m) for _, m in p) for p in v0)
                sign = -1 if x.dir == "max" else 1
                good = not c or isbig(v0, sign) or (x.dir == "max" and nonneg(E.ev(x.cand)) and v0 == ZERO) or "/lifeSurvey/" in fn.file
                a.check(good, "B05.start", w, "%s starts from %s" % (what, vstr(v0)[:40]),
                        "%s starts from %s, which a candidate can lose to or never reach" % (what, vstr(v0)[:40]))
        # early exit
        if "/lifeSurvey/" not in fn.file:
            for b in loop_breaks(x.loop):
                if b.k == "Return" and b.c and fl and isbig(E.ev(b.c[0]), 1 if x.dir == "min" else -1):
                    continue  # the neutral value: this element does not constrain the result
                if fl or x.how == "guard":
                    a.fail("B05.every-candidate", fn.where(b), "%s stops before every candidate is examined" % what)
        # name versus direction
        nm = place_name(x.place)
        if nm:
            d = "max" if re.match(r"(max|best)|.*Max", nm) and not re.match(r"min", nm) else "min" if re.match(r"min|worst", nm) else None
            if nm.startswith("best") or nm.startswith("worst"):
                d = None
            if d:
                a.check(d == x.dir, "B05.direction", w, "%s kept in %s" % (what, nm), "%s keeps the %s but is named %s" % (short(fn.q), "largest" if x.dir == "max" else "smallest", nm))
        # loop range
        L = loop_info(a, x.loop)
        if L is not None and L.kind == "count" and "/lifeSurvey/" not in fn.file:
            full_range(a, "B05.every-candidate", w, what, L, first=(x.place, x))
        if L is not None and L.kind in ("count",) and x.how == "guard":
            # companions are assigned exactly when the value is
            facts = [(c.id, t) for c, t in P.facts_at(x.upd)]
            conds = [(y.cond.id) for y in ex if y.fn is fn and y.loop is x.loop and y.cond is not None]
            for d in fn_defs(P, fn).all:
                if d.kind != "=" or d.rhs is None or d.field is not None:
                    continue
                if not any(z is x.loop for z in loops_of(d.node)[:1]):
                    continue
                r = strip(d.rhs)
                if r.k != "Var" or r.d["v"] != L.var:
                    continue
                fs = [c.id for c, t in P.facts_at(d.node)]
                blk = (P.position(d.node) or (None,))[0]
                same = any(y.fn is fn and y.loop is x.loop and (P.position(y.upd) or (None,))[0] == blk for y in ex)
                a.check(same or any(c in fs for c in conds), "B05.companion", fn.where(d.node), "index remembered with the value in %s" % short(fn.q),
                        "%s remembers the index when the value is not the new extremum" % short(fn.q))
    # dead extremum: an index is remembered under a comparison whose reference value is never updated
    for fn in P.funcs.values():
        if fn.impl or "/include/" in fn.file or "lifeSurvey" in fn.file:
            continue
        for d in fn_defs(P, fn).all:
            if d.kind != "=" or d.rhs is None or d.field is not None or not loops_of(d.node):
                continue
            loop = loops_of(d.node)[0]
            L = loop_info(a, loop)
            if L is None or L.var is None:
                continue
            r = strip(d.rhs)
            if not (r.k == "Var" and r.d["v"] == L.var and L.kind == "count"):
                continue
            for c, t in P.facts_at(d.node):
                if c.k != "Bin" or c.d["op"] not in ("<", ">", "<=", ">=") or c.id not in set(y.id for y in loop.walk()):
                    continue
                if L.test is c:
                    continue
                for s_ in c.c:
                    s_ = strip(s_)
                    if s_.k == "Var" and fn.vars[s_.d["v"]]["t"] in ("double", "float"):
                        ins = [q for q in fn_defs(P, fn).byvar.get(s_.d["v"], ()) if any(z is loop for z in loops_of(q.node))]
                        if not ins and not fn.vars[s_.d["v"]]["p"]:
                            v0 = E.ev(s_)
                            a.check(not (isbig(v0, 1) or isbig(v0, -1)), "B05.dead", fn.where(d.node), "reference value of the selection in %s" % short(fn.q),
                                    "%s selects an index against a reference value that is never updated" % short(fn.q))
    # compares one value, keeps another
    for fn in P.funcs.values():
        if fn.impl or "/include/" in fn.file or "lifeSurvey" in fn.file or "/sla" in fn.file:
            continue
        for n, lhs, op, rhs in assigns(P, fn):
            if op != "=" or rhs is None or n.id in upd_ids or lhs.ct not in ("double", "float") or not loops_of(n):
                continue
            lk = place_key(E, lhs)
            if lk[0] != "v" and lk[0] != "m":
                continue
            ids = set(y.id for y in loops_of(n)[0].walk())
            for c, t in P.facts_at(n):
                if c.k != "Bin" or c.d["op"] not in ("<", ">", "<=", ">=") or c.id not in ids or isinstance(t, tuple):
                    continue
                ks = [place_key(E, strip(z)) for z in c.c]
                if lk in ks and not any(place_key(E, strip(z)) == place_key(E, strip(rhs)) for z in c.c):
                    other = c.c[1 - ks.index(lk)]
                    if all(all(isconstm(m) for _, m in p) for p in E.ev(other)):
                        continue
                    if any(y.k == "Var" and y.d["v"] == (lhs.d["v"] if lhs.k == "Var" else None) for y in rhs.walk()):
                        continue
                    a.fail("B05.kept-value", fn.where(n), "%s compares one value with the extremum so far but keeps another" % short(fn.q))
    # selected index never set
    for fn in P.funcs.values():
        if fn.impl or "/include/" in fn.file or fn.file.endswith((".y", ".l")):
            continue
        if not any(x.fn is fn for x in ex):
            continue
        D = fn_defs(P, fn)
        for v in range(len(fn.vars)):
            if fn.vars[v]["t"] not in ("int", "unsigned int", "size_t") or fn.vars[v]["p"]:
                continue
            ds = D.byvar.get(v, ())
            if len(ds) == 1 and ds[0].kind == "init" and ds[0].rhs is not None and E.ev(ds[0].rhs) == const(-1):
                uses = [y for y in fn.body.walk() if y.k == "Var" and y.d["v"] == v]
                if uses:
                    a.fail("B05.companion", fn.where(ds[0].node), "%s never remembers which candidate is the extremum (%s stays -1)" % (short(fn.q), fn.vars[v]["n"]))


def E_unconditional_reset(P, fn, x, d):
    """an assignment in the innermost loop of the extremum, outside any comparison with it, that reaches the update"""
    if loops_of(d.node)[:1] != [x.loop]:
        return False
    for c, t in P.facts_at(d.node):
        if c.k == "Bin" and c.d["op"] in ("<", ">", "<=", ">="):
            if any(y.k == "Var" and y.d["v"] == x.place.d["v"] for y in c.walk()):
                return False
    return True


def place_name(n):
    n = strip(n)
    if n.k == "Var":
        return n.fn.vars[n.d["v"]]["n"]
    if n.k == "Mem":
        return n.d["n"]
    return None


# ---------------------------------------------------------------- B03
def b03(a):
    P, E = a.P, a.E
    n_st = 0
    initf = lambda fn: re.search(r"(^|::)(init\w*|getNode|newNode|createNode)$", fn.q) is not None
    memo = {}

    def only_init(fn, depth=4):
        """fn runs only while a node is being created"""
        if initf(fn):
            return True
        cs = P.callers.get(fn.usr, ())
        if not cs or depth == 0:
            return False
        return all(c is fn or only_init(c, depth - 1) for c, n in cs)

    for fn, n, op, rhs, lhs, ch in field_stores(a, lambda q: re.search(r"MDPNode::[lu]bVal$", q)):
        if fn.impl or lhs is None:
            continue
        if not re.search(r"/(bounds|pomdpBounds)/", "/" + fn.file):
            continue
        if "Relax" in (fn.cls or ""):
            continue
        own = lhs.c[0] if lhs.c else None
        if own is not None and own.k == "Var" and re.match(r"^(struct |class )?(zmdp::)?MDPNode$", fn.vars[own.d["v"]]["t"]):
            continue                        # a copy of its own, not a node of the graph
        n_st += 1
        low = lhs.d["q"].endswith("lbVal")
        what = "%s in %s" % (short(lhs.d["q"]), short(fn.q))
        ctx = a.build(ch)
        todo = [(v, ch2) for v, ch2 in resolved_from(a, rhs, ch, 3)]
        for v, ch2 in todo:
            top = ch2[-1].fn if ch2 else fn
            if only_init(top):
                a.ok("B03.monotone", fn.where(n), what + " (initial value)")
                continue
            okk, why = monotone(a, fn, n, lhs, rhs, low, a.build(ch2))
            if not okk and low and nocache(a, n):
                okk, why = True, "uncached planes: the value of a freshly backed-up plane (improvement follows from B02, B04)"
            a.check(okk, "B03.monotone", fn.where(n), what + " (%s)" % why,
                    "%s can make the %s bound %s: the new value replaces the old one without a %s or a comparison with it%s" % (
                        what, LOW if low else UP, "smaller" if low else "larger", "max" if low else "min", a.chain_str(ch2)),
                    key="%s%s" % (what, "".join("<-" + short(c.fn.q) for c in ch2)))
    a.need("B03", n_st, 6, "stores to a node's bounds")


def resolved_from(a, node, chain, depth):
    """like A.resolved, starting from an existing call chain"""
    def rec(chain, d):
        v = a.E.ev(node, a.build(chain))
        if d > 0 and any("$" in mstr(m) and re.search(r"\$(double|float)", mstr(m)) for p in v for s, m in p):
            fn = chain[-1].fn if chain else node.fn
            cs = [(c, n) for c, n in a.P.callers.get(fn.usr, ()) if c is not fn and n not in chain]
            if cs:
                for c, n in cs:
                    for x in rec(chain + (n,), d - 1):
                        yield x
                return
        yield v, chain
    return list(rec(tuple(chain), depth))


def nocache(a, n):
    for c, t in a.P.facts_at(n):
        if not isinstance(t, tuple) and "useMaxPlanesCache" in vstr(a.E.ev(c)) and not t:
            return True
    return False


def monotone(a, fn, n, lhs, rhs, low, ctx):
    P, E = a.P, a.E
    old = vstr(E.ev(lhs, ctx))
    want = "MAX" if low else "MIN"
    v = E.ev(rhs, ctx)
    good = True
    for p in maximal(v):
        o, es = extset(p)
        if o == want and any(pstr(q) == old for q in es):
            continue
        if pstr(p) == old:
            continue
        good = False
    if good and v:
        return True, want.lower() + " with the previous value"
    # guarded by a comparison with the previous value
    lk = place_key(E, lhs)
    rk = place_key(E, strip(rhs))
    for c, t in a.E.conds(n, ctx) if hasattr(a.E, "conds") and False else P.facts_at(n):
        if c.k != "Bin" or c.d["op"] not in ("<", ">", "<=", ">=") or isinstance(t, tuple):
            continue
        for i in (0, 1):
            x, y = c.c[i], c.c[1 - i]
            if place_key(E, strip(x)) != rk and E.ev(x) != v:
                continue
            yv = E.ev(y, ctx)
            if not any(old in pstr(p) for p in yv):
                continue
            op = c.d["op"] if i == 0 else {"<": ">", ">": "<", "<=": ">=", ">=": "<="}[c.d["op"]]
            if not t:
                op = {"<": ">=", ">": "<=", "<=": ">", ">=": "<"}[op]
            if (low and op in (">", ">=")) or (not low and op in ("<", "<=")):
                return True, "guarded by a comparison with the previous value"
    return False, ""


RULES = {"B01": [b01], "B02": [b02], "B03": [b03], "B05": [b05]}
TEXT = {
    "B01.provenance": "the def-use closure of a stored/returned bound mentions no value of the opposite bound",
    "B01.interval-members": "the interval constructor stores its first argument as the lower end and its second as the upper end",
    "B01.handle": "a slot that names one side only receives bound objects of that side",
    "B01.print-order": "adjacent printed bounds come lower end first",
    "B01.width": "a difference between opposite bounds is upper minus lower",
    "B02.form": "every backed-up action value is reward + discount * probability * successor value of the same side, each factor once",
    "B02.index": "one action index and one outcome index per backup expression",
    "B02.entry": "the value is stored in the entry of the action it was computed for",
    "B02.plane-successor": "a plane backup uses the successors' planes",
    "B02.max": "action values are maximised",
    "B02.complete": "sums run over every outcome, maxima over every action: full loop range, no early exit, only impossible outcomes skipped, nothing added twice",
    "B03.monotone": "a store to a node's bound is a min/max with, or guarded by a comparison with, the previous value",
    "B05.selection": "a loop-carried variable replaced by a candidate that compares beyond it",
    "B05.start": "the running extremum starts from the neutral infinity or from a candidate",
    "B05.carried": "the running extremum is not reset inside its loop",
    "B05.every-candidate": "the selection loop covers the full range and is not left early",
    "B05.direction": "the direction agrees with what the variable is named for",
    "B05.companion": "the index is remembered exactly when the value is",
    "B05.dead": "the reference value of a selection is updated",
    "B05.kept-value": "the value kept is the value compared",
    "B01.local": "a local that names one side is not computed purely from the other side",
}
