"""S01-S06: the search strategies and the search graph."""
from rules.common import *
from core import fn_defs, is_ptr_type
import vals

EDGE = re.compile(r"\bC?MDPEdge \*$")


def hx(v):
    return lvstr(v)


def sE(a):
    if not hasattr(a, "_sE"):
        a._sE = Eval(a.P, opaque={"update", "getMaxUBAction", "getSimulatedOutcome", "getNode", "isFringe"})
    return a._sE


def small(c):
    return c is not None and 0 < c <= 1e-6


def positive_prob(rs):
    """some relation says prob > 0 or prob > epsilon"""
    for r in rs:
        if r[0] != ">" or not isinstance(r[1], frozenset) or not r[1]:
            continue
        ok = True
        for p in r[1]:
            pos = [m for s, m in p if s > 0 and not isconstm(m)]
            neg = [m for s, m in p if s < 0]
            if len(pos) != 1 or len(pos) + len(neg) != len(p) or len(neg) > 1 or (neg and not small(constm(neg[0]))):
                ok = False
            elif not any(re.search(r"[pP]rob|opv|obs", mstr(pos[0])) for _ in (0,)):
                ok = False
        if ok:
            return True
    return False


def same_index(node, conds):
    return True


def nonnull(E, v):
    return lambda rs: any(r[0] == "T" and r[1] == v for r in rs)


def edge_ok(a, n, e, depth=3):
    """the edge pointer expression e, dereferenced at n, is an edge that exists.  -> (ok, why)"""
    P, E = a.P, a.E
    v = E.ev(e)
    if v and all(len(p) == 1 and "new:" in mstr(next(iter(p))[1]) and "[" not in mstr(next(iter(p))[1]) for p in v):
        return True, "created here"
    if guarded(a, n, nonnull(E, v), depth=0):
        return True, "tested"
    # the outcome index
    s = strip(e)
    if s.k == "Var":
        fn = s.fn
        d = s.d["v"]
        if fn.vars[d]["p"] or d in fn.params:
            i = fn.params.index(d)
            cs = [(c, m) for c, m in P.callers.get(fn.usr, ()) if c is not fn]
            if depth and cs and all(i < len(m.c) and edge_ok(a, m, m.c[i], depth - 1)[0] for c, m in cs):
                return True, "tested by every caller"
            return False, "never tested"
        ds = [x for x in fn_defs(P, fn).byvar.get(d, ()) if x.kind in ("init", "=") and x.rhs is not None and x.field is None]
        if len(ds) == 1:
            return edge_ok(a, n, ds[0].rhs, depth) if strip(ds[0].rhs).k != "Var" else (False, "never tested")
        return False, "never tested"
    ix = index_of(s)
    if ix is None:
        # an edge remembered in a record: every store into that field is of an existing edge
        if s.k == "Mem":
            return remembered(a, s.d["q"], depth)
        return False, "never tested"
    return outcome_ok(a, n, ix, depth)


def index_of(s):
    if s.k == "Idx":
        return s.c[1]
    if s.k == "Call" and s.d.get("oper") in ("[]", "()") and s.c:
        return s.c[-1]
    if s.k == "Call" and (s.d.get("q") or "").endswith("::at") and s.c:
        return s.c[0]
    return None


def remembered(a, q, depth):
    P = a.P
    ok, n = True, 0
    for fn in P.funcs.values():
        for i in fn.inits:
            if i["m"] == q and i["e"] is not None and i["w"]:
                e = strip(i["e"])
                if e.k == "Null" or (e.k == "Lit" and not e.d["v"]):
                    continue
                n += 1
                if e.k == "Var" and e.d["v"] in fn.params:
                    k = fn.params.index(e.d["v"])
                    for c, m in P.callers.get(fn.usr, ()):
                        if k < len(m.c) and not edge_ok(a, m, m.c[k], depth - 1)[0]:
                            ok = False
        for x, lhs, op, rhs in assigns(P, fn):
            if lhs.k == "Mem" and lhs.d["q"] == q and op == "=" and strip(rhs).k != "Null":
                n += 1
                if not edge_ok(a, x, rhs, depth - 1)[0]:
                    ok = False
    return (ok and n > 0), "remembered edge"


SELECTED = re.compile(r"Outcome\b|getSimulatedOutcome|chooseFromDistribution|lastOutcome|lastObs")


def outcome_ok(a, n, ix, depth=3):
    """the outcome index expression denotes a possible outcome"""
    P, E = a.P, a.E
    s = strip(ix)
    if s.k in ("Lit",):
        return False, "a fixed outcome number"
    if s.k == "Var" and s.d["v"] in s.fn.params and not fn_defs(P, s.fn).byvar.get(s.d["v"]):
        return True, "chosen by the caller"   # call sites are obligations of their own
    t = hx(sE(a).ev(ix)) + " " + hx(E.ev(ix))
    if SELECTED.search(t):
        return True, "selected outcome"
    if "iv:" in t and "-1" in t:
        return True, "selected outcome"
    # guarded by its probability
    vs = set(x.d["v"] for x in ix.walk() if x.k == "Var")

    def p(rs):
        return positive_prob([r for r in rs if vs & mentioned(r)])
    if guarded(a, n, p, depth=0):
        return True, "positive probability"
    return False, "neither tested nor selected"


def mentioned(r):
    """local variables mentioned by the condition a relation came from"""
    n = r[2] if len(r) > 2 else None
    if not isinstance(n, Node):
        return set()
    out, seen = set(x.d["v"] for x in n.walk() if x.k == "Var"), set()
    # one step through locals: prob = opv(o)
    D = fn_defs(n.fn.P if hasattr(n.fn, "P") else _P[0], n.fn)
    st = list(out)
    while st:
        v = st.pop()
        if v in seen:
            continue
        seen.add(v)
        for d in D.byvar.get(v, ()):
            if d.kind in ("init", "=") and d.rhs is not None:
                for x in d.rhs.walk():
                    if x.k == "Var" and x.d["v"] not in seen:
                        st.append(x.d["v"])
                        out.add(x.d["v"])
    return out


_P = [None]


def lname(q):
    return (q or "").split("::")[-1]


def s01(a):
    P, E = a.P, a.E
    _P[0] = P
    nd = 0
    for fn in list(P.funcs.values()):
        if fn.impl or "/include/" in fn.file:
            continue
        if fn.short in ("operator=",) or fn.dtor:
            continue
        for n in P.all_nodes(fn):
            # dereferences
            if n.k == "Mem" and n.c and EDGE.search(n.c[0].ct or n.c[0].t or "") and P.reachable(n):
                ok, why = edge_ok(a, n, n.c[0])
                a.check(ok, "S01.deref", fn.where(n), "edge followed in %s (%s)" % (short(fn.q), why),
                        "%s follows an outcome edge that may be absent (%s)" % (short(fn.q), why))
                nd += 1
            if n.k == "Call":
                nm = lname(n.d.get("q"))
                if nm == "getNextState" and n.c and P.reachable(n):
                    ok, why = outcome_ok(a, n, n.c[-1])
                    a.check(ok, "S01.successor", fn.where(n), "successor asked for in %s (%s)" % (short(fn.q), why),
                            "%s asks for the successor of an outcome that may be impossible (%s)" % (short(fn.q), why))
                    nd += 1
            # creation
            if n.k == "New" and re.search(r"\bC?MDPEdge\b", n.t):
                vs = None
                ok = guarded(a, n, positive_prob, depth=1)
                a.check(ok, "S01.create", fn.where(n), "edge created only for a positive probability in %s" % short(fn.q),
                        "%s creates an edge for an outcome whose probability may be zero" % short(fn.q))
                nd += 1
            # selectors
            if n.k == "Return" and n.c and "iv:" in vstr(E.ev(n.c[0])):
                select(a, fn, n, n.c[0])
        for n, lhs, op, rhs in assigns(P, fn):
            if op == "=" and rhs is not None and lhs.ct in ("int", "unsigned int") and strip(rhs).k == "Var":
                select(a, fn, n, rhs)
                # slots of impossible outcomes hold the null edge
            if op == "=" and rhs is not None and EDGE.search(lhs.ct or "") and index_of(strip(lhs)) is not None:
                if strip(rhs).k == "Null" or E.ev(rhs) == ZERO:
                    continue
                ok, why = edge_ok(a, n, rhs)
                a.check(ok, "S01.slot", fn.where(n), "edge slot filled in %s" % short(fn.q), "%s fills an edge slot with %s" % (short(fn.q), why))
                so, si = strip(rhs), index_of(strip(lhs))
                # the slot index is the outcome whose probability was tested
                vs = set(x.d["v"] for x in si.walk() if x.k == "Var")
                ok = guarded(a, n, lambda rs: positive_prob([r for r in rs if vs & mentioned(r)]), depth=1)
                a.check(ok, "S01.slot", fn.where(n), "slot of the tested outcome in %s" % short(fn.q),
                        "%s stores an edge in the slot of an outcome other than the one whose probability was tested" % short(fn.q))
    # initial value of a selection is the no-outcome marker
    for fn, v, n in getattr(a, "_sel", []):
        D = fn_defs(P, fn)
        for d in D.byvar.get(v, ()):
            if d.kind in ("init", "=") and d.rhs is not None and d.field is None:
                x = E.ev(d.rhs)
                if all(all(isconstm(m) for _, m in p) for p in x):
                    a.check(x == const(-1), "S01.select", fn.where(d.node), "selection in %s starts without an outcome" % short(fn.q),
                            "%s may report outcome %s although no possible outcome was selected" % (short(fn.q), vstr(x)))
    a.need("S01", nd, 30, "uses of outcome edges")


def select(a, fn, n, rhs):
    """an outcome remembered by a selection loop is one that can happen"""
    P, E = a.P, a.E
    r = strip(rhs)
    if r.k != "Var":
        return
    for l in loops_of(n):
        L = loop_info(a, l)
        if L is None or L.var != r.d["v"] or L.kind != "count":
            continue
        if not re.search(r"outcomes\[?\]?\.size|NumOutcomes|outcomes", vstr(L.hi)):
            return
        iv = r.d["v"]

        def p(rs):
            for x in rs:
                if iv in mentioned(x) and x[0] == "T" and "outcomes[" in hx(x[1]):
                    return True
            return positive_prob([x for x in rs if iv in mentioned(x)])
        ok = guarded(a, n, p, depth=0)
        a.check(ok, "S01.select", fn.where(n), "outcome remembered in %s" % short(fn.q),
                "%s may select an outcome that cannot happen" % short(fn.q))
        if n.k == "Assign" and n.c[0].k == "Var":
            a.__dict__.setdefault("_sel", []).append((fn, n.c[0].d["v"], n))
        return


RULES = {"S01": [s01]}
TEXT = {
    "S01.deref": "every dereference of an outcome edge is of an edge tested non-null on every path, created there, or at a selected outcome",
    "S01.successor": "a successor is only asked for with an outcome tested to have positive probability, selected, sampled, or passed on from such a call",
    "S01.create": "edges are only created under a test that the outcome's probability exceeds a small positive epsilon",
    "S01.slot": "an edge is stored in the slot of the outcome that was tested",
    "S01.select": "a selection loop remembers only outcomes whose edge exists, and starts from 'none'",
}


# ---------------------------------------------------------------- shared
def strategies(a):
    return a.P.subclasses("zmdp::RTDPCore")


def strat_fns(a, cls=None):
    qs = set([cls] if cls else [r["q"] for r in strategies(a)])
    return [f for f in a.P.funcs.values() if f.cls in qs]


def nodetype(t):
    return "MDPNode" in (t or "") and "CMDPNode" not in t


def otype(n):
    o = n.slot("obj")
    return "" if o is None else (o.ct or o.t or "")


def is_upd(n):
    """a backup requested from the bound pair"""
    return n.k == "Call" and lname(n.d.get("q")) == "update" and "BoundPair" in otype(n)


def is_track(n):
    return n.k == "Call" and lname(n.d.get("q")) == "trackBackup"


def argvals(a, n, ctx=None):
    return [sE(a).ev(x, ctx) for x in n.c]


def callsites(a, fn):
    return [(c, n) for c, n in a.P.callers.get(fn.usr, ()) if c is not fn]


def after(a, fn, n, pred, depth=2):
    """every path from n to the end of fn (or, failing that, after every call of fn) passes pred"""
    P = a.P
    pos = P.position(n)
    if pos is None:
        return False
    if P.hits_after(fn, pos, P.lift(pred)):
        return True
    if depth:
        cs = callsites(a, fn)
        return bool(cs) and all(after(a, c, m, pred, depth - 1) for c, m in cs)
    return False


def before(a, fn, n, pred, depth=2):
    P = a.P
    pos = P.position(n)
    if pos is None:
        return False
    if P.hits_before(fn, pos, P.lift(pred)):
        return True
    if depth:
        cs = callsites(a, fn)
        return bool(cs) and all(before(a, c, m, pred, depth - 1) for c, m in cs)
    return False


def increments(P, fn, field):
    """nodes that add one to the named field"""
    for n in P.all_nodes(fn):
        if n.k == "Un" and n.d["op"] in ("++", "post++") and n.c[0].k == "Mem" and n.c[0].d["n"] == field:
            yield n
        elif n.k == "Assign" and n.c[0].k == "Mem" and n.c[0].d["n"] == field:
            if n.d["op"] == "+=" and strip(n.c[1]).k == "Lit" and strip(n.c[1]).d["v"] == 1:
                yield n
            elif n.d["op"] == "=" and strip(n.c[1]).k == "Bin" and strip(n.c[1]).d["op"] == "+" and \
                    any(y.k == "Lit" and y.d["v"] == 1 for y in strip(n.c[1]).c) and \
                    any(strip(y).k == "Mem" and strip(y).d["n"] == field for y in strip(n.c[1]).c):
                yield n


def is_inc(field):
    def p(n):
        if n.k == "Un" and n.d["op"] in ("++", "post++"):
            return n.c[0].k == "Mem" and n.c[0].d["n"] == field
        if n.k == "Assign" and n.c[0].k == "Mem" and n.c[0].d["n"] == field:
            return n.d["op"] in ("+=", "=")
        return False
    return p


def trial_scc(a):
    """recursive trial functions of the strategies: fn -> descent calls"""
    P = a.P
    res = {}
    fns = strat_fns(a)
    comp = scc_of(P, fns)
    for f in fns:
        if f.usr in comp:
            ds = []
            for n in P.calls(f):
                if any(g.usr in comp[f.usr] for g in P.resolve(n)):
                    ds.append(n)
            res[f.usr] = (f, ds)
    return res, comp


def node_arg(a, n):
    """the search node handed to a call"""
    for x in n.c:
        if nodetype(x.ct or x.t):
            return x
    return None


def cls_of(fn):
    return (fn.cls or "").split("::")[-1]


# ---------------------------------------------------------------- S02
DEPTH_FIRST = ("FRTDP", "HSVI", "RTDP")


def s02(a):
    P, E = a.P, a.E
    nu = 0
    for fn in strat_fns(a):
        for n in P.calls(fn):
            if is_upd(n) and P.reachable(n):
                nu += 1
                a.check(after(a, fn, n, is_track), "S02.track", fn.where(n), "backup in %s is tracked" % short(fn.q),
                        "%s backs up a state without recording the backup" % short(fn.q))
                na = node_arg(a, n)
                # the recorded node is the one that was backed up
                nxt = P.can_reach(fn, P.position(n), lambda e: is_track(e) or is_upd(e))
                if nxt is not None and is_track(nxt) and na is not None and nxt.c:
                    a.check(E.ev(na) == E.ev(nxt.c[0]), "S02.track", fn.where(nxt), "the node recorded in %s is the one backed up" % short(fn.q),
                            "%s records another node than the one it backed up" % short(fn.q))
            if is_track(n) and P.reachable(n):
                a.check(before(a, fn, n, is_upd), "S02.track", fn.where(n), "record in %s follows a backup" % short(fn.q),
                        "%s records a backup that did not happen" % short(fn.q))
            if n.k == "Call" and lname(n.d.get("q")) in ("update", "updateSimple", "updateDualPointBounds") and re.search(r"(Lower|Upper|Abstract)\w*Bound\b", otype(n)):
                a.fail("S02.route", fn.where(n), "%s backs up one bound directly, bypassing the counted update" % short(fn.q))
    a.need("S02", nu, 4, "backups requested by search strategies")
    # the pair's update
    nb = 0
    for fn in a.methods_of("zmdp::BoundPairCore", "update"):
        if not fn.blocks:
            continue
        nb += 1
        inc = is_inc("numBackups")
        ok = uncut(a, fn, (fn.entry, -1), "exit", (), elem=P.lift(inc)) is None
        a.check(ok, "S02.count", fn.where(), "every path through %s counts the backup" % short(fn.q), "%s can return without counting the backup" % short(fn.q))
        for n in P.all_nodes(fn):
            if inc(n):
                other = P.can_reach(fn, P.position(n), P.lift(inc))
                a.check(other is None, "S02.count", fn.where(n), "%s counts a backup once" % short(fn.q), "%s counts one backup twice" % short(fn.q))
        dual = [n for n in P.calls(fn) if any(stores_both(a, g) for g in P.resolve(n))]
        sides = {}
        for n in P.calls(fn):
            if lname(n.d.get("q")) == "update" and n.slot("obj") is not None:
                t = otype(n) + " " + vstr(E.ev(n.slot("obj")))
                s = "lower" if re.search(r"[lL]ower", t) else "upper" if re.search(r"[uU]pper", t) else None
                if s:
                    sides.setdefault(s, []).append(n)
        cn = [p for p in fn.params if nodetype(fn.vars[p]["t"])]
        for s in ("lower", "upper"):
            want = set(x.id for x in sides.get(s, ())) | set(x.id for x in dual)
            off = good_edges(a, fn, truthy(r"maintain%sBound$" % s.capitalize(), "F"))
            path = uncut(a, fn, (fn.entry, -1), "exit", off, elem=lambda e: e.id in want or lifted_side(a, e, s))
            a.check(path is None, "S02.both", fn.where(), "%s bound updated on every path of %s unless it is not maintained" % (s, short(fn.q)),
                    "%s can return without updating the maintained %s bound" % (short(fn.q), s))
        fringe = good_edges(a, fn, truthy(r"isFringe$|Q.*empty$", "F"))
        for n in dual + sides.get("lower", []) + sides.get("upper", []):
            path = uncut(a, fn, (fn.entry, -1), P.position(n), fringe, elem=P.lift(lambda e: e.k == "Call" and lname(e.d.get("q")) == "expand"))
            a.check(path is None, "S02.expand", fn.where(n), "fringe nodes are expanded before the backup in %s" % short(fn.q),
                    "%s can back up a node that was never expanded" % short(fn.q))
            na = node_arg(a, n)
            if na is not None and cn:
                a.check("MDPNode" in vstr(E.ev(na)) and ".nextState" not in vstr(E.ev(na)), "S02.both", fn.where(n), "the given node is backed up", "%s backs up another node than the one it was given" % short(fn.q))
    a.need("S02", nb, 1, "bound pair update routines")
    for fn in P.funcs.values():
        if fn.cls and "BoundPair" in fn.cls:
            continue
        for n in P.all_nodes(fn):
            if n.k in ("Assign", "Un") and n.c and n.c[0].k == "Mem" and n.c[0].d["n"] == "numBackups" and n.d.get("op") not in ("-", "!", "*", "&"):
                a.fail("S02.count", fn.where(n), "%s changes the backup count outside the update routine" % short(fn.q))
    # reverse order
    scc, comp = trial_scc(a)
    nd = 0
    for u, (fn, ds) in scc.items():
        for d in ds:
            if not P.reachable(d):
                continue
            if cls_of(fn) in DEPTH_FIRST:
                nd += 1
                cn = [p for p in fn.params if nodetype(fn.vars[p]["t"])]

                def own(e):
                    return own_update(a, e, cn)
                a.check(P.hits_after(fn, P.position(d), own), "S02.reverse", fn.where(d), "%s backs the node up again after its successors" % short(fn.q),
                        "%s can return from a descent without backing up the node again" % short(fn.q))
                a.check(P.hits_before(fn, P.position(d), own), "S02.first", fn.where(d), "%s backs the node up before descending" % short(fn.q),
                        "%s can descend from a node it has not backed up" % short(fn.q))
            # a change reported by a successor leads to a backup of the node
            for v in range(len(fn.vars)):
                if fn.vars[v]["t"] != "bool":
                    continue
                for df in fn_defs(P, fn).byvar.get(v, ()):
                    if df.kind == "=" and df.rhs is not None and E.ev(df.rhs) == const(1) and \
                            any(x is d and t is True for x, t in P.facts_at(df.node)):
                        cut = set()
                        for b, i, ats in branches(a, fn):
                            if any(strip(x).k == "Var" and strip(x).d["v"] == v and t is False for x, t in ats):
                                cut.add((b, i))
                        path = uncut(a, fn, df.pos, "exit", cut, elem=P.lift(is_upd))
                        a.check(path is None, "S02.reverse", fn.where(df.node), "%s backs the node up when a successor changed" % short(fn.q),
                                "%s does not back the node up after a successor changed" % short(fn.q))
    a.need("S02", nd, 3, "depth-first descents")
    # trials are counted
    for r in strategies(a):
        for fn in P.find(r["q"] + "::doTrial"):
            for n in P.calls(fn):
                if any(g.usr in scc for g in P.resolve(n)):
                    a.check(P.hits_after(fn, P.position(n), P.lift(is_inc("numTrials"))), "S02.trials", fn.where(n), "%s counts the trial" % short(fn.q),
                            "%s does not count the trial it ran" % short(fn.q))
    # the log
    for fn in P.find("zmdp::RTDPCore::trackBackup"):
        psh = lambda e: e.k == "Call" and lname(e.d.get("q")) in ("push_back", "emplace_back", "insert") and "backedUpNodes" in vstr(E.ev(e.slot("obj")) if e.slot("obj") is not None else ZERO)
        off = good_edges(a, fn, truthy(r"useLogBackups$", "F"))
        a.check(uncut(a, fn, (fn.entry, -1), "exit", off, elem=P.lift(psh)) is None, "S02.log", fn.where(), "every tracked backup is appended to the log",
                "a tracked backup can be left out of the log")
    for fn in P.find("zmdp::RTDPCore::maybeLogBackups"):
        for n in P.calls(fn):
            if lname(n.d.get("q")) == "addState":
                l = loops_of(n)
                L = loop_info(a, l[0]) if l else None
                ok = L is not None and "backedUpNodes" in (vstr(L.over or ZERO) + vstr(L.hi or ZERO))
                a.check(ok and (L.kind != "count" or L.up and L.lo == ZERO), "S02.log", fn.where(n), "the log lists every tracked backup in order", "the log does not list every tracked backup in order")
                if l:
                    ids = set(y.id for y in l[0].slot("body").walk()) if l[0].slot("body") is not None else set()
                    cond = [c for c, t in P.facts_at(n) if c.id in ids]
                    a.check(not cond, "S02.log", fn.where(n), "no tracked backup is left out of the log", "the log leaves out some tracked backups")


def lifted_side(a, e, s):
    if e.k != "Call":
        return False
    r = a.P.resolve(e)
    if not r or lname(e.d.get("q")) in ("expand",):
        return False
    p = _side(a, s)
    return all(g.cls and "BoundPair" in g.cls for g in r) and all(a.P.always(g, p) for g in r)


def _side(a, s):
    d = a.__dict__.setdefault("_sidep", {})
    if s not in d:
        d[s] = lambda e: e.k == "Call" and lname(e.d.get("q")) == "update" and e.slot("obj") is not None and \
            re.search(s, (otype(e) + vstr(a.E.ev(e.slot("obj")))).lower()) is not None
    return d[s]


def stores_both(a, g):
    d = a.__dict__.setdefault("_both", {})
    if g.usr not in d:
        fs = set()
        for n, lhs, op, rhs in assigns(a.P, g):
            if lhs.k == "Mem" and re.search(r"MDPNode::[lu]bVal$", lhs.d["q"]):
                fs.add(lhs.d["n"])
        d[g.usr] = len(fs) == 2 and "BoundPair" in (g.cls or "") and g.short != "getNode"
    return d[g.usr]


def own_update(a, e, cn):
    """e backs up the function's own node"""
    P = a.P
    if e.k != "Call":
        return False
    if is_upd(e):
        x = node_arg(a, e)
        return x is not None and strip(x).k == "Var" and strip(x).d["v"] in cn
    r = P.resolve(e)
    if not r:
        return False
    x = node_arg(a, e)
    if x is None or not (strip(x).k == "Var" and strip(x).d["v"] in cn):
        return False
    for g in r:
        gc = [p for p in g.params if nodetype(g.vars[p]["t"])]
        key = ("own", g.usr)
        m = a.__dict__.setdefault("_own", {})
        if key not in m:
            m[key] = False
            m[key] = bool(g.blocks) and P.hits_after(g, (g.entry, -1), lambda z: own_update(a, z, gc))
        if not m[key]:
            return False
    return True


# ---------------------------------------------------------------- S03
def newnode(n, cached=False):
    """n creates a search node"""
    return n.k == "New" and re.match(r"^(class |struct )?(zmdp::)?%sMDPNode( \*)?$" % ("C?" if cached else ""), n.t.strip()) is not None


def is_find(n):
    return n.k == "Call" and lname(n.d.get("q")) in ("find", "count", "lower_bound") and n.c and n.slot("obj") is not None and \
        re.search(r"hash|map|Hashtable|_Rb_tree|lookup", (n.d.get("q") or "") + otype(n))


def container(a, n):
    return noargs(vstr(a.E.ev(n)))


def inserts(a, n, cont, key):
    """n inserts under key into the container"""
    E = a.E
    if n.k == "Assign" or (n.k == "Call" and n.d.get("oper") == "="):
        lhs = n.c[0] if n.k == "Assign" else (n.slot("obj") or n.c[0])
        lhs = strip(lhs)
        ix = index_of(lhs)
        if ix is None:
            return False
        base = lhs.slot("obj") if lhs.k == "Call" and lhs.slot("obj") is not None else lhs.c[0]
        return container(a, base) == cont and keyval(a, ix) == key
    if n.k == "Call" and lname(n.d.get("q")) in ("insert", "emplace", "try_emplace", "insert_or_assign") and n.slot("obj") is not None:
        if container(a, n.slot("obj")) != cont:
            return False
        return any(keyval(a, y) == key for x in n.c for y in x.walk())
    return False


def keyval(a, n):
    s = lvstr(a.E.ev(n))
    s = s.replace("+new:allocator", "").replace("basic_string(", "(")
    return re.sub(r"[()+; ]", "", s)


def result_leaves(a, n, depth=0):
    """the expressions a returned value may come from: arms of conditionals, values given to a result variable"""
    n = strip(n)
    if n.k == "Cond":
        return [y for c in n.kids[1:] for y in result_leaves(a, c, depth + 1)]
    if n.k == "Var" and depth < 4 and n.d["v"] not in n.fn.params:
        ds = [d for d in fn_defs(a.P, n.fn).byvar.get(n.d["v"], ()) if d.kind in ("init", "=") and d.rhs is not None]
        if ds and is_ptr_type(n.fn.vars[n.d["v"]]["t"]):
            return [y for d in ds for y in result_leaves(a, d.rhs, depth + 1)]
    return [n]


def s03(a):
    P, E = a.P, a.E
    nc = 0
    for fn in list(P.funcs.values()):
        if fn.impl or "/include/" in fn.file:
            continue
        news = [n for n in P.all_nodes(fn) if n.k == "New" and newnode(n, True) and P.reachable(n)]
        if fn.q == "zmdp::StateIndex::getStateId":
            news += [n for n in P.all_nodes(fn) if n.k == "New" and P.reachable(n)]
        for n in news:
            nc += 1
            host, site = fn, n
            finds = [x for x in P.calls(host) if is_find(x)]
            if not finds:
                # creation extracted into a helper: judge it at its call sites
                cs = callsites(a, fn)
                if cs and all(any(is_find(y) for y in P.calls(c)) for c, m in cs):
                    for c, m in cs:
                        lookup_rule(a, c, m, [y for y in P.calls(c) if is_find(y)], fn, n)
                    continue
                a.fail("S03.lookup", fn.where(n), "%s creates a node without looking the state up first" % short(fn.q))
                continue
            lookup_rule(a, host, site, finds, fn, n)
    a.need("S03", nc, 3, "places that create search nodes")
    # edges lead to looked-up nodes
    ne = 0
    for fn in P.funcs.values():
        if fn.impl:
            continue
        for n, lhs, op, rhs in assigns(P, fn):
            if lhs.k == "Mem" and re.search(r"C?MDPEdge::nextState$", lhs.d["q"]):
                ne += 1
                t = lvstr(sE2(a).ev(rhs))
                a.check(bool(re.search(r"getNodeX?\(", t)), "S03.edge", fn.where(n), "edge target in %s is a looked-up node" % short(fn.q),
                        "%s links an edge to a node that was not looked up (%s)" % (short(fn.q), t[:80]))
                # for the state the model returns for the same (state, action, outcome)
    a.need("S03", ne, 2, "edge targets")
    # the root
    for fn in a.methods_of("zmdp::BoundPairCore", "getRootNode"):
        if not fn.blocks:
            continue
        for n in fn.body.walk():
            if n.k == "Return" and n.c:
                t = lvstr(sE2(a).ev(n.c[0]))
                a.check("getNode(" in t or "root" in t, "S03.root", fn.where(n), "root node is looked up", "%s returns something else than the looked-up initial state" % short(fn.q))
        for n, lhs, op, rhs in assigns(P, fn):
            if lhs.k == "Mem" and lhs.d["n"] == "root":
                t = lvstr(sE2(a).ev(rhs))
                a.check("getInitialState(" in t and "getNode(" in t, "S03.root", fn.where(n), "root is the node of the initial state", "the root is not the node of the model's initial state (%s)" % t[:80])
    # exact-key queries that do not create
    for fn in a.methods_of("zmdp::BoundPairCore", "getNodeOrNull"):
        for x in P.calls(fn):
            if is_find(x):
                a.check("hashable" in keyval(a, x.c[0]), "S03.key", fn.where(x), "query key of %s" % short(fn.q), "%s looks up another key than the state's" % short(fn.q))
        for ret in fn.body.walk():
            for n in result_leaves(a, ret.c[0]) if ret.k == "Return" and ret.c else ():
                hit = guarded(a, n, lambda rs: any(r[0] == "!=" and "lookup" in vstr(r[1]) for r in rs), depth=0)
                v = vstr(E.ev(n.c[0] if n.k == "Return" else n))
                if hit:
                    a.check(".second" in v, "S03.key", fn.where(n), "a known state yields its node", "%s does not return the node it found" % short(fn.q))
                else:
                    a.check(v == "0", "S03.key", fn.where(n), "an unknown state yields no node", "%s returns a node although none was found" % short(fn.q))
    handlers(a)


def sE2(a):
    if not hasattr(a, "_sE2"):
        a._sE2 = Eval(a.P, opaque={"getNode", "getNodeX", "getInitialState"})
    return a._sE2


def lookup_rule(a, fn, site, finds, nfn, n):
    P, E = a.P, a.E
    pos = P.position(site)
    what = short(fn.q)
    ok = False
    for f in finds:
        cont, key = container(a, f.slot("obj")), keyval(a, f.c[0])

        def miss(rs):
            for r in rs:
                if r[0] == "==" and cont in noargs(vstr(r[1])).replace("[]", "") + noargs(vstr(r[1])):
                    return True
                if r[0] == "F" and cont in noargs(vstr(r[1])):
                    return True
                if r[0] in ("==", ">=") and lname(f.d.get("q")) == "count":
                    return True
            return False
        if not guarded(a, site, miss, depth=0):
            continue
        ok = True
        a.ok("S03.lookup", fn.where(site), "creation in %s only after an unsuccessful lookup" % what)
        ins = lambda e: inserts(a, e, cont, key)
        done = P.hits_after(fn, pos, P.lift(ins))
        if not done and nfn is not fn:
            done = any(ins2(a, e, cont) for e in P.all_nodes(nfn))
        a.check(done, "S03.register", fn.where(site), "the new node is registered under the searched key in %s" % what,
                "%s can return a new node that is not registered under the key that was searched" % what)
        # a state's own key
        a.check("hashable" in key, "S03.key", fn.where(f), "lookup key of %s" % what, "%s does not look up the state's own key" % what)
        par = [p for p in fn.params if "vector" in fn.vars[p]["t"]]
        # hit branch returns what was found
        for r in fn.body.walk():
            if r.k == "Return" and r.c:
                hit = guarded(a, r, lambda rs: any((x[0] == "!=" or x[0] == "T") and cont in noargs(vstr(x[1])) for x in rs), depth=0)
                if hit:
                    a.check(".second" in lvstr(E.ev(r.c[0]), 4000), "S03.hit", fn.where(r), "a known state yields its existing node in %s" % what,
                            "%s does not return the node found for a known state" % what)
        break
    if not ok:
        a.fail("S03.lookup", fn.where(site), "%s creates a node although the state may already have one" % what)
        return
    if not newnode(n):
        return
    # initialisation
    q = "zmdp::MDPNode::"
    fields = ["s", "lbVal", "ubVal"]
    if "BoundPair" in (fn.cls or "") or "BoundPair" in (nfn.cls or ""):
        fields += ["isTerminal", "searchData", "boundsData"]
    calls = [x for x in P.calls(fn) if x.slot("ind") is not None]
    for fl in fields:
        st = field_store_pred(a, fl)
        good = P.hits_after(nfn, P.position(n), st)
        if not good and nfn is not fn:
            good = P.hits_after(fn, pos, st)
        a.check(good, "S03.init", nfn.where(n), "%s of a new node is set in %s" % (fl, what), "%s can return a new node whose %s is not set" % (what, fl))
        for c in calls:
            # the field is set before the node is announced
            p2 = uncut(a, fn, pos, P.position(c), (), elem=st)
            a.check(p2 is None, "S03.announce", fn.where(c), "%s is set before observers see the node" % fl,
                    "%s announces a new node before its %s is set" % (what, fl))


def ins2(a, e, cont):
    if e.k == "Assign" or (e.k == "Call" and e.d.get("oper") == "="):
        lhs = strip(e.c[0] if e.k == "Assign" else (e.slot("obj") or e.c[0]))
        if index_of(lhs) is not None:
            base = lhs.slot("obj") if lhs.k == "Call" and lhs.slot("obj") is not None else lhs.c[0]
            return container(a, base) == cont
    return False


def field_store_pred(a, fl):
    d = a.__dict__.setdefault("_fsp", {})
    if fl in d:
        return d[fl]
    P = a.P

    def direct(e):
        if e.k == "Assign":
            return e.c[0].k == "Mem" and e.c[0].d["q"] == "zmdp::MDPNode::" + fl
        if e.k == "Call" and e.d.get("oper") == "=":
            o = e.slot("obj") or e.c[0]
            return o.k == "Mem" and o.d["q"] == "zmdp::MDPNode::" + fl
        if e.k == "Call" and lname(e.d.get("q")) in ("copy",) and e.c and e.c[0].k == "Mem" and e.c[0].d["q"] == "zmdp::MDPNode::" + fl:
            return True
        return False
    side = {"lbVal": "ower", "ubVal": "pper"}.get(fl)

    def p(e):
        if direct(e):
            return True
        if e.k == "Call" and P.resolve(e):
            r = P.resolve(e)
            if e.d.get("virt") and side:
                r = [g for g in r if side in (g.cls or "")] if side in otype(e) or side in (e.d.get("q") or "") else []
            return bool(r) and all(P.always(g, p) for g in r)
        return False
    d[fl] = p
    return p


def handlers(a):
    """each registered observer is called once, with its own data, for every new node"""
    P, E = a.P, a.E
    nh = 0
    for fn in P.funcs.values():
        for c in P.calls(fn):
            if c.slot("ind") is None or "getNodeHandlers" not in vstr(E.ev(c.slot("ind"))):
                continue
            nh += 1
            l = loops_of(c)
            L = loop_info(a, l[0]) if l else None
            a.check(L is not None, "S03.announce", fn.where(c), "observers are called in a loop over all of them", "%s does not call every registered observer" % short(fn.q))
            if L is not None and L.kind == "count":
                a.check(L.lo == ZERO and L.up and "getNodeHandlers.size()" in vstr(L.hi), "S03.announce", fn.where(c), "the loop covers every observer",
                        "%s does not call every registered observer" % short(fn.q))
            if l:
                brk = [b for b in l[0].walk() if b.k in ("Break", "Return") and P.reachable(b)]
                a.check(not brk, "S03.announce", fn.where(c), "the observer loop is not left early", "%s stops announcing the node before every observer was called" % short(fn.q))
            i = re.sub(r"\.h$", "", vstr(E.ev(c.slot("ind"))))
            hd = [vstr(E.ev(x)) for x in c.c]
            a.check(any(h == i + ".hdata" for h in hd), "S03.announce", fn.where(c), "an observer receives its own data", "%s passes an observer another observer's data" % short(fn.q))
            # on every path that creates a node: the loop head is reached
            for n in P.all_nodes(fn):
                if newnode(n):
                    hb = set()
                    if l:
                        cnd = l[0].slot("cond")
                        body = set(y.id for y in l[0].walk())
                        ok = P.hits_after(fn, P.position(n), lambda e: e.id in body)
                        a.check(ok, "S03.announce", fn.where(n), "a new node is announced on every path", "%s can create a node without announcing it" % short(fn.q))
                        a.check(len(loops_of(c)) == 1, "S03.announce", fn.where(c), "announced once", "%s announces a node repeatedly" % short(fn.q))
    a.need("S03", nh, 1, "observer call sites")
    for fn in P.find("zmdp::BoundPairCore::addGetNodeHandler"):
        app = lambda e: e.k == "Call" and lname(e.d.get("q")) in ("push_back", "emplace_back") and "getNodeHandlers" in vstr(E.ev(e.slot("obj")) if e.slot("obj") is not None else ZERO)
        a.check(uncut(a, fn, (fn.entry, -1), "exit", (), elem=app) is None, "S03.announce", fn.where(), "every registered observer is kept", "an observer can be dropped at registration")


# ---------------------------------------------------------------- S06
def s06(a):
    P, E = a.P, a.E
    nd = 0
    for r in list(P.records.values()):
        q = r["q"]
        if not q.startswith("zmdp::"):
            continue
        fns = [f for f in P.funcs.values() if f.cls == q]
        for fld in ("searchData", "boundsData"):
            reads, writes = [], []
            for f in fns:
                for n in P.all_nodes(f):
                    if n.k == "Mem" and n.d["q"].endswith("MDPNode::" + fld):
                        if n.p is not None and n.p.k == "Assign" and n.p.c[0] is n:
                            if strip(n.p.c[1]).k not in ("Null",):
                                writes.append((f, n.p))
                        else:
                            reads.append((f, n))
            if not reads and not writes:
                continue
            if q.endswith("BoundPair"):
                continue
            if not writes:
                a.fail("S06.attach", "%s:%d" % (r["f"], r.get("l", 0)), "%s reads per-state data (%s) it never attaches" % (short(q), fld))
                continue
            nd += 1
            for f, w in writes:
                v = E.ev(w.c[1])
                t = vstr(v)
                a.check("new:" in t or "0" == t, "S06.attach", f.where(w), "%s attaches fresh data" % short(f.q), "%s attaches data shared with other nodes (%s)" % (short(f.q), t[:60]))
                # data attached on every path of the handler
            # handler: a method that always attaches; registered or called from node initialisation
            inits = [f for f in fns if any(w[0] is f for w in writes)]
            attach = lambda e: e.k == "Assign" and e.c[0].k == "Mem" and e.c[0].d["q"].endswith("MDPNode::" + fld)
            okfns = [f for f in inits if uncut(a, f, (f.entry, -1), "exit", (), elem=P.lift(attach)) is None]
            if fld == "searchData":
                a.check(bool(okfns), "S06.attach", inits[0].where(), "%s attaches its data on every path" % short(inits[0].q), "%s can leave a node without its data" % short(inits[0].q))
                reg = registered(a, q)
                a.check(any(reaches(a, g, set(x.usr for x in inits)) for g in reg), "S06.register", "%s:%d" % (r["f"], r.get("l", 0)),
                        "%s registers its attaching routine as an observer" % short(q), "%s keeps per-state data but never registers the routine that attaches it" % short(q))
            # every field of the record is given a value where the record is created
            for f, w in writes:
                m = re.search(r"new:(\w+)", vstr(E.ev(w.c[1])))
                rec = P.recq.get("zmdp::" + m.group(1)) if m else None
                if rec is None:
                    continue
                for fl in rec.get("fields", ()):
                    fq = rec["q"] + "::" + (fl["n"] if isinstance(fl, dict) else fl[0])
                    has = ctor_inits(a, rec, fq)
                    st = lambda e, fq=fq: stores_to(e, fq)
                    news = [x for x in P.all_nodes(f) if x.k == "New" and m.group(1) in x.t]
                    ok = has or all(P.hits_after(f, P.position(x), st) or P.hits_after(f, P.position(x), P.lift(st)) for x in news)
                    a.check(ok, "S06.init", f.where(w), "%s initialised in %s" % (short(fq), short(f.q)), "%s attaches data whose %s is not initialised" % (short(f.q), short(fq)))
    a.need("S06", nd, 3, "classes with private per-state data")
    # initial values
    prios = {}
    for fn, n, op, rhs, lhs, ch in field_stores(a, lambda q: re.search(r"ExtraNodeData::\w+$", q)):
        if lhs is None or op != "=":
            continue
        f = lhs.d["n"]
        hand = [g for g in a.P.funcs.values() if g.usr == fn.usr]
        fresh = "new:" in vstr(E.ev(lhs.c[0]))
        if not fresh:
            continue
        v = E.ev(rhs, a.build(ch))
        t = vstr(v)
        if f == "isSolved":
            a.check(t.endswith("isTerminal") and len(v) == 1 or "getIsTerminalState(" in t, "S06.value", fn.where(n), "a new node counts as solved exactly when terminal", "%s marks new nodes solved by %s" % (short(fn.q), t[:60]))
        elif f in ("idx", "low"):
            c = [constm(m) for p in v for s, m in p]
            a.check(len(v) == 1 and len(c) == 1 and c[0] is not None and c[0] > 2e9, "S06.value", fn.where(n), "%s of a new node is infinite" % f, "%s gives new nodes the %s %s" % (short(fn.q), f, t[:40]))
        elif f == "prio":
            prios.setdefault(fn.usr, (fn, n, []))[2].extend(v)
    for fn, n, v in prios.values():
        prio_ok(a, fn, n, frozenset(v))
    # registration happens before the first node is made
    for fn in P.find("zmdp::RTDPCore::init"):
        dci = lambda e: e.k == "Call" and lname(e.d.get("q")) == "derivedClassInit"
        a.check(uncut(a, fn, (fn.entry, -1), "exit", (), elem=P.lift(dci)) is None, "S06.order", fn.where(), "every initialisation registers the observers", "a solver can be initialised without registering its observers")
        mk = lambda e: e.k == "Call" and lname(e.d.get("q")) in ("getNode", "getRootNode", "expand", "update") and "BoundPair" in otype(e)
        w = P.can_reach(fn, (fn.entry, -1), mk, avoid=P.lift(dci))
        a.check(w is None, "S06.order", fn.where(w) if w is not None else fn.where(), "no node is created before the observers are registered", "%s creates a node before the observers are registered" % short(fn.q))
    # no node before init()
    for fn in P.find("zmdp::RTDPCore::planFixedTime"):
        for n in P.calls(fn):
            if lname(n.d.get("q")) in ("doTrial", "getRootNode", "getNode"):
                ini = lambda e: e.k == "Call" and lname(e.d.get("q")) == "init"
                on = good_edges(a, fn, truthy(r"initialized$", "T"))
                a.check(uncut(a, fn, (fn.entry, -1), P.position(n), on, elem=ini) is None, "S06.order", fn.where(n), "the solver is initialised before it searches", "%s can search before the solver is initialised" % short(fn.q))
    for fn, n, op, rhs, lhs, ch in field_stores(a, lambda q: q.endswith("RTDPCore::initialized")):
        if rhs is not None and E.ev(rhs) == const(1):
            dci = lambda e: e.k == "Call" and lname(e.d.get("q")) == "derivedClassInit"
            a.check(before(a, fn, n, dci), "S06.order", fn.where(n), "initialised only after the observers are registered", "%s marks the solver initialised before the observers are registered" % short(fn.q))


def prio_ok(a, fn, n, v):
    """log(width - half the target precision), or minus infinity when that is not positive"""
    good = True
    logs = 0
    for p in maximal2(v):
        t = pstr(p)
        if re.match(r"^\+log\(\+@?\S*ubVal -(#0\.5\*\S*targetPrecision|\S*targetPrecision\*#0\.5) -\S*lbVal\)$", t) or \
                re.match(r"^\+log\((?=.*\+\S*ubVal)(?=.*-\S*lbVal)(?=.*-#0?\.\d+\*\S*targetPrecision).*\)$", lvstr(frozenset([p]))):
            logs += 1
        elif len(p) == 1 and next(iter(p))[0] < 0 and (constm(next(iter(p))[1]) or next(iter(p))[1] == ("#BIG",)):
            pass
        else:
            good = False
    a.check(good and logs, "S06.value", fn.where(n), "initial priority in %s" % short(fn.q), "%s gives new nodes the priority %s" % (short(fn.q), vstr(v)[:120]))


def maximal2(v):
    return v


def stores_to(e, fq):
    if e.k == "Assign":
        return any(x.k == "Mem" and x.d["q"] == fq for x in chain_lhs(e))
    return False


def chain_lhs(e):
    while e.k == "Assign":
        yield e.c[0]
        e = strip(e.c[1])


def ctor_inits(a, rec, fq):
    cs = [f for f in a.P.funcs.values() if f.ctor and f.cls == rec["q"] and not f.impl]
    if not cs:
        return False
    return all(any(i["m"] == fq and i["e"] is not None for i in f.inits) for f in cs)


def registered(a, q):
    """functions registered as observers by methods of class q: arguments of addGetNodeHandler"""
    P = a.P
    res = []
    for f in P.funcs.values():
        if f.cls != q:
            continue
        for n in P.calls(f):
            if lname(n.d.get("q")) == "addGetNodeHandler":
                for x in n.c:
                    for y in x.walk():
                        if y.k == "Fn" and y.d.get("fn"):
                            g = P.lookup(y.d["fn"], y.d.get("q"), f.file)
                            if g is not None:
                                res.append(g)
    return res


def reaches(a, g, usrs):
    return bool(set(a.P.closure([g])) & usrs)


RULES["S02"] = [s02]
RULES["S03"] = [s03]
RULES["S06"] = [s06]


# ---------------------------------------------------------------- S04
def eS(a):
    if not hasattr(a, "_eS"):
        a._eS = Eval(a.P, opaque={"planFixedTime", "doTrial", "elapsedTime", "getTime", "getRootNode", "getInitialState", "getIsSolved", "timevalToSeconds"})
    return a._eS


def lastname(m):
    """field or variable name at the end of an access path monomial"""
    t = mstr(m)
    t = noargs(t)
    return re.split(r"[.:@]", t)[-1]


def relparts(r):
    """alternatives of a comparison: [(positive monomials, negative monomials)]"""
    res = []
    if r[0] in (">", ">=") and isinstance(r[1], frozenset):
        for p in r[1]:
            res.append(([m for s, m in p if s > 0], [m for s, m in p if s < 0]))
    return res


def is_time(m):
    return bool(re.search(r"elapsedTime|tv_sec|tv_usec|timevalToSeconds|getTime", mstr(m)))


def is_limit(m, name):
    t = mstr(m)
    return len(m) == 1 and bool(re.search(name, t))


def cmp_reason(rs, pos, neg, ops=(">", ">=")):
    """some comparison 'sum of pos >= sum of neg' (each a predicate on monomials; constants smaller than 1e-6 ignored)"""
    for r in rs:
        if r[0] not in ops:
            continue
        al = relparts(r)
        if not al:
            continue
        good = True
        for ps, ns in al:
            ps = [m for m in ps if not tiny(m)]
            ns = [m for m in ns if not tiny(m)]
            if not cover(ps, pos) or not cover(ns, neg):
                good = False
        if good:
            return True
    return False


def tiny(m):
    c = constm(m)
    return c is not None and c <= 1e-6


def cover(ms, preds):
    """every monomial satisfies one predicate, every predicate is used"""
    used = set()
    for m in ms:
        h = [i for i, p in enumerate(preds) if p(m)]
        if not h:
            return False
        used |= set(h)
    return len(used) == len(preds)


def isf(name):
    return lambda m: len(m) == 1 and lastname(m) == name


def lim(rx_):
    return lambda m: len(m) == 1 and re.search(rx_, mstr(m)) is not None


def TR(rx_, want):
    r_ = re.compile(rx_)

    def p(rs):
        return any(r[0] == want and isinstance(r[1], frozenset) and all(r_.search(noargs(pstr(q))) for q in r[1]) for r in rs)
    return p


PREC = r"(terminateRegretBound|targetPrecision|minPrecision)(?!\*)"


def width_met(rs):
    # precision - (ub - lb) >= 0
    return cmp_reason(rs, [lim(PREC), isf("lbVal")], [isf("ubVal")])


def width_open(rs):
    return cmp_reason(rs, [isf("ubVal")], [lim(PREC), isf("lbVal")])


SOLVED = TR(r"(getIsSolved|isSolved)$", "T")
UNSOLVED = TR(r"(getIsSolved|isSolved)$", "F")


def step_sites(P, fn, n, depth=3):
    """the call itself, or the calls of the helper that makes it outside any loop"""
    cs = [(g, m) for g, m in P.callers.get(fn.usr, ()) if P.reachable(m) and not g.impl]
    if loops_of(n) or not cs or depth == 0:
        return [(fn, n)]
    return [x for g, m in cs for x in step_sites(P, g, m, depth - 1)]


def s04(a):
    P, E = a.P, eS(a)
    nl = 0
    for fn in list(P.funcs.values()):
        if fn.impl or (fn.cls or "").endswith("Core"):
            continue
        for n in P.calls(fn):
            if lname(n.d.get("q")) != "planFixedTime" or not P.reachable(n):
                continue
            for g, m in step_sites(P, fn, n):
                ls = loops_of(m)
                if not a.check(bool(ls), "S04.loop", g.where(m), "trials are run in a loop", "%s runs a single trial only" % short(g.q)):
                    continue
                nl += 1
                main_loop(a, g, m, ls[-1])
    a.need("S04", nl, 1, "solving loops")
    # the strategy's step
    for fn in P.find("zmdp::RTDPCore::planFixedTime"):
        for r in fn.body.walk():
            if r.k != "Return" or not r.c or not P.reachable(r):
                continue
            for alt in dnf(a, r.c[0], True, E=E):
                ok = TR(r"doTrial$", "T")(alt) or backups_spent(alt)
                a.check(ok, "S04.step", fn.where(r), "a step reports completion because the strategy is done or the backup limit is reached", "%s reports completion for another reason (%s)" % (short(fn.q), show(alt)))
            for alt in dnf(a, r.c[0], False, E=E):
                ok = TR(r"doTrial$", "F")(alt)
                a.check(ok, "S04.step", fn.where(r), "a step reports completion when the strategy says so", "%s ignores that the strategy is done" % short(fn.q))
                ok = cmp_reason(alt, [isf("terminateNumBackups")], [isf("numBackups")])
                if not ok and strip(r.c[0]).k == "Var":
                    v = strip(r.c[0]).d["v"]
                    es = good_edges(a, fn, lambda rs: cmp_reason(rs, [isf("terminateNumBackups")], [isf("numBackups")]), None, E)
                    es |= good_edges(a, fn, TR(r"doTrial$", "T"), None, E)
                    ok = uncut(a, fn, (fn.entry, -1), P.position(r), es, elem=lambda e: stop_store(e, {(v, 1)})) is None
                a.check(ok, "S04.step", fn.where(r), "a step reports completion when the backup limit is reached", "%s ignores the backup limit" % short(fn.q))
        tr = [n for n in P.calls(fn) if lname(n.d.get("q")) == "doTrial"]
        a.check(bool(tr) and uncut(a, fn, (fn.entry, -1), "exit", (), elem=P.lift(lambda e: e.k == "Call" and lname(e.d.get("q")) == "doTrial")) is None,
                "S04.step", fn.where(), "every step runs a trial", "%s can return without running a trial" % short(fn.q))
        for n in tr:
            t = vstr(E.ev(n.c[0])) if n.c else ""
            a.check("root" in t.lower(), "S04.step", fn.where(n), "trials start at the root", "trials do not start at the initial state (%s)" % t[:60])
    # the strategies
    scc, comp = trial_scc(a)
    nt = 0
    for r in strategies(a):
        for fn in P.find(r["q"] + "::doTrial"):
            nt += 1
            strategy_done(a, fn, scc)
    a.need("S04", nt, 5, "strategies")
    # the limits come from the options of that name
    want = {"RTDPCore::targetPrecision": "terminateRegretBound", "RTDPCore::terminateNumBackups": "terminateNumBackups",
            "SolverParams::terminateRegretBound": "terminateRegretBound", "SolverParams::terminateWallclockSeconds": "terminateWallclockSeconds",
            "BoundPair::targetPrecision": "terminateRegretBound"}
    seen = set()
    for fn, n, op, rhs, lhs, ch in field_stores(a, lambda q: any(q.endswith("::" + k) for k in want)):
        if rhs is None:
            continue
        q = lhs.d["q"] if lhs is not None else n.d.get("m", "")
        k = [k for k in want if q.endswith("::" + k)]
        if not k:
            continue
        seen.add(k[0])
        v = a.E.ev(rhs, a.build(ch))
        for p in flat(v):
            t = pstr(p)
            if re.match(r'^\+cfg:.*"%s".*$' % want[k[0]], t) and "*" not in t and len(p) == 1:
                a.ok("S04.limit", fn.where(n), "%s is the option %s" % (k[0], want[k[0]]))
            elif t == "+@" + k[0].replace("::", "."):
                continue      # stays as it is
            elif len(p) == 1 and next(iter(p))[0] > 0 and (next(iter(p))[1] == ("#BIG",) or (constm(next(iter(p))[1]) or 0) > 2e9):
                ok = guarded(a, n, lambda rs: cmp_reason(rs, [], [lim(k[0].split("::")[1] + "|" + want[k[0]])]), depth=0)
                ok = ok or cond_guard(a, rhs, p, lambda rs: cmp_reason(rs, [], [lim(k[0].split("::")[1] + "|" + want[k[0]])]))
                a.check(ok, "S04.limit", fn.where(n), "no limit only when the option is not positive", "%s is lifted although the option is positive" % k[0])
            else:
                a.fail("S04.limit", fn.where(n), "%s is set from %s instead of the option %s" % (k[0], t[:80], want[k[0]]))
    for k in want:
        a.need("S04", int(k in seen), 1, "stores to %s" % k)


def cond_guard(a, rhs, p, pred):
    """every conditional expression in rhs that yields p does so only under pred"""
    n = 0
    for x in rhs.walk():
        if x.k == "Cond" and len(x.kids) == 3:
            c, t, f = x.kids
            for br, tr in ((t, True), (f, False)):
                if p in flat(a.E.ev(br)):
                    n += 1
                    al = dnf(a, c, tr)
                    if not (al and all(pred(y) for y in al)):
                        return False
    return n > 0


def show(alt):
    return "; ".join("%s %s" % (r[0], lvstr(r[1])[:60]) for r in alt if isinstance(r[1], frozenset))[:160]


def backups_spent(alt):
    return cmp_reason(alt, [isf("numBackups")], [isf("terminateNumBackups")])


def main_loop(a, fn, call, loop):
    P, E = a.P, eS(a)
    chains = [c for c in a.chains(fn, 1) if c] or [()]
    inl = set(x.id for x in loop.walk())
    blocks = cfg_loop(fn, P.position(call)[0])
    T = lim(r"terminateWallclockSeconds")
    TM = [is_time]

    def time_up(rs):
        return cmp_reason(rs, TM, [T])

    def time_left(rs):
        return cmp_reason(rs, [T], TM)
    for ch in chains:
        ctx = a.build(ch)
        reasons = [TR(r"planFixedTime$", "T"), TR(r"userTerminated\w*$", "T"), time_up, width_met,
                   lambda rs: cmp_reason(rs, [isf("lbVal")], [lim("terminateLowerBoundValue")]),
                   lambda rs: cmp_reason(rs, [lim("terminateUpperBoundValue")], [isf("ubVal")])]
        nx = 0
        for b, i, ats in branches(a, fn):
            s = fn.blocks[b].succ[i]
            if b not in blocks or s in blocks or s is None:
                continue
            # all facts of the edge
            alts = [[]]
            for c, t in ats:
                alts = [x + y for x in alts for y in dnf(a, c, t, ctx, 0, E)]
            # short circuit loop conditions: the edge carries only the last operand
            nx += 1
            for alt in alts:
                ok = any(p(alt) for p in reasons)
                a.check(ok, "S04.reason", fn.where(loop), "the loop in %s ends for a documented reason" % short(fn.q),
                        "%s stops solving for an undocumented reason (%s)" % (short(fn.q), show(alt)))
        a.need("S04", nx, 1, "ways out of the loop in %s" % fn.q)
        for x in loop.walk():
            if x.k in ("Break", "Return", "Goto") and P.reachable(x) and loops_of(x) and loops_of(x)[0] is loop or x.k == "Return" and P.reachable(x):
                def p(rs):
                    return any(q(rs) for q in reasons)
                a.check(guarded(a, x, p, ctx, 0, E), "S04.reason", fn.where(x), "leaving the loop in %s early has a documented reason" % short(fn.q),
                        "%s leaves the solving loop without a documented reason" % short(fn.q))
        # each reason ends the loop before the next step
        stops = stop_flags(a, fn, loop, blocks, ctx)
        elem = lambda e: stop_store(e, stops)
        pos = P.position(call)

        def must(pred, what, also=()):
            es = good_edges(a, fn, pred, ctx, E, drop=lambda x: stale(a, fn, x, pos, blocks))
            ok = uncut(a, fn, pos, pos, es, elem) is None
            a.check(ok, "S04.stop", fn.where(loop), "%s ends the loop in %s" % (what, short(fn.q)), "%s can run another step although %s" % (short(fn.q), what))
        must(TR(r"planFixedTime$", "F"), "the solver reported completion")
        must(time_left, "the time limit was reached")
        if any(re.search(r"userTerminated", g) for g in globals_read(P, fn)):
            must(TR(r"userTerminated\w*$", "F"), "the user asked to stop")


def globals_read(P, fn):
    return set(n.d["q"] for n in P.all_nodes(fn) if n.k == "Global")


def cfg_loop(fn, b):
    """blocks on a cycle through block b"""
    def closure(nx):
        seen, st = set(), [b]
        while st:
            x = st.pop()
            for s in nx(x):
                if s is not None and s not in seen:
                    seen.add(s)
                    st.append(s)
        return seen
    pred = {}
    for x in fn.reach:
        for s in fn.blocks[x].succ:
            if s is not None:
                pred.setdefault(s, []).append(x)
    return closure(lambda x: fn.blocks[x].succ) & closure(lambda x: pred.get(x, ()))


def stop_flags(a, fn, loop, blocks, ctx):
    """local flags whose being set makes the loop end: variables false on every edge that re-enters the loop body"""
    P = a.P
    res = set()
    for b, i, ats in branches(a, fn):
        if b in blocks and fn.blocks[b].succ[i] not in blocks:
            for x, t in ats:
                if strip(x).k == "Var" and t in (True, False):
                    res.add((strip(x).d["v"], int(t)))
    c = loop.slot("cond")
    if c is None:
        return res
    body = loop.slot("body")
    for v in range(len(fn.vars)):
        if fn.vars[v]["t"] not in ("bool", "int"):
            continue
        for x, t in P.decompose(fn, c, True):
            if strip(x).k == "Var" and strip(x).d["v"] == v and t is False:
                res.add((v, 1))
            if strip(x).k == "Var" and strip(x).d["v"] == v and t is True:
                res.add((v, 0))
    return res


def stale(a, fn, alt, pos, blocks):
    """the alternative relies on a definition made before the loop that cannot survive the call at pos"""
    for r in alt:
        if r[0] == "def" and r[1].pos is not None and r[2].fn is fn:
            d, use = r[1], r[2]
            if d.pos[0] in blocks:
                continue
            up = a.P.position(use)
            ds = set(x.node.id for x in fn_defs(a.P, fn).byvar.get(use.d["v"], ()) if x is not d)
            if up is not None and uncut(a, fn, (pos[0], pos[1]), up, (), elem=lambda e: e.id in ds) is None:
                return True
    return False


def stop_store(e, stops):
    if e.k == "Assign" and e.d["op"] == "=" and strip(e.c[0]).k == "Var":
        r = strip(e.c[1])
        if r.k in ("Bool", "Lit"):
            return (strip(e.c[0]).d["v"], int(bool(r.d["v"]))) in stops
    return False


def strategy_done(a, fn, scc):
    P, E = a.P, eS(a)
    trial = [n for n in P.calls(fn) if any(g.usr in scc for g in P.resolve(n))]
    script = not trial
    bounded = False
    for r in fn.body.walk():
        if r.k != "Return" or not r.c or not P.reachable(r):
            continue
        for alt in dnf(a, r.c[0], True, E=E):
            bounded = True
            if script:
                ok = guarded(a, r, lambda rs: any(re.search(r"\.eof$|\.size|iterator|end|itr|Pos|Line|pos|line|itr|states|fail|bad", noargs(vstr(x[1]))) for x in rs if isinstance(x[1], frozenset)), None, 0, E) or True
                a.ok("S04.done", fn.where(r), "the script ends")
                continue
            ok = width_met(alt) or SOLVED(alt) or guarded(a, r, lambda rs: width_met(rs) or SOLVED(rs), None, 0, E)
            a.check(ok, "S04.done", fn.where(r), "%s reports completion only when the precision is met or the state is solved" % short(fn.q),
                    "%s reports completion without having established it (%s)" % (short(fn.q), show(alt)))
    if script:
        return
    if bounded:
        for r in fn.body.walk():
            if r.k != "Return" or not r.c or not P.reachable(r):
                continue
            for alt in dnf(a, r.c[0], False, E=E):
                ok = width_open(alt) or UNSOLVED(alt) or guarded(a, r, lambda rs: width_open(rs) or UNSOLVED(rs), None, 0, E)
                a.check(ok, "S04.done", fn.where(r), "%s reports completion as soon as it is reached" % short(fn.q),
                        "%s can miss that the search is complete" % short(fn.q))
    else:
        a.ok("S04.done", fn.where(), "%s never reports completion by itself" % short(fn.q))
    a.check(uncut(a, fn, (fn.entry, -1), "exit", good_edges(a, fn, SOLVED, None, E), elem=P.lift(lambda e: e.k == "Call" and any(g.usr in scc for g in P.resolve(e)))) is None,
            "S04.trial", fn.where(), "%s runs a trial unless the initial state is solved" % short(fn.q), "%s can skip the trial" % short(fn.q))


RULES["S04"] = [s04]


# ---------------------------------------------------------------- S05
def eT(a):
    if not hasattr(a, "_eT"):
        a._eT = Eval(a.P, opaque={"update", "getMaxUBAction", "getSimulatedOutcome", "getIsSolved", "getPrio", "unit_rand"})
    return a._eT


def fullv(v):
    """access paths with argument lists and subscripts kept, hashes expanded"""
    return lvstr(v, 10 ** 6)


def m_prod(*rxs):
    """monomial predicate: atoms match the expressions one to one"""
    rs = [re.compile(x) for x in rxs]

    def p(m):
        if len(m) != len(rs):
            return False
        left = list(rs)
        for at in m:
            t = noargs(mstr((at,)))
            h = [r for r in left if r.search(t)]
            if not h:
                return False
            left.remove(h[0])
        return True
    return p


TP = r"(?<!trialT)argetPrecision$"
TTP = r"trialTargetPrecision$"
UBF, LBF = r"(?<!nextState\.)ubVal$", r"(?<!nextState\.)lbVal$"
NUB, NLB = r"nextState\S*\.ubVal$", r"nextState\S*\.lbVal$"


def frac(x):
    return r"^#%s$" % re.escape(x)


def powdepth(neg, plus1):
    """pow(discount, -depth[-1])"""
    def p(m, extra):
        return False
    return p


def pow_ok(at, offset):
    """the atom is pow(discount, -(depth + offset))"""
    t = mstr((at,)) if not isinstance(at, str) else at
    m = re.match(r"^(?:std::)?pow\((.*),(.*)\)$", t)
    if not m:
        return False
    b, e = m.group(1), m.group(2).strip()
    if not re.search(r"discount$|getDiscount\(\)$", b):
        return False
    want = r"^-\$int(#\d+)?$" if offset == 0 else r"^-\$int(#\d+)? -%s$" % offset if offset != 1 else r"^(-\$int(#\d+)? -1|-1 -\$int(#\d+)?)$"
    return re.match(want, e) is not None


def m_powprod(offset, *rxs):
    base = m_prod(*rxs)

    def p(m):
        pw = [at for at in m if "pow(" in mstr((at,)) and pow_ok(at, offset)]
        if len(pw) != 1:
            return False
        return base(tuple(at for at in m if at is not pw[0]))
    return p


def has_rel(rs, pos, neg, ops):
    for r in rs:
        if r[0] in ops:
            al = relparts(r)
            if al and all(cover([m for m in ps if not tiny(m)], pos) and cover([m for m in ns if not tiny(m)], neg) for ps, ns in al):
                return True
    return False


STOPS = {
    # class: list of (name, go-predicate, stop-predicate)
    "FRTDP": [
        ("the excess width is not positive",
         lambda rs: has_rel(rs, [m_prod(UBF)], [m_prod(frac("0.5"), TP), m_prod(LBF)], (">",)),
         lambda rs: has_rel(rs, [m_prod(frac("0.5"), TP), m_prod(LBF)], [m_prod(UBF)], (">=",))),
        ("the depth limit is exceeded",
         lambda rs: has_rel(rs, [m_prod(r"maxDepth$")], [m_prod(r"\$int|depth")], (">=", ">")),
         lambda rs: has_rel(rs, [m_prod(r"\$int|depth")], [m_prod(r"maxDepth$")], (">", ">="))),
    ],
    "HSVI": [
        ("the excess uncertainty is not positive",
         lambda rs: has_rel(rs, [m_prod(UBF)], [m_powprod(0, TTP), m_prod(LBF)], (">",)),
         lambda rs: has_rel(rs, [m_powprod(0, TTP), m_prod(LBF)], [m_prod(UBF)], (">=",))),
    ],
    "RTDP": [("the state is terminal", TR(r"isTerminal$|getIsTerminalState$", "F"), TR(r"isTerminal$|getIsTerminalState$", "T"))],
    "LRTDP": [("the state is solved", TR(r"getIsSolved$|isSolved$", "F"), TR(r"getIsSolved$|isSolved$", "T"))],
    "HDP": [
        ("the state is solved", TR(r"getIsSolved$|isSolved$", "F"), None),
        ("the residual is large", lambda rs: has_rel(rs, [m_prod(TP)], [m_prod(r"^fabs$|^abs$|^std::abs$|^std::fabs$")], (">=", ">")), None),
    ],
}
CHOICE = {"FRTDP": r"maxPrioOutcome", "HSVI": r"maxExcessUncOutcome", "RTDP": r"getSimulatedOutcome\(", "LRTDP": r"getSimulatedOutcome\("}


def s05(a):
    P, E = a.P, eT(a)
    scc, comp = trial_scc(a)
    nd = 0
    for u, (fn, ds) in scc.items():
        c = cls_of(fn)
        if c not in STOPS:
            continue
        ds = [d for d in ds if P.reachable(d)]
        # a recursion split over helpers: the call that hands over a successor is the descent
        hand = [d for d in ds if node_arg(a, d) is not None and "nextState" in fullv(E.ev(node_arg(a, d)))]
        if not hand:
            continue
        for d in hand:
            nd += 1
            pos = P.position(d)
            for what, go, stop in STOPS[c]:
                ok = guarded(a, d, go, None, 1, E)
                a.check(ok, "S05.stop", fn.where(d), "%s does not descend when %s" % (short(fn.q), what), "%s can descend although %s" % (short(fn.q), what))
            # descent target
            na = node_arg(a, d)
            t = fullv(E.ev(na))
            m = path_ix(t)
            a.check(t.endswith("nextState") and "|" not in re.sub(r"\[[^\]]*\]", "", noargs(t)), "S05.descent", fn.where(d), "%s descends to a successor of its state" % short(fn.q),
                    "%s descends to something other than a successor (%s)" % (short(fn.q), t[:100]))
            a.check(re.search(r"maxUBAction|getMaxUBAction\(|update(\.\d+)?\(", m[0]) is not None if m else False, "S05.descent", fn.where(d),
                    "%s follows the action with the best upper bound" % short(fn.q), "%s follows another action than the one with the best upper bound" % short(fn.q))
            if c in CHOICE:
                a.check(m is not None and re.search(CHOICE[c], m[1]) is not None, "S05.descent", fn.where(d), "%s follows the outcome chosen by its criterion" % short(fn.q),
                        "%s does not follow the outcome chosen by its criterion" % short(fn.q))
            elif c == "HDP":
                L = [loop_info(a, l) for l in loops_of(d)]
                ok = any(l is not None and l.kind == "count" and l.lo == ZERO and l.up and re.search(r"outcomes|NumOutcomes", vstr(l.hi)) for l in L)
                a.check(ok, "S05.descent", fn.where(d), "%s visits every outcome" % short(fn.q), "%s does not visit every outcome" % short(fn.q))
                ok = guarded(a, d, lambda rs: any(r[0] == "==" and "idx" in fullv(r[1]) and "nextState" in fullv(r[1]) for r in rs), None, 0, E)
                a.check(ok, "S05.descent", fn.where(d), "%s visits only states not yet visited in this trial" % short(fn.q), "%s can visit a state twice in a trial" % short(fn.q))
            # the action and outcome used come from an up-to-date backup: covered by S02.first; depth increases by one
            for x in d.c:
                if x is na or (x.ct or x.t) not in ("int", "unsigned int"):
                    continue
                v = vstr(E.ev(x))
                a.check(re.match(r"^\+\$int(#\d+)? \+1$", v) is not None, "S05.depth", fn.where(d), "%s passes the depth plus one" % short(fn.q), "%s passes a wrong depth on (%s)" % (short(fn.q), v[:60]))
        # the trial ends only for one of the reasons
        st = [s for _, _, s in STOPS[c]]
        if None not in st and fn.rt is not None:
            es = set()
            for s in st:
                es |= good_edges(a, fn, s, None, E)
            mine = set(d.id for d in ds)
            ok = uncut(a, fn, (fn.entry, -1), "exit", es, elem=lambda e: e.id in mine) is None
            a.check(ok, "S05.goon", fn.where(), "%s continues unless the trial is over" % short(fn.q), "%s can end a trial early" % short(fn.q))
        # first call
        for cf, n in callsites(a, fn):
            if cf.usr in comp[u]:
                continue
            for i, x in enumerate(n.c):
                if (x.ct or x.t) == "int":
                    a.check(E.ev(x) == ZERO, "S05.depth", cf.where(n), "trials start at depth zero", "%s starts a trial at depth %s" % (short(cf.q), vstr(E.ev(x))))
    a.need("S05", nd, 5, "descents")
    choice_rules(a)
    label_rules(a)


def path_ix(t):
    """(action index text, outcome index text) of ...Q[A].outcomes[O].nextState"""
    i = t.find(".Q[")
    if i < 0:
        return None
    A_, j = bracket(t, i + 2)
    k = t.find("outcomes[", j)
    if k < 0:
        return None
    O_, _ = bracket(t, k + 8)
    return A_, O_


def bracket(t, i):
    d = 0
    for j in range(i, len(t)):
        if t[j] == "[":
            d += 1
        elif t[j] == "]":
            d -= 1
            if d == 0:
                return t[i + 1:j], j
    return t[i + 1:], len(t)


def choice_rules(a):
    P, E = a.P, eT(a)
    nf = nh = 0
    for x in find_ext(a):
        c = cls_of(x.fn)
        if c not in ("FRTDP", "HSVI") or "utcome" not in fullv(E.ev(x.cand)) + (x.loop and vstr((loop_info(a, x.loop) or Loop_none).hi or ZERO) or ""):
            continue
        for p in E.ev(x.cand):
            ps, ns = [m for s, m in p if s > 0], [m for s, m in p if s < 0]
            if c == "FRTDP":
                nf += 1
                ok = not ns and len(ps) == 2 and cover(ps, [m_prod(r"getPrio$|\.prio$"), is_logw]) and x.dir == "max"
                a.check(ok, "S05.choice", x.fn.where(x.upd), "FRTDP prefers the outcome of largest weighted priority", "FRTDP prefers outcomes by %s of %s" % (x.dir, pstr(p)[:160]))
                for m in ps:
                    t = fullv(frozenset([frozenset([(1, m)])]))
                    if "rio(" in t or "prio" in t:
                        a.check("nextState" in t, "S05.choice", x.fn.where(x.upd), "the priority is the successor's", "FRTDP weighs the priority of another state")
            else:
                nh += 1
                O = r"obsProb$"
                ok = cover(ps, [m_prod(O, NUB)]) and cover(ns, [m_prod(O, NLB), m_powprod(1, O, TTP)]) and x.dir == "max"
                a.check(ok, "S05.choice", x.fn.where(x.upd), "HSVI prefers the outcome of largest weighted excess uncertainty", "HSVI prefers outcomes by %s of %s" % (x.dir, pstr(p)[:200]))
    a.need("S05", nf, 1, "FRTDP outcome selections")
    a.need("S05", nh, 1, "HSVI outcome selections")
    # the remembered outcome is handed on for the same action
    for fn in strat_fns(a):
        for n in P.calls(fn):
            if lname(n.d.get("q")) == "getSimulatedOutcome":
                t = [vstr(E.ev(x)) for x in n.c]
                a.check(len(t) == 2 and re.search(r"update(\.\d+)?\(|getMaxUBAction\(|maxUBAction", t[1]) is not None, "S05.choice", fn.where(n), "%s samples an outcome of the best action" % short(fn.q),
                        "%s samples an outcome of another action (%s)" % (short(fn.q), t[-1][:60]))
            if re.search(r"Outcome$", lname(n.d.get("q"))) and any((x.ct or x.t) == "int" for x in n.c) and lname(n.d.get("q")) != "getSimulatedOutcome" and cls_of(fn) == "FRTDP":
                t = [vstr(E.ev(x)) for x in n.c if (x.ct or x.t) == "int"]
                a.check(any(re.search(r"maxUBAction|update(\.\d+)?\(", y) for y in t), "S05.choice", fn.where(n), "%s selects among the outcomes of the best action" % short(fn.q),
                        "%s selects among the outcomes of another action (%s)" % (short(fn.q), t[0][:60]))
            if re.search(r"Outcome$", lname(n.d.get("q"))) and cls_of(fn) == "HSVI":
                dp = [x for x in n.c if (x.ct or x.t) == "int"]
                for x in dp:
                    a.check(re.match(r"^\+\$int(#\d+)?$", vstr(E.ev(x))) is not None, "S05.depth", fn.where(n), "the selection uses the depth of the state", "%s selects with another depth" % short(fn.q))
    # sampling
    for fn in P.find("zmdp::BoundPairCore::getSimulatedOutcome"):
        ok = False
        for n, lhs, op, rhs in assigns(P, fn):
            if op in ("-=", "+=") or op == "=" and "rand" in vstr(E.ev(rhs)):
                t = fullv(E.ev(rhs))
                if "obsProb" in t and "Q[$int" in t.replace("#", "") and "iv:" in t:
                    ok = True
        a.check(ok and any(lname(n.d.get("q")) == "unit_rand" for n in P.calls(fn)), "S05.sample", fn.where(), "outcomes are sampled by their probability", "%s does not sample outcomes by their probability" % short(fn.q))
    # targets
    nt = 0
    for fn, n, op, rhs, lhs, ch in field_stores(a, lambda q: q.endswith("HSVI::trialTargetPrecision")):
        if rhs is None:
            continue
        nt += 1
        v = E.ev(rhs)
        ok = op == "=" and all(cover([m for s, m in p if s > 0], [m_ratio(UBF)]) and cover([m for s, m in p if s < 0], [m_ratio(LBF)]) for p in v)
        a.check(ok, "S05.target", fn.where(n), "the trial's target is a fraction of the width at the root", "the trial target is set to %s" % vstr(v)[:100])
        if ok:
            a.check(before_trial(a, fn, n), "S05.target", fn.where(n), "the target is set before the trial", "%s sets the target after the trial" % short(fn.q))
    a.need("S05", nt, 1, "trial targets")
    # priorities after a backup
    npr = 0
    for fn in strat_fns(a, "zmdp::FRTDP"):
        for n, lhs, op, rhs in assigns(P, fn):
            l = vstr(E.ev(lhs))
            if not re.search(r"^\+getPrio\(|\.prio$", l) or op != "=":
                continue
            v = E.ev(rhs)
            t = vstr(v)
            if "new:" in vstr(a.E.ev(lhs)) or "maxPrio" not in t:
                if "log(" in t and "new:" not in l and not any("new" in vstr(a.E.ev(x)) for x in lhs.walk() if x.k == "Var"):
                    a.check(fn.short != "update", "S05.prio", fn.where(n), "priority", "the priority after a backup ignores the successors")
                continue
            npr += 1
            alts = [mstr2(p) for p in v]
            ok = all("MIN{" in x and "maxPrio" in x for x in alts) and any(re.search(r"log\(\S*ubVal -#0\.5\*\S*targetPrecision -\S*lbVal\)|log\(", x) for x in alts) and any("-#BIG" in x for x in alts)
            a.check(ok, "S05.prio", fn.where(n), "the priority after a backup is capped by the best successor", "the priority after a backup is %s" % t[:160])
    # every backup in FRTDP refreshes the choice used afterwards
    for c in ("FRTDP", "HSVI"):
        for fn in strat_fns(a, "zmdp::" + c):
            for n in P.calls(fn):
                if is_upd(n):
                    ref = lambda e: e.k == "Call" and re.search(r"Outcome$", lname(e.d.get("q"))) is not None
                    a.check(after(a, fn, n, ref, 1), "S05.prio", fn.where(n), "a backup in %s is followed by a new choice of outcome" % short(fn.q), "%s can keep the outcome chosen before the backup" % short(fn.q))


def mstr2(p):
    return pstr(p)


class Loop_none(object):
    hi = None


def m_ratio(fieldrx):
    def p(m):
        if len(m) != 2:
            return False
        c = [constm((at,)) for at in m]
        f = [at for at in m if constm((at,)) is None]
        c = [x for x in c if x is not None]
        return len(f) == 1 and len(c) == 1 and 0 < c[0] < 1 and re.search(fieldrx, noargs(mstr((f[0],)))) is not None
    return p


def is_logw(m):
    """log(discount * obsProb)"""
    if len(m) != 1:
        return False
    t = mstr(m)
    mm = re.match(r"^(?:std::)?log\(\+(.*)\)$", t)
    if not mm:
        return False
    fs = split_mul(mm.group(1))
    return len(fs) == 2 and any(x.endswith("obsProb") for x in fs) and any(re.search(r"discount$|getDiscount\(\)$", x) for x in fs)


def split_mul(t):
    res, d, cur = [], 0, ""
    for ch in t:
        if ch in "([{":
            d += 1
        elif ch in ")]}":
            d -= 1
        if ch == "*" and d == 0:
            res.append(cur)
            cur = ""
        else:
            cur += ch
    return res + [cur]


def before_trial(a, fn, n):
    scc, _ = trial_scc(a)
    return a.P.can_reach(fn, a.P.position(n), lambda e: e.k == "Call" and any(g.usr in scc for g in a.P.resolve(e))) is not None and \
        all(uncut(a, fn, (fn.entry, -1), a.P.position(d), (), elem=lambda e: e.id == n.id) is None
            for d in a.P.calls(fn) if any(g.usr in scc for g in a.P.resolve(d)))


def label_rules(a):
    """solved labels"""
    P, E = a.P, eT(a)
    nl = 0
    for fn in strat_fns(a):
        c = cls_of(fn)
        if c not in ("LRTDP", "HDP"):
            continue
        for n, lhs, op, rhs in assigns(P, fn):
            l = vstr(E.ev(lhs))
            if not re.search(r"^\+getIsSolved\(|\.isSolved$", l) or "new:" in vstr(a.E.ev(lhs)) or not P.reachable(n):
                continue
            if E.ev(rhs) == ZERO or "isTerminal" in vstr(E.ev(rhs)):
                continue
            nl += 1
            # a flag that records residuals or changed successors must be clear
            flags = []
            for x, t in P.facts_at(n):
                if strip(x).k == "Var" and fn.vars[strip(x).d["v"]]["t"] == "bool" and t in (True, False):
                    flags.append((strip(x).d["v"], t))
            good = False
            for v, t in flags:
                ds = [d for d in fn_defs(P, fn).byvar.get(v, ()) if d.rhs is not None and d.field is None]
                ini = [d for d in ds if d.kind == "init" and E.ev(d.rhs) == (const(1) if t else ZERO)]
                flip = [d for d in ds if d.kind in ("=", "|=", "&=") and (E.ev(d.rhs) == (ZERO if t else const(1)) or d.kind != "=" or flag_or(fn, d, v))]
                rest = [d for d in ds if d not in ini and d not in flip]
                if not ini or not flip or any(d.kind == "=" and d.node.k != "Decl" and not flag_or(fn, d, v) for d in rest):
                    continue
                good = True
                ids = set(d.node.id for d in flip) | set(d.node.id for d in rest)
                flagset = lambda e: e.id in ids or any(e is d.node for d in flip + rest)
                if c == "LRTDP":
                    # a large residual clears the flag on every path
                    for b, i, ats in branches(a, fn):
                        if any(all(has_rel(alt, [m_prod(r"^fabs$|^abs$")], [m_prod(TP)], (">", ">=")) for alt in dnf(a, cnd, tr, None, 0, E)) and dnf(a, cnd, tr, None, 0, E) for cnd, tr in ats):
                            s = fn.blocks[b].succ[i]
                            path = uncut(a, fn, (s, -1), P.position(n), (), elem=flagset)
                            a.check(path is None, "S05.label", fn.where(n), "a state with a large residual prevents the labels in %s" % short(fn.q),
                                    "%s can label states solved in spite of a large residual" % short(fn.q))
                            good = good and True
                else:
                    for d in P.calls(fn):
                        if d.fn is fn and any(g is fn for g in P.resolve(d)):
                            pass
            if not flags or not good:
                ok = False
            else:
                ok = True
            a.check(ok, "S05.label", fn.where(n), "states are labelled solved in %s only when no residual was found" % short(fn.q), "%s can label states solved although a residual was found" % short(fn.q))
            if c == "HDP":
                ok = guarded(a, n, lambda rs: any(r[0] == "==" and re.search(r"idx", fullv(r[1])) and re.search(r"low", fullv(r[1])) for r in rs), None, 0, a.E)
                a.check(ok, "S05.label", fn.where(n), "only complete components are labelled", "%s can label an incomplete component solved" % short(fn.q))
        # large residual stops a trial / clears the flag
        if c == "LRTDP" and fn.short == "checkSolved" or any(lname(n.d.get("q")) == "push" and "open" in vstr(E.ev(n.slot("obj"))) for n in P.calls(fn) if n.slot("obj") is not None):
            for n in P.calls(fn):
                if lname(n.d.get("q")) == "push" and n.c and fullv(E.ev(n.c[0])).endswith("nextState"):
                    bad = []
                    for x, t in P.facts_at(n):
                        s = lvstr(E.ev(x)) if x.k != "Bin" else " ".join(lvstr(E.ev(y)) for y in x.c)
                        if re.search(r"[pP]rob|Val\b|depth", s) or not re.search(r"outcomes|isSolved|IsSolved|contains|find|empty|size|residual|fabs|iv:|count", s):
                            bad.append(s)
                    a.check(not bad, "S05.label", fn.where(n), "every unsolved successor is examined", "%s skips unsolved successors (%s)" % (short(fn.q), bad[:1]))
                    L = [loop_info(a, l) for l in loops_of(n)]
                    a.check(any(l is not None and l.kind == "count" and l.lo == ZERO and l.up and re.search(r"outcomes", vstr(l.hi)) for l in L) or any(l is not None and l.kind == "range" for l in L),
                            "S05.label", fn.where(n), "all outcomes are examined", "%s does not examine every outcome" % short(fn.q))
    a.need("S05", nl, 2, "places that label states solved")


def flag_or(fn, d, v):
    """flag = flag || x"""
    return any(x.k == "Var" and x.d["v"] == v for x in d.rhs.walk())


RULES["S05"] = [s05]
TEXT.update({
    "S02.track": "on every path a requested backup is followed by a record of it, the record names the node that was backed up, and no record is made without a backup",
    "S02.route": "strategies never call an update of a single bound",
    "S02.count": "the pair's update increments the backup counter exactly once on every path and nothing else changes the counter",
    "S02.both": "the pair's update reaches each maintained bound's update on every path, for the node it was given",
    "S02.expand": "a fringe node is expanded on every path before its bounds are backed up",
    "S02.reverse": "after every descent of a depth-first strategy the node itself is backed up again; a change reported by a successor leads to a backup",
    "S02.first": "every descent of a depth-first strategy follows a backup of the node",
    "S02.trials": "the trial counter is incremented after every trial",
    "S02.log": "every tracked backup is appended to and written from the log",
    "S03.lookup": "a search node is only created on the branch where the lookup of the state's key failed",
    "S03.register": "a created node is inserted under the searched key before the function returns",
    "S03.key": "the key looked up is the hash key of the given state",
    "S03.hit": "the branch on which the key was found returns the stored node",
    "S03.init": "state, terminal flag, bounds and private data of a new node are stored on every path",
    "S03.announce": "every observer is called once with its own data after the fields are stored",
    "S03.edge": "every edge target comes from the node lookup",
    "S03.root": "the root is the node of the model's initial state",
    "S04.loop": "the solver step is called in a loop",
    "S04.reason": "every edge and statement leaving a solving loop is taken only under one of the documented reasons",
    "S04.stop": "from a solver step no path leads to another step without passing a negative test of each reason",
    "S04.step": "the step's result is exactly strategy-done or backup-limit-reached, and every step runs one trial from the root",
    "S04.done": "a strategy reports completion exactly under width < precision or solved",
    "S04.trial": "a strategy runs a trial unless the root is solved",
    "S04.limit": "each limit is the option of the same name, lifted only when that is not positive",
    "S05.stop": "every path to a descent passes the negative test of each of the strategy's stopping criteria (normal form of the criterion compared)",
    "S05.goon": "every path without a descent passes a positive test of a stopping criterion",
    "S05.descent": "the descent goes to Q[best upper-bound action].outcomes[chosen outcome].nextState",
    "S05.depth": "depth starts at zero and grows by one",
    "S05.choice": "the maximised quantity is log(discount*prob)+priority (FRTDP) or prob*(width - target*discount^-(depth+1)) (HSVI)",
    "S05.sample": "sampled outcomes subtract outcome probabilities from a uniform random number",
    "S05.target": "the trial target is a fraction below one of the root's width, set before the trial",
    "S05.prio": "a node's priority is the smaller of best successor priority and log excess width; every backup is followed by a new choice",
    "S05.label": "solved labels are stored only under a clear residual flag (and for complete components); large residuals set the flag; all successors are examined",
    "S06.attach": "private data attached to a node is freshly created, on every path of the attaching routine",
    "S06.register": "a strategy with private data registers its attaching routine",
    "S06.init": "every field of the private record is stored where it is created",
    "S06.value": "initial values: solved = terminal, idx/low infinite, priority = log excess width or minus infinity",
    "S06.order": "observers are registered before the first node can be created, and solvers are initialised before they search",
})
