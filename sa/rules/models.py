"""M02: indices of states, actions and observations are never confused."""
from rules.common import *
from kinds import *

S_, A_, O_ = "state", "action", "observation"
RULES = {}
DT = (A_, S_, S_, O_)


def seeds():
    Z = "zmdp::"
    M = Z + "CassandraModel::"

    def g(q, s):
        return ("G", q), s

    def f(q, s):
        return ("F", q), s

    def mat(r, c):
        return {"row_start": {"d0": r}, "row_length": {"d0": r}, "col": {"el": c}, "row": {"d0": r, "el": {"column": c}}, "num_rows": r}
    tm = {"d0": A_, "el": {"d0": S_, "d1": S_}, "el0": {"d0": S_, "d1": S_}}
    om = {"d0": A_, "el": {"d0": S_, "d1": O_}, "el0": {"d0": S_, "d1": O_}}
    return [f(M + "numStates", S_), f(Z + "MDP::numActions", A_), f(M + "numObservations", O_), f(M + "R", {"d0": S_, "d1": A_}),
            f(M + "T", tm), f(M + "Ttr", tm), f(M + "O", om), f(M + "isTerminalState", {"d0": S_}), f(M + "initialBelief", {"d0": S_}),
            g("gNumStates", S_), g("gNumActions", A_), g("gNumObservations", O_), g("gInitialState", S_), g("gInitialBelief", {"d0": S_}),
            g("minA", A_), g("maxA", A_), g("minI", S_), g("maxI", S_), g("minJ", S_), g("maxJ", S_), g("minObs", O_), g("maxObs", O_),
            g("IP", {"d0": A_, "el": mat(S_, S_)}), g("P", {"d0": A_, "el": mat(S_, S_)}), g("IR", {"d0": A_, "el": mat(S_, O_)}),
            g("R", {"d0": A_, "el": mat(S_, O_)}), g("IQ", mat(A_, S_)), g("Q", mat(A_, S_))]


def kinds(a):
    K = getattr(a.P, "_kinds", None)
    if K is None:
        K = Kinds(a.P, a.E, seeds(), opaque={"numStateDimensions", "number", "rep", "gCurIMatrix", "theInt"},
                  tagged={"H_lookup": {"nt_state": S_, "nt_action": A_, "nt_observation": O_}}, varying={"curRow", "curCol"},
                  psig={"dtInit": (A_, S_, O_), "dtAdd": DT, "dtGet": DT, "getImmediateReward": DT, "newImmReward": DT})
        K.run()
        a.P._kinds = K
    return K


def expr(n):
    return "%s" % (n.d.get("n") or n.d.get("q") or n.k)


def m02_kinds(a):
    K = kinds(a)
    seen = set()
    for at, k in K.sites:
        if at is None:
            continue
        key = (at.fn.usr, at.id, k)
        if key not in seen:
            seen.add(key)
            a.ok("M02.kind", at.fn.where(at), "%s index in %s" % (k, short(at.fn.q)))
    done = set()
    for at, x, y in K.conflicts:
        if at is None:
            a.fail("M02.kind", "src", "a %s index meets a %s index" % (x, y))
            continue
        key = (at.fn.q, x, y)
        if key in done:
            continue
        done.add(key)
        a.fail("M02.kind", at.fn.where(at), "%s: a %s index is used where a %s index belongs" % (short(at.fn.q), x, y), key="M02.kind %s %s %s" % key)
    a.need("M02.kind", len(seen), 300, "uses of an index whose kind is known")


def count_like(K, n):
    """an expression that is a whole count: -> offset from it, or None"""
    n = strip(n)
    off = 0
    while n.k == "Bin" and n.d["op"] in ("+", "-") and K.const(n.c[1]):
        v = K.cval(n.c[1])
        if not isinstance(v, int):
            return None
        off += v if n.d["op"] == "+" else -v
        n = strip(n.c[0])
    if n.k == "Mem" and re.match(r"num|size", n.d["n"]) or n.k == "Global" and re.match(r"gNum", n.d["q"]):
        return off
    if n.k == "Call" and re.match(r"get_?num|size", last(n.d.get("q") or ""), re.I):
        return off
    if n.k == "Var":
        fn = n.fn
        if K.web(fn, n.d["v"]):
            ds, entry = K.E.reaching(fn, n.d["v"], K.P.position(n))
            if not entry and len(ds) == 1 and ds[0].kind in ("init", "=") and ds[0].rhs is not None:
                r = count_like(K, ds[0].rhs)
                return None if r is None else off + r
    return None


def m02_range(a):
    """a loop over all states, actions or observations covers them all"""
    K, P = kinds(a), a.P
    nl = 0
    for fn in sorted(P.funcs.values(), key=lambda f: (f.file, f.line)):
        if not K.body(fn):
            continue
        for n in P.all_nodes(fn):
            if n.k not in ("For", "While", "Do"):
                continue
            c = n.slot("cond")
            if c is None:
                continue
            for b in conj(c):
                if b.k != "Bin" or b.d["op"] not in ("<", "<=", ">", ">=", "!="):
                    continue
                for i, o, op in ((b.c[0], b.c[1], b.d["op"]), (b.c[1], b.c[0], {"<": ">", "<=": ">=", ">": "<", ">=": "<=", "!=": "!="}[b.d["op"]])):
                    v = strip(i)
                    if v.k != "Var" or not K.web(fn, v.d["v"]):
                        continue
                    steps, starts = stepping(K, fn, v, n)
                    if steps is None:
                        continue
                    if steps == 1 and op in ("<", "<=", "!="):
                        off = count_like(K, o)
                        t = K.ev(i)
                        k = find(t).kind if t is not None else None
                        if off is None or k is None or not starts:
                            continue
                        nl += 1
                        top = off if op != "<=" else off + 1
                        a.check(top == 0 or top < 0 and apart(K, fn, n, v, lambda x: count_like(K, x), range(top, 0)), "M02.range", fn.where(b), "the loop ends after the last %s" % k,
                                "%s: the loop over the %ss %s" % (short(fn.q), k, "stops before the last one" if top < 0 else "runs past the last one"),
                                key="M02.range %s %s" % (fn.q, k))
                        for s in starts:
                            if isinstance(s, int):
                                a.check(s == 0 or s > 0 and apart(K, fn, n, v, lambda x: K.cval(x) if K.const(x) else None, range(s)), "M02.range", fn.where(n), "the loop begins with the first %s" % k,
                                        "%s: the loop over the %ss begins with number %d" % (short(fn.q), k, s), key="M02.start %s %s" % (fn.q, k))
                    elif steps == -1 and op in (">", ">=", "!="):
                        t = K.ev(i)
                        k = find(t).kind if t is not None else None
                        e = K.cval(o) if K.const(o) else None
                        if k is None or not isinstance(e, int) or not starts:
                            continue
                        low = e if op == ">=" else e + 1
                        if all(isinstance(s, tuple) for s in starts):
                            nl += 1
                            a.check(low == 0, "M02.range", fn.where(b), "the loop ends with the first %s" % k, "%s: the loop over the %ss never reaches the first one" % (short(fn.q), k))
    a.need("M02.range", nl, 30, "loops over a count")


def conj(c):
    c = strip(c)
    if c.k == "Bin" and c.d["op"] == "&&":
        return conj(c.c[0]) + conj(c.c[1])
    return [c]


def stepping(K, fn, v, loop):
    """(step, starts) of the loop's variable: starts are constants, ("count", off) or None"""
    inside = {x.id for x in loop.walk()}
    steps, starts = set(), []
    for d in fn_defs(K.P, fn).byvar.get(v.d["v"], ()):
        if d.node.id in inside and d.node.p is not None and not (loop.slot("init") is not None and d.node.id in {x.id for x in loop.slot("init").walk()}):
            if d.kind == "++":
                steps.add(1)
            elif d.kind == "--":
                steps.add(-1)
            elif d.kind in ("+=", "-=") and d.rhs is not None and K.const(d.rhs) and isinstance(K.cval(d.rhs), int):
                steps.add(K.cval(d.rhs) * (1 if d.kind == "+=" else -1))
            elif d.kind != "decl":
                return None, ()
    if len(steps) != 1:
        return None, ()
    init = loop.slot("init")
    ids = {x.id for x in init.walk()} if init is not None else set()
    cand = [d for d in fn_defs(K.P, fn).byvar.get(v.d["v"], ()) if d.node.id in ids]
    if not cand:
        ds, entry = K.E.reaching(fn, v.d["v"], K.P.position(v))
        cand = [d for d in ds if d.node.id not in inside]
        if entry:
            return steps.pop(), (None,)
    for d in cand:
        if d.rhs is None:
            starts.append(None)
        elif K.const(d.rhs):
            starts.append(K.cval(d.rhs))
        else:
            c = count_like(K, d.rhs)
            starts.append(("count", c) if c is not None else None)
    return steps.pop(), tuple(starts)


def apart(K, fn, loop, v, value, want):
    """the entries the loop leaves out are dealt with one by one, outside the loop"""
    inside = {x.id for x in loop.walk()}
    boxes = set()
    for x in loop.walk():
        if x.k == "Idx" and any(y.k == "Var" and y.d["v"] == v.d["v"] for y in x.c[1].walk()):
            boxes.add(K.sigof(x.c[0]))
        elif x.k == "Call" and x.d.get("oper") in ("[]", "()") and x.slot("obj") is not None:
            boxes.add(K.sigof(x.slot("obj")))
    left = set(want)
    for x in K.P.all_nodes(fn):
        if x.id in inside:
            continue
        if x.k == "Idx" and K.sigof(x.c[0]) in boxes:
            left.discard(value(x.c[1]))
        elif x.k == "Call" and x.d.get("oper") in ("[]", "()") and x.slot("obj") is not None and x.c and K.sigof(x.slot("obj")) in boxes:
            left.discard(value(x.c[0]))
    return not left


def m02_levels(a):
    """the reward tree's levels: each position of an index tuple has the kind of the table size kept for that level"""
    K = kinds(a)
    byfile = {}
    for key, t in list(K.shared.items()) + list(K.local.items()):
        t = find(t)
        ks = {int(k[2:]): find(u).kind for k, u in t.kids.items() if re.match(r"el\d+$", k) and find(u).kind}
        if len(ks) < 3:
            continue
        if key[0] == "G":
            f = [g for g in a.P.globals if g == key[1]]
            fl = a.P.globals[key[1]].get("f") if f else None
        else:
            g = a.P.funcs.get(key[0])
            fl = g.file if g is not None else None
        if fl:
            byfile.setdefault(fl, []).append((str(key[1]), ks))
    for fl, l in sorted(byfile.items()):
        ref = l[0][1]
        for nm, ks in l:
            for i in ks:
                if i in ref:
                    a.check(ks[i] == ref[i], "M02.levels", fl, "level %d is indexed by a %s everywhere" % (i, ref[i]),
                            "level %d of the reward tree is indexed by a %s in one place and by a %s in another" % (i, ref[i], ks[i]))


RULES["M02"] = [m02_kinds, m02_range, m02_levels]

TEXT = {
    "M02.kind": "every index, count and table dimension whose kind (state, action, observation) is determined is used only with that kind",
    "M02.range": "a loop over a whole count starts at the first element and ends after the last",
    "M02.levels": "each position of a reward-tree index has the same kind wherever it is used",
}
