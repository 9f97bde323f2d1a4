"""M01, M11, X02: belief tracking, table-driven models, the model cache."""
from rules.common import *
import vals
from flow import last

RULES = {}


def unhash(s):
    for _ in range(6):
        t = re.sub(r"~[0-9a-f]+", lambda m: vals.HASHED.get(m.group(0), m.group(0)), s)
        if t == s:
            break
        s = t
    return s


def factors(s):
    """split a product at its top-level '*'"""
    out, d, cur = [], 0, ""
    for ch in s:
        if ch in "([{":
            d += 1
        elif ch in ")]}":
            d -= 1
        if ch == "*" and d == 0:
            out.append(cur)
            cur = ""
        else:
            cur += ch
    return out + [cur]


def tidy(s):
    """order the factors of every product, innermost first"""
    def inner(m):
        return m
    def rec(t):
        # recurse into parentheses
        out, i = "", 0
        while i < len(t):
            if t[i] in "([":
                d, j = 1, i + 1
                while j < len(t) and d:
                    d += {"(": 1, "[": 1, ")": -1, "]": -1}.get(t[j], 0)
                    j += 1
                out += t[i] + rec(t[i + 1:j - 1]) + t[j - 1:j]
                i = j
            else:
                out += t[i]
                i += 1
        sgn = out[:1] if out[:1] in "+-" else ""
        d = 0
        for ch in out:
            d += {"(": 1, "[": 1, "{": 1, ")": -1, "]": -1, "}": -1}.get(ch, 0)
            if d == 0 and ch in " ,":
                return out
        f = factors(out[len(sgn):])
        return (sgn or "+") + "*".join(sorted(f)) if len(f) > 1 else out
    return rec(s)


def canon(a, fn, v, names=None):
    """alternatives of a value as texts, parameters named by position, classes of members dropped"""
    out = set()
    lab = []
    for i, p in enumerate(fn.params):
        for q in a.E.param(fn, p, None, None):
            lab.append((pstr(q)[1:], "P%d" % i))
    lab.sort(key=lambda x: -len(x[0]))
    for q in v:
        s = unhash(pstr(q))
        for x, y in lab:
            s = re.sub(re.escape(x) + r"(?![\w#])", y, s)
        s = re.sub(r"@\w+\.", "@", s)
        s = tidy(s)
        out.add(s)
    return out


def rets(a, fn):
    return [n for n in a.P.all_nodes(fn) if n.k == "Return" and n.c and a.P.reachable(n)]


def result(a, fn):
    """what the function returns or leaves in its first (result) parameter"""
    return a.E.exitval(fn, fn.params[0], None)


BEL = {"prob": [r"+@O[P2]^t*@T[P2]^t*P1"],
       "next": [r"+/sum(+@O[P2][:,P3]*@T[P2]^t*P1)*@O[P2][:,P3]*@T[P2]^t*P1"],
       "reward": ["+@R[:,P1]*P0", "+@R[P0.data[].index,P1]*P0.data[].value"]}


def norm(s):
    return tidy(s)


def same(a, rule, fn, got, want, what, msg):
    got = set(x for x in got)
    ok = bool(got) and got <= set(norm(w) for w in want)
    a.check(ok, rule, "%s:%s" % (fn.file, fn.line), what, "%s %s: %s" % (short(fn.q), msg, " | ".join(sorted(got))[:260]), key="%s %s" % (rule, fn.q))
    return ok


def drop_entry(got, name="P0"):
    """the untouched result parameter is no value of its own"""
    return set(x for x in got if x != "+" + name)


def m01(a):
    P, E = a.P, a.E
    n = 0
    for fn in P.funcs.values():
        if fn.cls != "zmdp::Pomdp" or not fn.blocks:
            continue
        nm = fn.q.split("::")[-1]
        if nm in ("getObsProbVector", "getOutcomeProbVector") and len(fn.params) == 3:
            n += 1
            same(a, "M01.observation", fn, drop_entry(canon(a, fn, result(a, fn) or ())), BEL["prob"],
                 "observation probabilities are the observation matrix applied to the predicted belief of the executed action", "does not return O[a]' * T[a]' * b")
        elif nm in ("getNextBelief", "getNextState") and len(fn.params) == 4:
            n += 1
            same(a, "M01.posterior", fn, drop_entry(canon(a, fn, result(a, fn) or ())), BEL["next"],
                 "the next belief is O[a](:,o) .* (T[a]' b) divided by its own sum", "does not return the normalised posterior of the executed action and the observation")
        elif nm == "getReward" and len(fn.params) == 2:
            for r in rets(a, fn):
                n += 1
                same(a, "M01.reward", fn, canon(a, fn, E.ev(r.c[0])), BEL["reward"], "the reward of a belief is the belief-weighted state reward of the action", "does not return the belief-weighted reward")
        elif nm in ("getInitialBelief", "getInitialState") and not fn.params:
            for r in rets(a, fn):
                n += 1
                same(a, "M01.initial", fn, canon(a, fn, E.ev(r.c[0])), ["+@initialBelief"], "tracking starts from the model's initial belief", "returns something else than the initial belief")
        elif nm == "getIsTerminalState" and len(fn.params) == 1:
            n += terminal(a, fn)
    a.need("M01", n, 6, "routines of the belief model")
    track(a)


def terminal(a, fn):
    P, E = a.P, a.E
    n = 0
    for r in rets(a, fn):
        n += 1
        got = canon(a, fn, E.ev(r.c[0]))
        ok = all(re.match(r"\+\[\+P0\.data\[\]\.value <=? \+#(1e-\d+|\d*\.?0+1)\]$|\+\[\+#(1e-\d+) >=? \+P0\.data\[\]\.value\]$|\+\[\+rec <=? \+#(1e-\d+|\d*\.?0+1)\]$|\+\[\+#(1e-\d+) >=? \+rec\]$", g) for g in got)
        ok = ok or all(g in ("0", "+1") for g in got)
        a.check(ok and bool(got), "M01.terminal", fn.where(r), "a belief is terminal when the weight outside terminal states is (nearly) zero",
                "%s decides terminal beliefs by %s" % (short(fn.q), " | ".join(sorted(got))[:160]), key="M01.terminal %s" % fn.q)
    for nd, lhs, op, rhs in assigns(P, fn):
        lv = strip(lhs)
        selfadd = op == "=" and lv.k == "Var" and any(y.k == "Var" and y.d["v"] == lv.d["v"] for y in rhs.walk())
        if selfadd:
            b = strip(rhs)
            terms = [strip(y) for y in b.c] if b.k == "Bin" and b.d.get("op") == "+" else []
            rest = [y for y in terms if not (y.k == "Var" and y.d["v"] == lv.d["v"])]
            n += 1
            a.check(len(terms) == 2 and len(rest) == 1 and all(re.match(r"\+P0\.data\[\]\.value$", g) for g in canon(a, fn, E.ev(rest[0]))), "M01.terminal", fn.where(nd), "the weights are added up",
                    "%s does not add up the weights of the states" % short(fn.q), key="M01.terminal-sum %s" % fn.q)
        if selfadd or op == "+=" and any(".value" in g for g in canon(a, fn, E.ev(rhs))):
            n += 1
            ok = guarded(a, nd, TRmatch(a, fn, r"isTerminalState\[.*\.data\[\]\.index\]", "F"), depth=0)
            a.check(ok, "M01.terminal", fn.where(nd), "only states that are not terminal count", "%s counts the weight of states without looking whether that state is terminal" % short(fn.q),
                    key="M01.terminal-guard %s" % fn.q)
    return n


def TRmatch(a, fn, rx_, want):
    r_ = re.compile(rx_)

    def p(rs):
        for r in rs:
            if r[0] == want and isinstance(r[1], frozenset) and any(r_.search(x) for x in canon(a, fn, r[1])):
                return True
        return False
    return p


def belief_sets(a, fn, depth=1):
    """places in fn that set the tracked belief: (element, target, value, context of the value)"""
    P = a.P
    own = lambda n: n.k == "Mem" and n.d["n"] == "currentState"
    sets = [(x, lhs, rhs, None) for x, lhs, op, rhs in assigns(P, fn) if own(lhs) and op == "="]
    for c in P.calls(fn):
        if last(c.d.get("q") or "") == "getNextState" and c.c and own(strip(c.c[0])) and not any(own(y) for b in c.c[1:] for y in b.walk()):
            sets.append((c, strip(c.c[0]), c, None))
        elif depth and c.k == "Call" and c.slot("obj") is None or c.k == "Call" and c.slot("obj") is not None and c.slot("obj").k == "This":
            for g in P.resolve(c):
                if g.cls == fn.cls and g is not fn and g.blocks and g.short not in ("advanceToNextState", "setToInitialState"):
                    inner = belief_sets(a, g, depth - 1) if depth else []
                    ids = set(x.id for x, _, _, _ in inner)
                    if inner and uncut(a, g, (g.entry, -1), "exit", set(), lambda e: e.id in ids) is None:
                        sets += [(c, l, r, vals.Ctx(c, fn, None)) for x, l, r, k in inner]
    return sets


def track(a):
    """the belief kept while a policy runs follows the executed action and the observation received"""
    P, E = a.P, a.E
    n = 0
    for fn in sorted(P.funcs.values(), key=lambda f: f.q):
        if not fn.blocks or not fn.cls or fn.impl:
            continue
        nm = fn.q.split("::")[-1]
        sets = belief_sets(a, fn)
        if nm == "advanceToNextState" and len(fn.params) == 2 and (sets or field_named(P, fn.cls, "currentState")):
            n += 1
            must_set(a, fn, sets, ["+@mdp.getNextState(+@currentState,+P0,+P1)", "+@mdp.getNextState(+@currentState,+@currentState,+P0,+P1)"], "M01.track", "advances to the successor of the current belief under the executed action and its observation")
        elif nm == "setToInitialState" and (sets or field_named(P, fn.cls, "currentState")):
            n += 1
            must_set(a, fn, sets, ["+@mdp.getInitialState()"], "M01.track", "starts from the model's initial state")
    a.need("M01.track", n, 1, "belief-tracking routines")
    for fn in P.find("zmdp::MDPSim::performAction"):
        sets = [(x, lhs, rhs) for x, lhs, op, rhs in assigns(P, fn) if lhs.k == "Mem" and lhs.d["n"] == "state" and op == "="]
        draw = "+chooseFromDistribution(+@model.getOutcomeProbVector(+@state,+P0))"
        must_set(a, fn, sets, ["+@model.getNextState(+@state,+P0,%s)" % draw, "+@model.getNextState(+@state,+P0,~)"], "M01.simulate",
                 "moves to the successor under the action and an outcome drawn from that action's distribution")
        sets = [(x, lhs, rhs) for x, lhs, op, rhs in assigns(P, fn) if lhs.k == "Mem" and lhs.d["n"] == "lastOutcomeIndex" and op == "="]
        must_set(a, fn, sets, ["+chooseFromDistribution(+@model.getOutcomeProbVector(+@state,+P0))"], "M01.simulate", "reports the outcome that was drawn")
        for x in P.calls(fn):
            if (x.d.get("q") or "").endswith("::getNextState") and len(x.c) == 4:
                got = canon(a, fn, E.ev(x.c[3]))
                a.check(got == {draw}, "M01.simulate", fn.where(x), "the successor is that of the drawn outcome", "%s moves to the successor of %s" % (short(fn.q), " | ".join(sorted(got))[:120]))
        # both uses are one and the same draw
        nd = [x for x in P.calls(fn) if (x.d.get("q") or "").endswith("chooseFromDistribution")]
        a.check(len(nd) <= 1, "M01.simulate", "%s:%s" % (fn.file, fn.line), "one outcome is drawn per step", "%s draws more than one outcome per step" % short(fn.q))
    for fn in P.find("zmdp::MDPSim::restart"):
        sets = [(x, lhs, rhs) for x, lhs, op, rhs in assigns(P, fn) if lhs.k == "Mem" and lhs.d["n"] == "state" and op == "="]
        must_set(a, fn, sets, ["+@model.getInitialState()"], "M01.simulate", "restarts from the model's initial state")


def field_named(P, cls, name):
    for r in P.records.values():
        if r["q"] == cls or cls in [x["q"] for x in P.subclasses(r["q"])]:
            if any(f["q"].split("::")[-1] == name for f in r.get("fields", ())):
                return True
    return False


def must_set(a, fn, sets, want, rule, what):
    P, E = a.P, a.E
    w = "%s:%s" % (fn.file, fn.line)
    ids = set(x[0].id for x in sets)
    path = uncut(a, fn, (fn.entry, -1), "exit", set(), lambda e: e.id in ids)
    if path is None or not sets:
        # set by a helper?
        if not sets:
            a.fail(rule, w, "%s never %s" % (short(fn.q), what), key="%s %s none" % (rule, fn.q))
            return
    a.check(path is None, rule, w, "%s: on every path" % short(fn.q), "%s can return without having done so: %s" % (short(fn.q), what), key="%s %s path" % (rule, fn.q))
    for x, lhs, rhs, ctx in [(tuple(x) + (None,))[:4] for x in sets]:
        got = canon(a, fn, E.ev(rhs, ctx))
        ok = bool(got) and got <= set(norm(y) for y in want)
        a.check(ok, rule, fn.where(x), what, "%s does not do this: %s; it takes %s" % (short(fn.q), what, " | ".join(sorted(got))[:200]), key="%s %s value" % (rule, fn.q))


RULES["M01"] = [m01]
TEXT = {
    "M01.observation": "probability of an observation = O[a]' * T[a]' * b",
    "M01.posterior": "next belief = O[a](:,o) .* (T[a]' b), divided by its own sum",
    "M01.reward": "belief reward = R(:,a) . b",
    "M01.initial": "tracking starts at the initial belief",
    "M01.terminal": "terminal belief: no weight on non-terminal states",
    "M01.track": "policy execution advances its belief with the executed action and received observation",
    "M01.simulate": "the simulator draws one outcome and moves to its successor",
}


# ---------------------------------------------------------------- M11
def cell(P_):
    """the table entry of the only coordinate of a listed state"""
    return "%s[0]" % P_


def counter_ok(a, fn, v, loop):
    """v counts the entries the loop has gone through, from zero, once per round: None or what is wrong"""
    P, E = a.P, a.E
    ids = set(y.id for y in loop.walk())
    ds = fn_defs(P, fn).byvar.get(v, ())
    ins = [d for d in ds if d.node.id in ids]
    if not ins or any(d.kind not in ("++",) and not (d.kind == "+=" and vstr(E.ev(d.rhs)) == "+1") for d in ins) or len(ins) != 1:
        return "is not counted up by one"
    outs = [d for d in ds if d.node.id not in ids]
    if not outs or any(d.rhs is None or d.kind not in ("init", "=") or vstr(E.ev(d.rhs)) not in ("0", "-1") for d in outs):
        return "does not start from the first entry"
    start = set(vstr(E.ev(d.rhs)) for d in outs)
    return (ins[0], start.pop() if len(start) == 1 else None)


def entry_loops(a, fn, node):
    """innermost loop over the entries of one column around node: (loop, {canonical column positions})"""
    P, E = a.P, a.E
    for l in loops_of(node):
        if any(n.k == "Mem" and n.d["q"] == "sla::cvector_entry::" + w for n in l.walk() for w in ("value", "index")):
            return l
    return None


def columns(a, fn):
    """col_starts subscripts of the function: {(matrix, column)}"""
    P, E = a.P, a.E
    out = {}
    for n in P.all_nodes(fn):
        if n.k == "Call" and n.d.get("oper") == "[]" and n.slot("obj") is not None:
            o = strip(n.slot("obj"))
            if o.k == "Mem" and o.d["n"] == "col_starts":
                m = canon(a, fn, E.ev(o.c[0]))
                c = canon(a, fn, E.ev(n.c[0]))
                out.setdefault(("|".join(sorted(m)), "|".join(sorted(c))), n)
    return out


def step_expr(n):
    n = strip(n)
    if n.k == "Un" and n.d["op"] in ("post++", "++"):
        return strip(n.c[0]), n.d["op"]
    return n, None


def m11(a):
    P, E = a.P, a.E
    cls = "zmdp::GenericDiscreteMDP"
    nn = 0
    for fn in P.funcs.values():
        if fn.cls != cls or not fn.blocks:
            continue
        nm = fn.q.split("::")[-1]
        w = "%s:%s" % (fn.file, fn.line)
        if nm in ("getOutcomeProbVector", "getNextState"):
            nn += 1
            S, A_ = "P1[0]", "P2"
            cols = columns(a, fn)
            if not cols:
                helpers = [g for c in P.calls(fn) for g in P.resolve(c) if g.blocks and columns(a, g)]
                if helpers:
                    a.ok("M11.column", w, "delegates to %s" % short(helpers[0].q))
                    continue
            if cols:
                want = {("+@Ttr[P2]", "+P1[0]"), ("+@Ttr[P2]", "+1 +P1[0]"), ("+@Ttr[P2]", "+P1[0] +1")}
                bad = [k for k in cols if k not in want]
                a.check(not bad and len(cols) == 2, "M11.column", w, "%s goes through the entries of the current state's column of the action's transition table" % short(fn.q),
                        "%s goes through other entries than those of the current state under the executed action: %s" % (short(fn.q), bad[:2]), key="M11.column %s" % fn.q)
            if nm == "getOutcomeProbVector":
                st = [(x, lhs, rhs) for x, lhs, op, rhs in assigns(P, fn) if op == "=" and any("data[]." in g for g in canon(a, fn, E.ev(rhs)))]
                a.check(len(st) == 1, "M11.probability", w, "one store of an outcome's probability", "%s does not store each outcome's probability once" % short(fn.q))
                for x, lhs, rhs in st:
                    got = canon(a, fn, E.ev(rhs))
                    a.check(got == {"+@Ttr[P2].data[].value"}, "M11.probability", fn.where(x), "an outcome's probability is the entry's value", "%s stores %s as an outcome's probability" % (short(fn.q), sorted(got)[:2]))
                    l = entry_loops(a, fn, x)
                    t = strip(lhs)
                    ix = t.c[0] if t.k == "Call" and t.c else t.c[1] if t.k == "Idx" else None
                    if ix is not None and l is not None:
                        v, st_ = step_expr(ix)
                        order(a, fn, x, v, st_, l, "M11.order", "outcomes are numbered in the order of the entries")
                        every(a, fn, l, x, "M11.order")
                rs = [c for c in P.calls(fn) if (c.d.get("q") or "").endswith("dvector::resize") and c.slot("obj") is not None]
                for c in rs:
                    got = canon(a, fn, E.ev(c.c[0]))
                    a.check(got <= {"+@Ttr[P2].filled_in_column(+P1[0])"} | set(g for g in got if re.match(r"\+iv:", g)), "M11.count", fn.where(c), "as many outcomes as entries in the column",
                            "%s makes room for %s outcomes" % (short(fn.q), sorted(got)[:2]))
                a.check(bool(rs), "M11.count", w, "the outcome list is sized", "%s never sizes the outcome list" % short(fn.q))
            else:
                st = [c for c in P.calls(fn) if (c.d.get("q") or "").endswith("::push_back") and c.slot("obj") is not None and len(c.c) == 2]
                a.check(bool(st), "M11.successor", w, "the successor is stored", "%s never stores a successor" % short(fn.q))
                for c in st:
                    got = canon(a, fn, E.ev(c.c[1]))
                    a.check(got == {"+@Ttr[P2].data[].index"} and canon(a, fn, E.ev(c.c[0])) == {"0"}, "M11.successor", fn.where(c), "the successor is the entry's row", "%s returns %s as the successor" % (short(fn.q), sorted(got)[:2]))
                    l = entry_loops(a, fn, c)
                    if l is None:
                        continue
                    hit = None
                    for y in l.walk():
                        if y.k == "Bin" and y.d["op"] in ("==", "!="):
                            for i in (0, 1):
                                v, st_ = step_expr(y.c[i])
                                o = strip(y.c[1 - i])
                                if v.k == "Var" and o.k == "Var" and fn.params and o.d["v"] == fn.params[3]:
                                    hit = (y, v, st_)
                    a.check(hit is not None, "M11.order", fn.where(c), "the successor of the requested outcome is selected", "%s does not select the entry of the requested outcome" % short(fn.q))
                    if hit:
                        order(a, fn, hit[0], hit[1], hit[2], l, "M11.order", "outcomes are counted in the order of the entries")
                        every(a, fn, l, hit[0], "M11.order")
                        yes = [n for n, t in P.facts_at(c) if n.id == hit[0].id and t == (hit[0].d["op"] == "==")]
                        a.check(bool(yes), "M11.order", fn.where(c), "only when the count equals the requested outcome", "%s takes an entry although its number is not the requested one" % short(fn.q))
        elif nm == "getReward":
            for r in rets(a, fn):
                nn += 1
                same(a, "M11.reward", fn, canon(a, fn, E.ev(r.c[0])), ["+@R[P0[0],P1]"], "the reward is the table entry of the current state and action", "returns another reward than the table's")
        elif nm == "getIsTerminalState":
            for r in rets(a, fn):
                nn += 1
                got = set(re.sub(r"\.operator bool\(\)", "", g) for g in canon(a, fn, E.ev(r.c[0])))
                same(a, "M11.terminal", fn, got, ["+@isTerminalState[P0[0]]"], "terminal as marked in the table", "does not report the table's terminal mark")
        elif nm == "getInitialState":
            for r in rets(a, fn):
                nn += 1
                same(a, "M11.initial", fn, canon(a, fn, E.ev(r.c[0])), ["+@initialState"], "starts in the model's initial state", "returns another initial state")
    a.need("M11", nn, 4, "routines of the listed model")
    horizon(a)
    termtable(a)


def order(a, fn, at, v, stepped, loop, rule, what):
    """the number used for an entry is its position in the loop"""
    if v.k != "Var":
        return
    r = counter_ok(a, fn, v.d["v"], loop)
    if isinstance(r, str):
        a.fail(rule, fn.where(at), "%s: the outcome number %s" % (short(fn.q), r))
        return
    d, start = r
    if stepped == "post++":
        good = start == "0"
    elif stepped == "++":
        good = start == "-1"
    else:
        # stepped elsewhere: before or after the use in the round
        P = a.P
        pu, pd = P.position(at), d.pos
        before = reaches_in_round(a, fn, d.node, at, loop)
        good = start == ("-1" if before else "0")
    a.check(good, rule, fn.where(at), what, "%s: the first entry does not get number zero" % short(fn.q))
    b = every(a, fn, loop, d.node, rule)


def reaches_in_round(a, fn, x, y, loop):
    """x comes before y within one round of the loop"""
    P = a.P
    px, py = P.position(x), P.position(y)
    if px is None or py is None:
        return False
    if px[0] == py[0]:
        return px[1] < py[1]
    cond = loop.slot("cond")
    heads = set(b for b in fn.blocks if fn.blocks[b].term is not None and fn.blocks[b].term is loop)
    st, seen = [px[0]], set()
    while st:
        b = st.pop()
        if b in seen:
            continue
        seen.add(b)
        for s in fn.blocks[b].succ:
            if s is None or s in heads:
                continue
            if s == py[0]:
                return True
            st.append(s)
    return False


def every(a, fn, loop, node, rule):
    """node is executed in every round of the loop that goes on to another round"""
    P = a.P
    body = loop.slot("body")
    pos = P.position(node)
    if body is None or pos is None:
        return True
    ids = set(y.id for y in body.walk())
    bl = set()
    for y in body.walk():
        p = P.position(y)
        if p:
            bl.add(p[0])
    inc = set()
    for s in ("inc", "cond"):
        x = loop.slot(s)
        for y in (x.walk() if x is not None else ()):
            p = P.position(y)
            if p:
                inc.add(p[0])
    if not bl or not inc or pos[0] in inc:
        return True
    first = None
    # from the edge into the body to the next evaluation of the loop's head without passing node
    heads = [b for b in inc]
    entries = [s for b in heads for s in fn.blocks[b].succ if s in bl]
    st, seen = list(entries), set()
    ok = True
    while st:
        b = st.pop()
        if b in seen or b == pos[0]:
            continue
        seen.add(b)
        for s in fn.blocks[b].succ:
            if s is None:
                continue
            if s in inc:
                ok = False
            elif s in bl or True:
                st.append(s)
    a.check(ok, rule, fn.where(node), "in every round", "%s: entries can be passed over without being counted" % short(fn.q))
    return ok


def horizon(a):
    """the discount sum of listed models"""
    P, E = a.P, a.E
    for fn in P.find("zmdp::GenericDiscreteMDP::getLongTermFactor"):
        for r in rets(a, fn):
            t = " | ".join(sorted(canon(a, fn, E.ev(r.c[0]))))
            a.check("/(+1 -@discount)" in t, "M11.horizon", fn.where(r), "long-term factor 1/(1-discount)", "%s does not sum the discounted horizon" % short(fn.q))


def termtable(a):
    """terminal marks: only states that never leave themselves and never earn anything"""
    P, E = a.P, a.E
    n = 0
    for fn in P.find("zmdp::CassandraModel::checkForTerminalStates"):
        res = [c for c in P.calls(fn) if (c.d.get("q") or "").endswith(("::resize", "::assign")) and c.slot("obj") is not None and "isTerminalState" in vstr(E.ev(c.slot("obj")))]
        st = [(x, lhs, rhs) for x, lhs, op, rhs in assigns(P, fn) if "isTerminalState[" in vstr(E.ev(lhs)) and op == "="]
        a.check(bool(st) or bool(res), "M11.terminal-table", "%s:%s" % (fn.file, fn.line), "terminal marks are computed", "%s computes no terminal marks" % short(fn.q))
        for x, lhs, rhs in st:
            n += 1
            v = canon(a, fn, E.ev(rhs))
            if v == {"0"}:
                # unmarked exactly when some action leaves the state or earns something
                ws = [l for l in x.ancestors() if l.k == "If"]
                alts = dnf(a, ws[0].slot("cond"), True) if ws else [[]]
                kinds_ = []
                signs = set()
                for alt in alts:
                    t = [unhash(r_[0] + " " + " | ".join(sorted(canon(a, fn, r_[1])))) for r_ in alt if isinstance(r_[1], frozenset)]
                    leaves = any(re.match(r">=? .*\+fabs\(.*@T\[", y) for y in t)
                    earns = any(re.match(r"(!=|>|T) .*@R\[", y) for y in t)
                    kinds_.append("leaves" if leaves else "earns" if earns else "?")
                    for y in t:
                        if re.match(r"(!=|T) .*@R\[|>=? .*fabs\(.*@R\[", y):
                            signs |= {"+", "-"}
                        elif re.match(r">=? .*@R\[", y):
                            signs.add("-" if re.search(r"(^| )-@R\[", y) else "+")
                    a.check(leaves or earns, "M11.terminal-table", fn.where(x), "a state is unmarked because an action leaves it or earns something", "%s unmarks states for another reason: %s" % (short(fn.q), t[:2]))
                a.check("leaves" in kinds_, "M11.terminal-table", fn.where(x), "leaving counts", "%s keeps states marked although an action leaves them" % short(fn.q))
                a.check(signs == {"+", "-"} or not signs, "M11.terminal-table", fn.where(x), "rewards and costs count", "%s overlooks %s" % (short(fn.q), "costs" if "+" in signs else "rewards"))
                a.check("earns" in kinds_, "M11.terminal-table", fn.where(x), "earning counts", "%s keeps states marked although an action earns something" % short(fn.q))
                for l in loops_of(x):
                    L = loop_info(a, l)
                    if L is not None:
                        full(a, "M11.terminal-table", fn.where(l), "%s looks at every state and action" % short(fn.q), L)
        for c in res:
            if len(c.c) > 1:
                a.check(vstr(E.ev(c.c[1])) == "+1" and "numStates" in vstr(E.ev(c.c[0])), "M11.terminal-table", fn.where(c), "every state is marked at first", "%s does not start from every state being marked" % short(fn.q))
    a.need("M11.terminal-table", n, 1, "stores of terminal marks")


def full(a, rule, w, what, L):
    from rules.bounds import full_range
    full_range(a, rule, w, what, L)


RULES["M11"] = [m11]
TEXT.update({
    "M11.column": "outcomes of an action are the entries of the current state's column of that action's transition table",
    "M11.probability": "the probability of an outcome is the entry's value",
    "M11.order": "outcome numbers follow the entries' order, from zero, once per entry, in both routines",
    "M11.count": "as many outcomes as entries",
    "M11.successor": "the successor of an outcome is the entry's row",
    "M11.reward": "reward = R(state, action)", "M11.terminal": "terminal as marked", "M11.initial": "starts in the initial state",
    "M11.horizon": "long-term factor sums the discounted horizon",
    "M11.terminal-table": "marked terminal: every action stays and earns nothing",
})


# ---------------------------------------------------------------- X02
def x02(a):
    """the cache asks the wrapped model the question it was asked, stores the answers under it, and returns what it stored"""
    P = a.P
    E = getattr(a, "_xE", None)
    if E is None:
        E = a._xE = Eval(P, opaque={"getNode", "getNodeX", "getQ"})
    saved, a.E = a.E, E
    try:
        _x02(a, P, E)
    finally:
        a.E = saved


CACHE = "zmdp::CacheMDP"


def _x02(a, P, E):
    n = 0
    node = r"@getNode\(\+P%d\)"
    for fn in P.funcs.values():
        if fn.cls != CACHE or not fn.blocks:
            continue
        nm = fn.q.split("::")[-1]
        w = "%s:%s" % (fn.file, fn.line)

        def cn(v):
            return set(re.sub(r"@?CacheMDP\.?|@\.", "@", x).replace("@.", "@").replace("@@", "@") for x in canon(a, fn, v))
        if nm == "getReward" or nm == "getIsTerminalState" or nm == "getInitialState":
            want = {"getReward": ["getQ(+@getNode(+P0),+P1).immediateReward"], "getIsTerminalState": ["getNode(+P0).isTerminal"], "getInitialState": ["initialSI"]}[nm]
            for r in rets(a, fn):
                n += 1
                got = cn(E.ev(r.c[0]))
                a.check(plain(got) <= set(map(plain1, want)) and bool(got), "X02.answer", fn.where(r), "%s returns what was stored for that state and action" % short(fn.q),
                        "%s returns %s" % (short(fn.q), " | ".join(sorted(got))[:160]), key="X02.answer %s" % nm)
        elif nm == "getOutcomeProbVector":
            n += 1
            got = cn(E.exitval(fn, fn.params[0], None) or ())
            a.check(plain(got) == {plain1("getQ(+@getNode(+P1),+P2).opv")}, "X02.answer", w, "%s returns what was stored for that state and action" % short(fn.q), "%s returns %s" % (short(fn.q), " | ".join(sorted(got))[:160]), key="X02.answer %s" % nm)
        elif nm == "getNextState":
            n += 1
            for c in P.calls(fn):
                if (c.d.get("q") or "").endswith("cvector::push_back"):
                    got = cn(E.ev(c.c[1]))
                    a.check(plain(got) == {plain1("getQ(+@getNode(+P1),+P2).outcomes[P3].nextState.si")}, "X02.answer", fn.where(c), "%s returns the number of the stored successor" % short(fn.q), "%s returns %s" % (short(fn.q), " | ".join(sorted(got))[:160]), key="X02.answer %s" % nm)
        elif nm == "translateState":
            n += 1
            got = cn(E.exitval(fn, fn.params[0], None) or ())
            a.check(plain(got) == {plain1("getNode(+P1).s")}, "X02.answer", w, "%s returns the wrapped model's state" % short(fn.q), "%s returns %s" % (short(fn.q), " | ".join(sorted(got))[:160]), key="X02.answer %s" % nm)
        elif nm == "getNode" and len(fn.params) == 1:
            for r in rets(a, fn):
                n += 1
                got = cn(E.ev(r.c[0]))
                a.check(plain(got) == {plain1("nodeTable[P0[0]]")}, "X02.answer", fn.where(r), "a state number names its table entry", "%s returns %s" % (short(fn.q), " | ".join(sorted(got))[:160]), key="X02.answer %s" % nm)
    a.need("X02.answer", n, 5, "answers of the model cache")
    # what is stored
    E2 = Eval(P, opaque={"getNodeX"})
    a.E = E2
    STO = [(r"CMDPQEntry::immediateReward$", [r"problem.getReward(+@s,+P%d)" % i for i in range(4)], "the reward of the same state and action"),
           (r"CMDPNode::s$", ["P0"], "the state that was looked up"),
           (r"CMDPNode::isTerminal$", ["problem.getIsTerminalState(+P0)"], "the wrapped model's terminal flag of the same state"),
           (r"CMDPNode::si$", ["nodeTable.size()"], "the position at which the node is added"),
           (r"CMDPEdge::nextState$", None, "the node of the successor")]
    ns = 0
    for fn in P.funcs.values():
        if not re.search(r"mdps/CacheMDP", fn.file) or not fn.blocks:
            continue
        for x, lhs, op, rhs in assigns(P, fn):
            if lhs.k != "Mem" or op != "=":
                continue
            for rx_, want, what in STO:
                if re.search(rx_, lhs.d["q"]):
                    ns += 1
                    got = resolve_up(a, fn, rhs)
                    if want is not None:
                        a.check(plain(got) <= set(plain1(y) for y in want) and bool(got), "X02.store", fn.where(x), "stored: " + what, "%s stores %s instead of %s" % (short(fn.q), " | ".join(sorted(got))[:140], what), key="X02.store %s" % rx_)
                    else:
                        # outcome o's edge leads to the successor of (s, a, o) and is filed under o
                        t = plain(got)
                        m = [re.match(r"getNodeX\(problem\.getNextState\(s,P\d,(iv:\w+\.\d+|P\d)\)\)$", y) for y in t]
                        a.check(bool(m) and all(m), "X02.store", fn.where(x), "stored: " + what, "%s links the edge to %s" % (short(fn.q), " | ".join(sorted(t))[:160]), key="X02.store next")
                        if m and all(m):
                            e = root_place(lhs)[0]
                            filed(a, fn, x, e, m[0].group(1))
        for c in P.calls(fn):
            q = c.d.get("q") or ""
            if q.endswith("MDP::getOutcomeProbVector") and c.slot("obj") is not None and "problem" in vstr(E2.ev(c.slot("obj"))):
                ns += 1
                got = plain(resolve_up(a, fn, c.c[1], E2)) | set("a:" + y for y in plain(resolve_up(a, fn, c.c[2], E2)))
                dst = vstr(E2.ev(c.c[0]))
                a.check(re.match(r"\['a:P\d', 's'\]$", str(sorted(got))) is not None and dst.endswith(".opv"), "X02.store", fn.where(c), "stored: the outcome probabilities of the same state and action", "%s asks for the outcome probabilities of %s" % (short(fn.q), sorted(got)), key="X02.store opv")
            if q.endswith("::resize") and c.slot("obj") is not None and vstr(E2.ev(c.slot("obj"))).endswith(".outcomes"):
                got = vstr(E2.ev(c.c[0]))
                a.check(got.endswith(".opv.size()"), "X02.store", fn.where(c), "as many edges as probabilities", "%s makes room for %s edges" % (short(fn.q), got[:80]), key="X02.store size")
        for x, lhs, op, rhs in assigns(P, fn):
            if op == "=" and re.search(r"\.Q\[", vstr(E2.ev(lhs))) and "CMDPQEntry" in vstr(E2.ev(rhs)):
                got = canon(a, fn, E2.ev(lhs))
                a.check(all(re.search(r"[.@]Q\[P\d\]$", y) for y in got), "X02.store", fn.where(x), "filed under the requested action", "%s files the entry under %s" % (short(fn.q), sorted(got)[:2]), key="X02.store Q")
    a.need("X02.store", ns, 3, "values the model cache stores")
    # the outcome edges: absent exactly when the probability is zero
    for fn in P.funcs.values():
        if fn.cls != CACHE or not fn.blocks:
            continue
        for x, lhs, op, rhs in assigns(P, fn):
            t = vstr(E2.ev(lhs))
            if op == "=" and re.search(r"outcomes\[iv:", t):
                v = vstr(E2.ev(rhs))
                if v == "0":
                    ok = guarded(a, x, zero_prob, depth=0, E=E2)
                    a.check(ok, "X02.absent", fn.where(x), "an outcome is absent only when its probability is (nearly) zero", "%s drops an outcome that can happen" % short(fn.q), key="X02.absent")
                for l in loops_of(x)[:1]:
                    L = loop_info(a, l)
                    if L is not None:
                        full(a, "X02.outcomes", fn.where(l), "every outcome is cached", L)
    # copies of the wrapped model's constants
    for fn in P.funcs.values():
        if fn.cls == CACHE and fn.q.endswith("::CacheMDP") and fn.blocks:
            base = [i for i in fn.inits if i["e"] is not None and i["e"].k == "Ctor" and (i["e"].d.get("q") or "").endswith("MDP::MDP")]
            cp = any(i["e"].c and "MDP" in (strip(i["e"].c[0]).t or "") for i in base)
            sets = set(strip(l).d["n"] for x, l, op, r in assigns(P, fn) if strip(l).k == "Mem")
            a.check(cp or {"discount", "numActions"} <= sets, "X02.constants", "%s:%s" % (fn.file, fn.line), "discount and action count are the wrapped model's", "%s does not take over the wrapped model's discount and action count" % short(fn.q))


def zero_prob(rs):
    """the probability is at most a tiny constant"""
    for r in rs:
        if r[0] not in (">=", ">", "==") or not isinstance(r[1], frozenset) or not r[1]:
            continue
        ok = True
        for p in r[1]:
            neg = [m for s, m in p if s < 0 and not isconstm(m)]
            pos = [m for s, m in p if s > 0]
            if r[0] == "==":
                ok &= len(p) == 1 and any("opv" in mstr(m) for s, m in p)
                continue
            c = constm(pos[0]) if len(pos) == 1 else 0.0 if not pos else None
            ok &= len(neg) == 1 and "opv[" in mstr(neg[0]) and c is not None and c <= 1e-6 and len(pos) + len(neg) == len(p)
        if ok:
            return True
    return False


def plain1(s):
    s = s.replace("+", "").replace("@", "").replace("~", "")
    s = re.sub(r"\b(CacheMDP|CMDPNode|MDP)\.", "", s)
    s = re.sub(r"\bP\d\.(s\b)", r"\1", s)
    return s


def plain(v):
    return set(plain1(x) for x in v)


def ups(a, fn):
    """a helper outside the class is looked at from where it is called: (function, context)"""
    if fn.cls or not a.P.callers.get(fn.usr):
        return [(fn, None)]
    return [(cf, vals.Ctx(call, cf, None)) for cf, call in a.P.callers[fn.usr]]


def resolve_up(a, fn, rhs, E=None):
    out = set()
    for cf, cx in ups(a, fn):
        out |= set(canon(a, cf, (E or a.E).ev(rhs, cx)))
    return out


def filed(a, fn, x, e, o):
    """the edge is stored in the outcome list under number o"""
    P, E = a.P, a.E
    if e is None or e.k != "Var":
        return
    st = [(y, l) for y, l, op, r in assigns(P, fn) if op == "=" and strip(r).k == "Var" and strip(r).d["v"] == e.d["v"] and "outcomes[" in vstr(E.ev(l))]
    a.check(bool(st), "X02.store", fn.where(x), "the edge is kept", "%s drops the edge it made" % short(fn.q))
    for y, l in st:
        got = re.findall(r"outcomes\[([^\[\]]*)\]", " ".join(canon(a, fn, E.ev(l))))
        a.check(set(got) == {o}, "X02.store", fn.where(y), "the edge is filed under its outcome", "%s files the edge of outcome %s under %s" % (short(fn.q), o, got), key="X02.store filed")


RULES["X02"] = [x02]
TEXT.update({
    "X02.answer": "the cache answers with what it stored for the same state, action and outcome",
    "X02.store": "the cache stores the wrapped model's answers for the state and action asked for",
    "X02.absent": "an outcome is absent only when its probability is zero",
    "X02.outcomes": "every outcome is cached",
    "X02.constants": "discount and action count are the wrapped model's",
})
