"""X03: survey maps, state names and the numbers of actions and observations"""
from rules.common import *
from rules.grid import lin, off, minus, show, poly1, ranged, counter, sites, at_least
from rules.track import Run, Env, Lost, C, TOP, atom_, known, padd_
from flow import last

RULES = {}
TEXT = {}
W = {("@LSGrid.width",): 1}
H = {("@LSGrid.height",): 1}


def sizes(a, fn, d):
    """the ways a function can name the map's width or height"""
    nm = "width" if d is W else "height"
    if not hasattr(a, "_sz"):
        a._sz = {}
    if (fn.usr, nm) not in a._sz:
        out = [d]
        for m in a.P.all_nodes(fn):
            if m.k == "Mem" and m.d["n"] == nm:
                for x in poly1(a, m):
                    if x not in out and list(x.values()) == [1] and len(list(x)[0]) == 1:
                        out.append(x)
        a._sz[(fn.usr, nm)] = out
    return a._sz[(fn.usr, nm)]


def inside(a, n, x, d):
    """(x >= 0, x < size) at node n"""
    lo = hi = False
    for s in sizes(a, n.fn, d):
        r = ranged(a, n, x, s)
        lo, hi = lo or r[0], hi or r[1]
    return lo, hi


OBST = 100


def survey(a):
    for fn in a.P.funcs.values():
        if "lifeSurvey/" in fn.file and not fn.impl and not re.search(r"/test[A-Z]", fn.file):
            yield fn


def ispos(t):
    return bool(re.search(r"\bLSPos\b", t or "")) and "vector" not in t and "*" not in t


def obstacle(n):
    n = strip(n)
    return n.d.get("cv", n.d.get("v") if n.k == "Lit" else None) in (OBST, str(OBST))


def creation(a, n):
    """constructor call LSPos(x, y) that an expression stands for, else None"""
    n = strip(n)
    if n.k == "Ctor" and last(n.d.get("q") or "") == "LSPos":
        if len(n.c) == 2:
            return n
        if len(n.c) == 1:
            return creation(a, n.c[0])
    return None


def defs_of(a, n):
    """assignments and initialisers in the function that give a place its value: (node, value expression)"""
    fn = n.fn
    key = place_key(a.E, strip(n))
    out = []
    for m in a.P.all_nodes(fn):
        if m.k == "Decl":
            for v, nm, t, ini in m.vars:
                if key == ("v", v) and ini is not None:
                    out.append((m, ini))
        elif m.k == "Assign" and m.d["op"] == "=" and place_key(a.E, strip(m.c[0])) == key:
            out.append((m, m.c[1]))
        elif m.k == "Call" and m.d.get("oper") == "=" and m.slot("obj") is not None and place_key(a.E, strip(m.slot("obj"))) == key:
            out.append((m, [c for c in m.c if c is not m.slot("obj")][0]))
        elif m.k == "Assign" and strip(m.c[0]).k == "Mem" and place_key(a.E, strip(strip(m.c[0]).c[0])) == key:
            out.append((m, None))
    return out


def free_edges(a, fn, key):
    """branches on which a bounded look-up of the place did not find an obstacle"""
    P = a.P
    looks = {}
    for n in P.all_nodes(fn):
        if n.k == "Call" and bounded(a, n) and any(place_key(a.E, strip(c)) == key for c in n.c):
            looks[n.id] = n
    if not looks:
        return set()
    held = set()
    for n in P.all_nodes(fn):
        if n.k == "Decl":
            for v, nm, t, ini in n.vars:
                if ini is not None and strip(ini).id in looks:
                    held.add(v)
        elif n.k == "Assign" and n.d["op"] == "=" and strip(n.c[1]).id in looks and strip(n.c[0]).k == "Var":
            held.add(strip(n.c[0]).d["v"])

    def known_free(x, t, depth=0):
        x = strip(x)
        if x.k == "Un" and x.d["op"] == "!":
            return known_free(x.c[0], not t, depth)
        if x.k == "Bin" and x.d["op"] in ("==", "!="):
            for i in (0, 1):
                y = strip(x.c[1 - i])
                if obstacle(x.c[i]) and (y.id in looks or y.k == "Var" and y.d["v"] in held):
                    return (x.d["op"] == "!=") == t
                if y.id in looks and strip(x.c[i]).k in ("Lit", "Enum") and not obstacle(x.c[i]):
                    return (x.d["op"] == "==") == t
        if x.k == "Bin" and x.d["op"] in ("&&", "||") and (x.d["op"] == "&&") == t:
            return any(known_free(c, t, depth) for c in x.c)
        if x.k == "Var" and depth < 3:
            ds = [i for m in a.P.all_nodes(fn) if m.k == "Decl" for v, nm, ty, i in m.vars if v == x.d["v"] and i is not None]
            as_ = [m for m in a.P.all_nodes(fn) if m.k == "Assign" and strip(m.c[0]).k == "Var" and strip(m.c[0]).d["v"] == x.d["v"]]
            if len(ds) == 1 and not as_:
                return known_free(ds[0], t, depth + 1)
        return False
    out = set()
    for b, i, ats in branches(a, fn):
        if any(isinstance(t, bool) and known_free(n, t) for n, t in ats):
            out.add((b, i))
    return out


def bounded(a, n):
    """a look-up that is safe for any position and answers OBSTACLE outside the map"""
    if not hasattr(a, "_bnd"):
        a._bnd = {}
    res = [g for g in a.P.resolve(n) if g.blocks]
    if len(res) != 1:
        return False
    g = res[0]
    if g.usr not in a._bnd:
        a._bnd[g.usr] = False
        if any(ispos(g.vars[v]["t"]) for v in g.params) and g.cls and g.cls.endswith("LSGrid"):
            inner = [m for m in a.P.all_nodes(g) if m.k == "Call" and any(ispos(strip(c).t) for c in m.c) and any(h.blocks and list(sites(a, h, {"data"})) for h in a.P.resolve(m)) or any(m is s for s, b, i in sites(a, g, {"data"}))]
            rets = [m for m in a.P.all_nodes(g) if m.k == "Return" and m.c]
            a._bnd[g.usr] = bool(inner) and all(within(a, m) for m in inner) and any(
                obstacle(x) for m in rets for x in [m.c[0]] + (list(strip(m.c[0]).kids) if strip(m.c[0]).k == "Cond" else []))
    return a._bnd[g.usr]


def within(a, m):
    """the entry conditions of a position's map access hold at node m: column and row of the parameter are in range"""
    for f, d in (("x", W), ("y", H)):
        lo, hi = inside(a, m, {("@LSPos.%s" % f,): 1}, d)
        if not (lo and hi):
            return False
    return True


def nonneg(a, n, x, depth=0):
    """x >= 0 at node n"""
    if ranged(a, n, x, W)[0]:
        return True
    ivs = [k for k in x if len(k) == 1 and str(k[0]).startswith("iv:")]
    if ivs and all(x[k] > 0 for k in ivs):
        rest = {k: c for k, c in x.items() if k not in ivs}
        return all(ranged(a, n, {k: 1}, W)[0] for k in ivs) and (not rest or list(rest) == [()] and rest[()] >= 0)
    return False


def own_loop(a, n, e):
    """(loop, 0) if the expression is the counter of an enclosing loop"""
    e = strip(e)
    if e.k == "Var":
        for f in n.ancestors():
            if f.k in ("For", "While", "Do"):
                L = loop_info(a, f)
                if L is not None and L.var is not None and L.lo is not None and str(L.var) == str(e.d["v"]):
                    return L, 0
    return None


def wrong(a, n, e, x, d, assume):
    """the loop or the offset from an in-range coordinate shows that x leaves the map"""
    c = counter(a, n, x) or own_loop(a, n, e)
    if c is None:
        o = off(x, {(assume,): 1}) if assume else None
        return o is not None and o != 0
    L, k = c
    for s in sizes(a, n.fn, d):
        for p in L.hi or []:
            o = off(lin(p), s)
            if o is not None and o + (1 if L.incl else 0) + k > 0:
                return True
        for p in L.lo:
            q = lin(p)
            if list(q) in ([], [()]) and L.up and q.get((), 0) + k < 0:
                return True
            o = off(q, s)
            if o is not None and not L.up and o + k > -1:
                return True
    if not L.up:
        for p in L.hi or []:
            q = lin(p)
            if list(q) in ([], [()]) and q.get((), 0) + k + (0 if L.incl else 1) < 0:
                return True
    return False


def fits(a, n, e, d, assume):
    """0 <= e < d for an integer expression e at node n: True, False if shown otherwise, None if not decided"""
    res = True
    for x in poly1(a, e):
        if assume and x == {(assume,): 1}:
            continue
        lo, hi = inside(a, n, x, d)
        lo = lo or nonneg_type(a, e) or nonneg(a, n, x)
        if assume and not lo:
            c = counter(a, n, x)
            if c is not None and c[0].up and all((lambda o: o is not None and o + c[1] >= 0)(off(lin(p), {(assume,): 1})) for p in c[0].lo):
                lo = True
        if lo and hi:
            continue
        if wrong(a, n, e, x, d, assume):
            return False
        res = None
    return res


def nonneg_type(a, e):
    e = strip(e)
    return e.k == "Var" and bool(re.search(r"unsigned|size_t", e.fn.vars[e.d["v"]]["t"]))


def judge(a, n, e, depth=0):
    """is the position e inside the map when node n uses it?  (True | False | None, reason)"""
    fn = n.fn
    e = strip(e)
    c = creation(a, e)
    if c is not None:
        return judge_pair(a, n, c.c[0], c.c[1])
    if e.k == "Call":
        res = [g for g in a.P.resolve(e)]
        nm = last(e.d.get("q") or "")
        if nm in ("back", "front", "operator[]", "at") or e.d.get("oper") in ("[]", "*", "->"):
            return True, "a stored position"
        return False, "the position comes straight from %s" % nm
    if e.k == "Ctor" and len(e.c) == 1:
        return judge(a, n, e.c[0], depth)
    ds = defs_of(a, e)
    key = place_key(a.E, e)
    if e.k == "Var" and e.d["v"] in fn.params and not ds:
        return None, "parameter"
    if not ds:
        return True, "a stored position"
    edges = free_edges(a, fn, key)
    pos = a.P.position(n)
    worst = (True, "every value checked")
    for m, v in ds:
        p = a.P.position(m)
        if p is None or pos is None:
            continue
        others = [a.P.position(o) for o, _ in ds if o is not m]
        if uncut(a, fn, p, pos, edges | kills(a, others, pos)) is None:
            continue
        if not a.P.reachable(n):
            continue
        if v is None:
            return False, "a coordinate is changed on its own"
        if depth < 4:
            r = judge_def(a, m, v, depth + 1)
            if r[0] is True:
                continue
            if r[0] is None:
                worst = r
                continue
            return False, r[1]
    return worst


def kills(a, others, pos):
    return set()


def judge_def(a, m, v, depth):
    c = creation(a, v)
    if c is not None:
        x, y = poly1(a, c.c[0]), poly1(a, c.c[1])
        if all(start(p, "X") for p in x) and all(start(p, "Y") for p in y):
            return True, "the start position"
        if all(const(p) is not None and const(p) < 0 for p in x):
            return True, "the mark of the terminal state"
        return judge_pair(a, m, c.c[0], c.c[1])
    return judge(a, m, v, depth)


def start(p, ax):
    return len(p) == 1 and list(p.values()) == [1] and len(list(p)[0]) == 1 and re.search(r"\.start%s$" % ax, str(list(p)[0][0])) is not None


def const(p):
    return p.get((), 0) if list(p) in ([], [()]) else None


def judge_pair(a, n, ex, ey):
    fn = n.fn
    ps = [v for v in fn.params if ispos(fn.vars[v]["t"])]
    und = False
    for e, d, f, nm in ((ex, W, "x", "column"), (ey, H, "y", "row")):
        r = fits(a, n, e, d, "@LSPos.%s" % f if ps else None)
        if r is None:
            und = True
        elif not r:
            return False, "its %s is not kept inside the map" % nm
    return (None, "form not understood") if und else (True, "both coordinates in range")


def accessors(a):
    """functions that use a position as a map index without checking it: usr -> index of the position parameter"""
    if hasattr(a, "_acc"):
        return a._acc
    acc = {}
    todo = list(survey(a))
    for fn in todo:
        for n, b, i in sites(a, fn, {"data"}):
            for k, v in enumerate(fn.params):
                if ispos(fn.vars[v]["t"]) and any("LSPos" in str(m) for p in poly1(a, i) for t in p for m in t) and not within(a, n):
                    acc[fn.usr] = k
    again = True
    while again:
        again = False
        for fn in todo:
            if fn.usr in acc:
                continue
            ps = [k for k, v in enumerate(fn.params) if ispos(fn.vars[v]["t"])]
            if not ps:
                continue
            for n in a.P.all_nodes(fn):
                if n.k != "Call":
                    continue
                for g in a.P.resolve(n):
                    if g.usr not in acc or acc[g.usr] >= len(n.c):
                        continue
                    e = strip(n.c[acc[g.usr]])
                    uses = any(x.k == "Var" and x.d["v"] in fn.params and ispos(x.fn.vars[x.d["v"]]["t"]) for x in e.walk()) or e.k == "Var"
                    if uses and not within(a, n) and fn.usr not in acc and any(x.k == "Var" and x.d["v"] == fn.params[ps[0]] for x in e.walk()):
                        acc[fn.usr] = ps[0]
                        again = True
    a._acc = acc
    return acc


def x03_cell(a):
    P = a.P
    acc = accessors(a)
    seen = 0
    for fn in survey(a):
        for n, b, i in sites(a, fn, {"data"}):
            if not P.reachable(n) or fn.usr in acc or not re.search("LSGrid|grid", (strip(b.c[0]).t or "") if b.c else "LSGrid"):
                continue
            seen += 1
            xs = poly1(a, i)
            areas = [{tuple(sorted(list(w)[0] + list(h)[0], key=str)): 1} for w in sizes(a, fn, W) for h in sizes(a, fn, H)]
            if any("LSPos" in str(m) for p in xs for t in p for m in t):
                a.check(within(a, n), "X03.cell", fn.where(n), "guarded", "%s uses a position as a map index without a range test" % fn.q, key="X03.cell|" + fn.q)
                continue
            ok = all(any(all(ranged(a, n, p, area)) for area in areas) for p in xs)
            if ok or not any(counter(a, n, p) is not None for p in xs):
                a.ok("X03.cell", fn.where(n), "cell number %s" % ("in range" if ok else "not decided"))
            else:
                a.fail("X03.cell", fn.where(n), "%s runs over cell numbers outside the map" % fn.q.replace("zmdp::", ""), key="X03.cell|%s" % fn.q)
        for n in P.all_nodes(fn):
            if n.k != "Call" or not P.reachable(n):
                continue
            for g in P.resolve(n):
                if g.usr not in acc or acc[g.usr] >= len(n.c):
                    continue
                e = n.c[acc[g.usr]]
                seen += 1
                if fn.usr in acc and strip(e).k == "Var":
                    a.ok("X03.cell", fn.where(n), "%s passes its position on" % fn.short)
                    continue
                if strip(e).k == "Var" and strip(e).d["v"] in fn.params and within(a, n):
                    a.ok("X03.cell", fn.where(n), "guarded")
                    continue
                r, why = judge(a, n, e)
                if r is False:
                    a.fail("X03.cell", fn.where(n), "%s calls %s with a position that may lie outside the map: %s" % (fn.q.replace("zmdp::", ""), g.short, why),
                           key="X03.cell|%s|%s|%s" % (fn.q, g.short, why))
                else:
                    a.ok("X03.cell", fn.where(n), "%s: %s" % (g.short, why if r else "not decided (%s)" % why))
    a.need("X03.cell", seen, 5, "survey map accesses")


def x03_state(a):
    """positions outside the map never become the position of a registered state or of a stored path entry"""
    P = a.P
    seen = 0
    for fn in survey(a):
        for m in P.all_nodes(fn):
            t = v = None
            if m.k == "Assign" and m.d["op"] == "=":
                t, v = strip(m.c[0]), m.c[1]
            elif m.k == "Call" and m.d.get("oper") == "=" and m.slot("obj") is not None:
                t, v = strip(m.slot("obj")), [c for c in m.c if c is not m.slot("obj")][0]
            if t is None or t.k != "Mem" or t.d["n"] != "pos" or not ispos(t.t) or strip(t.c[0]).k != "Var":
                continue
            seen += 1
            base = strip(t.c[0])
            if judge_def(a, m, v, 0)[0] is not False:
                a.ok("X03.state", fn.where(m), "position taken over, fixed or in range")
                continue
            edges = free_edges(a, fn, place_key(a.E, t))
            key = place_key(a.E, base)
            p = P.position(m)
            bad = None
            for n in P.all_nodes(fn):
                if n.k != "Call" or P.position(n) is None:
                    continue
                o = n.slot("obj")
                esc = o is not None and strip(o).k == "Var" and place_key(a.E, strip(o)) == key and last(n.d.get("q") or "") in ("toInt",) \
                    or last(n.d.get("q") or "") in ("push_back", "getStateIndex", "insert", "push") and any(place_key(a.E, strip(c)) == key or strip(c).k == "Ctor" and strip(c).c and place_key(a.E, strip(strip(c).c[0])) == key for c in n.c)
                if esc and uncut(a, fn, p, P.position(n), edges) is not None:
                    bad = n
                    break
            if bad is not None:
                a.fail("X03.state", fn.where(bad), "%s: a position that was not looked up, or turned out to be an obstacle, becomes part of a stored state or path" % fn.q.replace("zmdp::", ""),
                       key="X03.state|" + fn.q)
            else:
                a.ok("X03.state", fn.where(m), "looked up before it is stored")
    a.need("X03.state", seen, 2, "positions given to states")


# ------------------------------------------------------------------ names and numbers
class Codec(Run):
    """constructor from a number followed by the conversion back, on constant inputs"""

    def tracking(self):
        return False

    def place(self, n, env, fr):
        n = strip(n)
        if n.k == "Mem" and (not n.c or strip(n.c[0]).k == "This"):
            return ("var", ("f", n.d["n"]))
        if n.k == "Idx":
            b = self.place(n.c[0], env, fr)
            i = self.one(self.ev(n.c[1], env, fr))
            if b is not None and b[0] == "var" and b[1][0] == "f" and i is not None:
                return ("var", b[1] + (i,))
        return Run.place(self, n, env, fr)

    def call(self, n, env, fr):
        if n.d.get("nr") or last(n.d.get("q") or "") == "__assert_fail":
            return TOP
        return Run.call(self, n, env, fr)


def x03_codes(a):
    P = a.P
    for cls, top in (("LSAction", "LS_NUM_ACTIONS"), ("LSObservation", "LS_NUM_OBSERVATIONS")):
        ct = [f for f in P.funcs.values() if (f.cls or "").split("::")[-1] == cls and f.short == cls and len(f.params) == 1 and not f.impl and "&" not in f.vars[f.params[0]]["t"]]
        to = [f for f in P.funcs.values() if (f.cls or "").split("::")[-1] == cls and f.short == "toInt" and not f.impl]
        n = {"LSAction": 7, "LSObservation": 28}[cls]
        if len(ct) != 1 or len(to) != 1:
            a.ok("X03.codes", "", "%s: not decided" % cls)
            continue
        wrong = []
        for i in range(n):
            r = Codec(a, ct[0], 0, "normal", 0)
            r.result = None
            env = Env()
            env.var[(0, ct[0].params[0])] = C(i)
            try:
                for init in ct[0].inits:
                    if init.get("m") and init.get("e") is not None and hasattr(init["e"], "k"):
                        env.var[("f", last(init["m"]))] = r.ev(init["e"], env, 0)
                f1 = r.ex(ct[0].body, env, 0)
                e = join2(f1)
                r.fn = to[0]
                f2 = r.ex(to[0].body, e, 1)
                e = join2(f2)
                v = e.ret[0] if e is not None and e.ret else TOP
            except (Lost, KeyError, AttributeError, TypeError, IndexError) as x:
                v = TOP
            k = r.one(v)
            if v is not TOP and k is not None and k != i:
                wrong.append((i, k))
        if wrong:
            a.fail("X03.codes", to[0].where(), "%s %d is encoded as %d after decoding" % ((cls,) + wrong[0]), key="X03.codes|" + cls)
        else:
            a.ok("X03.codes", to[0].where(), "%s: decoding and encoding agree for 0-%d" % (cls, n - 1))


def join2(fl):
    from rules.track import join
    return join(fl.next, fl.ret)


def x03_key(a):
    """a state's name mentions every field, and ends where the printed text ends"""
    P = a.P
    ks = [f for f in P.funcs.values() if (f.cls or "").split("::")[-1] == "LSState" and f.short == "toString" and not f.impl]
    rec = [r for r in P.records.values() if r["q"].split("::")[-1] == "LSState"]
    if not ks or not rec:
        return a.need("X03.key", 0, 1, "state names")
    fn = ks[0]
    fns = list(P.closure([fn]).values())
    used = {}
    for g in fns:
        for n in P.all_nodes(g):
            if n.k == "Mem":
                used.setdefault(n.d["n"], set()).add(n.d.get("q"))
            if n.k == "Idx" and strip(n.c[0]).k == "Mem":
                i = strip(n.c[1])
                used.setdefault(("idx", strip(n.c[0]).d["n"]), set()).add(i.d.get("v") if i.k == "Lit" else i.d.get("cv", "any"))
    for f in rec[0]["fields"]:
        a.check(f["n"] in used, "X03.key", fn.where(), f["n"], "states that differ only in %s get the same name and are treated as one" % f["n"], key="X03.key|" + f["n"])
        m = re.search(r"\[(\d+)\]", f.get("t") or "")
        if m and f["n"] in used:
            got = used.get(("idx", f["n"]), set())
            ok = "any" in got or None in got or {int(x) for x in got if str(x).isdigit()} >= set(range(int(m.group(1)))) or not got
            a.check(ok, "X03.key", fn.where(), f["n"] + " entries", "the name of a state leaves out an entry of %s" % f["n"], key="X03.key|%s[]" % f["n"])
    for sub in ("x", "y"):
        a.check(sub in used, "X03.key", fn.where(), "pos." + sub, "the name of a state leaves out a coordinate", key="X03.key|pos." + sub)
    # numbers printed next to each other without a separator must be single digits
    for n in P.all_nodes(fn):
        if n.k != "Call" or last(n.d.get("q") or "") not in ("snprintf", "sprintf", "fprintf"):
            continue
        at = [i for i, c in enumerate(n.c) if strip(c).k == "Str"]
        if len(at) != 1:
            continue
        f, args = str(strip(n.c[at[0]]).d["v"]), list(n.c[at[0] + 1:])
        convs = [(m.start(), m.end(), m.group(0)) for m in re.finditer(r"%[-0-9.#+ ]*l*[a-zA-Z]", f.replace("%%", "__"))]
        if len(convs) != len(args):
            continue
        for i in range(len(convs) - 1):
            names = [x.d["n"] for x in args[i].walk() if x.k == "Mem"]
            if convs[i][1] == convs[i + 1][0] and convs[i][2][-1] in "diu" and any(x in ("x", "y") for x in names):
                a.fail("X03.key", fn.where(n), "two numbers are printed into the state's name without a separator, so that different states get the same name", key="X03.key|sep")
    # local text filled character by character must be ended before it is printed
    for g in fns:
        if "lifeSurvey/" not in g.file:
            continue
        filled = {}
        for n in P.all_nodes(g):
            if n.k == "Assign" and n.d["op"] == "=" and strip(n.c[0]).k == "Idx" and strip(strip(n.c[0]).c[0]).k == "Var":
                v = strip(strip(n.c[0]).c[0]).d["v"]
                if re.match(r"char\[\d+\]", g.vars[v]["t"]):
                    filled.setdefault(v, []).append(n)
        for v, ns in filled.items():
            ini = [i for n in P.all_nodes(g) if n.k == "Decl" for w, nm, t, i in n.vars if w == v and i is not None]
            whole = [n for n in P.all_nodes(g) if n.k == "Call" and last(n.d.get("q") or "") in ("memset", "strcpy", "strncpy", "snprintf", "sprintf", "fgets", "memcpy", "strcat")
                     and n.c and any(x.k == "Var" and x.d["v"] == v for x in n.c[0].walk())]
            nul = [n for n in ns if strip(n.c[1]).k in ("Lit", "Chr") and str(strip(n.c[1]).d.get("v", strip(n.c[1]).d.get("cv"))) in ("0", "\\0", "\x00") or strip(n.c[1]).d.get("cv") == 0]
            for n in P.all_nodes(g):
                if n.k != "Call" or not any(strip(c).k == "Var" and strip(c).d["v"] == v for c in n.c[1:]):
                    continue
                if not any(strip(c).k == "Str" and "%s" in str(strip(c).d["v"]) for c in n.c) or P.position(n) is None:
                    continue
                if ini or whole:
                    a.ok("X03.key", g.where(n), "text initialised as a whole")
                    continue
                el = set(x.id for x in nul)
                bad = uncut(a, g, (g.entry, -1), P.position(n), set(), lambda e: getattr(e, "id", None) in el) is not None
                a.check(not bad, "X03.key", g.where(n), "text ended before it is printed",
                        "a text filled character by character is printed without ever being ended", key="X03.key|nul|" + g.q)


def x03_table(a):
    """a new state's number is the place it is stored at"""
    P = a.P
    fns = [f for f in P.funcs.values() if f.short == "getStateIndex" and "lifeSurvey/" in f.file and not f.impl]
    for fn in fns:
        push = [n for n in P.all_nodes(fn) if n.k == "Call" and last(n.d.get("q") or "") == "push_back"]
        rets = [n for n in P.all_nodes(fn) if n.k == "Return" and n.c and P.reachable(n)]
        news = []
        for n in rets:
            pos = P.position(n)
            for p in push:
                if P.position(p) and pos and uncut(a, fn, P.position(p), pos, set()) is not None:
                    news.append((n, p))
        if not news:
            a.ok("X03.table", fn.where(), "not decided")
            continue
        for n, p in news:
            vs = [lin(q) for q in a.E.ev(n.c[0])]
            ok = bool(vs)
            und = False
            for v in vs:
                ks = [k for k in v if k != ()]
                if len(ks) != 1 or "size()" not in str(ks[0]):
                    und = True
                    continue
                c = v.get((), 0)
                sizes = [m for m in P.all_nodes(fn) if m.k == "Call" and last(m.d.get("q") or "") == "size" and P.position(m)]
                late = any(uncut(a, fn, P.position(p), P.position(m), set()) is not None for m in sizes)
                if c != (-1 if late else 0):
                    ok = False
            if und:
                a.ok("X03.table", fn.where(n), "not decided")
                continue
            a.check(ok, "X03.table", fn.where(n), "number = place in the table", "a new state gets the number %s, which is not its place in the table" % " or ".join(show(v) for v in vs), key="X03.table|new")


def x03_overlap(a):
    """knowledge carried over between neighbouring cells is about the same cell"""
    P = a.P
    nb = [f for f in P.funcs.values() if f.short == "getNeighbor" and "lifeSurvey/" in f.file and not f.impl]
    if len(nb) != 1:
        return a.ok("X03.overlap", "", "not decided")
    fn = nb[0]
    dirs = {}
    for n in P.all_nodes(fn):
        if n.k != "Return" or not n.c or not P.reachable(n):
            continue
        c = creation(a, n.c[0])
        if c is None:
            continue
        d = None
        x = n
        while x is not None:
            if x.k == "Case":
                d = x.d.get("cv")
                break
            x = x.p
        for cn, t in P.facts_at(n):
            if isinstance(t, tuple) and t[0] == "case" and d is None:
                d = t[1]
            m = strip(cn)
            if t is True and m.k == "Bin" and m.d["op"] == "==":
                for e in m.c:
                    if strip(e).d.get("cv") is not None:
                        d = strip(e).d["cv"]
        if d is None:
            continue
        px, py = poly1(a, c.c[0]), poly1(a, c.c[1])
        ox = off(px[0], {("@LSPos.x",): 1}) if len(px) == 1 else None
        oy = off(py[0], {("@LSPos.y",): 1}) if len(py) == 1 else None
        if ox is None or oy is None:
            continue
        dirs[int(d)] = (ox, oy, n)
    if len(dirs) < 3:
        return a.ok("X03.overlap", fn.where(), "not decided (%d directions understood)" % len(dirs))
    offs = [v[:2] for v in dirs.values()]
    a.check(len(set(offs)) == 3 and (0, 0) not in offs, "X03.overlap", fn.where(), "three different neighbours", "two directions lead to the same cell: %s" % offs, key="X03.overlap|dirs")
    for g in survey(a):
        for n in P.all_nodes(g):
            if n.k != "Assign" or strip(n.c[0]).k != "Idx" or not P.reachable(n):
                continue
            j = strip(strip(n.c[0]).c[1]).d.get("cv")
            ks = [strip(x.c[1]).d.get("cv") for x in n.c[1].walk() if x.k == "Idx" and strip(x.c[0]).k == "Mem" and strip(x.c[0]).d["n"] == "lifeInNeighborCell"]
            if j is None or len(ks) != 1 or ks[0] is None:
                continue
            d = None
            for cn, t in P.facts_at(n):
                if isinstance(t, tuple) and t[0] == "case":
                    d = t[1]
                m = strip(cn)
                if t is True and m.k == "Bin" and m.d["op"] == "==":
                    for e in m.c:
                        if strip(e).k == "Enum":
                            d = strip(e).d["cv"]
            if d is None or not all(int(q) in dirs for q in (d, j, ks[0])):
                continue
            s = tuple(dirs[int(d)][i] + dirs[int(j)][i] for i in (0, 1))
            a.check(s == dirs[int(ks[0])][:2], "X03.overlap", g.where(n), "carried over for the same cell",
                    "after a move in direction %s the knowledge about neighbour %s is taken from neighbour %s, which is another cell" % (d, j, ks[0]), key="X03.overlap|%s|%s|%s" % (d, j, ks[0]))


RULES["X03"] = [x03_cell, x03_state, x03_codes, x03_key, x03_table, x03_overlap]
TEXT["X03.cell"] = "a position used as a map index without a test inside the look-up is, at every call, built from coordinates in range (loops, guards), a stored position, the validated start, or was found by the bounded look-up not to be an obstacle; a computed neighbour is never used directly"
TEXT["X03.state"] = "a computed position becomes part of a registered state or stored path entry only after the bounded look-up found no obstacle there"
TEXT["X03.codes"] = "constant propagation through the constructor and the conversion back: every action number 0-6 and observation number 0-27 is reproduced"
TEXT["X03.key"] = "the state's name reads every field (every entry of the array fields, both coordinates), and a text filled character by character is ended on every path before it is printed"
TEXT["X03.table"] = "the number returned for a new state is the table's size before the state is appended"
TEXT["X03.overlap"] = "the three neighbours are distinct cells; knowledge taken over after a move names the same cell: offset(move) + offset(new neighbour) = offset(old neighbour)"


# ------------------------------------------------------------------ X04
class Dead(Exception):
    pass


class Path(Codec):
    """one execution path of a routine that lists (probability, result) pairs: every undecided condition takes the next decision"""

    def __init__(self, a, fn, taken):
        Codec.__init__(self, a, fn, 0, "normal", 0)
        self.taken, self.made, self.memo, self.fresh = list(taken), [], {}, 0
        self.result = self.inloop = None
        self.added = []
        self.stack = []
        self.raw = False

    def run(self):
        env = Env()
        for v in self.fn.params:
            t = self.fn.vars[v]["t"]
            if re.search(r"vector<.*Outcome", t):
                self.result = (0, v)
            elif not re.search(r"\b(struct|class|LS\w+|vector)\b|&|\*", t):
                env.var[(0, v)] = frozenset([atom_(self.fn.vars[v]["n"])])
        if self.result is None:
            raise Lost("no list")
        self.ex(self.fn.body, env, 0)
        return self.added

    def decide(self, key, n=2):
        if key is not None and key in self.memo:
            return self.memo[key]
        i = len(self.made)
        r = self.taken[i] if i < len(self.taken) else 0
        self.made.append((r, n))
        if key is not None:
            self.memo[key] = r
        return r

    def new(self, nm):
        self.fresh += 1
        return frozenset([atom_("%s'%d" % (nm, self.fresh))])

    # places: fields of local records and entries of local arrays
    def place(self, n, env, fr):
        n = strip(n)
        if n.k == "Var":
            k = (fr, n.d["v"])
            k = self.alias.get(k, k)
            return k[1] if k[0] == "place" else ("var", k)
        if n.k == "Cond":
            return self.place(n.kids[1 if self.truth(n.kids[0], env, fr) else 2], env, fr)
        if n.k == "Mem" and n.c and strip(n.c[0]).k != "This":
            b = self.place(n.c[0], env, fr)
            if b is not None and b[0] == "var":
                return ("var", b[1] + ("." + n.d["n"],))
            return b[:1] + (b[1] + "." + n.d["n"],) + b[2:] if b is not None and b[0] == "field" else None
        if n.k == "Mem":
            return ("field", n.d["n"])
        i = b = None
        if n.k == "Idx":
            b, i = self.place(n.c[0], env, fr), n.c[1]
        elif n.k == "Call" and n.d.get("oper") in ("[]", "()") and n.slot("obj") is not None:
            b, i = self.place(n.slot("obj"), env, fr), [c for c in n.c if c is not n.slot("obj")][0]
        if i is not None:
            i = self.one(self.ev(i, env, fr))
            if b is None or i is None:
                return None
            if b[0] == "var":
                return ("var", b[1] + (i,))
            return ("elt", b[1], C(i)) if b[0] == "field" else None
        if n.k in ("Paren", "Cast") or n.k == "Un" and n.d.get("op") in ("*", "&"):
            return self.place(n.c[0], env, fr)
        return None

    def load(self, pl, env, n):
        if pl[0] == "var":
            v = env.var.get(pl[1])
            if v is None and len(pl[1]) > 2:
                v = frozenset([atom_(".".join(str(x) for x in pl[1]))])
            return TOP if v is None else v
        if pl[0] == "field":
            return frozenset([atom_(pl[1])])
        return Codec.load(self, pl, env, n)

    def store(self, pl, v, env, n):
        if pl is None or pl[0] != "var":
            if pl is None and n is not None:
                t = strip(n.c[0]) if n.k == "Assign" and n.c else None
                b = t
                while b is not None and b.k in ("Mem", "Idx", "Call"):
                    b = strip(b.slot("obj") if b.k == "Call" and b.slot("obj") is not None else b.c[0]) if (b.c or b.slot("obj") is not None) else None
                if b is not None and b.k == "Var" and "double" in (t.t or ""):
                    raise Lost("an array entry with an unknown number")
            return
        key = pl[1]
        for k in [k for k in env.var if len(k) > len(key) and k[:len(key)] == key]:
            del env.var[k]
        env.var[key] = self.new("v") if v is TOP else v

    def assign(self, n, env, fr):
        l = n.c[0] if n.k == "Assign" else (n.slot("obj") if n.slot("obj") is not None else n.c[0])
        r = n.c[1] if n.k == "Assign" else [c for c in n.c if c is not l][-1]
        if (n.d.get("op") or n.d.get("oper")) == "=":
            x, y = self.place(l, env, fr), self.place(r, env, fr)
            if x is not None and y is not None and x[0] == y[0] == "var":
                sub = {k[len(y[1]):]: v for k, v in env.var.items() if len(k) > len(y[1]) and k[:len(y[1])] == y[1]}
                v = self.ev(r, env, fr)
                self.store(x, v, env, n)
                for k, w in sub.items():
                    env.var[x[1] + k] = w
                return v
        return Codec.assign(self, n, env, fr)

    def cmp(self, p, q, op):
        k = Codec.cmp(self, p, q, op)
        if k is None and not self.raw:
            d = padd_(p, q, -1)
            key = (frozenset([d, padd_(frozenset(), d, -1)]), "eq") if op in ("==", "!=") else (d, op)
            r = self.decide(key) == 0
            k = r if op != "!=" else not r
        return k

    def truth(self, n, env, fr):
        n = strip(n)
        if n.k == "Bin" and n.d["op"] in ("!=", ">", "==", "<="):
            for i in (0, 1):
                m, z = strip(n.c[i]), strip(n.c[1 - i])
                if m.k == "Mem" and m.d["n"] == "prob" and z.k in ("Lit", "Flt") and float(z.d.get("v") or 0) == 0 and (i == 0 or n.d["op"] in ("==", "!=")):
                    return n.d["op"] in ("!=", ">")        # leaving out a result of probability zero changes nothing
                if z.k in ("Lit", "Flt") and float(z.d.get("v") or 0) == 0 and (i == 0 or n.d["op"] in ("==", "!=")) and "double" in (m.t or ""):
                    v = self.ev(m, env, fr)
                    if v is not TOP and any(k[-1] == ".prob" and w == v for k, w in env.var.items()):
                        return n.d["op"] in ("!=", ">")
        t = Codec.truth(self, n, env, fr)
        if t is None and not self.raw and not (n.k == "Un" and n.d["op"] == "!" or n.k == "Bin" and n.d["op"] in ("&&", "||")):
            t = self.decide(None) == 0
        return t

    def ex(self, n, env, fr):
        if n is not None and n.k == "Decl" and len(n.vars) == 1 and n.vars[0][3] is not None and is_ref_type(n.vars[0][2]):
            p = self.place(n.vars[0][3], env, fr)
            if p is not None:
                self.alias[(fr, n.vars[0][0])] = ("place", p)
                return Flow0(env)
        return Codec.ex(self, n, env, fr)

    def touches(self, n):
        for m in n.walk():
            if m.k == "Return":
                return True
            if m.k == "Call" and any(strip(c).k == "Var" and (0, strip(c).d["v"]) == self.result for c in list(m.c) + [m.slot("obj")] if c is not None):
                return True
            if m.k == "Assign" and strip(m.c[0]).k == "Mem" and strip(m.c[0]).d["n"] == "prob":
                return True
        return False

    def loop(self, n, env, fr):
        c = n.slot("cond")
        t = True
        if n.k != "Do" and c is not None:
            e = env.clone()
            if n.slot("init") is not None:
                e = self.ex(n.slot("init"), e, fr).next
            self.raw = True
            t = self.truth(c, e, fr)
            self.raw = False
        if t is not None or self.touches(n):
            return Codec.loop(self, n, env, fr)
        for m in n.walk():
            l = m.c[0] if m.k == "Assign" or m.k == "Un" and m.d["op"] in ("++", "--", "post++", "post--") else None
            if l is not None:
                b = strip(l)
                while b.k in ("Mem", "Idx", "Call") and (b.c or b.slot("obj") is not None):
                    b = strip(b.slot("obj") if b.k == "Call" and b.slot("obj") is not None else b.c[0])
                if b.k == "Var":
                    key = self.alias.get((fr, b.d["v"]), (fr, b.d["v"]))
                    if key[0] == "place":
                        continue
                    for k in [k for k in env.var if k[:len(key)] == key]:
                        del env.var[k]
                    env.var[key] = self.new("v")
        return Flow0(env)

    def switch(self, n, env, fr):
        v = self.ev(n.slot("cond"), env, fr)
        items = list(n.slot("body").kids)
        starts = []
        for idx, it in enumerate(items):
            x = it
            while x is not None and x.k in ("Case", "Default"):
                starts.append((idx, int(x.d["cv"]) if x.k == "Case" and x.d.get("cv") is not None else None))
                nx = [c for c in x.kids if c is not x.slot("val")]
                x = nx[0] if nx else None
        k = self.one(v)
        if k is not None:
            hit = [i for i, c in starts if c == k] or [i for i, c in starts if c is None]
            if not hit:
                return Flow0(env)
            s = hit[0]
        else:
            key = (v, "switch") if v is not TOP and len(v) == 1 else None
            full = any(c is None for i, c in starts)
            r = self.decide(key, len(starts) + (0 if full else 1))
            if r >= len(starts):
                return Flow0(env)
            s = starts[r][0]
            if starts[r][1] is not None:
                pl = self.place(n.slot("cond"), env, fr)
                if pl is not None and pl[0] == "var":
                    env.var[pl[1]] = C(starts[r][1])
        from rules.track import Flow, join
        fl = Flow(env)
        for it in items[s:]:
            if fl.next is None:
                break
            f = self.ex(it, fl.next, fr)
            fl = Flow(f.next, join(fl.brk, f.brk), join(fl.cont, f.cont), join(fl.ret, f.ret))
        return Flow(join(fl.next, fl.brk), None, fl.cont, fl.ret)

    def call(self, n, env, fr):
        nm = last(n.d.get("q") or "")
        if n.d.get("nr") or nm == "__assert_fail":
            raise Dead()
        o = n.slot("obj")
        args = [c for c in n.c if c is not o]
        pl = self.place(o, env, fr) if o is not None else None
        if pl is not None and pl == ("var", self.result):
            if nm == "clear":
                self.added = []
                return TOP
            if nm in ("push_back", "insert"):
                b = self.place(args[0], env, fr) if nm == "push_back" else None
                p = env.var.get(b[1] + (".prob",)) if b is not None and b[0] == "var" else None
                if p is None or p is TOP:
                    raise Lost("what is added")
                self.added.append((n, p))
                return TOP
            if nm in ("size", "empty", "begin", "end", "reserve"):
                return TOP
            raise Lost("the list is changed by %s" % nm)
        res = [g for g in self.P.resolve(n) if not g.impl]
        hand = [c for c in args if self.place(c, env, fr) is not None and self.place(c, env, fr)[0] == "var" and
                (self.place(c, env, fr)[1] == self.result or any(k[:len(self.place(c, env, fr)[1])] == self.place(c, env, fr)[1] and k[-1] == ".prob" for k in env.var))]
        if hand:
            if len(res) != 1 or res[0].file != self.fn.file or len(self.stack) > 4 or res[0].usr in self.stack:
                raise Lost("the list is handed to %s" % nm)
            self.stack.append(res[0].usr)
            r = self.inline(n, res[0], args, env, fr)
            self.stack.pop()
            return r
        for c in args:
            self.ev(c, env, fr)
        if len(res) == 1:
            for i, c in enumerate(args):
                if i < len(res[0].params):
                    t = res[0].vars[res[0].params[i]]["t"]
                    if is_ref_type(t) and not t.startswith("const"):
                        b = self.place(c, env, fr)
                        if b is not None and b[0] == "var":
                            self.store(b, TOP, env, n)
        return self.new("r")

    def ev(self, n, env, fr):
        n = strip(n)
        if n.k == "Call" and n.d.get("oper") in ("[]", "()"):
            pl = self.place(n, env, fr)
            if pl is not None:
                return self.load(pl, env, n)
            return self.new("e")
        return Codec.ev(self, n, env, fr)

    def inline(self, n, g, args, env, fr):
        self.frames += 1
        f = self.frames
        for i, v in enumerate(g.params):
            if i >= len(args):
                break
            p = self.place(args[i], env, fr)
            if is_ref_type(g.vars[v]["t"]) and p is not None and p[0] == "var":
                self.alias[(f, v)] = p[1]
                continue
            env.var[(f, v)] = self.ev(args[i], env, fr)
            if p is not None and p[0] == "var":
                for k in [k for k in env.var if len(k) > len(p[1]) and k[:len(p[1])] == p[1]]:
                    env.var[(f, v) + k[len(p[1]):]] = env.var[k]
        from rules.track import join
        fl = self.ex(g.body, env, f)
        e = join(fl.next, fl.ret)
        if e is None:
            raise Lost("no return")
        env.var = e.var
        r = e.ret[0] if e.ret else TOP
        env.ret = None
        return r


def Flow0(env):
    from rules.track import Flow
    return Flow(env)


def complete(a, vs):
    """sum of the probabilities on a path; distributions read from the file add up to one"""
    t = frozenset()
    for v in vs:
        if len(v) != 1:
            return None
        t = padd_(t, next(iter(v)))
    from rules.track import pmul_, const_
    out = frozenset()
    for m, c in t:
        q = const_(c)
        for s, k in m:
            x = re.match(r"(?:\S*\.)?(obsDistribution\w+)\[2\]$", s)
            b = atom_(s)
            if x:
                b = padd_(padd_(const_(1), atom_(s[:-3] + "[0]"), -1), atom_(s[:-3] + "[1]"), -1)
            if k < 0:
                return None
            for _ in range(k):
                q = pmul_(q, b)
        out = padd_(out, q)
    return out


def x04_mass(a):
    P = a.P
    from rules.track import show as shw
    seen = 0
    for fn in survey(a):
        if fn.short not in ("getOutcomes", "getObservations") or not fn.blocks or not any(re.search(r"vector<.*Outcome", fn.vars[v]["t"]) for v in fn.params):
            continue
        seen += 1
        work, done, paths, bad, und = [[]], 0, 0, {}, None
        while work and done < 3000:
            pre = work.pop()
            done += 1
            r = Path(a, fn, pre)
            try:
                got = r.run()
            except Dead:
                got = None
            except (Lost, KeyError, AttributeError, TypeError, IndexError, ValueError) as x:
                und = str(x)
                got = None
            for i in range(len(pre), len(r.made)):
                for alt in range(1, r.made[i][1]):
                    work.append([x for x, _ in r.made[:i]] + [alt])
            if got is None:
                continue
            paths += 1
            t = complete(a, [v for n, v in got])
            if t is None:
                und = "form of the sum"
            elif known(t) != 1:
                w = got[-1][0] if got else None
                k = shw(t)
                bad.setdefault(fn.where(w) if w is not None else fn.where(), (k, len(got)))
        if work:
            und = "too many paths"
        for w, (k, n) in sorted(bad.items())[:4]:
            a.fail("X04.mass", w, "%s: on some path the %d listed results have total probability %s instead of 1" % (fn.q.replace("zmdp::", ""), n, k[:80]), key="X04.mass|%s" % fn.short)
        if not bad:
            a.ok("X04.mass", fn.where(), "%s: %d paths, each with total probability 1%s" % (fn.short, paths, " (%s: not decided)" % und if und else ""))
    a.need("X04.mass", seen, 1, "routines listing outcomes or observations")


def x04_norm(a):
    """the observation distributions are scaled to total one when they are read"""
    P = a.P
    for fn in survey(a):
        for n in P.all_nodes(fn):
            if n.k != "Call" or not n.c or strip(n.c[0]).k != "Mem" or not strip(n.c[0]).d["n"].startswith("obsDistribution"):
                continue
            res = [g for g in P.resolve(n) if not g.impl]
            if len(res) != 1 or "&" not in res[0].vars[res[0].params[0]]["t"] or "const" in res[0].vars[res[0].params[0]]["t"]:
                continue
            g = res[0]
            divs = [m for m in P.all_nodes(g) if m.k == "Assign" and m.d["op"] == "/=" or m.k == "Bin" and m.d["op"] == "/"]
            off = False
            for c in n.c[1:]:
                v = strip(c)
                v = v.d.get("cv", v.d.get("v") if v.k in ("Lit", "Bool") else None)
                if v in (0, "0", False) and not isinstance(v, str) or v == "0":
                    off = True
            a.check(not off, "X04.norm", fn.where(n), "%s scaled to total one" % strip(n.c[0]).d["n"], "the distribution %s is read without being scaled to total one" % strip(n.c[0]).d["n"], key="X04.norm|" + strip(n.c[0]).d["n"])


RULES["X04"] = [x04_mass, x04_norm]
TEXT["X04.mass"] = "every path of the routine is evaluated symbolically (constant loops unrolled, undecided conditions and switches taken both ways, repeated conditions consistently): the probabilities of the listed results add up to 1 as a polynomial identity, given that distributions read from the file add up to 1"
TEXT["X04.norm"] = "the reader asks for scaling of both observation distributions"
