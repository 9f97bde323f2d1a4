"""X01, X03: accesses to map arrays stay inside the map"""
from rules.common import *
from flow import last

RULES = {}
TEXT = {}


def lin(p):
    """a polynomial value as {monomial: coefficient}, None if it has fractions of constants we do not read"""
    d = {}
    for s, m in p:
        c = s
        rest = []
        for x in m:
            if isinstance(x, str) and re.match(r"^#-?\d+$", x):
                c *= int(x[1:])
            else:
                rest.append(x)
        k = tuple(sorted(rest, key=str))
        d[k] = d.get(k, 0) + c
    return {k: c for k, c in d.items() if c}


def off(r, x):
    """the constant r - x, None if it is none"""
    d = dict(r)
    for k, c in x.items():
        d[k] = d.get(k, 0) - c
    d = {k: c for k, c in d.items() if c}
    if not d:
        return 0
    return d[()] if list(d) == [()] else None


def minus(x, y):
    d = dict(x)
    for k, c in y.items():
        d[k] = d.get(k, 0) - c
    return {k: c for k, c in d.items() if c}


def show(x):
    return " + ".join("%s%s" % ("" if c == 1 else "%s*" % c, "*".join(str(m).split(".")[-1] for m in k) or "1") for k, c in sorted(x.items(), key=str)) or "0"


def poly1(a, n, ctx=None):
    v = a.E.ev(n, ctx) if ctx is not None else a.E.ev(n)
    return [lin(p) for p in v]


def arrays(a, cls):
    """fields of a map class that hold one entry per cell"""
    out = set()
    for r in a.P.records.values():
        if r["q"] == cls:
            for f in r["fields"]:
                t = f.get("t") or ""
                if re.search(r"(unsigned )?char \*$|vector<unsigned char", t):
                    out.add(f["n"])
    return out


def sites(a, fn, names):
    """subscripts of one of the arrays: (node, field, index expression)"""
    for n in a.P.all_nodes(fn):
        b = i = None
        if n.k == "Idx":
            b, i = strip(n.c[0]), n.c[1]
        elif n.k == "Call" and n.d.get("oper") == "[]" and n.slot("obj") is not None:
            b, i = strip(n.slot("obj")), [c for c in n.c if c is not n.slot("obj")][0]
        if b is not None and b.k == "Mem" and b.d["n"] in names:
            yield n, b, i


def unsigned_tests(a, fn):
    """differences compared as unsigned numbers: the smaller side is not negative either"""
    from vals import Ctx
    out = []
    todo = [(fn, None)]
    for n in a.P.all_nodes(fn):
        if n.k == "Call":
            res = [g for g in a.P.resolve(n) if g.blocks]
            if len(res) == 1 and re.sub(r"^const ", "", res[0].rt or "") in ("bool", "int"):
                todo.append((res[0], Ctx(n, fn, None)))
    for g, cx in todo:
        for n in a.P.all_nodes(g):
            if n.k == "Bin" and n.d["op"] in ("<", ">", "<=", ">="):
                if not all(re.search(r"unsigned|size_t", c.t or "") for c in n.c[:2]):
                    continue
                x, y = n.c[0], n.c[1]
                if n.d["op"][0] == ">":
                    x, y = y, x
                for p in poly1(a, x, cx):
                    for q in poly1(a, y, cx):
                        out.append(minus(q, p))
    return out


def at_least(a, x, unsig):
    """predicate: a relation says x >= 0"""
    def p(rs):
        for r in rs:
            if r[0] not in (">", ">=", "==") or not isinstance(r[1], frozenset) or not r[1]:
                continue
            ok = True
            for q in r[1]:
                l = lin(q)
                o = off(l, x)
                if o is not None and o <= (1 if r[0] == ">" else 0):
                    continue
                if r[0] != "==" and l in unsig and all(l.get(k) == -c for k, c in x.items()):
                    continue
                ok = False
            if ok:
                return True
        return False
    return p


def below(a, x, w):
    """predicate: a relation says x < w"""
    d = minus(w, x)

    def p(rs):
        for r in rs:
            if r[0] in (">", ">=") and isinstance(r[1], frozenset) and r[1]:
                os = [off(lin(q), d) for q in r[1]]
                if all(o is not None and o <= (0 if r[0] == ">" else -1) for o in os):
                    return True
        return False
    return p


def counter(a, n, x):
    """the enclosing loop whose counter x is, and x's distance from it"""
    vs = [k for k in x if len(k) == 1 and str(k[0]).startswith("iv:") and x[k] == 1]
    if len(vs) != 1 or set(x) - {vs[0], ()}:
        return None
    for f in n.ancestors():
        if f.k in ("For", "While", "Do"):
            L = loop_info(a, f)
            if L is not None and L.var is not None and L.lo is not None and str(L.var) == str(vs[0][0]).rsplit(".", 1)[-1]:
                return L, x.get((), 0)
    return None


def ranged(a, n, x, w, ctx=None):
    """(x >= 0, x < w) at node n"""
    lo = list(x) in ([], [()]) and x.get((), 0) >= 0
    hi = False
    c = counter(a, n, x)
    if c is not None:
        L, k = c
        los = [lin(p) for p in L.lo]
        if L.up and los and all(list(l) in ([], [()]) and l.get((), 0) + k >= 0 for l in los):
            lo = True
        if not L.up and k <= 0 and los and all((lambda o: o is not None and o <= -1)(off(l, w)) for l in los):
            hi = True
    un = unsigned_tests(a, n.fn)
    lo = lo or guarded(a, n, at_least(a, x, un), ctx, depth=0)
    hi = hi or guarded(a, n, below(a, x, w), ctx, depth=0)
    return lo, hi


def has_param(x):
    return any("$" in str(m) for k in x for m in k)


def located(a, n, ix, dims, ctx=None, depth=3):
    """[] if the index is inside the map on every path, else what is missing; None if its form is not understood"""
    W, H = dims
    out = []
    for x in poly1(a, ix, ctx):
        area = {tuple(sorted(list(W)[0] + list(H)[0], key=str)): 1}
        lo, hi = ranged(a, n, x, area, ctx)
        if lo and hi:
            continue
        w = list(W)[0][0]
        Y = {}
        X = {}
        for k, c in x.items():
            if w in k:
                k = list(k)
                k.remove(w)
                Y[tuple(k)] = c
            else:
                X[k] = c
        if not Y and counter(a, n, x) is None:
            return None
        if not Y:
            miss = [] if lo else ["it may be negative"]
            miss += [] if hi else ["it may exceed the number of cells"]
        else:
            miss = []
            for v, d, nm in ((X, W, "column"), (Y, H, "row")):
                lo, hi = ranged(a, n, v, d, ctx)
                if not lo:
                    miss.append("the %s may be negative" % nm)
                if not hi:
                    miss.append("the %s may lie beyond the last one" % nm)
        if miss and depth and (has_param(x) or ctx is not None):
            base = ctx.callerfn if ctx is not None else n.fn
            cs = [(c, m) for c, m in a.P.callers.get(n.fn.usr, ()) if c is not n.fn] if ctx is None else []
            if cs and all(outer(a, m, n, ix, dims, x) for c, m in cs):
                miss = []
        out += miss
    return out


def outer(a, call, n, ix, dims, x):
    """the index is inside the map at a call of the function that uses it"""
    from vals import Ctx
    cx = Ctx(call, call.fn, None)
    W, H = dims
    w = list(W)[0][0]
    for y in poly1(a, ix, cx):
        X, Y = {}, {}
        for k, c in y.items():
            if w in k:
                k = list(k)
                k.remove(w)
                Y[tuple(k)] = c
            else:
                X[k] = c
        for v, d in ((X, W), (Y, H)):
            if not all(ranged(a, call, v, d)):
                return False
    return True


def x01_map(a):
    P = a.P
    cls = [r["q"] for r in P.records.values() if r["q"].split("::")[-1] == "TrackMap"]
    if not cls:
        return a.need("X01.map", 0, 1, "race track map class")
    cls = cls[0]
    names = arrays(a, cls)
    dims = ({("@TrackMap.width",): 1}, {("@TrackMap.height",): 1})
    seen = 0
    for fn in P.funcs.values():
        if fn.impl or fn.file != "src/mdps/RaceTrack.cc" and "RaceTrack" not in fn.file:
            continue
        for n, b, ix in sites(a, fn, names):
            if not P.reachable(n):
                continue
            seen += 1
            m = located(a, n, ix, dims)
            if m is None:
                a.ok("X01.map", fn.where(n), "%s: index form not decided" % b.d["n"])
            elif m:
                a.fail("X01.map", fn.where(n), "%s reads or writes map array %s although %s" % (fn.q.replace("zmdp::", ""), b.d["n"], " and ".join(m)),
                       key="X01.map|%s|%s" % (fn.q, b.d["n"]))
            else:
                a.ok("X01.map", fn.where(n), "%s: %s inside the map" % (fn.q, b.d["n"]))
    a.need("X01.map", seen, 2, "map array accesses")


def line_returns(a):
    """(return node of the line routine, its number, what must have been found)"""
    P = a.P
    out = []
    for fn in P.funcs.values():
        if fn.short != "lineType" or fn.impl:
            continue
        for n in P.all_nodes(fn):
            if n.k != "Return" or not n.c or not P.reachable(n):
                continue
            e = strip(n.c[0])
            cv = e.d.get("cv", e.d.get("v") if e.k == "Lit" else None)
            if guarded(a, n, truthy(r"(?i)finish", "T"), depth=0):
                w = "finish"
            elif guarded(a, n, truthy(r"(?i)open", "F"), depth=0):
                w = "closed"
            elif guarded(a, n, truthy(r"(?i)open", "T"), depth=0):
                w = "free"
            else:
                w = None
            out.append((n, int(cv) if cv is not None else None, w, guarded(a, n, truthy(r"(?i)finish", "F"), depth=0)))
    return out


def line_codes(a):
    """(outcome number of a line that hits a finish cell, of one that hits a closed cell)"""
    rs = line_returns(a)
    f = set(c for n, c, w, t in rs if w == "finish" and c is not None)
    o = set(c for n, c, w, t in rs if w == "closed" and c is not None)
    return f.pop() if len(f) == 1 else 1, o.pop() if len(o) == 1 else 2


def x01_line(a):
    """the line routine's answers are the outcome numbers of what it found"""
    rs = line_returns(a)
    if not any(w == "finish" for n, c, w, t in rs):
        for n, c, w, t in rs:
            a.ok("X01.line", n.fn.where(n), "not decided")
        return
    f, o = line_codes(a)
    for n, c, w, t in rs:
        wh = n.fn.where(n)
        if c is None:
            a.ok("X01.line", wh, "not decided")
        elif w is None:
            a.fail("X01.line", wh, "the line routine answers %d without having tested the cells of the line" % c, key="X01.line|untested|%d" % c)
        elif w == "free":
            a.check(c not in (f, o) and t, "X01.line", wh, "free line", "the line routine answers %d for a line of open cells" % c, key="X01.line|free")
        elif w == "finish":
            a.check(c == f and c != 0 and f != o, "X01.line", wh, "finish", "the line routine answers %d for a line that hits a finish cell" % c, key="X01.line|finish")
        else:
            a.check(c == o and c != 0 and t, "X01.line", wh, "closed cell, finish tested first",
                    "the line routine answers %d for a closed cell%s" % (c, "" if t else " that was not tested for being a finish cell"), key="X01.line|closed")


def x01_prob(a):
    """an error probability taken from the file is a probability"""
    P = a.P
    seen = 0
    for fn in P.funcs.values():
        if fn.impl or (fn.cls or "").split("::")[-1] != "RaceTrack":
            continue
        for n in P.all_nodes(fn):
            if n.k != "Assign" or n.d["op"] != "=" or strip(n.c[0]).k != "Mem" or strip(n.c[0]).d["n"] != "errorProbability":
                continue
            if not re.search(r"ato[fi]|strto|stod|scanf", " ".join(pstr(p) for p in a.E.ev(n.c[1])) + " ".join(last(m.d.get("q") or "") for m in n.walk() if m.k == "Call")):
                continue
            seen += 1
            bad = []
            for nm, want in (("below 0", -1), ("above 1", 1)):
                # a path from the assignment to the function's end on which the value was never found in range
                def p(rs, want=want):
                    for r in rs:
                        if r[0] in (">", ">=") and isinstance(r[1], frozenset) and r[1]:
                            ok = True
                            for q in r[1]:
                                l = lin(q)
                                vs = {k: c for k, c in l.items() if k != ()}
                                if len(vs) != 1 or list(vs.values())[0] != -want or not re.search(r"errorProbability|ato|strto|stod", str(list(vs)[0])):
                                    ok = False
                                elif (l.get((), 0) > 0) if want == -1 else (l.get((), 0) > 1):
                                    ok = False
                            if ok:
                                return True
                    return False
                es = good_edges(a, fn, p)
                pos = P.position(n)
                if pos is not None and uncut(a, fn, pos, "exit", es) is not None:
                    bad.append(nm)
            if bad:
                a.fail("X01.prob", fn.where(n), "an error probability %s read from the file is accepted" % " or ".join(bad), key="X01.prob")
            else:
                a.ok("X01.prob", fn.where(n), "error probability kept in 0..1")
    a.need("X01.prob", seen, 0, "error probabilities read")


RULES["X01"] = [x01_map, x01_line, x01_prob]
TEXT["X01.map"] = "every subscript of a map array is width*row+column with 0 <= column < width and 0 <= row < height on all paths (guards, loop ranges, callers), or a counter over all cells"
TEXT["X01.prob"] = "every path from reading the error probability to the end of the reading function passes tests that leave only values between 0 and 1"
TEXT["X01.line"] = "the line routine gives one number after a finish test succeeded, another after the finish test failed and the open test failed, and the free-line number only after both tests; the outcome routines are checked against these numbers"
