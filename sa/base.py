"""Rule vocabulary shared by the property checks."""
import fnmatch
import functools
import itertools
import re
from core import *
from vals import *


class BrokenAnalysis(Exception):
    pass


class A(object):
    """one analysis run: program, evaluator, obligations, findings"""

    def __init__(self, P, cfgfile, prop):
        self.P, self.prop, self.cfgfile = P, prop, cfgfile
        self.E = Eval(P)
        self.obl = []      # (rule, where, what, ok)
        self.bad = []      # dict(rule, where, msg, key)
        self.notes = []

    def ok(self, rule, where, what=""):
        self.obl.append((rule, where, what, True))

    def fail(self, rule, where, msg, key=None):
        self.obl.append((rule, where, msg, False))
        self.bad.append(dict(rule=rule, where=where, msg=msg, key=key or "%s|%s" % (rule, msg)))

    def check(self, cond, rule, where, what, msg=None, key=None):
        if cond:
            self.ok(rule, where, what)
        else:
            self.fail(rule, where, msg or what, key)
        return cond

    def need(self, rule, n, least, what):
        if n < least:
            raise BrokenAnalysis("rule %s: %d %s found, at least %d expected" % (rule, n, what, least))

    def fn(self, q, least=1):
        r = self.P.find(q) or self.P.find("zmdp::" + q)
        if len(r) < least:
            raise BrokenAnalysis("function %s not found" % q)
        return r

    def methods_of(self, base_q, name):
        """definitions of method `name` in base_q and every class derived from it"""
        res = []
        for r in self.P.subclasses(base_q):
            for f in self.P.find(r["q"] + "::" + name):
                res.append(f)
        return res

    # -- contexts ---------------------------------------------------------
    def chains(self, fn, depth):
        """call chains (innermost call first) of length exactly <= depth ending in fn"""
        yield ()
        if depth <= 0:
            return
        for c, n in self.P.callers.get(fn.usr, ()):
            if c is fn:
                continue
            for rest in self.chains(c, depth - 1):
                yield (n,) + rest

    def build(self, chain):
        up = None
        for call in reversed(chain):
            up = Ctx(call, call.fn, up)
        return up

    def resolved(self, node, depth=3, open_=None):
        """evaluate node; while the value mentions a scalar/vector parameter of the enclosing function, substitute
        the arguments of every call site.  Yields (value, chain)."""
        def rec(chain, d):
            ctx = self.build(chain)
            v = self.E.ev(node, ctx)
            if d > 0 and (open_ or has_param)(v):
                fn = chain[-1].fn if chain else node.fn
                cs = [(c, n) for c, n in self.P.callers.get(fn.usr, ()) if c is not fn and n not in chain]
                if cs:
                    for c, n in cs:
                        for x in rec(chain + (n,), d - 1):
                            yield x
                    return
            yield v, chain
        return list(rec((), depth))

    def chain_str(self, chain):
        return "" if not chain else " via " + " <- ".join("%s (%s)" % (c.fn.q, c.fn.where(c)) for c in chain)


def has_param(v):
    return "$" in vstr(v)


def atoms(v):
    res = set()

    def ga(a):
        if isinstance(a, tuple):
            if a and a[0] in ("MAX", "MIN"):
                for p in a[1]:
                    gp(p)
                return
        res.add(a)

    def gp(p):
        for s, m in p:
            for a in m:
                ga(a)
    for p in v:
        gp(p)
    return res


def flat(v):
    """alternatives with MAX/MIN opened: the set of polynomials the value is chosen from"""
    out = set()
    for p in v:
        op, es = extset(p)
        if op:
            for q in es:
                out |= flat(frozenset([q]))
        else:
            out.add(p)
    return out


def glob_any(a, pats):
    if not isinstance(a, str):
        return False
    return any(re.match(x, a) for x in pats)


_rx = {}


def rx(p):
    r = _rx.get(p)
    if r is None:
        r = _rx[p] = re.compile(fnmatch.translate(p).replace("\\Z", "$"))
    return r


_ix = re.compile(r"\[[^\[\]]*\]")


def noidx(s):
    """drop the index texts of an access path"""
    return _ix.sub("[]", s)


def gm(a, pats):
    """glob match where [] is literal and stands for any subscript"""
    if not isinstance(a, str):
        return False
    a = noidx(a)
    for p in pats:
        q = p.replace("[", "\0").replace("]", "\1").replace("\0", "[[]").replace("\1", "[]]")
        if rx(q).match(a):
            return True
    return False


def match_mono(m, names, voc):
    if len(m) != len(names):
        return False
    if not m:
        return True

    def rec(i, left):
        if i == len(m):
            return True
        for k, nm in enumerate(left):
            pats = voc.get(nm, [nm])
            if callable(pats):
                okk = pats(m[i])
            else:
                okk = gm(m[i], pats)
            if okk and rec(i + 1, left[:k] + left[k + 1:]):
                return True
        return False
    return rec(0, list(names))


def parse_spec(s):
    """ "+R +g*p*x -y" -> [(1,[R]),(1,[g,p,x]),(-1,[y])] ; "0" -> [] ; "+1" -> [(1,[])] """
    res = []
    for t in s.split():
        if t == "0":
            continue
        sg = -1 if t[0] == "-" else 1
        body = t[1:] if t[0] in "+-" else t
        res.append((sg, [] if body == "1" else body.split("*")))
    return res


def match_poly(p, spec, voc):
    """every monomial matches a term of the spec, and every term is matched by at least one monomial"""
    if isinstance(spec, str):
        spec = parse_spec(spec)
    used = set()
    for s, m in p:
        hit = False
        for i, (sg, names) in enumerate(spec):
            if sg == s and match_mono(m, names, voc):
                used.add(i)
                hit = True
                break
        if not hit:
            return False
    return len(used) == len(spec)


def match_any(p, specs, voc):
    return any(match_poly(p, s, voc) for s in specs)


def assigns(P, fn):
    """(node, lhs, op, rhs) of every assignment-like node"""
    for n in P.all_nodes(fn):
        if n.k == "Assign":
            yield n, n.c[0], n.d["op"], n.c[1]
        elif n.k == "Call" and n.d.get("oper") in OUT_OPS:
            o = n.slot("obj")
            if o is not None:
                yield n, o, n.d["oper"], n.c[0]
            elif len(n.c) == 2:
                yield n, n.c[0], n.d["oper"], n.c[1]


def short(q):
    return q.replace("zmdp::", "").replace("sla::", "")


def field_stores(a, pred, depth=3):
    """every store to a field whose qualified name satisfies pred: yields (fn, node, op, rhs, lhs, chain).
    Stores through a scalar reference/pointer parameter are attributed to the field its call sites pass."""
    P, E = a.P, a.E
    for fn in list(P.funcs.values()):
        for i in fn.inits:
            if i["m"] and i["e"] is not None and pred(i["m"]) and i["w"]:
                yield fn, i["e"], "=", i["e"], None, ()
        for n, lhs, op, rhs in assigns(P, fn):
            if lhs.k == "Mem":
                if pred(lhs.d["q"]):
                    yield fn, n, op, rhs, lhs, ()
                continue
            x = lhs
            while x.k in ("Un", "Cast") and x.k == "Cast" or (x.k == "Un" and x.d["op"] == "*"):
                x = x.c[0]
            if x.k != "Var":
                continue
            t = fn.vars[x.d["v"]]["t"]
            if not (t.endswith("&") or (t.endswith("*") and x is not lhs)):
                continue
            if identity(a, t):
                continue
            for tgt, chain in alias_targets(a, fn, x, depth):
                if tgt is not None and tgt.k == "Mem" and pred(tgt.d["q"]):
                    yield fn, n, op, rhs, tgt, chain


def identity(a, t):
    return a.E.identity_type(t)


def alias_targets(a, fn, var, depth, chain=()):
    """the lvalue expressions a reference/pointer variable may denote (through call sites for parameters)"""
    v = var.d["v"]
    D = fn_defs(a.P, fn)
    res = []
    for d in D.byvar.get(v, ()):
        if d.kind in ("init", "=") and d.rhs is not None and (d.kind == "init" or fn.vars[v]["t"].endswith("*")):
            e = d.rhs
            while e.k == "Cast" or (e.k == "Un" and e.d["op"] in ("&", "*")):
                e = e.c[0]
            if e.k == "Var":
                res += alias_targets(a, fn, e, depth, chain)
            else:
                res.append((e, chain))
    if v in fn.params and depth > 0:
        i = fn.params.index(v)
        for c, n in a.P.callers.get(fn.usr, ()):
            if i < len(n.c):
                e = n.c[i]
                while e.k == "Cast" or (e.k == "Un" and e.d["op"] in ("&", "*")):
                    e = e.c[0]
                if e.k == "Var":
                    t = c.vars[e.d["v"]]["t"]
                    if t.endswith("&") or t.endswith("*"):
                        res += alias_targets(a, c, e, depth - 1, chain + (n,))
                else:
                    res.append((e, chain + (n,)))
    return res


def enclosing_stmt(n):
    m = n
    while m.p is not None and m.p.k not in ("Block", "If", "For", "While", "Do", "ForRange", "Switch", "Case", "Default"):
        m = m.p
    return m


def loops_of(n):
    """enclosing loop statements, innermost first"""
    return [x for x in n.ancestors() if x.k in ("For", "While", "Do", "ForRange")]


def is_call(n, *names):
    if n.k != "Call":
        return False
    q = n.d.get("q") or ""
    return q in names or q.split("::")[-1] in names


def string_args(n):
    return [x.d["v"] for a_ in n.c for x in a_.walk() if x.k == "Str"]


def stream_chain(n):
    """operands of a << b << c ..., left to right, for the outermost << call node; None when not a stream insertion"""
    ops = []
    while n.k == "Call" and n.d.get("oper") == "<<":
        if n.slot("obj") is not None:
            ops.append(n.c[0])
            n = n.slot("obj")
        else:
            ops.append(n.c[1])
            n = n.c[0]
    return n, list(reversed(ops))


def outer_stream(n):
    return n.k == "Call" and n.d.get("oper") == "<<" and not (
        n.p is not None and n.p.k == "Call" and n.p.d.get("oper") == "<<" and
        (n.p.slot("obj") is n or (n.p.slot("obj") is None and n.p.c and n.p.c[0] is n)))


# -- loops --------------------------------------------------------------------
class Loop(object):
    """an induction-variable loop: var runs over [lo, hi) (up) or hi-1 .. lo (down), or an iterator loop"""
    __slots__ = ("node", "var", "kind", "lo", "hi", "incl", "body", "up", "over", "test")

    def __repr__(self):
        return "<Loop %s %s %s..%s>" % (self.node, self.kind, vstr(self.lo) if self.lo else "", vstr(self.hi) if self.hi else "")


def incs(P, fn, loop, v):
    """definitions of v inside the loop"""
    D = fn_defs(P, fn)
    ids = set(x.id for x in loop.walk())
    return [d for d in D.byvar.get(v, ()) if d.node.id in ids]


def loop_info(a, n, ctx=None):
    """recognise the loop's induction variable and its range; None when not of a counted shape"""
    key = (n.fn.usr, n.id, ctx.key if ctx else None)
    c = a.__dict__.setdefault("_loops", {})
    if key not in c:
        c[key] = _loop_info(a, n, ctx)
    return c[key]


def _loop_info(a, n, ctx):
    P, E, fn = a.P, a.E, n.fn
    L = Loop()
    L.node, L.body, L.lo, L.hi, L.up, L.incl, L.over, L.test = n, n.slot("body"), None, None, True, False, None, None
    if n.k == "ForRange":
        L.kind = "range"
        r = n.slot("range")
        if r is not None and r.k == "Decl":
            r = r.vars[0][3]
        L.over = E.ev(r, ctx) if r is not None else None
        lv = n.slot("lvar")
        L.var = lv.vars[0][0] if lv is not None and lv.vars else None
        return L
    cond = n.slot("cond")
    if cond is None:
        return None
    tests = [(x, t) for x, t in P.decompose(fn, cond, True)]
    stepped = set()
    if n.slot("inc") is not None:
        for y in n.slot("inc").walk():
            if y.k == "Un" and y.d["op"] in ("post--", "--", "post++", "++") and y.c[0].k == "Var" or y.k == "Assign" and y.c[0].k == "Var":
                stepped.add(y.c[0].d["v"])
    stepped = stepped if any(y.k == "Var" and y.d["v"] in stepped for x, t in tests for y in x.walk()) else set()
    for x, t in tests:
        isb = x.k == "Bin" and x.d["op"] in ("<", ">", "<=", ">=", "!=")
        isc = x.k == "Call" and x.d.get("oper") in ("<", ">", "<=", ">=", "!=", "==")
        isd = x.k == "Un" and x.d["op"] in ("post--", "--") and t
        if not (isb or isc or isd):
            continue
        if isd:
            xs, op = [x, None], "!="
        elif isc:
            xs = ([x.slot("obj")] if x.slot("obj") is not None else []) + x.c
            op = x.d["oper"]
        else:
            xs, op = x.c, x.d["op"]
        if len(xs) != 2:
            continue
        if not t:
            op = {"<": ">=", ">": "<=", "<=": ">", ">=": "<", "!=": "==", "==": "!="}[op]
        for i in (0, 1):
            y, z = xs[i], xs[1 - i]
            if y is None:
                continue
            while y.k == "Cast":
                y = y.c[0]
            step_in_cond = False
            if y.k == "Un" and y.d["op"] in ("post--", "--", "post++", "++"):
                step_in_cond = y.d["op"]
                yv = y.c[0]
            else:
                yv = y
            if yv.k != "Var":
                continue
            v = yv.d["v"]
            if stepped and v not in stepped:
                continue
            ds = incs(P, fn, n, v)
            inl = [d for d in ds if d.kind in ("++", "--", "+=", "-=")]
            if not inl:
                continue
            o = op if i == 0 else {"<": ">", ">": "<", "<=": ">=", ">=": "<=", "!=": "!=", "==": "=="}[op]
            if z is not None and z.k == "Var" and incs(P, fn, n, z.d["v"]) and not any(d.kind == "init" for d in incs(P, fn, n, z.d["v"])):
                continue
            L.var, L.test = v, x
            t_ = fn.vars[v]["t"]
            # initial value: definitions reaching the loop test from outside
            ids = set(q.id for q in n.walk())
            pos = P.position(y if step_in_cond else x)
            defs, entry = E.reaching(fn, v, pos, None)
            ini = n.slot("init")
            iniids = set(q.id for q in ini.walk()) if ini is not None else set()
            outer = [d for d in defs if d.field is None and (d.node.id not in ids or d.node.id in iniids)]
            lo = set()
            for d in outer:
                lo |= set(E.defval(d, None, ctx))
            if entry and fn.vars[v]["p"]:
                lo |= E.param(fn, v, ctx, None)
            L.lo = frozenset(lo)
            L.hi = E.ev(z, ctx) if z is not None else ZERO
            it = "iterator" in t_ or "iterator" in (yv.ct or "") or t_.endswith("*") or "_Node" in t_
            L.kind = "iter" if it else "count"
            if it:
                L.over = L.hi
                return L
            down = any(d.kind in ("--", "-=") for d in inl)
            L.up = not down
            if down:
                # var from lo down to bound
                init = L.lo
                if step_in_cond == "post--" and o in (">", "!="):
                    L.hi, L.lo = init, L.hi
                elif step_in_cond == "post--" and o == ">=":
                    L.hi, L.lo = init, vadd(L.hi, const(-1))
                elif step_in_cond == "--" and o in (">", "!="):
                    L.hi, L.lo = init, vadd(L.hi, const(1))
                elif step_in_cond == "--" and o == ">=":
                    L.hi, L.lo = init, L.hi
                elif o == ">=":
                    L.hi, L.lo = vadd(init, const(1)), L.hi
                elif o in (">", "!="):
                    L.hi, L.lo = vadd(init, const(1)), vadd(L.hi, const(1))
                L.hi = simp1(L.hi)
                L.lo = simp1(L.lo)
            else:
                if o == "<=":
                    L.hi = simp1(vadd(L.hi, const(1)))
                if step_in_cond:
                    L.lo = simp1(vadd(L.lo, const(1)))
                    if step_in_cond == "post++":
                        L.hi = simp1(vadd(L.hi, const(1)))
            return L
    return None


def simp1(v):
    """fold +1 -1 pairs and integer constants"""
    out = set()
    for p in v:
        k, rest = 0, set()
        for s, m in p:
            c = constm(m)
            if c is not None:
                k += s * c
            else:
                rest.add((s, m))
        if k:
            (q,) = const(k)
            rest |= q
        out.add(frozenset(rest))
    return frozenset(out)


def constm(m):
    if m == ():
        return 1
    if len(m) == 1 and isinstance(m[0], str) and m[0].startswith("#") and m[0] != "#BIG":
        return float(m[0][1:])
    return None


def vsub1(v):
    return v
