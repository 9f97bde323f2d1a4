"""X01: the race track's two outcome routines, by abstract interpretation.

Values are sets of linear forms over the state's entries, the error probability and the number of start cells; branches on
known values are taken, others are joined.  The sum of the probability list is carried along as a ghost value, so that moving
weight from one entry to another leaves it unchanged whatever the entries are.
"""
from fractions import Fraction
from rules.common import *
from flow import last
from core import is_ref_type

RULES = {}
TEXT = {}
TOP = None
CAP = 12


class Lost(Exception):
    """a construct outside the abstraction"""


def const_(c):
    c = Fraction(c)
    return frozenset([((), c)]) if c else frozenset()


def atom_(s):
    return frozenset([(((s, 1),), Fraction(1))])


def padd_(p, q, k=1):
    d = dict(p)
    for m, c in q:
        d[m] = d.get(m, 0) + c * k
    return frozenset((m, c) for m, c in d.items() if c)


def pmul_(p, q):
    d = {}
    for m, c in p:
        for n, e in q:
            x = dict(m)
            for s, k in n:
                x[s] = x.get(s, 0) + k
            t = tuple(sorted((s, k) for s, k in x.items() if k))
            d[t] = d.get(t, 0) + c * e
    return frozenset((m, c) for m, c in d.items() if c)


INV = {}                                   # atoms that stand for the inverse of a form


def pinv(p):
    if len(p) == 1:
        (m, c), = p
        return frozenset([(tuple((s, -k) for s, k in m), 1 / c)])
    if not p:
        return None
    s = "1/(%s)" % show(p)
    INV[s] = p
    return atom_(s)


def idiv(p, q):
    p, q = known(p), known(q)
    if p is None or q is None or not q:
        return None
    r = abs(p) // abs(q)
    return const_(r if (p < 0) == (q < 0) else -r)


def imod(p, q):
    p, q = known(p), known(q)
    if p is None or q is None or not q:
        return None
    r = abs(p) % abs(q)
    return const_(r if p >= 0 else -r)


BITS = {">>": lambda p, q: p >> q, "<<": lambda p, q: p << q, "&": lambda p, q: p & q, "|": lambda p, q: p | q, "^": lambda p, q: p ^ q}


def bits(op):
    def f(p, q):
        p, q = known(p), known(q)
        if p is None or q is None or p < 0 or q < 0 or q > 64 or p.denominator != 1 or q.denominator != 1:
            return None
        return const_(BITS[op](int(p), int(q)))
    return f


def number(p, at):
    """value of a form where atom s has the value at(s)"""
    t = Fraction(0)
    for m, c in p:
        x = Fraction(c)
        for s, k in m:
            v = 1 / number(INV[s], at) if s in INV else at(s)
            x *= v ** k
        t += x
    return t


def same(p, q):
    """equality of two forms as rational functions, by comparing their values at several points"""
    for i in (3, 7, 12):
        val = {}

        def at(s):
            if s not in val:
                h = 0
                for ch in s:
                    h = (h * 131 + ord(ch) + i) % 10007
                val[s] = Fraction(h + 2, 13 + i)
            return val[s]
        try:
            if number(p, at) != number(q, at):
                return False
        except ZeroDivisionError:
            continue
    return True


def known(p):
    """the number a form is, or None"""
    if not p:
        return Fraction(0)
    if len(p) == 1 and next(iter(p))[0] == ():
        return next(iter(p))[1]
    return None


def show(p):
    if p is None:
        return "?"
    t = []
    for m, c in sorted(p, key=str):
        s = "*".join(a if k == 1 else "%s^%d" % (a, k) for a, k in m)
        t.append(str(c) if not s else s if c == 1 else "%s*%s" % (c, s))
    return " + ".join(t) or "0"


def shows(v):
    return "?" if v is TOP else " or ".join(sorted(show(p) for p in v))


def lift2(f, a, b):
    if a is TOP or b is TOP:
        return TOP
    out = set()
    for p in a:
        for q in b:
            r = f(p, q)
            if r is None:
                return TOP
            out.add(r)
    return frozenset(out) if len(out) <= CAP else TOP


def C(c):
    return frozenset([const_(c)])


class Vec(object):
    __slots__ = ("size", "cell", "copy", "every")

    def __init__(self):
        self.size, self.cell, self.copy, self.every = TOP, {}, None, None

    def clone(self):
        v = Vec()
        v.size, v.cell, v.copy, v.every = self.size, dict(self.cell), self.copy, self.every
        return v


class Env(object):
    def __init__(self):
        self.var, self.vec, self.org = {}, {}, {}
        self.sum = C(0)
        self.ret = None

    def clone(self):
        e = Env()
        e.var, e.org = dict(self.var), dict(self.org)
        e.vec = {k: v.clone() for k, v in self.vec.items()}
        e.sum, e.ret = self.sum, self.ret
        return e


def vjoin(a, b):
    if a is TOP or b is TOP:
        return TOP
    r = a | b
    return r if len(r) <= CAP else TOP


def join(a, b):
    if a is None:
        return b
    if b is None:
        return a
    e = Env()
    for k in set(a.var) | set(b.var):
        if k in a.var and k in b.var:
            e.var[k] = vjoin(a.var[k], b.var[k])
        else:
            e.var[k] = a.var.get(k, b.var.get(k))
    for k in set(a.org) | set(b.org):
        e.org[k] = a.org.get(k, frozenset()) | b.org.get(k, frozenset())
    for k in set(a.vec) | set(b.vec):
        x, y = a.vec.get(k), b.vec.get(k)
        if x is None or y is None:
            e.vec[k] = (x or y).clone()
            continue
        v = Vec()
        v.size = vjoin(x.size, y.size)
        v.copy = x.copy if x.copy == y.copy else "?"
        v.every = x.every if x.every == y.every else TOP
        for i in set(x.cell) & set(y.cell):
            v.cell[i] = vjoin(x.cell[i], y.cell[i])
        for i in set(x.cell) ^ set(y.cell):
            v.cell[i] = "unset"
        e.vec[k] = v
    e.sum = vjoin(a.sum, b.sum)
    if a.ret is None or b.ret is None:
        e.ret = a.ret or b.ret
    else:
        e.ret = vjoin(a.ret[0], b.ret[0]), a.ret[1] if a.ret[1] == b.ret[1] else None
    return e


class Flow(object):
    __slots__ = ("next", "brk", "cont", "ret")

    def __init__(self, n=None, b=None, c=None, r=None):
        self.next, self.brk, self.cont, self.ret = n, b, c, r


class Run(object):
    """one routine under assumptions about the kind of state, the wind option, the action and the outcome"""

    def __init__(self, a, fn, wind, kind, act, out=None):
        self.a, self.P, self.fn = a, a.P, fn
        self.wind, self.kind, self.act, self.out = wind, kind, act, out
        self.moves = []               # (entry moved from, target alternatives, (x, y, dx, dy) of the line asked about)
        self.asked = []
        self.faults = []              # (node, message)
        self.nexttok = 0
        self.frames = 0
        self.alias = {}
        self.steps = 0
        self.bools = {}

    def start(self):
        env = Env()
        ps = self.fn.params
        self.result = None
        key = lambda v: (0, v)
        nm = self.roles()
        for i, v in enumerate(ps):
            r = nm[i]
            if r == "result":
                env.vec[key(v)] = Vec()
                self.result = key(v)
            elif r == "s":
                s = Vec()
                s.copy = "s"
                first = frozenset([atom_("s0")])
                if self.kind != "normal":
                    m = first_of(self.a, self.kind)
                    if m is None:
                        raise Lost("marks of the start and terminal states")
                    first = C(m)
                s.cell = {0: first}
                for j in range(1, 4):
                    s.cell[j] = frozenset([atom_("s%d" % j)])
                s.size = C(4)
                env.vec[key(v)] = s
            elif r == "a":
                env.var[key(v)] = C(self.act)
            else:
                env.var[key(v)] = C(self.out) if self.out is not None else frozenset([atom_("o")])
        fl = self.ex(self.fn.body, env, 0)
        return join(fl.next, fl.ret)

    def roles(self):
        sh = self.fn.short
        if sh == "getIsTerminalState":
            return ["s"]
        if sh == "getReward":
            return ["s", "a"]
        return ["result", "s", "a", "o"][:len(self.fn.params)]

    # ---- places
    def place(self, n, env, fr):
        """('var', key) | ('vec', key) | ('cell', key, index value) | ('field', name) | None"""
        n = strip(n)
        if n.k == "Var":
            k = (fr, n.d["v"])
            k = self.alias.get(k, k)
            if k[0] == "cellref":
                return ("cell", k[1], k[2])
            if k in env.vec:
                return ("vec", k)
            return ("var", k)
        if n.k in ("Paren", "Cast") or n.k == "Un" and n.d.get("op") in ("*", "&"):
            return self.place(n.c[0], env, fr)
        if n.k == "Call" and n.d.get("oper") in ("()", "[]") and n.slot("obj") is not None:
            b = self.place(n.slot("obj"), env, fr)
            ix = [c for c in n.c if c is not n.slot("obj")]
            if b is not None and b[0] == "vec":
                return ("cell", b[1], self.ev(ix[0], env, fr))
            if b is not None and b[0] == "field":
                return ("elt", b[1], self.ev(ix[0], env, fr))
            return None
        if n.k == "Idx":
            b = strip(n.c[0])
            i = self.ev(n.c[1], env, fr)
            if b.k == "Global":
                return ("table", b.d["q"], i)
            p = self.place(b, env, fr)
            if p is not None and p[0] == "vec":
                return ("cell", p[1], i)
            if p is not None and p[0] == "field" and p[1] == "data":
                return ("cell", p[2], i) if len(p) > 2 else None
            return None
        if n.k == "Mem":
            return ("field", n.d["n"])
        if n.k == "Global":
            return ("global", n.d["q"])
        return None

    # ---- expressions
    def ev(self, n, env, fr):
        self.steps += 1
        if self.steps > 60000:
            raise Lost("too long")
        n = strip(n)
        if n.d.get("cv") is not None and n.k != "Var":
            return C(int(n.d["cv"]))
        k = n.k
        if k in ("Lit", "Flt"):
            v = n.d.get("v")
            if isinstance(v, bool):
                return C(int(v))
            return C(Fraction(str(v)))
        if k == "Bool":
            return C(1 if n.d.get("v") else 0)
        if k == "Enum":
            return C(int(n.d["cv"]))
        if k == "Cast" or k == "Paren":
            return self.ev(n.c[0], env, fr)
        if k == "Un":
            op = n.d["op"]
            if op == "-":
                v = self.ev(n.c[0], env, fr)
                return TOP if v is TOP else frozenset(padd_(frozenset(), p, -1) for p in v)
            if op == "+":
                return self.ev(n.c[0], env, fr)
            if op == "!":
                t = self.truth(n.c[0], env, fr)
                return TOP if t is None else C(0 if t else 1)
            if op in ("++", "--", "post++", "post--"):
                pl = self.place(n.c[0], env, fr)
                old = self.ev(n.c[0], env, fr)
                new = lift2(padd_, old, C(1 if "++" in op else -1))
                self.store(pl, new, env, n)
                return old if op.startswith("post") else new
            return self.ev(n.c[0], env, fr)
        if k == "Bin":
            op = n.d["op"]
            if op in ("==", "!=", "<", ">", "<=", ">=", "&&", "||"):
                t = self.truth(n, env, fr)
                return TOP if t is None else C(1 if t else 0)
            x, y = self.ev(n.c[0], env, fr), self.ev(n.c[1], env, fr)
            if op == "+":
                return lift2(padd_, x, y)
            if op == "-":
                return lift2(lambda p, q: padd_(p, q, -1), x, y)
            if op == "*":
                return lift2(pmul_, x, y)
            isint = not re.search(r"double|float", n.t or "")
            if op == "/":
                if isint:
                    return lift2(idiv, x, y)
                return lift2(lambda p, q: pmul_(p, pinv(q)) if pinv(q) is not None else None, x, y)
            if op == "%":
                return lift2(imod, x, y)
            if op in BITS:
                return lift2(bits(op), x, y)
            if op == ",":
                return y
            return TOP
        if k == "Cond":
            t = self.truth(n.kids[0], env, fr)
            if t is None:
                r = None
                for i, w in ((1, True), (2, False)):
                    e = self.refine(env.clone(), n.kids[0], w, fr)
                    if e is not None:
                        v = self.ev(n.kids[i], e, fr)
                        r = v if r is None else vjoin(r, v)
                return r
            return self.ev(n.kids[1 if t else 2], env, fr)
        if k == "Assign" or k == "Call" and n.d.get("oper") in ("=", "+=", "-=", "*=", "/="):
            return self.assign(n, env, fr)
        pl = self.place(n, env, fr)
        if pl is not None:
            return self.load(pl, env, n)
        if k == "Call":
            return self.call(n, env, fr)
        if k == "This" or k == "Str":
            return TOP
        if k == "Ctor" and len(n.c) == 1:
            return self.ev(n.c[0], env, fr)
        return TOP

    def load(self, pl, env, n):
        if pl[0] == "var":
            return env.var.get(pl[1], TOP)
        if pl[0] == "cell":
            v = env.vec[pl[1]]
            i = self.one(pl[2])
            if i is None:
                if v.every is not None and v.every is not TOP:
                    return v.every
                return TOP
            x = v.cell.get(i, "unset")
            if x == "unset":
                if v.copy == "s" and pl[1] != getattr(self, "result", None):
                    return TOP
                if pl[1] == getattr(self, "result", None) and self.tracking():
                    self.faults.append((n, "entry %s is read before it is set" % i))
                return TOP
            if pl[1] == getattr(self, "result", None) and self.tracking() and (x is TOP or len(x) > 1):
                self.nexttok += 1
                x = frozenset([atom_("entry%s'%d" % (i, self.nexttok))])
                v.cell[i] = x
            return x
        if pl[0] == "field":
            nm = pl[1]
            if nm == "useErrorIsWind":
                return C(1 if self.wind else 0)
            if nm == "numActions":
                return C(9)
            return frozenset([atom_(nm)])
        if pl[0] == "elt":
            return frozenset([atom_("%s[%s]" % (pl[1], shows(pl[2])))])
        if pl[0] == "table":
            g = self.P.globals.get(pl[1])
            i = self.one(pl[2])
            t = self.table(g)
            if t is None or i is None:
                return TOP
            if i < 0 or i >= len(t):
                self.faults.append((n, "%s has no entry %d" % (pl[1].split("::")[-1], i)))
                return TOP
            return C(t[i])
        if pl[0] == "global":
            g = self.P.globals.get(pl[1])
            i = g.get("init") if g else None
            if i is not None and getattr(i, "k", None) and re.match(r"^(static )?const", g.get("t") or ""):
                return self.ev(i, Env(), 0)
            return TOP
        return TOP

    def table(self, g):
        i = g.get("init") if g else None
        if i is None or i.k != "InitList":
            return None
        out = []
        for c in i.kids:
            v = self.one(self.ev(c, Env(), 0))
            if v is None:
                return None
            out.append(v)
        m = re.search(r"\[(\d+)\]$", g.get("t") or "")
        if m:
            out += [0] * (int(m.group(1)) - len(out))
        return out

    def tracking(self):
        return self.fn.short == "getOutcomeProbVector"

    def one(self, v):
        if v is TOP or len(v) != 1:
            return None
        k = known(next(iter(v)))
        return int(k) if k is not None and k.denominator == 1 else None

    # ---- stores
    def assign(self, n, env, fr):
        if n.k == "Assign":
            l, r, op = n.c[0], n.c[1], n.d["op"]
        else:
            op = n.d["oper"]
            l = n.slot("obj") if n.slot("obj") is not None else n.c[0]
            r = [c for c in n.c if c is not l][-1]
        pl = self.place(l, env, fr)
        if pl is not None and pl[0] == "vec" and op == "=":
            self.copyvec(pl[1], r, env, fr, n)
            return TOP
        x = strip(r)
        if op == "=" and pl is not None and pl[0] == "cell" and pl[1] == self.result and self.tracking() \
                and x.k == "Bin" and x.d["op"] in ("+", "-"):
            for i in ((0, 1) if x.d["op"] == "+" else (0,)):
                if place_key(self.a.E, strip(x.c[i])) == place_key(self.a.E, strip(l)):
                    op, r = x.d["op"] + "=", x.c[1 - i]
                    break
        moved = None
        if op != "=" and pl is not None and pl[0] == "cell" and pl[1] == self.result and self.tracking():
            moved = self.cells(r, env, fr)
        v = self.ev(r, env, fr)
        if op != "=":
            if pl is not None and pl[0] == "cell" and pl[1] == self.result and self.tracking() and op in ("+=", "-="):
                self.addcell(pl, v, op, env, n)
                if op == "+=" and moved:
                    self.move(moved, pl[2], l, env, fr)
                return TOP
            old = self.ev(l, env, fr)
            f = {"+=": padd_, "-=": lambda p, q: padd_(p, q, -1), "*=": pmul_, "%=": imod, ">>=": bits(">>"), "<<=": bits("<<"), "&=": bits("&"),
                 "/=": idiv if not re.search(r"double|float", l.t or "") else lambda p, q: pmul_(p, pinv(q)) if pinv(q) is not None else None}.get(op)
            v = lift2(f, old, v) if f else TOP
        self.store(pl, v, env, n)
        if pl is not None and pl[0] == "var":
            c = strip(r)
            o = self.origin(c, env, fr)
            if op == "=" and o:
                env.org[pl[1]] = o
            else:
                env.org.pop(pl[1], None)
        return v

    def origin(self, c, env, fr):
        c = strip(c)
        if c.k == "Call" and c.id in self.lines:
            return frozenset([self.lines[c.id]])
        if c.k == "Var":
            k = self.alias.get((fr, c.d["v"]), (fr, c.d["v"]))
            return env.org.get(k)
        return None

    lines = {}

    def cells(self, r, env, fr):
        """entries of the probability list whose weight an expression takes"""
        r = strip(r)
        pl = self.place(r, env, fr)
        if pl is not None and pl[0] == "cell" and pl[1] == self.result:
            return [self.one(pl[2])]
        if pl is not None and pl[0] == "var":
            return env.org.get(("from", pl[1]))
        return None

    def move(self, frm, tgt, lhs, env, fr):
        ix = None
        n = strip(lhs)
        if n.k == "Call":
            ix = [c for c in n.c if c is not n.slot("obj")]
            ix = ix[0] if ix else None
        elif n.k == "Idx":
            ix = n.c[1]
        o = self.origin(ix, env, fr) if ix is not None else None
        if not o:
            # the line type was compared instead of used as the number of the outcome
            o = getattr(self, "lastline", None) and frozenset([self.lastline])
        for w in frm:
            self.moves.append((w, tgt, o))

    def store(self, pl, v, env, n):
        if pl is None:
            return
        if pl[0] == "var":
            env.var[pl[1]] = v
        elif pl[0] == "cell":
            vec = env.vec[pl[1]]
            i = self.one(pl[2])
            if pl[1] == self.result and self.tracking():
                if i is None:
                    if pl[2] is not TOP and len(pl[2]) == 1 and self.inloop is not None and next(iter(pl[2])) == self.inloop[0]:
                        cnt = self.inloop[1]
                        env.sum = lift2(padd_, env.sum, lift2(pmul_, frozenset([cnt]), v))
                        vec.every = v
                        self.inloop[2].append(cnt)
                        return
                    self.either(pl[2], vec, v, env, n)
                    return
                if vec.size is not TOP:
                    for z in vec.size:
                        z = known(z)
                        if z is not None and (i < 0 or i >= z):
                            self.faults.append((n, "entry %d of a list of %s is set" % (i, z)))
                old = vec.cell.get(i, "unset")
                if old == "unset":
                    env.sum = lift2(padd_, env.sum, v)
                else:
                    if old is TOP or len(old) > 1:
                        self.nexttok += 1
                        old = TOP
                    if old is TOP:
                        raise Lost("an entry of unknown value is replaced")
                    env.sum = lift2(padd_, env.sum, lift2(lambda p, q: padd_(p, q, -1), v, old))
                vec.cell[i] = v
            elif i is None:
                vec.cell = {}
            else:
                vec.copy = None if pl[1] == self.result else vec.copy
                vec.cell[i] = v

    def either(self, ixs, vec, v, env, n):
        """one of several entries is replaced"""
        ks = [known(p) for p in ixs] if ixs is not TOP else [None]
        if any(k is None for k in ks):
            raise Lost("entry %s" % shows(ixs))
        sums = set()
        for k in ks:
            old = vec.cell.get(int(k), "unset")
            if old == "unset":
                old = C(0)
            elif old is TOP:
                self.nexttok += 1
                old = frozenset([atom_("entry%s'%d" % (int(k), self.nexttok))])
            r = lift2(padd_, env.sum, lift2(lambda p, q: padd_(p, q, -1), v, old))
            if r is TOP:
                raise Lost("sum")
            sums |= r
            self.nexttok += 1
            vec.cell[int(k)] = frozenset([atom_("entry%s'%d" % (int(k), self.nexttok))])
        env.sum = frozenset(sums) if len(sums) <= CAP else TOP

    def addcell(self, pl, v, op, env, n):
        vec = env.vec[pl[1]]
        if pl[2] is TOP:
            raise Lost("an entry of unknown number is changed")
        ks = [known(p) for p in pl[2]]
        if any(k is None for k in ks):
            raise Lost("an entry of unknown number is changed")
        if vec.size is not TOP:
            for z in vec.size:
                z = known(z)
                for k in ks:
                    if z is not None and (k < 0 or k >= z):
                        self.faults.append((n, "entry %d of a list of %s is changed" % (k, z)))
        env.sum = lift2(lambda p, q: padd_(p, q, 1 if op == "+=" else -1), env.sum, v)
        for k in ks:
            if vec.cell.get(int(k), "unset") == "unset":
                self.faults.append((n, "weight is added to entry %d before it is set" % k))
            self.nexttok += 1
            vec.cell[int(k)] = frozenset([atom_("entry%s'%d" % (int(k), self.nexttok))])

    def copyvec(self, key, r, env, fr, n):
        p = self.place(r, env, fr)
        v = Vec()
        if p is not None and p[0] == "vec":
            v = env.vec[p[1]].clone()
        elif p is not None and p[0] == "field":
            v.copy = p[1]
        else:
            v.copy = "?"
        env.vec[key] = v

    # ---- calls
    inloop = None

    def call(self, n, env, fr):
        nm = last(n.d.get("q") or "")
        if "(anonymous class)" in (n.d.get("q") or ""):
            raise Lost("lambda")
        o = n.slot("obj")
        args = [c for c in n.c if c is not o]
        pl = self.place(o, env, fr) if o is not None else None
        if nm == "lineType" or self.isline(n):
            vs = [self.ev(c, env, fr) for c in args]
            t = tuple(vs)
            self.asked.append((n, t))
            self.lines = dict(self.lines or {})
            self.lines[n.id] = t
            self.lastline = t
            return self.linecodes(n)
        if pl is not None and pl[0] == "vec":
            v = env.vec[pl[1]]
            if nm in ("resize", "assign"):
                v.size = self.ev(args[0], env, fr)
                v.copy, v.every = None, None
                v.cell = {}
                if pl[1] == self.result:
                    env.sum = C(0)
                    if self.tracking() and len(args) > 1 and nm == "assign":
                        raise Lost("assign")
                return TOP
            if nm in ("push_back", "set_entry") and len(args) == 2:
                self.store(("cell", pl[1], self.ev(args[0], env, fr)), self.ev(args[1], env, fr), env, n)
                return TOP
            if nm == "clear":
                v.cell, v.copy = {}, None
                return TOP
            if nm in ("size", "filled"):
                return v.size if nm == "size" else TOP
            if nm == "operator=":
                self.copyvec(pl[1], args[0], env, fr, n)
                return TOP
        if nm == "size" and pl is not None and pl[0] == "field" and pl[1] in ("startX", "startY"):
            return frozenset([atom_("n")])
        if nm == "at" and pl is not None and pl[0] == "field":
            return frozenset([atom_("%s[%s]" % (pl[1], shows(self.ev(args[0], env, fr))))])
        if nm == "copy" and len(args) == 2:
            d = self.place(args[0], env, fr)
            if d is not None and d[0] == "vec":
                self.copyvec(d[1], args[1], env, fr, n)
                return TOP
        if nm in ("min", "max") and len(args) == 2:
            return vjoin(self.ev(args[0], env, fr), self.ev(args[1], env, fr))
        if nm == "swap" and len(args) == 2:
            x, y = self.place(args[0], env, fr), self.place(args[1], env, fr)
            vx, vy = self.ev(args[0], env, fr), self.ev(args[1], env, fr)
            self.store(x, vy, env, n)
            self.store(y, vx, env, n)
            return TOP
        res = [g for g in self.P.resolve(n) if not g.impl]
        if len(res) == 1 and res[0].file == self.fn.file and self.frames < 40:
            return self.inline(n, res[0], args, env, fr)
        for c in args:
            p = self.place(c, env, fr)
            if p is not None and p[0] == "vec" and p[1] == self.result and not self.readonly(n, res):
                raise Lost("the list is handed to %s" % nm)
            self.ev(c, env, fr)
        return TOP

    def readonly(self, n, res):
        nm = last(n.d.get("q") or "")
        return bool(re.match(r"denseRep|sparseRep|hashable|printf|getReward", nm))

    def isline(self, n):
        return False

    def linecodes(self, n):
        out = set()
        for g in self.P.resolve(n):
            for m in self.P.all_nodes(g):
                if m.k == "Return" and m.c:
                    v = self.ev(m.c[0], Env(), 0)
                    if v is TOP:
                        raise Lost("line codes")
                    out |= v
        return frozenset(out) or TOP

    def inline(self, n, g, args, env, fr):
        self.frames += 1
        f = self.frames
        for i, v in enumerate(g.params):
            t = g.vars[v]["t"]
            if i >= len(args):
                break
            k = (f, v)
            if is_ref_type(t):
                p = self.place(args[i], env, fr)
                if p is not None and p[0] in ("var", "vec"):
                    self.alias[k] = p[1]
                    continue
                if p is not None and p[0] == "cell":
                    self.alias[k] = ("cellref", p[1], p[2])
                    continue
            env.var[k] = self.ev(args[i], env, fr)
            o = self.origin(args[i], env, fr)
            if o:
                env.org[k] = o
        fl = self.ex(g.body, env, f)
        e = join(fl.next, fl.ret)
        if e is None:
            raise Lost("no return")
        env.var, env.vec, env.org, env.sum = e.var, e.vec, e.org, e.sum
        r = e.ret[0] if e.ret else TOP
        if e.ret and e.ret[1]:
            self.lines = dict(self.lines or {})
            self.lines[n.id] = next(iter(e.ret[1]))
        env.ret = None
        return r

    # ---- conditions
    def cmp(self, p, q, op):
        d = padd_(p, q, -1)
        k = known(d)
        if k is None:
            neg = frozenset((m, -c) for m, c in d)
            for e, s in ((d, 1), (neg, -1)):
                rest = dict(e)
                c0 = rest.pop((), Fraction(0))
                if len(rest) == 1 and list(rest.values())[0] > 0:
                    m = list(rest)[0]
                    if m == (("s0", 1),) and c0 > 0 or m == (("n", 1),) and c0 >= 0:
                        k = Fraction(s)        # positions are not negative, there is a start cell
        if k is None:
            return None
        return {"==": k == 0, "!=": k != 0, "<": k < 0, ">": k > 0, "<=": k <= 0, ">=": k >= 0}[op]

    def truth(self, n, env, fr):
        n = strip(n)
        if n.k == "Un" and n.d["op"] == "!":
            t = self.truth(n.c[0], env, fr)
            return None if t is None else not t
        if n.k == "Bin" and n.d["op"] in ("&&", "||"):
            x = self.truth(n.c[0], env, fr)
            if n.d["op"] == "&&":
                if x is False:
                    return False
                y = self.truth(n.c[1], env, fr)
                return False if y is False else True if x and y else None
            if x is True:
                return True
            y = self.truth(n.c[1], env, fr)
            return True if y is True else False if x is False and y is False else None
        if n.k == "Bin" and n.d["op"] in ("==", "!=", "<", ">", "<=", ">="):
            x, y = self.ev(n.c[0], env, fr), self.ev(n.c[1], env, fr)
            if x is TOP or y is TOP:
                return None
            ts = set(self.cmp(p, q, n.d["op"]) for p in x for q in y)
            return ts.pop() if len(ts) == 1 else None
        v = self.ev(n, env, fr)
        if v is TOP:
            return None
        ts = set(self.cmp(p, frozenset(), "!=") for p in v)
        return ts.pop() if len(ts) == 1 else None

    def refine(self, env, n, want, fr):
        """env where the condition has the wanted truth; None if it cannot"""
        n = strip(n)
        if n.k == "Un" and n.d["op"] == "!":
            return self.refine(env, n.c[0], not want, fr)
        if n.k == "Bin" and n.d["op"] in ("&&", "||"):
            both = (n.d["op"] == "&&") == want
            if both:
                e = self.refine(env, n.c[0], want, fr)
                return None if e is None else self.refine(e, n.c[1], want, fr)
            return env
        if n.k == "Var":
            return self.narrow(env, n, lambda p: self.cmp(p, frozenset(), "!="), want, fr)
        if n.k == "Bin" and n.d["op"] in ("==", "!=", "<", ">", "<=", ">="):
            op = n.d["op"]
            flip = {"<": ">", ">": "<", "<=": ">=", ">=": "<="}
            for x, y, o in ((n.c[0], n.c[1], op), (n.c[1], n.c[0], flip.get(op, op))):
                x = strip(x)
                if x.k == "Var":
                    w = self.ev(y, env, fr)
                    if w is not TOP and len(w) == 1:
                        q = next(iter(w))
                        env = self.narrow(env, x, lambda p: self.cmp(p, q, o), want, fr)
                        if env is None:
                            return None
        return env

    def narrow(self, env, x, test, want, fr):
        k = (fr, x.d["v"])
        k = self.alias.get(k, k)
        v = env.var.get(k, TOP)
        if v is TOP:
            return env
        w = frozenset(p for p in v if test(p) in (want, None))
        if not w:
            return None
        env.var[k] = w
        return env

    # ---- statements
    def ex(self, n, env, fr):
        if n is None:
            return Flow(env)
        k = n.k
        if k == "Block":
            fl = Flow(env)
            for c in n.kids:
                if fl.next is None:
                    break
                f = self.ex(c, fl.next, fr)
                fl = Flow(f.next, join(fl.brk, f.brk), join(fl.cont, f.cont), join(fl.ret, f.ret))
            return fl
        if k == "Decl":
            for v, nm, t, ini in n.vars:
                key = (fr, v)
                if re.search(r"dvector|cvector|mvector", t or "") and not is_ref_type(t):
                    vec = Vec()
                    env.vec[key] = vec
                    if ini is not None:
                        x = strip(ini)
                        if x.k == "Ctor" and len(x.c) == 1 and not re.search("vector", strip(x.c[0]).t or ""):
                            vec.size = self.ev(x.c[0], env, fr)
                        elif x.k == "Ctor" and not x.c:
                            pass
                        else:
                            self.copyvec(key, x.c[0] if x.k == "Ctor" and x.c else x, env, fr, n)
                    continue
                if ini is None:
                    env.var[key] = TOP
                    continue
                if is_ref_type(t):
                    p = self.place(ini, env, fr)
                    if p is not None and p[0] in ("var", "vec"):
                        self.alias[key] = p[1]
                        continue
                    if p is not None and p[0] == "cell":
                        self.alias[key] = ("cellref", p[1], p[2])
                        continue
                cs = self.cells(ini, env, fr) if self.tracking() else None
                env.var[key] = self.ev(ini, env, fr)
                o = self.origin(ini, env, fr)
                env.org.pop(key, None)
                if o:
                    env.org[key] = o
                if cs:
                    env.org[("from", key)] = frozenset(cs)
            return Flow(env)
        if k == "If":
            c = n.slot("cond")
            t = self.truth(c, env, fr)
            if t is not None:
                return self.ex(n.slot("then") if t else n.slot("else"), env, fr)
            e1 = self.refine(env.clone(), c, True, fr)
            e2 = self.refine(env.clone(), c, False, fr)
            f1 = self.ex(n.slot("then"), e1, fr) if e1 is not None else Flow()
            f2 = self.ex(n.slot("else"), e2, fr) if e2 is not None else Flow()
            return Flow(join(f1.next, f2.next), join(f1.brk, f2.brk), join(f1.cont, f2.cont), join(f1.ret, f2.ret))
        if k in ("For", "While", "Do"):
            return self.loop(n, env, fr)
        if k == "Switch":
            return self.switch(n, env, fr)
        if k == "Return":
            r = (TOP, None)
            if n.c:
                r = (self.ev(n.c[0], env, fr), self.origin(n.c[0], env, fr))
            env.ret = r
            return Flow(None, None, None, env)
        if k == "Break":
            return Flow(None, env)
        if k == "Continue":
            return Flow(None, None, env)
        if k in ("Case", "Default"):
            v = n.slot("val")
            fl = Flow(env)
            for c in n.kids:
                if c is not v and fl.next is not None:
                    f = self.ex(c, fl.next, fr)
                    fl = Flow(f.next, join(fl.brk, f.brk), join(fl.cont, f.cont), join(fl.ret, f.ret))
            return fl
        if k in ("Null", "Empty"):
            return Flow(env)
        if k in ("ForRange", "Goto", "Label", "Try"):
            raise Lost(k)
        self.ev(n, env, fr)
        return Flow(env)

    def loop(self, n, env, fr):
        if n.slot("init") is not None:
            env = self.ex(n.slot("init"), env, fr).next
        ret = brk = None
        first = n.k == "Do"
        for _ in range(80):
            c = n.slot("cond")
            t = True if first or c is None else self.truth(c, env, fr)
            first = False
            if t is False:
                return Flow(join(env, brk), None, None, ret)
            if t is None:
                return self.open(n, env, fr, brk, ret)
            f = self.ex(n.slot("body"), env, fr)
            ret, brk = join(ret, f.ret), join(brk, f.brk)
            env = join(f.next, f.cont)
            if env is None:
                return Flow(brk, None, None, ret)
            if n.slot("inc") is not None:
                self.ev(n.slot("inc"), env, fr)
        raise Lost("loop")

    def open(self, n, env, fr, brk, ret):
        """a loop over all of 0..n-1 for an unknown n: its body once for an entry that stands for each"""
        c, inc = n.slot("cond"), n.slot("inc")
        if n.k != "For" or c is None or inc is None or self.inloop is not None:
            raise Lost("open loop")
        c = strip(c)
        if c.k != "Bin" or c.d["op"] not in ("<", "!=", ">"):
            raise Lost("open loop")
        x, y = strip(c.c[0]), strip(c.c[1])
        if c.d["op"] == ">" or x.k != "Var" or self.one(self.ev(x, env, fr)) is None:
            x, y = y, x
        i = strip(inc)
        if x.k != "Var" or i.k != "Un" or "++" not in i.d["op"] or strip(i.c[0]).k != "Var" or strip(i.c[0]).d["v"] != x.d["v"]:
            raise Lost("open loop")
        key = (fr, x.d["v"])
        lo = self.one(self.ev(x, env, fr))
        hi = self.ev(y, env, fr)
        if hi is TOP or len(hi) != 1 or lo is None:
            raise Lost("open loop")
        self.nexttok += 1
        it = atom_("i'%d" % self.nexttok)
        cnt = padd_(next(iter(hi)), const_(lo), -1)
        env.var[key] = frozenset([it])
        self.inloop = (it, cnt, [], lo)
        f = self.ex(n.slot("body"), env, fr)
        got = self.inloop[2]
        self.inloop = None
        if f.brk is not None or f.ret is not None:
            raise Lost("open loop left early")
        env = join(f.next, f.cont)
        env.var[key] = hi
        if got and len(got) == 1:
            env.vec[self.result].cell["lo"] = C(lo)
        return Flow(join(env, brk), None, None, ret)

    def switch(self, n, env, fr):
        v = self.ev(n.slot("cond"), env, fr)
        body = n.slot("body")
        items = list(body.kids) if body is not None else []
        out = Flow()
        alts = sorted(v, key=show) if v is not TOP else [None]
        cs = []
        for idx, it in enumerate(items):
            x = it
            while x is not None and x.k in ("Case", "Default"):
                if x.k == "Case":
                    cs.append((idx, x.d.get("cv")))
                else:
                    cs.append((idx, "default"))
                nx = [c for c in x.kids if c is not x.slot("val")]
                x = nx[0] if nx else None
        vals_ = [c for _, c in cs if c != "default" and c is not None]
        x = strip(n.slot("cond"))
        for p in alts:
            starts = []
            if p is not None and known(p) is not None:
                hit = [i for i, c in cs if c != "default" and c is not None and int(c) == known(p)]
                starts = hit[:1] or [i for i, c in cs if c == "default"]
            else:
                starts = sorted(set(i for i, c in cs))
            e0 = env.clone()
            if p is not None and x.k == "Var":
                k = self.alias.get((fr, x.d["v"]), (fr, x.d["v"]))
                if k in e0.var:
                    e0.var[k] = frozenset([p])
            if not starts or (p is None or known(p) is None) and not any(c == "default" for _, c in cs):
                out = Flow(join(out.next, e0.clone()), out.brk, out.cont, out.ret)
            for s in starts:
                fl = Flow(e0.clone())
                for it in items[s:]:
                    if fl.next is None:
                        break
                    f = self.ex(it, fl.next, fr)
                    fl = Flow(f.next, join(fl.brk, f.brk), join(fl.cont, f.cont), join(fl.ret, f.ret))
                out = Flow(join(out.next, join(fl.next, fl.brk)), None, join(out.cont, fl.cont), join(out.ret, fl.ret))
        return out


# ------------------------------------------------------------------ X01
def routines(a):
    """{name: Func} of the race track model"""
    out = {}
    for fn in a.P.funcs.values():
        if (fn.cls or "").split("::")[-1] == "RaceTrack" and not fn.impl and fn.body is not None:
            out[fn.short] = fn
    return out


def marks(a):
    """first entries of the start and the terminal state, as readFromFile stores them"""
    if hasattr(a, "_marks"):
        return a._marks
    fn = routines(a).get("readFromFile")
    out = {}
    for g in [fn] + [h for h in (a.P.funcs[u] for u in a.P.closure([fn])) if h.file == fn.file and h is not fn] if fn else []:
        for n in a.P.all_nodes(g):
            if n.k == "Call" and last(n.d.get("q") or "") in ("push_back", "set_entry") and n.slot("obj") is not None:
                o = strip(n.slot("obj"))
                if o.k != "Mem" or len(n.c) < 2:
                    continue
                args = [c for c in n.c if c is not n.slot("obj")]
                if len(args) != 2:
                    continue
                r = Run(a, g, 0, "normal", 0)
                r.result = None
                try:
                    i, v = r.one(r.ev(args[0], Env(), 0)), r.one(r.ev(args[1], Env(), 0))
                except Lost:
                    continue
                if i == 0 and v is not None:
                    out[o.d["n"]] = v
    a._marks = out
    return out


def first_of(a, kind):
    m = marks(a)
    return m.get("terminalState" if kind == "terminal" else "bogusInitialState")


def running(a, fn, wind, kind, act, out=None):
    key = (fn.usr, wind, kind, act, out)
    if not hasattr(a, "_runs"):
        a._runs = {}
    if key not in a._runs:
        r = Run(a, fn, wind, kind, act, out)
        try:
            r.end = r.start()
            r.lost = None
        except Lost as e:
            r.end, r.lost = None, str(e)
        except (KeyError, IndexError, AttributeError, TypeError, RecursionError) as e:
            r.end, r.lost = None, "%s: %s" % (type(e).__name__, e)
        a._runs[key] = r
    return a._runs[key]


KINDS = ("initial", "terminal", "normal")


def label(wind, kind, act):
    return "%s state, action %d, %s" % (kind, act, "wind errors" if wind else "slip errors")


def covered(v):
    """a loop set every entry from some number on, the ones before it are set too"""
    lo = v.cell.get("lo")
    if lo is None or lo == "unset" or lo is TOP or len(lo) != 1:
        return False
    lo = known(next(iter(lo)))
    return lo is not None and all(v.cell.get(i, "unset") != "unset" for i in range(int(lo)))


def x01_mass(a):
    R = routines(a)
    fn = R.get("getOutcomeProbVector")
    if fn is None:
        return a.need("X01.mass", 0, 1, "outcome lists of the race track")
    seen = 0
    for wind in (0, 1):
        for kind in KINDS:
            for act in range(9):
                r = running(a, fn, wind, kind, act)
                lb = label(wind, kind, act)
                if r.lost:
                    a.ok("X01.mass", fn.where(), "%s: not decided (%s)" % (lb, r.lost))
                    continue
                seen += 1
                bad = False
                for n, m in r.faults[:1]:
                    bad = True
                    a.fail("X01.mass", fn.where(n), "%s: %s" % (lb, m), key="X01.mass|fault|%s|%s|%s" % (wind, kind, m))
                s = r.end.sum
                v = r.end.vec.get(r.result)
                if s is TOP or v is None or v.size is TOP or len(v.size) != 1:
                    a.ok("X01.mass", fn.where(), "%s: not decided" % lb)
                    continue
                if not all(same(p, const_(1)) for p in s):
                    bad = True
                    a.fail("X01.mass", fn.where(), "%s: the probabilities add up to %s" % (lb, shows(s)),
                           key="X01.mass|sum|%s|%s" % (wind, kind))
                z = next(iter(v.size))
                if known(z) is not None:
                    miss = [i for i in range(int(known(z))) if v.cell.get(i, "unset") == "unset"]
                    if miss:
                        bad = True
                        a.fail("X01.mass", fn.where(), "%s: entry %s of the %s outcomes is left unset" % (lb, miss[0], int(known(z))),
                               key="X01.mass|unset|%s|%s" % (wind, kind))
                elif v.every is None or not covered(v):
                    bad = True
                    a.fail("X01.mass", fn.where(), "%s: not every one of the %s outcomes is given its probability" % (lb, show(z)),
                           key="X01.mass|all|%s|%s" % (wind, kind))
                if not bad:
                    a.ok("X01.mass", fn.where(), "%s: %s outcomes, sum 1" % (lb, show(z)))
    a.need("X01.mass", len([f for f in (fn,) if f]), 1, "outcome lists")


def vel(p, j):
    """p = s<j> + constant: the constant"""
    if p is TOP or len(p) != 1:
        return None
    d = padd_(next(iter(p)), atom_("s%d" % j), -1)
    return known(d)


def x01_agree(a):
    R = routines(a)
    pv, ns = R.get("getOutcomeProbVector"), R.get("getNextState")
    if pv is None or ns is None:
        return a.need("X01.agree", 0, 1, "outcome routines of the race track")
    from rules.grid import line_codes
    fin, crash = line_codes(a)
    nine = {}
    for wind in (0, 1):
        for act in range(9):
            lb = label(wind, "normal", act)
            r = running(a, pv, wind, "normal", act)
            v = None if r.lost else r.end.vec.get(r.result)
            z = known(next(iter(v.size))) if v is not None and v.size is not TOP and len(v.size) == 1 else None
            if z is None:
                a.ok("X01.agree", pv.where(), "%s: not decided (%s)" % (lb, r.lost))
                continue
            errs = []
            for o in range(int(z)):
                q = running(a, ns, wind, "normal", act, o)
                if q.lost:
                    a.ok("X01.agree", ns.where(), "%s, outcome %d: not decided (%s)" % (lb, o, q.lost))
                    continue
                w = q.end.vec[q.result]
                for n, m in q.faults[:1]:
                    a.fail("X01.agree", ns.where(n), "%s, outcome %d: %s" % (lb, o, m), key="X01.agree|fault|%s|%s" % (wind, o))
                if o in (fin, crash):
                    want = "terminalState" if o == fin else "bogusInitialState"
                    a.check(w.copy == want, "X01.agree", ns.where(), "%s, outcome %d: %s" % (lb, o, want),
                            "%s: outcome %d should lead to %s" % (lb, o, "the finish" if o == fin else "the start"),
                            key="X01.agree|to|%s|%s" % (wind, o))
                    continue
                got = [w.cell.get(j, TOP) for j in range(4)]
                if any(g is TOP or len(g) != 1 for g in got):
                    if w.copy in ("terminalState", "bogusInitialState", "s"):
                        a.fail("X01.agree", ns.where(), "%s: outcome %d leads to %s instead of a move" % (lb, o, w.copy), key="X01.agree|nomove|%s|%s" % (wind, o))
                    else:
                        a.ok("X01.agree", ns.where(), "%s, outcome %d: not decided" % (lb, o))
                    continue
                g = [next(iter(x)) for x in got]
                ok = True
                for j in (0, 1):
                    e = padd_(atom_("s%d" % j), g[2 + j])
                    if g[j] != e:
                        ok = False
                        a.fail("X01.agree", ns.where(), "%s: outcome %d moves the car to %s although its new speed is %s" % (lb, o, show(g[j]), show(g[2 + j])),
                               key="X01.agree|pos|%s|%s|%s" % (wind, o, j))
                dx, dy = vel(got[2], 2), vel(got[3], 3)
                if dx is None or dy is None:
                    a.fail("X01.agree", ns.where(), "%s: outcome %d changes the speed to %s, %s" % (lb, o, show(g[2]), show(g[3])), key="X01.agree|vel|%s|%s" % (wind, o))
                    continue
                errs.append((o, dx, dy))
                ms = [m for m in r.moves if m[0] == o]
                if not ms:
                    a.fail("X01.agree", pv.where(), "%s: the weight of outcome %d is never moved to the finish or crash outcome" % (lb, o), key="X01.agree|unmoved|%s|%s" % (wind, o))
                    continue
                for _, tgt, org in ms:
                    if not org or len(org) != 1:
                        continue
                    l = next(iter(org))
                    exp = [frozenset([atom_("s0")]), frozenset([atom_("s1")]), got[2], got[3]]
                    if any(x is TOP for x in l):
                        continue
                    for j, nm in enumerate(("column", "row", "horizontal step", "vertical step")):
                        if j < len(l) and l[j] != exp[j]:
                            ok = False
                            a.fail("X01.agree", pv.where(), "%s: outcome %d is tested with %s %s, the successor function uses %s" % (lb, o, nm, shows(l[j]), shows(exp[j])),
                                   key="X01.agree|line|%s|%s|%s" % (wind, o, j))
                    if tgt is not TOP:
                        t = set(int(known(p)) if known(p) is not None else -9 for p in tgt)
                        if not t <= {fin, crash}:
                            ok = False
                            a.fail("X01.agree", pv.where(), "%s: weight of outcome %d is moved to outcome %s" % (lb, o, sorted(t - {fin, crash})[0]), key="X01.agree|tgt|%s|%s" % (wind, o))
                for m in r.moves:
                    if m[0] is not None and m[0] in (fin, crash):
                        ok = False
                        a.fail("X01.agree", pv.where(), "%s: weight of outcome %d is moved" % (lb, m[0]), key="X01.agree|move|%s|%s" % (wind, m[0]))
                if ok:
                    a.ok("X01.agree", ns.where(), "%s, outcome %d: speed change %d, %d" % (lb, o, dx, dy))
            n0 = [e for e in errs if e[0] == 0]
            if n0:
                nine.setdefault(wind, {})[act] = n0[0][1:]
                if wind:
                    es = [(x - n0[0][1], y - n0[0][2]) for o, x, y in errs]
                    bad = [e for e in es if max(abs(e[0]), abs(e[1])) > 1]
                    if bad or len(set(es)) != len(es):
                        a.fail("X01.agree", ns.where(), "%s: the wind errors are not nine different neighbouring accelerations: %s" % (lb, [tuple(int(c) for c in e) for e in es]), key="X01.agree|errors")
                elif len(errs) > 1:
                    bad = [e for e in errs if e[0] != 0 and (e[1], e[2]) != (0, 0)]
                    if bad:
                        a.fail("X01.agree", ns.where(), "%s: outcome %d is a slip but accelerates by %d, %d" % (lb, bad[0][0], bad[0][1], bad[0][2]), key="X01.agree|slip")
    for wind, d in nine.items():
        legal = set((x, y) for x in (-1, 0, 1) for y in (-1, 0, 1))
        a.check(set(d.values()) == legal or len(d) < 9, "X01.decode", ns.where(), "actions 0-8 name the nine accelerations",
                "actions 0-8 stand for the accelerations %s" % sorted((int(x), int(y)) for x, y in d.values()), key="X01.decode|%s" % wind)
    # the special kinds
    for wind in (0, 1):
        r = running(a, ns, wind, "terminal", 0, 0)
        if not r.lost:
            w = r.end.vec[r.result]
            a.check(w.copy in ("s", "terminalState"), "X01.agree", ns.where(), "a finished race stays finished", "the successor of a finished state is not the same state", key="X01.agree|absorb")
        r = running(a, ns, wind, "initial", 0)
        if not r.lost:
            w = r.end.vec[r.result]
            got = [w.cell.get(j, TOP) for j in (0, 1)]
            exp = [frozenset([atom_("%s[o]" % c)]) for c in ("startX", "startY")]
            if all(g is not TOP for g in got):
                a.check(got == exp, "X01.agree", ns.where(), "first move: outcome o is start cell o",
                        "the first move's outcome o leads to %s, %s instead of start cell o" % (shows(got[0]), shows(got[1])), key="X01.agree|start")
            rest = [w.cell.get(j) for j in (2, 3)]
            a.check(all(x is None or x == C(0) for x in rest), "X01.agree", ns.where(), "first move: at rest",
                    "a car starts with speed %s" % [shows(x) for x in rest if x], key="X01.agree|rest")
            p = running(a, pv, wind, "initial", 0)
            if not p.lost and p.end.vec[p.result].size is not TOP:
                z = p.end.vec[p.result].size
                a.check(z == frozenset([atom_("n")]), "X01.agree", pv.where(), "one outcome per start cell", "%s outcomes for the start cells" % shows(z), key="X01.agree|cells")
    a.need("X01.agree", 2, 2, "outcome routines")


def x01_kinds(a):
    """the stored start and finish marks are what the tests look for"""
    R = routines(a)
    m = marks(a)
    i, t = first_of(a, "initial"), first_of(a, "terminal")
    rf = R.get("readFromFile")
    if i is None or t is None:
        return a.ok("X01.kinds", rf.where() if rf else "", "not decided (start and terminal marks)")
    a.check(i != t and i < 0 and t < 0, "X01.kinds", rf.where(), "marks %d and %d" % (i, t),
            "the marks %d (start) and %d (finished) are not two different negative numbers" % (i, t))
    fn = R.get("getIsTerminalState")
    for kind, want in (("initial", 0), ("terminal", 1), ("normal", 0)):
        if fn is None:
            continue
        r = running(a, fn, 0, kind, 0)
        v = r.end.ret[0] if not r.lost and r.end.ret else TOP
        if v is TOP or r.one(v) is None:
            a.ok("X01.kinds", fn.where(), "%s: not decided" % kind)
            continue
        a.check(bool(r.one(v)) == bool(want), "X01.kinds", fn.where(), "%s state" % kind,
                "a state that is %sfinished is reported as %s" % ("" if want else "not ", "finished" if not want else "unfinished"), key="X01.kinds|" + kind)
    fn = R.get("getReward")
    if fn is not None:
        for act in range(9):
            r = running(a, fn, 0, "terminal", act)
            v = r.end.ret[0] if not r.lost and r.end.ret else TOP
            if v is TOP:
                continue
            a.check(v == C(0), "X01.kinds", fn.where(), "no cost after the finish", "a finished race goes on costing: reward %s" % shows(v), key="X01.kinds|cost")
            r = running(a, fn, 0, "normal", act)
            v = r.end.ret[0] if not r.lost and r.end.ret else TOP
            if v is TOP:
                continue
            a.check(v == C(-1), "X01.kinds", fn.where(), "one unit per move", "a move is rewarded with %s instead of -1" % shows(v), key="X01.kinds|move")


RULES["X01"] = [x01_mass, x01_agree, x01_kinds]
TEXT["X01.mass"] = "abstract interpretation of the race track's outcome list for every kind of state, error option and action: the ghost sum of the entries is the constant 1, every entry of the list is set, none is read before, none lies outside the list"
TEXT["X01.agree"] = "for every outcome number: weight moved to the finish or crash outcome was decided by the line of exactly the move the successor function makes, position is advanced by the new speed, the line routine's finish and crash numbers lead to the finish and the start, the first move's outcome o is start cell o, wind errors are the distinct neighbours, a slip does not accelerate"
TEXT["X01.decode"] = "the accelerations the successor function applies without error for actions 0-8 are the nine pairs over -1, 0, 1"
TEXT["X01.kinds"] = "the marks stored for the start and the finished state are distinct and negative, exactly the finish mark is terminal, a finished state's reward is 0 and any other move's is -1"
