"""Value provenance: a demand-driven, context-sensitive def-use evaluation of an
expression into a set of alternatives; each alternative is a set of signed
monomials over atoms (access paths, calls, configuration keys).  No arithmetic
is performed and no path condition is consulted: sums are idempotent, a loop
accumulation x += e contributes e's monomials once, a join contributes the
alternatives of both sides.  max/min (calls, ?:, guarded assignment) become
structured atoms."""
import zlib
from collections import defaultdict
from core import Node, fn_defs, root_place, is_ptr_type, is_ref_type

MAXALT = 20
MAXMON = 60
ONE = ()
TOP = frozenset([frozenset([(1, ("TOP",))])])


def V(*alts):
    return frozenset(alts)


def atom(a):
    return frozenset([frozenset([(1, (a,))])])


ZERO = frozenset([frozenset()])


def const(c):
    if c == 0:
        return ZERO
    s = 1 if c > 0 else -1
    c = abs(c)
    if c == 1:
        return frozenset([frozenset([(s, ONE)])])
    if c >= 1e15:
        return frozenset([frozenset([(s, ("#BIG",))])])
    return frozenset([frozenset([(s, ("#%g" % c,))])])


def cap(v):
    v = frozenset(v)
    if len(v) > MAXALT:
        v = maximal(v)
    if len(v) > MAXALT:
        m = frozenset().union(*v)
        v = frozenset([m | frozenset([(1, ("~merged",))])])
    if any(len(p) > MAXMON for p in v):
        return TOP
    return v


def hasself(p):
    for _, m in p:
        for a in m:
            if isinstance(a, tuple):
                if a[0] == "SELF":
                    return True
                if any(hasself(q) for q in a[1]):
                    return True
    return False


def extset(p):
    """the operand set of a bare MAX/MIN alternative"""
    if len(p) == 1:
        (s, m), = p
        if s == 1 and len(m) == 1 and isinstance(m[0], tuple) and m[0][0] in ("MAX", "MIN"):
            return m[0][0], m[0][1]
    return None, None


def maximal(v):
    """drop alternatives another alternative extends (an accumulation that ran fewer times)"""
    out = set()
    for p in v:
        drop = False
        op, es = extset(p)
        for q in v:
            if q is p or q == p:
                continue
            if p < q:
                drop = True
                break
            qo, qs = extset(q)
            if qo and (p in qs or (op == qo and es < qs)):
                drop = True
                break
            if len(p) == 1:
                (s, m), = p
                if m == ("#BIG",) and s < 0 and not hasself(q):
                    drop = True
                    break
        if not drop:
            out.add(p)
    return frozenset(out)


def sortatoms(l):
    return tuple(sorted(l, key=str))


def padd(p, q):
    return p | q


def pneg(p):
    return frozenset((-s, m) for s, m in p)


def mmul(m, n):
    l = list(m) + list(n)
    # cancel inverses
    for a in list(l):
        if isinstance(a, str) and a.startswith("/") and a in l and a[1:] in l:
            l.remove(a)
            l.remove(a[1:])
    # fold consts? keep
    return sortatoms(l)


def pmul(p, q):
    return frozenset((s * t, mmul(m, n)) for s, m in p for t, n in q)


def vadd(a, b):
    return cap(padd(p, q) for p in a for q in b)


def vneg(a):
    return frozenset(pneg(p) for p in a)


def vmul(a, b):
    return cap(pmul(p, q) for p in a for q in b)


def astr(a):
    if isinstance(a, str):
        return a
    if isinstance(a, tuple) and a and a[0] in ("MAX", "MIN"):
        return a[0] + "{" + "; ".join(sorted(pstr(p) for p in a[1])) + "}"
    return str(a)


def mstr(m):
    return "*".join(astr(a) for a in m) if m else "1"


def pstr(p):
    if not p:
        return "0"
    return " ".join(sorted(("+" if s > 0 else "-") + mstr(m) for s, m in p))


def vstr(v):
    return " | ".join(sorted(pstr(p) for p in v))


def isconstm(m):
    return m == () or (len(m) == 1 and isinstance(m[0], str) and m[0].startswith("#"))


def isiv(m):
    return len(m) == 1 and isinstance(m[0], str) and m[0].startswith("iv")




def inv(p):
    if len(p) == 1:
        (s, m), = p
        r = []
        for a in m:
            if isinstance(a, str) and a.startswith("/"):
                r.append(a[1:])
            elif isinstance(a, str):
                r.append("/" + a)
            else:
                r.append("/(" + astr(a) + ")")
        return frozenset([(s, sortatoms(r))])
    return frozenset([(1, ("/(" + pstr(p) + ")",))])


HASHED = {}   # abbreviated index texts


class Ctx(object):
    """call-string context: `call` in function `fn` (itself under `up`) entered the callee"""
    __slots__ = ("call", "fn", "up", "depth", "key")

    def __init__(self, call, fn, up):
        self.call, self.fn, self.up = call, fn, up
        self.depth = 1 + (up.depth if up else 0)
        self.key = (fn.usr, call.id, up.key if up else None)


def cls_short(q):
    return q.split("::")[-1]


def clean_type(t):
    t = t.replace("const ", "").replace("struct ", "").replace("class ", "").strip()
    while t and t[-1] in "&* ":
        t = t[:-1]
    if t.endswith(" const"):
        t = t[:-6].rstrip("&* ")
    t = t.replace("zmdp::", "").replace("std::", "").replace("sla::", "")
    if t.startswith("__cxx11::basic_string"):
        t = "string"
    return t.split("<")[0] if t.startswith("vector<") is False else t


# library vocabulary whose bodies are not looked into
OPAQUE_FILES = ("common/sla.h", "common/slaMatrixUtils.h", "common/MatrixUtils.h", "common/sla_mask.h",
                "parsers/sla_cassandra.h")
PASS_METHODS = {"c_str", "get", "data", "str", "begin", "end", "find", "rbegin", "rend", "cbegin", "cend",
                "lower_bound", "upper_bound", "base"}
ELT_METHODS = {"front", "back", "top", "at", "operator[]", "operator()"}
INF_Q = {"infinity", "max", "HUGE_VAL"}


class Eval(object):
    def __init__(self, P, opaque=(), depth=5):
        self.P = P
        self.opaque = set(opaque)
        self.depth = depth
        self.memo = {}
        self.inprog = {}
        self.tmp = {}
        self.ninprog = 0
        self.touched = set()

    # -- entry points
    def value(self, n, ctx=None):
        return self.ev(n, ctx)

    # -- reaching definitions ------------------------------------------------
    def reaching(self, fn, var, pos, field=None, skip=()):
        """definitions of var (exactly, or of the given component) that may reach pos; includes 'entry'"""
        D = fn_defs(self.P, fn)
        res, seen = [], set()
        if pos is None:
            return list(D.byvar.get(var, ())), True
        entry = False
        st = [(pos[0], pos[1])]
        first = True
        byblock = defaultdict(list)
        for d in D.byvar.get(var, ()):
            if d.pos is not None and d.kind not in skip:
                byblock[d.pos[0]].append(d)
        for l in byblock.values():
            l.sort(key=lambda d: (d.pos[1], d.idx))
        while st:
            b, i = st.pop()
            killed = False
            for d in reversed(byblock.get(b, ())):
                if d.pos[1] < i:
                    if d not in res:
                        res.append(d)
                    if d.strong and (d.field is None or d.field == field):
                        killed = True
                        break
            if killed:
                continue
            if b == fn.entry:
                entry = True
            for p, _ in fn.blocks[b].pred:
                if p not in seen:
                    seen.add(p)
                    st.append((p, 10 ** 9))
        return res, entry

    # -- evaluation ------------------------------------------------------------
    def ev(self, n, ctx=None):
        key = (n.fn.usr if n.fn else None, n.id, ctx.key if ctx else None)
        m = self.memo.get(key)
        if m is not None:
            return m
        m = self.tmp.get(key)
        if m is not None and all(x in self.inprog for x in m[1]):
            self.touched |= m[1]
            return m[0]
        saved, self.touched = self.touched, set()
        r = cap(self._ev(n, ctx))
        mine = self.touched
        # memoise only when no in-progress definition was consulted
        if not (mine & self.inprog.keys()):
            self.memo[key] = r
        else:
            self.tmp[key] = (r, frozenset(mine & self.inprog.keys()))
        self.touched = saved | mine
        return r

    def _ev(self, n, ctx):
        k = n.k
        d = n.d
        if k in ("Lit", "Chr"):
            return const(d["v"])
        if k == "Flt":
            return const(float(d["v"]) if d["v"] != "inf" else 1e300)
        if k == "Bool":
            return const(1 if d["v"] else 0)
        if k == "Str":
            return atom('"%s"' % d["v"])
        if k in ("Null", "Zero"):
            return ZERO
        if k == "Enum":
            return atom("enum:" + d["q"].split("::")[-1])
        if k == "Var":
            return self.var(n, d["v"], None, ctx)
        if k == "Global":
            if "cv" in d:
                return const(d["cv"])
            return atom("g:" + d["q"].split("::")[-1])
        if k == "This":
            return self.this(n, ctx)
        if k == "Mem":
            return self.member(n, ctx)
        if k == "Idx":
            return self.elem(n.c[0], ctx, n)
        if k == "Un":
            op = d["op"]
            if "cv" in d and op in ("-", "+", "~", "!"):
                return const(d["cv"])
            if op in ("*", "&", "+", "__extension__"):
                return self.ev(n.c[0], ctx)
            if op == "-":
                return vneg(self.ev(n.c[0], ctx))
            if op in ("++", "post++"):
                v = self.ev(n.c[0], ctx)
                return v
            if op in ("--", "post--"):
                return self.ev(n.c[0], ctx)
            if op == "!":
                return atom("!(" + vstr(self.ev(n.c[0], ctx)) + ")")
            return atom(op + "(" + vstr(self.ev(n.c[0], ctx)) + ")")
        if k == "Bin":
            if "cv" in d:
                return const(d["cv"])
            return self.binop(d["op"], n.c[0], n.c[1], n, ctx)
        if k == "Assign":
            if d["op"] == "=":
                return self.ev(n.c[1], ctx)
            return self.binop(d["op"][:-1], n.c[0], n.c[1], n, ctx)
        if k == "Cond":
            return self.cond(n, ctx)
        if k == "Cast":
            return self.ev(n.c[0], ctx)
        if k == "Call":
            return self.call(n, ctx)
        if k == "Ctor":
            if d.get("copy") and n.c:
                return self.ev(n.c[0], ctx)
            if not n.c:
                return atom("new:" + clean_type(n.t))
            if len(n.c) == 1 and "basic_string" in n.t:
                return self.ev(n.c[0], ctx)
            return self.struct(n, ctx)
        if k == "New":
            return atom("new:" + clean_type(n.t))
        if k == "InitList":
            r = set()
            for c in n.c:
                r |= self.ev(c, ctx)
            return r or ZERO
        if k == "SizeOf":
            return atom("sizeof")
        if "cv" in d:
            return const(d["cv"])
        if k == "StmtExpr":
            b = n.c[0]
            if b.kids:
                return self.ev(b.kids[-1], ctx)
        if k == "Fn":
            return atom("fn:" + d["q"])
        return atom("?" + k)

    def struct(self, n, ctx):
        # a constructor call with arguments: keep argument provenance by parameter order
        q = n.d.get("q", "").split("::")
        args = "; ".join(vstr(self.ev(a, ctx)) for a in n.c)
        return atom("%s(%s)" % (q[-1], args))

    def this(self, n, ctx):
        if ctx is not None:
            o = ctx.call.slot("obj")
            if o is not None:
                return self.ev(o, ctx.up)
            if ctx.call.k in ("Ctor", "New"):
                return atom("new:" + clean_type(ctx.call.t))
        return atom("@" + clean_type(n.t))

    def label(self, base, suffix):
        if suffix == "":
            return frozenset(base)
        if len(base) > 1:
            base = [p for p in base if p] or base
        return cap(frozenset(self._label1(p, suffix) for p in base))

    def _label1(self, p, suffix):
        if len(p) == 1:
            (s, m), = p
            if len(m) == 1 and isinstance(m[0], str):
                return frozenset([(1, (m[0] + suffix,))])
        return frozenset([(1, ("(" + pstr(p) + ")" + suffix,))])

    def member(self, n, ctx):
        base = n.c[0]
        rt, sel = root_place(n)
        f = "." + n.d["n"]
        # component of a local aggregate
        if rt.k == "Var" and sel and sel[0] == f and len(sel) == 1 and not self.isref(rt):
            return self.var(n, rt.d["v"], f, ctx)
        if base.k == "This" and (ctx is None or ctx.call.slot("obj") is None):
            return atom("@" + n.d["q"].replace("zmdp::", "").replace("::", "."))
        b = self.ev(base, ctx)
        # pair(...) / struct built by constructor with known args is not decomposed
        return self.label(b, f)

    def isref(self, var):
        t = var.fn.vars[var.d["v"]]["t"]
        return is_ref_type(t) or is_ptr_type(t)

    def elem(self, base, ctx, n):
        rt, sel = root_place(n)
        if rt.k == "Var" and not self.isref(rt) and not rt.fn.vars[rt.d["v"]]["p"] and sel and all(s == "[]" for s in sel):
            return self.var(n, rt.d["v"], "[]", ctx)
        return self.label(self.ev(base, ctx), "[%s]" % self.idx(n, ctx))

    def var(self, n, v, field, ctx):
        fn = n.fn
        info = fn.vars[v]
        if "cv" in n.d and n.k == "Var":
            return const(n.d["cv"])
        pos = self.P.position(n)
        defs, entry = self.reaching(fn, v, pos, field)
        res = set()
        isptr = is_ptr_type(info["t"])
        isref = is_ref_type(info["t"])
        whole = [d for d in defs if d.field is None]
        if field is None:
            use = [d for d in defs if d.field is None]
            if isptr:
                use = [d for d in use if d.kind not in ("ptrcall",)]
            if isptr or "iterator" in info["t"] or "_Node_const_iterator" in info["t"]:
                use = [d for d in use if d.kind not in ("++", "--")]
            if self.identity_type(info["t"]) and (isref or isptr or True):
                u2 = [d for d in use if d.kind != "call"]
                if len(u2) < len(use):
                    # redo the search looking through the calls
                    defs, entry = self.reaching(fn, v, pos, field, skip=("call",))
                    use = [d for d in defs if d.field is None and d.kind not in ("call", "ptrcall")]
            parts = []
            if not isptr and not isref:
                parts = [d for d in defs if d.field is not None]
        else:
            use = [d for d in defs if d.field is None or d.field == field or
                   (d.field.startswith(field) and field == "[]") or (field == "[]" and d.field.startswith("[]"))]
            parts = []
        if info.get("st"):
            entry = False
            defs = fn_defs(self.P, fn).byvar.get(v, [])
            use = [d for d in defs if d.field is None or d.field == field]
        if entry and info["p"]:
            res |= self.param(fn, v, ctx, field)
        for d in use:
            res |= self.defval(d, field, ctx)
        if not res:
            if not use:
                res = set(atom("%" + clean_type(info["t"]) + (field or "")))
        # containers filled element by element: value of the container is its elements
        if parts and field is None:
            lab = None
            keep = set()
            for d in parts:
                if d.field in ("[]", "*", "[][]"):
                    keep |= self.label(self.defval(d, d.field, ctx), "")
            if keep and len(keep) <= MAXALT:
                emptyish = all(self._isempty(p) for p in res)
                res = (set() if emptyish else res) | keep
        if len(res) > 1:
            res.discard(frozenset([(1, ("uninit",))]))
        if len(res) > 1 and any(d.kind in ("+=", "-=", "elt+=", "call") or self.selfref(d) for d in use):
            res = set(maximal(res))
        if any(any(isiv(m) for _, m in p) for p in res) and any(
                d.kind in ("++", "--", "+=", "-=") for d in use):
            res = set(p for p in res if not all(isconstm(m) for _, m in p))
        if len(res) >= 1 and field is None and any(d.kind in ("--", "-=") for d in use) and not any(d.kind in ("++", "+=") for d in use):
            # a counter running down names the same positions as one running up
            me = "iv:%s.%d" % (info["n"], v)
            if any((1, (me,)) in p for p in res):
                res = set(atom(me))
        return cap(res)

    def selfref(self, d):
        """x = f(x) or a guarded running extremum"""
        if d.kind != "=" or d.rhs is None:
            return False
        if any(x.k == "Var" and x.d["v"] == d.var for x in d.rhs.walk()):
            return True
        for c, t in self.P.facts_at(d.node):
            if c.k == "Bin" and c.d["op"] in ("<", ">", "<=", ">="):
                if any(x.k == "Var" and x.d["v"] == d.var for x in c.c):
                    return True
        return False

    def identity_type(self, t):
        """class types whose objects are told apart by identity: passing one to a call does not rebind it"""
        t = clean_type(t)
        r = self.P.__dict__.setdefault("_idtypes", None)
        if r is None:
            r = set()
            for x in self.P.records.values():
                f = x["f"]
                if any(f.endswith(o.split("/")[-1]) for o in OPAQUE_FILES):
                    continue
                r.add(x["q"].replace("zmdp::", "").replace("sla::", ""))
            self.P._idtypes = r
        return t in r

    def _isempty(self, p):
        s = pstr(p)
        return s.startswith("+new:") or s == "+uninit" or s.startswith("+%") or "(" in s and s.startswith("+c") and "vector(" in s

    def param(self, fn, v, ctx, field):
        i = fn.params.index(v) if v in fn.params else -1
        info = fn.vars[v]
        if ctx is not None and i >= 0:
            args = ctx.call.c
            if ctx.call.k == "Call" and ctx.call.d.get("oper") and ctx.call.slot("obj") is None and False:
                pass
            if i < len(args):
                b = self.ev(args[i], ctx.up)
                return set(self.label(b, field)) if field else set(b)
        t = clean_type(info["t"])
        same = [p for p in fn.params if clean_type(fn.vars[p]["t"]) == t]
        sfx = "#%d" % same.index(v) if len(same) > 1 else ""
        return set(atom(("@" if self.identity_type(t) else "$") + t + sfx + (field or "")))

    def solve_self(self, alts):
        return alts

    def defval(self, d, field, ctx):
        key = ("def", d.node.fn.usr, d.idx, field, ctx.key if ctx else None)
        if key in self.inprog:
            self.touched.add(key)
            return set(atom(("SELF",) + (key,)))
        m = self.memo.get(key)
        if m is not None:
            return set(m)
        m = self.tmp.get(key)
        if m is not None and all(x in self.inprog for x in m[1]):
            self.touched |= m[1]
            return set(m[0])
        self.inprog[key] = 1
        saved, self.touched = self.touched, set()
        try:
            r = self._defval(d, field, ctx)
        finally:
            del self.inprog[key]
        r = self.resolve_self(r, ("SELF", key))
        mine = self.touched
        mine.discard(key)
        if not mine & self.inprog.keys():
            self.memo[key] = frozenset(r)
        else:
            self.tmp[key] = (frozenset(r), frozenset(mine & self.inprog.keys()))
        self.touched = saved | mine
        return set(r)

    def resolve_self(self, alts, me):
        def has(p):
            return any(self.matom(a, me) for _, m in p for a in m)
        base = [p for p in alts if not has(p)]
        rec = [p for p in alts if has(p)]
        if not rec:
            return set(alts)
        base = list(maximal(frozenset(base)))
        if not base:
            return set([frozenset([(1, ("rec",))])])
        out = set(base)
        for r in rec:
            if r == frozenset([(1, (me,))]):
                continue
            if (1, (me,)) in r and not any(self.matom(a, me) for s, m in r if m != (me,) for a in m):
                delta = r - {(1, (me,))}
                # counters
                if all(isconstm(m) for _, m in delta):
                    for b in base:
                        if len(b) == 1 and isiv(next(iter(b))[1]):
                            continue
                        if all(isconstm(m) for _, m in b):
                            out.discard(b)
                            out.add(frozenset([(1, (self.ivname(me),))]))
                        else:
                            out.add(frozenset((s, m) for s, m in b if not isconstm(m)) | frozenset([(1, (self.ivname(me),))]))
                            out.discard(b)
                    continue
                for b in base:
                    out.add(b | delta)
                continue
            # multiplicative or nested (max): substitute the base
            for b in base:
                out.add(self.subst(r, me, b))
        return out

    def ivname(self, me):
        k = me[1]
        fn = self.P.funcs[k[1]]
        d = fn_defs(self.P, fn).all[k[2]]
        return "iv:%s.%d" % (fn.vars[d.var]["n"], d.var)

    def idx(self, n, ctx):
        """the index of a subscript expression, as text (one name per loop counter)"""
        if n.k == "Idx":
            e = n.c[1]
        elif n.k == "Call" and n.c:
            if len(n.c) > 1:
                return ",".join(self._idx1(x, ctx) for x in n.c)
            e = n.c[0]
        else:
            return ""
        return self._idx1(e, ctx)

    def _idx1(self, e, ctx):
        s = vstr(self.ev(e, ctx))
        if s.startswith("+"):
            s = s[1:]
        if len(s) > 48 or "[" in s or "(" in s:
            h = "~%x" % (zlib.crc32(s.encode()) & 0xffffff)
            HASHED[h] = s
            s = h
        return s

    def matom(self, a, me):
        if a == me:
            return True
        if isinstance(a, tuple) and a and a[0] in ("MAX", "MIN"):
            return any(self.matom(x, me) for p in a[1] for _, m in p for x in m)
        return False

    def subst(self, r, me, b):
        acc = frozenset()
        for s, m in r:
            term = frozenset([(s, ())])
            for a in m:
                if a == me:
                    bb = b
                    if len(m) > 1:  # x *= f in a loop: unbounded power of the other factors
                        term = pmul(term, frozenset([(1, ("^loop",))]))
                    term = pmul(term, bb)
                elif isinstance(a, tuple) and a[0] in ("MAX", "MIN"):
                    sub = frozenset(self.subst(p, me, b) for p in a[1])
                    term = pmul(term, self.mkext(a[0], sub))
                else:
                    term = pmul(term, frozenset([(1, (a,))]))
            acc = acc | term
        return acc

    def mkext(self, op, alts):
        flat = set()
        for p in alts:
            if len(p) == 1:
                (s, m), = p
                if s == 1 and len(m) == 1 and isinstance(m[0], tuple) and m[0][0] == op:
                    flat |= m[0][1]
                    continue
            flat.add(p)
        # a neutral element disappears
        neutral = frozenset([(-1 if op == "MAX" else 1, ("#BIG",))])
        if len(flat) > 1:
            flat.discard(neutral)
        if len(flat) == 1:
            return next(iter(flat))
        return frozenset([(1, ((op, frozenset(flat)),))])

    def _defval(self, d, field, ctx):
        k = d.kind
        if k == "decl":
            n = d.node
            t = n.fn.vars[d.var]["t"]
            if t in ("double", "float", "int", "unsigned int", "unsigned long", "long", "bool", "char", "size_t") or t.endswith("*"):
                return set(atom("uninit"))
            return set(atom("%" + clean_type(t) + (field or "")))
        if k == "init":
            v = self.ev(d.rhs, ctx)
            return set(self.label(v, field)) if field and d.field is None else set(v)
        base = k[3:] if k.startswith("elt") else k[5:] if k.startswith("deref") else k
        if base == "=":
            v = self.ev(d.rhs, ctx) if d.rhs is not None else atom("?")
            if d.field is None and field:
                return set(self.label(v, field))
            g = self.guarded_ext(d, v, ctx)
            return set(g if g is not None else v)
        if base in ("+=", "-=", "*=", "/=", "|=", "&=", "%="):
            prev = self.var_at(d, field or d.field, ctx)
            v = self.ev(d.rhs, ctx)
            return set(self.arith(base[:-1], prev, v))
        if base in ("++", "--") and is_ptr_type(d.node.fn.vars[d.var]["t"]):
            return set(self.var_at(d, None, ctx))
        if base in ("++", "--"):
            prev = self.var_at(d, None, ctx)
            return set(self.arith("+" if base == "++" else "-", prev, const(1)))
        if k in ("call", "ptrcall"):
            r = self.outparam(d, ctx, field if d.field is None else None)
            if isinstance(r, tuple):
                return set(r[1])
            return set(self.label(r, field)) if field and d.field is None and k == "call" else set(r)
        return set(atom("?def:" + k))

    def var_at(self, d, field, ctx):
        """value of d.var just before definition d"""
        fn = d.node.fn
        defs, entry = self.reaching(fn, d.var, d.pos, field)
        res = set()
        if entry and fn.vars[d.var]["p"]:
            res |= self.param(fn, d.var, ctx, field if field not in ("*",) else None)
        for x in defs:
            if x.kind == "ptrcall":
                continue
            if field is None and x.field is not None:
                continue
            if field is not None and x.field is not None and x.field != field:
                continue
            res |= self.defval(x, field, ctx)
        if len(res) > 1:
            res.discard(frozenset([(1, ("uninit",))]))
        return frozenset(res) if res else atom("?")

    def guarded_ext(self, d, v, ctx):
        """x = e under a guard comparing e with x  ==>  MAX/MIN{x, e}"""
        fn = d.node.fn
        if d.kind != "=" or d.field is not None:
            return None
        facts = self.P.facts_at(d.node)
        if not facts:
            return None
        for c, t in facts:
            if c.k != "Bin" or c.d["op"] not in ("<", ">", "<=", ">="):
                continue
            a, b = c.c
            av = a.k == "Var" and a.d["v"] == d.var
            bv = b.k == "Var" and b.d["v"] == d.var
            if av == bv:
                continue
            other = b if av else a
            ov = self.ev(other, ctx)
            if ov != v:
                continue
            op = c.d["op"]
            greater = op in (">", ">=")  # a > b
            if not t:
                greater = not greater
            # e bigger than x ?
            e_bigger = greater if bv else not greater
            prev = self.var_at(d, None, ctx)
            out = set()
            for p in prev:
                for q in v:
                    out.add(self.mkext("MAX" if e_bigger else "MIN", [p, q]))
            return frozenset(out)
        return None

    def arith(self, op, a, b):
        if op == "+":
            return vadd(a, b)
        if op == "-":
            return vadd(a, vneg(b))
        if op == "*":
            return vmul(a, b)
        if op == "/":
            return cap(pmul(p, inv(q)) for p in a for q in b)
        return atom("(%s)%s(%s)" % (vstr(a), op, vstr(b)))

    def binop(self, op, x, y, n, ctx):
        a = self.ev(x, ctx)
        if op in ("+", "-") and (is_ptr_type(x.t) or x.t.endswith("]") or "iterator" in x.t) and op == "+":
            return a
        b = self.ev(y, ctx)
        if op == ",":
            return b
        if op in ("+", "-", "*", "/"):
            return self.arith(op, a, b)
        if op in ("<", ">", "<=", ">=", "==", "!=", "&&", "||"):
            if op in (">", ">="):
                a, b, op = b, a, {">": "<", ">=": "<="}[op]
            if op in ("==", "!=", "&&", "||"):
                sa, sb = sorted([vstr(a), vstr(b)])
                return atom("[%s %s %s]" % (sa, op, sb))
            return atom("[%s %s %s]" % (vstr(a), op, vstr(b)))
        return atom("(%s)%s(%s)" % (vstr(a), op, vstr(b)))

    def cond(self, n, ctx):
        c, a, b = n.kids[0], n.kids[1], n.kids[2]
        va, vb = self.ev(a, ctx), self.ev(b, ctx)
        neg = False
        while c.k == "Un" and c.d["op"] == "!":
            c = c.c[0]
            neg = not neg
        if c.k == "Bin" and c.d["op"] in ("<", ">", "<=", ">="):
            vx, vy = self.ev(c.c[0], ctx), self.ev(c.c[1], ctx)
            gt = c.d["op"] in (">", ">=")
            if neg:
                gt = not gt
            if (vx, vy) == (va, vb):
                return frozenset(self.mkext("MAX" if gt else "MIN", [p, q]) for p in va for q in vb)
            if (vx, vy) == (vb, va):
                return frozenset(self.mkext("MIN" if gt else "MAX", [p, q]) for p in va for q in vb)
        return va | vb

    # -- calls -----------------------------------------------------------------
    def is_opaque(self, g):
        if g.q in self.opaque or g.q.split("::")[-1] in self.opaque:
            return True
        f = g.file
        if f.startswith("include/"):
            f = f[8:]
            return any(f == o.split("/")[-1] for o in OPAQUE_FILES)
        return any(f.endswith(o) for o in OPAQUE_FILES)

    def call(self, n, ctx):
        d = n.d
        q = d.get("q") or ""
        nm = q.split("::")[-1]
        o = n.slot("obj")
        oper = d.get("oper")
        if "cv" in d:
            return const(d["cv"])
        if oper in ("[]", "()") and o is not None:
            return self.elem(o, ctx, n)
        if oper in ("*", "->", "++", "--") and o is not None and not (oper == "*" and n.c):
            return self.ev(o, ctx)
        if oper and oper in ("=",):
            return self.ev(n.c[-1], ctx)
        if oper and oper in ("+=", "-=", "*=", "/=") and (o is not None or len(n.c) == 2):
            a = o if o is not None else n.c[0]
            return self.arith(oper[0], self.ev(a, ctx), self.ev(n.c[-1], ctx))
        if oper in ("+", "-", "*", "/") and (len(n.c) + (o is not None)) == 2:
            xs = ([o] if o is not None else []) + n.c
            if "basic_string" in n.t:
                return atom("str(%s+%s)" % (vstr(self.ev(xs[0], ctx)), vstr(self.ev(xs[1], ctx))))
            if "iterator" in xs[0].t:
                return self.ev(xs[0], ctx)
            return self.arith(oper, self.ev(xs[0], ctx), self.ev(xs[1], ctx))
        if oper in ("<", ">", "<=", ">=", "==", "!=") and (len(n.c) + (o is not None)) == 2:
            xs = ([o] if o is not None else []) + n.c
            return self.binop(oper, xs[0], xs[1], n, ctx)
        if nm in ("max", "min", "fmax", "fmin") and len(n.c) == 2 and o is None:
            a, b = self.ev(n.c[0], ctx), self.ev(n.c[1], ctx)
            return cap(self.mkext("MAX" if "max" in nm else "MIN", [p, r]) for p in a for r in b)
        if nm == "inner_prod_column" and len(n.c) == 3:
            return vmul(self.column(n.c[0], n.c[1], ctx), self.ev(n.c[2], ctx))
        if nm in ("inner_prod",):
            a, b = self.ev(n.c[0], ctx), self.ev(n.c[1], ctx)
            return vmul(self.elt(a), self.elt(b))
        if nm in ("infinity",) or (nm == "max" and not n.c):
            return const(1e300)
        if nm in ("getString", "getDouble", "getInt", "getBool", "getIntWithDefault", "getBoolWithDefault") and n.c:
            return atom("cfg:" + vstr(self.ev(n.c[0], ctx)).strip('+"'))
        if o is not None:
            if nm in PASS_METHODS and not self.P.resolve(n):
                return self.label(self.ev(o, ctx), "[]") if nm in ("begin", "end", "find", "rbegin", "lower_bound", "cbegin", "cend") else self.ev(o, ctx)
            if nm in ELT_METHODS:
                return self.elem(o, ctx, n)
        r = self.P.resolve(n)
        r = [g for g in r if g.blocks]
        if len(r) == 1 and not d.get("virt") or (len(r) == 1 and d.get("virt")):
            g = r[0]
            if not self.is_opaque(g) and (ctx.depth if ctx else 0) < self.depth and not self.recursive(g, ctx, n):
                nctx = Ctx(n, n.fn, ctx)
                rv = self.retval(g, nctx)
                if rv is not None:
                    return rv
        if o is not None:
            args = self.argstr(n, ctx)
            return self.label(self.ev(o, ctx), "." + nm + "(" + args + ")")
        return atom(nm + "(" + self.argstr(n, ctx) + ")")

    def column(self, m, c, ctx):
        return self.label(self.ev(m, ctx), "[:,%s]" % self._idx1(c, ctx))

    def transp(self, v, flip):
        """matrix operand; .Ttr is the stored transpose of .T"""
        out = set()
        for p in v:
            if len(p) == 1:
                (s, m), = p
                if len(m) == 1 and isinstance(m[0], str):
                    x = m[0]
                    f = flip
                    i = x.rfind(".Ttr")
                    if i >= 0 and x[i + 4:i + 5] in ("[", ""):
                        x = x[:i] + ".T" + x[i + 4:]
                        f = not f
                    out.add(frozenset([(s, ((x + "^t") if f else x,))]))
                    continue
            out.add(frozenset([(1, ("(" + pstr(p) + ")" + ("^t" if flip else ""),))]))
        return frozenset(out)

    def elt(self, v):
        out = set()
        for p in v:
            out.add(p)
        return frozenset(out)

    def argstr(self, n, ctx):
        out = []
        for a in n.c:
            s = vstr(self.ev(a, ctx))
            if len(s) > 160:
                s = "~"
            out.append(s)
        return ",".join(out)

    def recursive(self, g, ctx, n):
        if n.fn is g:
            return True
        c = ctx
        while c is not None:
            if c.fn is g:
                return True
            c = c.up
        return False

    def retval(self, g, ctx):
        key = ("ret", g.usr, ctx.key)
        m = self.memo.get(key)
        if m is not None:
            return m
        res = set()
        any_ret = False
        saved, self.touched = self.touched, set()
        for n in g.body.walk():
            if n.k == "Return" and n.c and self.P.reachable(n):
                # returns inside lambdas belong to the lambda
                if any(a.k == "Lambda" for a in n.ancestors()):
                    continue
                any_ret = True
                res |= self.ev(n.c[0], ctx)
        r = cap(res) if any_ret else None
        mine = self.touched
        if not mine & set(self.inprog) and r is not None:
            self.memo[key] = r
        self.touched = saved | mine
        return r

    def outparam(self, d, ctx, field=None):
        """value left in the argument by a call"""
        n = d.call
        q = n.d.get("q") or ""
        nm = q.split("::")[-1]
        r = [g for g in self.P.resolve(n) if g.blocks]
        if n.d.get("oper") == ">>":
            return atom("read()")
        if nm == "mult" and len(n.c) >= 3:
            a, b = self.ev(n.c[1], ctx), self.ev(n.c[2], ctx)
            # A*x keeps the matrix label, x*A is the transpose
            if "matrix" in clean_type(n.c[1].ct or n.c[1].t):
                return vmul(self.transp(a, False), b)
            return vmul(a, self.transp(b, True))
        if nm in ("emult_column",) and len(n.c) >= 4:
            return vmul(self.column(n.c[1], n.c[2], ctx), self.ev(n.c[3], ctx))
        if nm == "copy_from_column" and len(n.c) >= 3:
            return self.column(n.c[1], n.c[2], ctx)
        if nm in ("emult",) and len(n.c) >= 3:
            return vmul(self.ev(n.c[1], ctx), self.ev(n.c[2], ctx))
        if nm in ("copy", "copy_from_column", "mask_copy") and len(n.c) >= 2:
            return self.ev(n.c[1], ctx)
        if nm == "set_to_zero":
            return ZERO
        if nm in ("set_to_one", "mask_set_to_one"):
            return const(1)
        if nm == "subtract" and len(n.c) == 3:
            return vadd(self.ev(n.c[1], ctx), vneg(self.ev(n.c[2], ctx)))
        if nm == "add" and len(n.c) == 3:
            return vadd(self.ev(n.c[1], ctx), self.ev(n.c[2], ctx))
        if nm in ("add",) and len(n.c) == 2 and d.argi == 0:
            prev = self.var_at(d, d.field, ctx)
            return vadd(prev, self.ev(n.c[1], ctx))
        if nm in ("max_assign",) and d.argi == 0:
            prev = self.var_at(d, d.field, ctx)
            return frozenset(self.mkext("MAX", [p, t]) for p in prev for t in self.ev(n.c[1], ctx))
        if len(r) == 1 and not self.is_opaque(r[0]) and (ctx.depth if ctx else 0) < self.depth \
                and not self.recursive(r[0], ctx, n):
            g = r[0]
            if d.argi < len(g.params):
                pv = g.params[d.argi]
                nctx = Ctx(n, n.fn, ctx)
                v = self.exitval(g, pv, nctx, field)
                if v is not None and field:
                    return ("done", v)
                if v is not None:
                    return v
        if nm in ("getNextState", "getOutcomeProbVector", "getNextBelief", "getObsProbVector"):
            o = n.slot("obj")
            args = ",".join(vstr(self.ev(a, ctx)) if len(vstr(self.ev(a, ctx))) < 80 else "~" for i, a in enumerate(n.c) if i != d.argi)
            return self.label(self.ev(o, ctx), ".%s(%s)" % (nm, args)) if o is not None else atom("%s(%s)" % (nm, args))
        o = n.slot("obj")
        args = ",".join((lambda s: s if len(s) < 80 else "~")(vstr(self.ev(a, ctx))) for i, a in enumerate(n.c) if i != d.argi)
        if o is not None:
            return self.label(self.ev(o, ctx), ".out:%s.%d(%s)" % (nm, d.argi, args))
        return atom("out:%s.%d(%s)" % (nm, d.argi, args))

    def exitval(self, g, pv, ctx, field=None):
        """value of parameter pv (by reference) or of *pv (pointer) at g's exit"""
        D = fn_defs(self.P, g)
        t = g.vars[pv]["t"]
        defs, entry = self.reaching(g, pv, (g.exit, 0), "*" if is_ptr_type(t) else None)
        res = set()
        if is_ptr_type(t):
            use = [x for x in defs if x.field == "*"]
            if not use:
                return None
            saved = self.touched
            for x in use:
                res |= self.defval(x, "*", ctx)
            if entry:
                pass
            return frozenset(res)
        use = [x for x in defs]
        if field and field != "[]":
            defs, entry = self.reaching(g, pv, (g.exit, 0), field)
            use = [x for x in defs if x.field == field]
            if not use:
                return None
            for x in use:
                res |= self.defval(x, field, ctx)
            return frozenset(res)
        if not use:
            return None
        for x in use:
            if x.field is None:
                res |= self.defval(x, None, ctx)
            elif x.field.startswith("[]") or x.field in ("*",):
                res |= self.defval(x, x.field, ctx)
        if entry:
            res |= self.param(g, pv, ctx, None)
        return frozenset(res) if res else None

    # -- normalised conditions -------------------------------------------------
    def rels(self, node, truth, ctx=None, depth=0):
        """atomic conditions implied by (node == truth): list of (rel, Value|str) with rel in > >= == != T F"""
        n = node
        while n.k == "Cast" and not isinstance(truth, tuple):
            n = n.c[0]
        if isinstance(truth, tuple):  # switch case
            return [("==", vadd(self.ev(n, ctx), vneg(const(truth[1]) if truth[1] is not None else atom("?"))), n, ctx)]
        if n.k == "Un" and n.d["op"] == "!":
            return self.rels(n.c[0], not truth, ctx, depth)
        if n.k == "Call" and n.d.get("oper") == "!":
            o = n.slot("obj") or n.c[0]
            return [("F" if truth else "T", self.ev(o, ctx), n, ctx)]
        if n.k == "Bin" and n.d["op"] in ("&&", "||"):
            both = (n.d["op"] == "&&") == truth
            if both:
                return self.rels(n.c[0], truth, ctx, depth) + self.rels(n.c[1], truth, ctx, depth)
            return [("T" if truth else "F", self.ev(n, ctx), n, ctx)]
        isbin = n.k == "Bin" and n.d["op"] in ("<", ">", "<=", ">=", "==", "!=")
        iscall = n.k == "Call" and n.d.get("oper") in ("<", ">", "<=", ">=", "==", "!=")
        if isbin or iscall:
            op = n.d["op"] if isbin else n.d["oper"]
            xs = n.c if isbin else ([n.slot("obj")] if n.slot("obj") is not None else []) + n.c
            a, b = xs[0], xs[1]
            if not truth:
                op = {"<": ">=", ">": "<=", "<=": ">", ">=": "<", "==": "!=", "!=": "=="}[op]
            # bool compared with constants
            va, vb = self.ev(a, ctx), self.ev(b, ctx)
            if op in ("<", "<="):
                va, vb = vb, va
                op = {"<": ">", "<=": ">="}[op]
            if op in ("==", "!="):
                if va == ZERO:
                    va, vb = vb, va
                    a, b = b, a
                if vb == ZERO:
                    pt = a.ct.endswith("*") or a.t.endswith("*") or a.k == "Null" or b.k == "Null" or a.t == "bool"
                    return [("T" if op == "!=" else "F", va, n, ctx)]
            diff = vadd(va, vneg(vb))
            return [(op, diff, n, ctx)]
        if n.k == "Var" and n.t in ("bool", "const bool") and depth < 4:
            pos = self.P.position(n)
            defs, entry = self.reaching(n.fn, n.d["v"], pos)
            if len(defs) == 1 and not entry and defs[0].kind in ("init", "=") and defs[0].rhs is not None:
                return self.rels(defs[0].rhs, truth, ctx, depth + 1) + [("T" if truth else "F", self.ev(n, ctx), n, ctx)]
            if entry and not defs and ctx is not None and n.d["v"] in n.fn.params:
                i = n.fn.params.index(n.d["v"])
                if i < len(ctx.call.c):
                    return self.rels(ctx.call.c[i], truth, ctx.up, depth + 1)
        if n.k == "Call" and depth < 4:
            r = [g for g in self.P.resolve(n) if g.blocks]
            if len(r) == 1 and r[0].rt in ("bool", "int") and not self.is_opaque(r[0]) and not self.recursive(r[0], ctx, n) \
                    and (ctx.depth if ctx else 0) < self.depth:
                x = self.pred_rels(r[0], truth, Ctx(n, n.fn, ctx), depth + 1)
                if x is not None:
                    return x + [("T" if truth else "F", self.ev_call_label(n, ctx), n, ctx)]
            if len(r) >= 1:
                return [("T" if truth else "F", self.ev_call_label(n, ctx), n, ctx)]
        return [("T" if truth else "F", self.ev(n, ctx), n, ctx)]

    def ev_call_label(self, n, ctx):
        o = n.slot("obj")
        nm = (n.d.get("q") or "").split("::")[-1]
        if o is not None:
            return self.label(self.ev(o, ctx), "." + nm + "(" + self.argstr(n, ctx) + ")")
        return atom(nm + "(" + self.argstr(n, ctx) + ")")

    def pred_rels(self, g, truth, ctx, depth):
        """relations that hold whenever g returns `truth`"""
        common = None
        for n in g.body.walk():
            if n.k == "Return" and n.c and self.P.reachable(n):
                e = n.c[0]
                cv = e.d.get("cv", e.d.get("v") if e.k in ("Bool", "Lit") else None)
                if cv is not None and bool(cv) != truth:
                    continue
                rs = []
                for c, t in self.P.facts_at(n):
                    rs += self.rels(c, t, ctx, depth)
                if cv is None:
                    rs += self.rels(e, truth, ctx, depth)
                keys = {}
                for r in rs:
                    keys[(r[0], r[1])] = r
                if common is None:
                    common = keys
                else:
                    common = {k: v for k, v in common.items() if k in keys}
        if common is None:
            return None
        return list(common.values())

    def conds(self, node, ctx=None):
        """all normalised relations known at the node (intra-procedural facts, callee predicates expanded)"""
        res = []
        for c, t in self.P.facts_at(node):
            res += self.rels(c, t, ctx)
        return res
