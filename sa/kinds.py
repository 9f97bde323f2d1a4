"""Index-kind inference: which quantity (state, action, observation, outcome) every integer counts or selects, by unification over
the syntax trees.  Locals are split into webs, functions are generalised over their parameters (a helper may be used for two
kinds), fields and seeded globals are shared."""
import re
from core import fn_defs
from rules.common import strip
from absint import last

INTS = {"int", "unsigned int", "long", "unsigned long", "short", "unsigned short", "size_t", "unsigned", "long long",
        "unsigned long long", "std::size_t"}
LIBFILES = ("common/sla.h", "common/slaMatrixUtils.h", "common/MatrixUtils.h", "common/sla_mask.h", "parsers/sla_cassandra.h",
            "common/zmdpCommonTypes.h")
SLA1 = {"cvector", "dvector", "mvector"}
SLA2 = {"cmatrix", "kmatrix", "dmatrix"}
# plain containers: what they hold depends on the object, not on the class
GENERIC = {"I_Matrix_Struct", "Matrix_Struct", "I_Matrix_Row_Node_Struct", "pair", "cvector_entry", "kmatrix_entry", "mvector_entry"}


class Term(object):
    __slots__ = ("up", "kind", "kids", "shared", "name", "n", "op")
    count = 0

    def __init__(self, name="", shared=False):
        self.up, self.kind, self.kids, self.shared, self.name, self.op = None, None, {}, shared, name, False
        Term.count += 1
        self.n = Term.count


def find(t):
    while t.up is not None:
        if t.up.up is not None:
            t.up = t.up.up
        t = t.up
    return t


def bare(t):
    t = re.sub(r"\b(const|struct|class|volatile)\b ?", "", t or "").strip()
    while t.endswith("&"):
        t = t[:-1].strip()
    return t


def isint(t):
    return bare(t) in INTS


def base_name(t):
    """class name of an object, reference or pointer type"""
    t = bare(t)
    while t.endswith("*"):
        t = t[:-1].strip()
    t = re.sub(r"<.*", "", t)
    return t.split("::")[-1].strip()


def is_sla(t):
    b = base_name(t)
    return b if b in SLA1 or b in SLA2 else None


def isbox(t):
    """a value that has parts worth following"""
    t = bare(t)
    if isint(t) or t in ("", "void", "bool", "char", "double", "float", "char *"):
        return False
    return True


class Kinds(object):
    def __init__(self, P, E, seeds, opaque=(), skip=(), tagged=None, varying=(), psig=None):
        self.tagged = tagged or {}
        self.varying, self.varying_by = set(varying), {"gProblemType"}
        self.psig = psig or {}
        self.P, self.E, self.opaque, self.skip = P, E, set(opaque), skip
        self.shared = {}
        self.local = {}
        self.conflicts = []
        self.n_unify = self.n_kinded = 0
        self.cur = None
        self.params, self.rets = {}, {}
        self.memo = {}
        self.evals = {}
        self.sites = []          # (node, kind pair) decided
        self.seed(seeds)

    # ---------------------------------------------------------------- terms
    def sh(self, key):
        t = self.shared.get(key)
        if t is None:
            t = self.shared[key] = Term(str(key[-1]), True)
        return t

    def kid(self, t, name):
        t = find(t)
        if t.op:
            return Term("?")
        k = t.kids.get(name)
        if k is None:
            k = t.kids[name] = Term("%s.%s" % (t.name, name), t.shared)
        return find(k)

    def share(self, t):
        t = find(t)
        if t.shared:
            return
        t.shared = True
        for k in list(t.kids.values()):
            self.share(k)

    def unify(self, a, b, at):
        if a is None or b is None:
            return
        todo = [(a, b)]
        top = True
        while todo:
            a, b = todo.pop()
            a, b = find(a), find(b)
            if top:
                self.n_unify += 1
            if a.op or b.op:
                for x in (a, b):
                    if not x.shared and not x.kind:
                        x.op, x.kids = True, {}
                top = False
                continue
            if a is b:
                if top and a.kind:
                    self.n_kinded += 1
                    self.sites.append((at, a.kind))
                top = False
                continue
            if a.kind and b.kind and a.kind != b.kind:
                self.conflicts.append((at, a.kind, b.kind))
                top = False
                continue
            if top and (a.kind or b.kind):
                self.n_kinded += 1
                self.sites.append((at, a.kind or b.kind))
            top = False
            if a.n > b.n:
                a, b = b, a
            if b.shared and not a.shared:
                self.share(a)
            elif a.shared and not b.shared:
                self.share(b)
            b.up = a
            a.kind = a.kind or b.kind
            for k, t in b.kids.items():
                u = a.kids.get(k)
                if u is None:
                    a.kids[k] = t
                else:
                    todo.append((u, t))
            b.kids = {}

    def seed(self, seeds):
        for key, spec in seeds:
            t = self.sh(key)
            self.stamp(t, spec)

    def stamp(self, t, spec):
        """spec: kind, or {child: spec}"""
        if isinstance(spec, str):
            find(t).kind = spec
        else:
            for k, s in spec.items():
                self.stamp(self.kid(t, k), s)

    def inst(self, t, memo):
        t = find(t)
        if t.shared:
            return t
        r = memo.get(t)
        if r is None:
            r = memo[t] = Term(t.name)
            r.kind = t.kind
            for k, u in list(t.kids.items()):
                r.kids[k] = self.inst(u, memo)
        return r

    # ---------------------------------------------------------------- functions
    def body(self, fn):
        return bool(fn.blocks) and not any(fn.file.endswith(x) for x in LIBFILES) and not fn.impl and not any(x in fn.file for x in self.skip)

    def run(self):
        P = self.P
        fns = [f for f in P.funcs.values() if self.body(f)]
        # override sets are one function here
        rep = {}

        def r(u):
            while rep.get(u, u) != u:
                u = rep[u]
            return u
        for f in P.funcs.values():
            for o in self.overridden(f):
                rep[r(f.usr)] = r(o)
        self.rep = r
        succ = {}
        for f in fns:
            for n in P.all_nodes(f):
                if n.k in ("Call", "Ctor", "New"):
                    for u in self.callees(n):
                        succ.setdefault(r(f.usr), set()).add(r(u))
        groups = {}
        for f in fns:
            groups.setdefault(r(f.usr), []).append(f)
        order = self.scc(sorted(groups), succ)
        self.done = set()
        for comp in order:
            self.now = set(comp)
            for u in comp:
                for f in groups.get(u, ()):
                    self.fn(f)
            self.done |= set(comp)

    def overridden(self, f):
        return list(f.over or ())

    def callees(self, n):
        return [g.usr for g in self.P.resolve(n)]

    def scc(self, vs, succ):
        idx, low, st, on, out, c = {}, {}, [], set(), [], [0]
        for v0 in vs:
            if v0 in idx:
                continue
            work = [(v0, iter(sorted(succ.get(v0, ()))))]
            idx[v0] = low[v0] = c[0]
            c[0] += 1
            st.append(v0)
            on.add(v0)
            while work:
                v, it = work[-1]
                w = next(it, None)
                if w is None:
                    work.pop()
                    if work:
                        low[work[-1][0]] = min(low[work[-1][0]], low[v])
                    if low[v] == idx[v]:
                        comp = []
                        while True:
                            x = st.pop()
                            on.discard(x)
                            comp.append(x)
                            if x == v:
                                break
                        out.append(comp)
                elif w not in idx:
                    idx[w] = low[w] = c[0]
                    c[0] += 1
                    st.append(w)
                    on.add(w)
                    work.append((w, iter(sorted(succ.get(w, ())))))
                elif w in on:
                    low[v] = min(low[v], idx[w])
        return out

    def param(self, u, i):
        k = (self.rep(u), i)
        if k not in self.params:
            t = self.params[k] = Term("parameter %d of %s" % (i, u))
            f = self.P.funcs.get(u)
            ks = self.psig.get(f.q if f is not None else None)
            if ks and i < len(ks):
                t.kind = ks[i]
        return self.params[k]

    def ret(self, u):
        k = self.rep(u)
        if k not in self.rets:
            self.rets[k] = Term("result of %s" % u)
        return self.rets[k]

    def sig(self, n, g):
        """parameter and result terms of callee g for the call n"""
        u = self.rep(g.usr)
        if u in self.now or not u in self.done:
            return (lambda i: self.param(u, i)), self.ret(u)
        memo = {}
        return (lambda i: self.inst(self.param(u, i), memo)), self.inst(self.ret(u), memo)

    def fn(self, fn):
        self.cur = fn
        P = self.P
        for i in fn.inits or []:
            m, e = i.get("m"), i.get("e")
            if m and e is not None:
                x = e if not isinstance(e, dict) else None
                if x is not None:
                    self.unify(self.fieldterm(m), self.ev(x), x)
        for n in P.all_nodes(fn):
            if any(a.k == "Lambda" for a in n.ancestors()):
                continue
            k = n.k
            if k == "Return" and n.c:
                self.unify(self.ret(fn.usr), self.ev(n.c[0]), n)
            elif k == "Decl":
                for v, nm, t, ini in n.vars:
                    if v is not None and ini is not None and (isint(fn.vars[v]["t"]) or isbox(fn.vars[v]["t"])):
                        self.unify(self.deft(fn, v, n), self.ev(ini), n)
            elif k == "ForRange":
                pass
            elif k in ("Call", "Assign", "Bin", "Un", "Idx", "Ctor", "New", "Mem", "Cond", "Cast"):
                self.ev(n)

    def fieldterm(self, q):
        return self.sh(("F", q)) if q not in self.opaque else None

    # ---------------------------------------------------------------- variables
    def web(self, fn, v):
        t = fn.vars[v]["t"]
        return isint(t) and "&" not in t

    def deft(self, fn, v, node):
        if not self.web(fn, v):
            return self.var(fn, v)
        for d in fn_defs(self.P, fn).byvar.get(v, ()):
            if d.node is node:
                return self.dterm(fn, v, d)
        return None

    def dterm(self, fn, v, d):
        k = (fn.usr, fn.unit, v, d.idx)
        t = self.local.get(k)
        if t is None:
            t = self.local[k] = Term(fn.vars[v]["n"])
        return t

    def var(self, fn, v):
        k = (fn.usr, fn.unit, v)
        t = self.local.get(k)
        if t is None:
            if fn.vars[v]["p"] and v in fn.params:
                t = self.param(fn.usr, fn.params.index(v))
            else:
                t = Term(fn.vars[v]["n"], bool(fn.vars[v].get("st")))
            self.local[k] = t
        return t

    def use(self, n):
        fn, v = n.fn, n.d["v"]
        if not self.web(fn, v):
            return self.var(fn, v)
        if fn.vars[v].get("st"):
            return self.var(fn, v)
        defs, entry = self.E.reaching(fn, v, self.P.position(n))
        ts = [self.dterm(fn, v, d) for d in defs if d.kind != "decl"]
        if entry and fn.vars[v]["p"] and v in fn.params:
            ts.append(self.var(fn, v))
        if not ts:
            return None
        for t in ts[1:]:
            self.unify(ts[0], t, n)
        return ts[0]

    def sigof(self, n):
        """the place an expression names, as text"""
        n = strip(n)
        if n.k == "Var":
            return "v%s" % n.d["v"]
        if n.k == "Global":
            return n.d["q"]
        if n.k == "This":
            return "this"
        if n.k == "Mem":
            return "%s.%s" % (self.sigof(n.c[0]) if n.c else "this", n.d["n"])
        if n.k == "Idx" or n.k == "Call" and n.d.get("oper") == "[]":
            xs = ([n.slot("obj")] if n.slot("obj") is not None else []) + list(n.c)
            return "%s[%s]" % (self.sigof(xs[0]), self.sigof(xs[-1]))
        if n.k == "Lit":
            return str(n.d.get("v"))
        return "?%d" % n.id

    def turns(self, fn, sg):
        """where the matrix is transposed in place, and where it is given new contents"""
        allt = self.__dict__.setdefault("_turns", {})
        k = (fn.usr, fn.unit)
        if k not in allt:
            l = allt[k] = []
            for n in self.P.all_nodes(fn):
                if n.k == "Call" and n.slot("obj") is None and n.c and last(n.d.get("q")) in ("kmatrix_transpose_in_place", "copy"):
                    l.append((self.sigof(n.c[0]), last(n.d["q"]) != "copy", n))
                elif n.k == "Call" and last(n.d.get("q")) == "resize" and n.slot("obj") is not None:
                    l.append((self.sigof(n.slot("obj")), False, n))
        return [n for g, t, n in allt[k] if g == sg and t], [n for g, t, n in allt[k] if g == sg and not t]

    def oriented(self, n, t):
        fn = n.fn
        v = self.sigof(n)
        ts, rs = self.turns(fn, v)
        if not ts or n.p is not None and n.p in rs:
            return t
        pos = self.P.position(n)
        if pos is None:
            return None
        at = {}
        for x in ts + rs:
            at.setdefault(self.P.position(x), x)
        got, seen, st = set(), set(), [pos]
        first = True
        while st:
            b, i = st.pop()
            hit = None
            ps = sorted((p for p in at if p is not None and p[0] == b and p[1] < i), key=lambda p: -p[1])
            if ps:
                got.add(at[ps[0]] in ts)
                continue
            if b == fn.entry:
                got.add(False)
            for p, _ in fn.blocks[b].pred:
                if p not in seen:
                    seen.add(p)
                    st.append((p, 10 ** 9))
        if got == {False}:
            return t
        if got == {True} and all(self.single(fn, x, at, ts) for x in ts):
            k = (fn.usr, fn.unit, v, "turned")
            if k not in self.local:
                u = self.local[k] = Term("turned")
                self.unify(self.kid(u, "d0"), self.kid(t, "d1"), None)
                self.unify(self.kid(u, "d1"), self.kid(t, "d0"), None)
            return self.local[k]
        return None

    def single(self, fn, x, at, ts):
        """a transposition never follows another without new contents in between"""
        px = self.P.position(x)
        seen, st = set(), [px]
        while st:
            b, i = st.pop()
            ps = sorted((p for p in at if p is not None and p[0] == b and p[1] < i), key=lambda p: -p[1])
            if ps:
                if at[ps[0]] in ts:
                    return False
                continue
            for p, _ in fn.blocks[b].pred:
                if p not in seen:
                    seen.add(p)
                    st.append((p, 10 ** 9))
        return True

    # ---------------------------------------------------------------- expressions
    def ev(self, n):
        if n is None:
            return None
        key = (n.fn.usr, n.fn.unit, n.id)
        if key in self.memo:
            return self.memo[key]
        self.memo[key] = None
        r = self.eval(n)
        if r is not None and is_sla(n.ct) == "kmatrix" and n.k in ("Var", "Idx", "Call", "Mem") and self.turns(n.fn, self.sigof(n))[0]:
            r = self.oriented(n, r)
        self.memo[key] = r
        return r

    def const(self, n):
        n = strip(n)
        if n.k == "Assign" and n.d["op"] == "=":
            return self.const(n.c[1])
        return n.cv is not None and n.k != "Var" or n.k in ("Lit", "Chr", "Enum", "SizeOf") or \
            n.k == "Un" and n.d["op"] in ("-", "~") and self.const(n.c[0]) or n.k == "Cast" and self.const(n.c[0])

    def context(self, n):
        """a global whose meaning depends on the case it is used in: one term per case"""
        fs = set()
        for c, t in self.P.facts_at(n):
            if isinstance(t, tuple) or any(y.k == "Global" and y.d["q"] in self.varying_by for y in c.walk()):
                fs.add((self.sigof(c) if c.k in ("Var", "Global", "Mem") else c.k, str(t)))
        if not any("case" in t for c, t in fs):
            return None
        base = frozenset(x for x in fs if "case" in x[1])
        other = frozenset(x for x in fs if x not in base)
        k = (n.fn.usr, n.d["q"], base, frozenset() if not any("False" in x[1] for x in other) else other)
        t = self.local.get(k)
        if t is None:
            t = self.local[k] = Term(n.d["q"])
        return t

    def cval(self, n):
        n = strip(n)
        return n.cv if n.cv is not None else n.d.get("v", "?")

    def eval(self, n):
        k = n.k
        if k == "Var":
            if n.d.get("v") is None:
                return None
            return self.use(n)
        if k == "Global":
            q = n.d.get("q")
            if isint(n.t) and ("G", q) not in self.shared and q in self.varying:
                return self.context(n)
            if isint(n.t):
                return self.shared.get(("G", q)) and find(self.shared[("G", q)])
            if q in self.opaque:
                return self.unknown(n)
            return self.sh(("G", q))
        if k == "Mem":
            return self.mem(n)
        if k == "Cast":
            t = self.ev(n.c[0])
            if isint(n.ct) != isint(n.c[0].ct):
                return None
            return t
        if k == "Cond":
            a, b = self.ev(n.c[1]) if len(n.c) == 3 else None, self.ev(n.c[-1])
            if n.slot("cond") is not None and len(n.c) == 2:
                a = self.ev(n.c[0])
            if isint(n.ct) or isbox(n.ct):
                self.unify(a, b, n)
            return a or b
        if k == "Assign":
            return self.assign(n)
        if k == "Un":
            op = n.d["op"]
            t = self.ev(n.c[0])
            if op in ("++", "--", "post++", "post--"):
                y = strip(n.c[0])
                if y.k == "Var" and self.web(n.fn, y.d["v"]):
                    self.unify(self.deft(n.fn, y.d["v"], n), t, n)
                return t
            if op == "*":
                return self.deref(t, n.c[0].ct)
            if op == "&":
                return t if not isint(n.c[0].ct) and isbox(n.c[0].ct) else None
            return None
        if k == "Bin":
            return self.bin(n)
        if k == "Idx":
            c, i = self.ev(n.c[0]), self.ev(n.c[1])
            if c is None:
                return None
            if not self.const(n.c[1]):
                self.unify(i, self.kid(c, "d0"), n)
                return self.kid(c, "el")
            return self.kid(c, "el%s" % self.cval(n.c[1]))
        if k == "Call":
            return self.call(n)
        if k == "Ctor":
            return self.ctor(n)
        if k == "New":
            return self.new(n)
        if k in ("StmtExpr", "Paren"):
            return None
        return None

    def deref(self, t, ct):
        if t is None:
            return None
        b = bare(ct)
        if b.endswith("*") and not b[:-1].strip().endswith("*"):
            inner = b[:-1].strip()
            if not isint(inner) and isbox(inner) and not re.match(r"(std::)?(__|vector)", inner):
                return t          # pointer to an object: the object
            if is_sla(inner):
                return t
        return self.kid(t, "el")

    def mem(self, n):
        nm, q = n.d.get("n"), n.d.get("q") or ""
        q0 = q
        while "<" in q0:
            r = re.sub(r"<[^<>]*>", "", q0)
            if r == q0:
                break
            q0 = r
        owner = q0.split("::")[-2] if "::" in q0 else ""
        if "union" in q0 or "YYSTYPE" in q0:
            for y in n.c:
                self.ev(y)
            return None
        if owner in SLA1 | SLA2:
            b = self.ev(n.c[0]) if n.c else None
            return self.slamem(b, owner, nm)
        y = n
        while y.k in ("Mem", "Cast") and y.c:
            if y.d.get("q") in self.opaque or y.d.get("n") in self.opaque:
                for z in n.c:
                    self.ev(z)
                return self.unknown(n)
            y = y.c[0]
        if owner in GENERIC:
            b = self.ev(n.c[0]) if n.c else None
            if b is None or not (isint(n.t) or isbox(n.t)):
                return None
            return self.kid(b, nm)
        if n.c:
            self.ev(n.c[0])
        if q in self.opaque or nm in self.opaque:
            return None
        if isint(n.t) or isbox(n.t):
            return self.fieldterm(q)
        return None

    def unknown(self, n):
        """something that stands for different things at different times"""
        if isint(n.t) or not isbox(n.t):
            return None
        t = Term("?")
        t.op = True
        return t

    def slamem(self, b, cls, nm):
        if b is None:
            return None
        if nm == "size_":
            return self.kid(b, "d0")
        if nm == "size1_":
            return self.kid(b, "d0")
        if nm == "size2_":
            return self.kid(b, "d1")
        if nm == "col_starts":
            d = self.kid(b, "col_starts")
            self.unify(self.kid(d, "d0"), self.kid(b, "d1"), None)
            return d
        if nm == "data":
            d = self.kid(b, "data")
            e = self.kid(d, "el")
            if cls == "dvector":
                self.unify(self.kid(d, "d0"), self.kid(b, "d0"), None)
            elif cls in ("cvector", "mvector", "cmatrix"):
                self.unify(self.kid(e, "index"), self.kid(b, "d0"), None)
            elif cls == "kmatrix":
                self.unify(self.kid(e, "r"), self.kid(b, "d0"), None)
                self.unify(self.kid(e, "c"), self.kid(b, "d1"), None)
            return d
        return None

    def assign(self, n):
        op = n.d["op"]
        l, r = n.c[0], n.c[1]
        rt = self.ev(r)
        y = strip(l)
        if y.k == "Var" and self.web(n.fn, y.d["v"]) and not n.fn.vars[y.d["v"]].get("st"):
            lt = self.deft(n.fn, y.d["v"], n)
            if op == "=":
                self.unify(lt, rt, n)
            elif op in ("+=", "-=") and self.const(r):
                self.unify(lt, self.ev(l), n)
            else:
                self.ev(l)
            return lt
        lt = self.ev(l)
        if op == "=" and (isint(l.ct) or isbox(l.ct)):
            if not self.const(r):
                self.unify(lt, rt, n)
        return lt

    def bin(self, n):
        op = n.d["op"]
        a, b = self.ev(n.c[0]), self.ev(n.c[1])
        ka, kb = self.const(n.c[0]), self.const(n.c[1])
        if op in ("<", "<=", ">", ">=", "==", "!="):
            if not ka and not kb and (isint(n.c[0].ct) and isint(n.c[1].ct)):
                self.unify(a, b, n)
            return None
        if op in ("+", "-"):
            if isint(n.ct):
                return a if kb else b if ka and op == "+" else None
            if bare(n.c[0].ct).endswith("*"):
                return a
            if bare(n.c[1].ct).endswith("*"):
                return b
            return None
        if op == "%" and isint(n.ct):
            return b if not kb else None
        if op == ",":
            return b
        return None

    # ---------------------------------------------------------------- calls
    def call(self, n):
        nm = last(n.d.get("q") or "")
        o = n.slot("obj")
        oper = n.d.get("oper")
        args = list(n.c)
        if oper and o is None and args and oper in ("[]", "()", "->", "*", "=", "++", "--"):
            o, args = args[0], args[1:]
        ot = self.ev(o) if o is not None else None
        ats = [self.ev(x) for x in args]
        tgt = self.P.resolve(n)
        mine = [g for g in tgt if self.body(g)]
        if mine and nm in self.tagged:
            ks = {self.tagged[nm].get(last(y.d.get("q"))) for x in args for y in [strip(x)] if y.k == "Enum"} - {None}
            if len(ks) == 1:
                t = Term(nm)
                t.kind = ks.pop()
                return t
            return None
        if mine:
            return self.user(n, mine, args, ats)
        cls = is_sla(o.ct) if o is not None else None
        if cls and ot is not None:
            return self.slacall(n, cls, nm, oper, ot, args, ats)
        if o is not None and ot is not None:
            return self.stdcall(n, nm, oper, o, ot, args, ats)
        if o is None:
            return self.libcall(n, nm, args, ats)
        return None

    def user(self, n, gs, args, ats):
        r = None
        seen = set()
        for g in gs:
            u = self.rep(g.usr)
            if u in seen:
                continue
            seen.add(u)
            ps, rt = self.sig(n, g)
            for i, (x, t) in enumerate(zip(args, ats)):
                if i >= len(g.params):
                    break
                pt = g.vars[g.params[i]]["t"]
                if not (isint(pt) or isbox(pt)):
                    continue
                if self.const(x):
                    continue
                y = strip(x)
                if isint(pt) and "&" in pt and "const" not in pt and y.k == "Var" and self.web(n.fn, y.d["v"]):
                    self.unify(self.deft(n.fn, y.d["v"], n), ps(i), x)
                    continue
                self.unify(t, ps(i), x)
            if r is None:
                r = rt
            else:
                self.unify(r, rt, n)
        return r if isint(n.ct) or isbox(n.ct) else None

    def slacall(self, n, cls, nm, oper, o, args, ats):
        K = self.kid
        d = [K(o, "d0")] + ([K(o, "d1")] if cls in SLA2 else [])

        def idx(i, j):
            if i < len(args) and j < len(d) and not self.const(args[i]):
                self.unify(ats[i], d[j], args[i])
        if oper == "()" or oper == "[]":
            for i in range(len(args)):
                idx(i, i)
            return None
        if oper == "=":
            if args and is_sla(args[0].ct):
                self.unify(o, ats[0], n)
            return o
        if nm == "size":
            return d[0]
        if nm == "size1":
            return d[0]
        if nm == "size2":
            return d[1] if len(d) > 1 else None
        if nm == "resize":
            idx(0, 0)
            if cls in SLA2:
                idx(1, 1)
            return None
        if nm == "push_back":
            idx(0, 0)
            if cls in SLA2:
                idx(1, 1)
            return None
        if nm == "filled_in_column":
            if args and not self.const(args[0]) and len(d) > 1:
                self.unify(ats[0], d[1], args[0])
            return None
        if oper in ("+=", "-=") and args and is_sla(args[0].ct):
            self.unify(d[0], K(ats[0], "d0") if ats[0] is not None else None, n)
            return None
        return None

    def stdcall(self, n, nm, oper, o, ot, args, ats):
        K = self.kid
        t = bare(o.ct)
        ismap = bool(re.match(r"(std::|__gnu_cxx::)?(unordered_map|map|hash_map|multimap)\b", t)) or "map<" in t[:30]
        isset = "set<" in t[:22]
        if oper == "->" or oper == "*" and not args:
            return K(ot, "el")
        if oper in ("++", "--"):
            return ot
        if oper == "[]" or nm == "at":
            if ismap:
                if args and not self.const(args[0]):
                    self.unify(ats[0], K(K(ot, "el"), "first"), n)
                return K(K(ot, "el"), "second")
            if args and not self.const(args[0]) and isint(args[0].ct):
                self.unify(ats[0], K(ot, "d0"), n)
                return K(ot, "el")
            return K(ot, "el%s" % self.cval(args[0])) if args else K(ot, "el")
        if oper == "=":
            if args and (isbox(args[0].ct)):
                self.unify(ot, ats[0], n)
            return ot
        if oper in ("+", "-") and not isint(n.ct):
            return ot
        if nm in ("begin", "end", "rbegin", "rend", "cbegin", "cend", "data", "get"):
            return ot
        if nm in ("find", "lower_bound", "upper_bound"):
            if (ismap or isset) and args and not self.const(args[0]):
                self.unify(ats[0], K(K(ot, "el"), "first") if ismap else K(ot, "el"), n)
            return ot
        if nm in ("front", "back", "top"):
            return K(ot, "el")
        if nm in ("size", "max_size", "capacity"):
            return K(ot, "d0") if nm == "size" and not ismap and not isset else None
        if nm in ("resize", "reserve", "assign"):
            if args and nm != "reserve" and not self.const(args[0]):
                self.unify(ats[0], K(ot, "d0"), n)
            if len(args) > 1 and not self.const(args[1]) and (isint(args[1].ct) or isbox(args[1].ct)):
                self.unify(ats[1], K(ot, "el"), n)
            return None
        if nm in ("push_back", "push", "push_front", "insert") and len(args) == 1:
            if not self.const(args[0]) and not ismap:
                self.unify(ats[0], K(ot, "el"), n)
            return None
        return None

    def libcall(self, n, nm, args, ats):
        K = self.kid
        pts = [is_sla(x.ct) for x in args]

        def u(a, b):
            self.unify(a, b, n)

        def d(i, j):
            return K(ats[i], "d%d" % j) if ats[i] is not None else None

        def ii(i, t):
            if not self.const(args[i]) and t is not None:
                u(ats[i], t)
        if nm in ("min", "max") and len(args) == 2 and isint(n.ct):
            if not self.const(args[0]) and not self.const(args[1]):
                u(ats[0], ats[1])
            return ats[0] or ats[1]
        if not any(pts):
            if nm in ("malloc", "calloc") and args:
                return self.alloc(n, nm, args)
            if nm in ("irand",) and args:
                return ats[0]
            return None
        m = [i for i, x in enumerate(pts) if x in SLA2]
        if nm == "mult" and len(pts) == 3 and pts[0] in SLA1 and len(m) == 1:
            if m[0] == 1:
                u(d(0, 0), d(1, 0))
                u(d(2, 0), d(1, 1))
            else:
                u(d(0, 0), d(2, 1))
                u(d(1, 0), d(2, 0))
        elif nm == "mult" and len(m) == 3:
            u(d(0, 0), d(1, 0)); u(d(0, 1), d(2, 1)); u(d(1, 1), d(2, 0))
        elif nm in ("copy", "mask_copy", "emult", "emax", "max_assign", "add", "subtract", "inner_prod", "dominates", "mask_subset", "mask_set_to_one", "mask_dominates"):
            v = [i for i, x in enumerate(pts) if x in SLA1]
            for i in v[1:]:
                u(d(v[0], 0), d(i, 0))
            for i in m[1:]:
                u(d(m[0], 0), d(i, 0))
                u(d(m[0], 1), d(i, 1))
            if nm == "copy" and m == [0] and len(args) == 3 and ats[1] is not None:
                # a sparse matrix of the parser: rows are the first dimension
                src = ats[1]
                u(d(0, 0), K(K(src, "row_start"), "d0"))
                u(d(0, 1), K(K(src, "col"), "el"))
                ii(2, d(0, 1))
            elif nm == "copy" and m == [0] and len(args) == 2 and pts[1] is None and ats[1] is not None:
                src = ats[1]
                u(d(0, 0), K(K(src, "row_start"), "d0"))
                u(d(0, 1), K(K(src, "col"), "el"))
        elif nm in ("copy_from_column",) and len(args) == 3:
            u(d(0, 0), d(1, 0))
            ii(2, d(1, 1))
        elif nm == "emult_column" and len(args) == 4:
            u(d(0, 0), d(1, 0)); u(d(3, 0), d(1, 0))
            ii(2, d(1, 1))
        elif nm == "inner_prod_column" and len(args) == 3:
            ii(1, d(0, 1))
            u(d(2, 0), d(0, 0))
        elif nm in ("set_to_one", "mask_set_all") and len(args) == 2:
            ii(1, d(0, 0))
        elif nm == "kmatrix_set_entry" and len(args) == 4:
            ii(1, d(0, 0)); ii(2, d(0, 1))
        elif nm == "kmatrix_transpose_in_place" and len(args) == 1 and strip(args[0]).k == "Var":
            # from here on the other way round
            y = strip(args[0])
            return None
        elif nm in ("argmax_elt", "argmin_elt", "chooseFromDistribution") and isint(n.ct):
            return d(0, 0)
        return None

    def alloc(self, n, nm, args):
        t = Term("block")
        x = None
        if nm == "calloc" and len(args) == 2:
            x = args[0]
        else:
            for y in [strip(args[0])]:
                if y.k == "Bin" and y.d["op"] == "*":
                    s = [z for z in y.c if any(w.k == "SizeOf" for w in z.walk())]
                    o = [z for z in y.c if z not in s]
                    if len(s) == 1 and len(o) == 1:
                        x = o[0]
        if x is not None and not self.const(x):
            self.unify(self.kid(t, "d0"), self.ev(x), n)
        return t

    def ctor(self, n):
        cls = is_sla(n.ct)
        args = list(n.c)
        ats = [self.ev(x) for x in args]
        gs = [g for g in self.P.resolve(n) if self.body(g)]
        if gs:
            self.user(n, gs, args, ats)
            return Term("object")
        if len(args) == 1 and (isbox(args[0].ct) and base_name(args[0].ct) == base_name(n.ct) or is_sla(args[0].ct)):
            return ats[0]
        t = Term("object")
        b = bare(n.ct)
        if cls:
            for i, j in ((0, "d0"), (1, "d1")):
                if i < len(args) and isint(args[i].ct) and not self.const(args[i]) and (i == 0 or cls in SLA2):
                    self.unify(ats[i], self.kid(t, j), n)
            return t
        if "vector<" in b and args and isint(args[0].ct) and not self.const(args[0]):
            self.unify(ats[0], self.kid(t, "d0"), n)
            return t
        if base_name(n.ct) == "pair" and len(args) == 2:
            for i, j in ((0, "first"), (1, "second")):
                if (isint(args[i].ct) or isbox(args[i].ct)) and not self.const(args[i]):
                    self.unify(ats[i], self.kid(t, j), n)
            return t
        if base_name(n.ct) in GENERIC:
            for i, j in enumerate({"cvector_entry": ("index",), "kmatrix_entry": ("r", "c")}.get(base_name(n.ct), ())):
                if i < len(args) and not self.const(args[i]):
                    self.unify(ats[i], self.kid(t, j), n)
        return t

    def new(self, n):
        t = Term("object")
        s = n.slot("size")
        if s is not None and not self.const(s):
            self.unify(self.kid(t, "d0"), self.ev(s), n)
        for x in n.kids:
            if x is not s:
                u = self.ev(x)
                if x.k == "Ctor" and s is None and u is not None and (is_sla(x.ct)):
                    self.unify(t, u, n)
        return t
