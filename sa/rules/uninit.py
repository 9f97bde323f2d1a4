"""G02: locals, parameters filled by a callee, and the scalar fields of objects have a value before they are read"""
from rules.common import *
from core import is_ref_type
from rules.own import assigned_place

RULES = {}
TEXT = {}

OWN = re.compile(r"^src/(bounds|common|exec|main|mdps|pomdpBounds|pomdpCore|pomdpModels|search|parsers/(Poly|SparsePoly|Cassandra|Fast|pomdp\w*\.cc))")


def unwrap(n):
    n = strip(n)
    while n is not None and n.k == "Ctor" and len(n.c) == 1 and n.d.get("copy"):
        n = strip(n.c[0])
    return n


def stores_arg(n):
    """a library call that stores into an argument handed over as it is"""
    return n.d.get("oper") == ">>" or re.search(r"(^|::)(getline|swap|va_start|operator>>)$", n.d.get("q") or "") is not None


class Init:
    def __init__(self, a):
        self.a, self.P = a, a.P
        self.memo = {}
        self.rec = {}
        for r in self.P.records.values():
            self.rec.setdefault(r["q"], r)
        self.makers = {}
        for f in self.P.funcs.values():
            for n in self.P.all_nodes(f):
                if n.k == "New" and n.c and strip(n.c[0]).k == "Ctor":
                    self.makers.setdefault((strip(n.c[0]).d.get("q") or "").rsplit("::", 1)[0], []).append(f)
        self.ctors = {}
        for f in self.P.funcs.values():
            if f.ctor:
                self.ctors.setdefault(f.cls, []).append(f)
        # fields that are read somewhere: q -> [node]
        self.reads = {}
        for f in self.P.funcs.values():
            if f.ctor in ("copy", "move") or (f.impl and f.q.rsplit("::", 1)[-1] == "operator="):
                continue
            for n in self.P.all_nodes(f):
                if n.k == "Mem" and not self.written_only(n):
                    self.reads.setdefault(n.d.get("q"), []).append(n)

    def written_only(self, n):
        p = n.p
        while p is not None and p.k in ("Paren",):
            p = p.p
        return p is not None and p.k == "Assign" and p.d.get("op") == "=" and p.c and strip(p.c[0]) is n

    # ---- what an element gives a value to
    def root(self, n):
        """(root, field chain) of a place expression: root = ('v', var) or 'this'"""
        n = unwrap(n)
        fields = ()
        while n is not None:
            if n.k == "Mem":
                fields = (n.d.get("q"),) + fields
                if not n.c:
                    return ("this", fields)
                n = unwrap(n.c[0])
            elif n.k == "Un" and n.d.get("op") in ("*", "&"):
                n = unwrap(n.c[0])
            elif n.k == "Var":
                return (("v", self.alias(n.fn, n.d["v"])), fields)
            elif n.k == "This":
                return ("this", fields)
            else:
                return None
        return None

    def alias(self, fn, v):
        """the variable another one stands for: a reference, or a pointer given a value once, to the same object"""
        if fn is None:
            return v
        m = self.memo.get(("alias", fn.usr))
        if m is None:
            m = self.memo[("alias", fn.usr)] = {}
            again = set()
            for n in self.P.all_nodes(fn):
                for pl, x in assigned_place(n):
                    if pl.k == "Var":
                        again.add(pl.d["v"])
            for n in self.P.all_nodes(fn):
                if n.k != "Decl":
                    continue
                for w, nm, t, init in n.vars:
                    ty = fn.vars[w]["t"]
                    if init is None or not (is_ref_type(ty) or ty.endswith("*")) or (ty.endswith("*") and w in again):
                        continue
                    x = unwrap(init)
                    while x is not None and x.k in ("Un", "Cast") and (x.k == "Cast" or x.d.get("op") in ("*", "&")):
                        x = unwrap(x.c[0])
                    if x is not None and x.k == "Var" and x.d["v"] != w and (is_ref_type(fn.vars[x.d["v"]]["t"]) or fn.vars[x.d["v"]]["t"].endswith("*")) and x.d["v"] not in again:
                        m[w] = x.d["v"]
        for i in range(8):
            if v not in m:
                break
            v = m[v]
        return v

    def defines(self, n, root, field):
        """the element gives root (field None) or root.field a value"""
        P = self.P
        for pl, v in assigned_place(n):
            r = self.root(pl)
            if r is not None and r[0] == root and (r[1] == () and (field is None or pl.k in ("Var", "Un")) or r[1] == (field,)):
                if r[1] == () and field is not None and pl.k == "Var":
                    # a pointer given a new value is another object
                    return True
                return True
        if n.k in ("Call", "Ctor") and (n.c or n.slot("obj") is not None):
            o = n.slot("obj")
            res = P.resolve(n)
            args = [c for c in n.c if c is not o] if n.k == "Call" else list(n.c)
            if n.k == "Call" and o is not None:
                r = self.root(o)
                if r is not None and r[0] == root and not n.d.get("cst"):
                    if r[1] == ():
                        if field is None:
                            return True
                        if res and all(self.must(g, "this", field) for g in res):
                            return True
                    elif r[1] == (field,):
                        return True
            elif n.k == "Call" and o is None and res and root == "this" and res[0].cls and not n.d.get("stat"):
                if field is not None and all(self.must(g, "this", field) for g in res):
                    return True
            for k, c in enumerate(args):
                x = unwrap(c)
                r = self.root(x)
                if r is None or r[0] != root:
                    continue
                addr = x.k == "Un" and x.d.get("op") == "&"
                if not res:
                    if (r[1] == () and (field is None or addr) or r[1] == (field,)) and (addr and n.slot("obj") is None or stores_arg(n)):
                        return True
                    continue
                for_all = True
                for g in res:
                    if k >= len(g.params):
                        for_all = False
                        break
                    v = g.params[k]
                    t = g.vars[v]["t"]
                    if not (is_ref_type(t) or t.endswith("*")) or t.startswith("const "):
                        for_all = False
                        break
                    if r[1] == () and field is None:
                        ok = self.must(g, ("v", v), None)
                    elif r[1] == ():
                        ok = self.must(g, ("v", v), field)
                    elif r[1] == (field,):
                        ok = self.must(g, ("v", v), None)
                    else:
                        ok = False
                    if not ok:
                        for_all = False
                        break
                if for_all:
                    return True
        return False

    def must(self, g, root, field):
        """every normal return of g has given the place a value"""
        key = (g.usr, root, field)
        if key in self.memo:
            return self.memo[key]
        self.memo[key] = False
        if field is not None and root == "this" and g.ctor:
            if any(i.get("m") == field and (i.get("w") or not self.default_init(i)) for i in g.inits):
                self.memo[key] = True
                return True
            if any(i.get("dlg") for i in g.inits):
                return False
            for i in g.inits:
                if i.get("b") and i["e"] is not None and i["e"].k == "Ctor":
                    for h in self.P.resolve(i["e"]):
                        if self.must(h, "this", field):
                            self.memo[key] = True
                            return True
        if not g.blocks:
            return False
        el = lambda e: self.defines(e, root, field)
        r = uncut(self.a, g, (g.entry, -1), "exit", self.assumed(g, root, field is None), el)
        if r is not None:
            ed = self.flagged(g, el)
            if ed:
                r = uncut(self.a, g, (g.entry, -1), "exit", joined(ed, self.assumed(g, root, field is None)), el)
        self.memo[key] = r is None
        return r is None

    def flagged(self, g, el):
        """branches on which a flag is set that is set only where the place has a value already"""
        P = self.P
        sets = {}
        for n in P.all_nodes(g):
            for pl, v in assigned_place(n):
                if pl.k == "Var" and pl.d["v"] not in g.params and g.vars[pl.d["v"]]["t"] == "bool":
                    sets.setdefault(pl.d["v"], []).append((n, v))
            if n.k == "Decl":
                for v, nm, t, init in n.vars:
                    if t == "bool":
                        sets.setdefault(v, []).append((n, init))
        out = Edges()
        for rnd in range(3):
            good = set()
            for v, l in sets.items():
                for want in (True, False):
                    if any(x is None for n, x in l):
                        continue
                    ok = True
                    for n, x in l:
                        y = unwrap(x)
                        c = y.cv if y.cv is not None else y.d.get("v")
                        if c in (0, "0", False, 1, "1", True) and (c in (1, "1", True)) != want:
                            continue
                        pos = P.position(n)
                        if pos is None or uncut(self.a, g, (g.entry, -1), pos, out, el) is not None:
                            ok = False
                            break
                    if ok:
                        good.add((v, want))
            more = set()
            for b, i, ats in branches(self.a, g) if good else ():
                for n, t in ats:
                    x = unwrap(n)
                    neg = False
                    while x is not None and x.k == "Un" and x.d.get("op") == "!":
                        x, neg = unwrap(x.c[0]), not neg
                    if x is not None and x.k == "Var" and isinstance(t, bool) and (x.d["v"], t != neg) in good:
                        more.add((b, i))
            if more <= out:
                break
            out |= more
        return out

    def assumed(self, g, root, scalar=False):
        """branches not taken: the place handed in is null; the upper bound is not kept (a search that asks for the
        best action requires it: rules of the solver configuration)"""
        key = ("edges", g.usr, root, scalar)
        if key in self.memo:
            return self.memo[key]
        out = Edges()
        for b, i, ats in branches(self.a, g):
            for n, t in ats:
                x, neg = unwrap(n), False
                while x is not None and x.k == "Un" and x.d.get("op") == "!":
                    x, neg = unwrap(x.c[0]), not neg
                if x is None:
                    continue
                truth = t is True if not neg else t is False
                if x.k == "Bin" and x.d.get("op") in ("==", "!="):
                    l, r = unwrap(x.c[0]), unwrap(x.c[1])
                    if l.k in ("Null", "Lit"):
                        l, r = r, l
                    if r.k == "Null" or r.cv == 0 or (r.k == "Lit" and r.d.get("v") in (0, "0")):
                        isnull = (x.d["op"] == "==") == truth
                        x = l
                    else:
                        continue
                else:
                    isnull = not truth
                if not isinstance(t, bool):
                    continue
                if x.k == "Var" and root == ("v", x.d["v"]) and isnull:
                    out.add((b, i))
                if scalar and x.k == "Mem" and x.d.get("q", "").endswith("BoundPair::maintainUpperBound") and isnull:
                    out.add((b, i))
        self.memo[key] = out
        return out

    def default_init(self, i):
        return i["e"] is not None and i["e"].k == "Ctor" and i["e"].d.get("deflt") and not i["e"].d.get("zero")

    # ---- fields
    def scalars(self, q):
        """scalar and pointer fields of the record, bases included"""
        r = self.rec.get(q)
        if r is None:
            return []
        out = [f for f in r["fields"] if f["cls"] in ("scalar", "ptr")]
        for b in r.get("bases") or ():
            out += self.scalars(b if isinstance(b, str) else b[0])
        return out

    def left_open(self, ctor_node):
        """scalar fields of the new object that the constructor call leaves without a value"""
        q = (ctor_node.d.get("q") or "").rsplit("::", 1)[0]
        if ctor_node.d.get("zero") or ctor_node.d.get("copy"):
            return q, []
        gs = self.P.resolve(ctor_node)
        out = []
        for f in self.scalars(q):
            if not gs or not all(self.must(g, "this", f["q"]) for g in gs):
                out.append(f)
        return q, out


def joined(x, y):
    out = Edges()
    out |= x
    out |= y
    return out


def is_read(I, n):
    """the variable's value (not its address or place) is used"""
    p = n.p
    x = n
    while p is not None and p.k in ("Paren",):
        x, p = p, p.p
    if p is None:
        return True
    if p.k == "Assign" and p.d.get("op") == "=" and strip(p.c[0]) is n:
        return False
    if p.k == "Un" and p.d.get("op") == "&":
        return False
    return True


def by_reference(I, n):
    """the variable is an argument of a call that may store into it"""
    P = I.P
    p = n.p
    while p is not None and p.k == "Paren":
        p = p.p
    if p is None or p.k not in ("Call", "Ctor"):
        return False
    if n is p.slot("obj"):
        return True
    args = [c for c in p.c if c is not p.slot("obj")]
    for k, c in enumerate(args):
        if strip(c) is n:
            res = P.resolve(p)
            if not res:
                return stores_arg(p)
            return any(k < len(g.params) and is_ref_type(g.vars[g.params[k]]["t"]) and not g.vars[g.params[k]]["t"].startswith("const ") for g in res)
    return False


SCALAR = re.compile(r"^(const )?((unsigned|signed|long|short) ?)*(int|double|float|bool|char|long|unsigned|short|size_t|time_t)?$")


def scalar_type(t):
    return t.endswith("*") or (t and SCALAR.match(t) is not None)


def g02_local(a):
    """a scalar local has a value on every path to each of its uses"""
    P = a.P
    I = a._init = Init(a)
    k = 0
    for fn in P.funcs.values():
        if fn.impl or not OWN.match(fn.file or "") or not fn.blocks:
            continue
        byvar = {}
        for n in P.all_nodes(fn):
            if n.k == "Var":
                byvar.setdefault(n.d["v"], []).append(n)
        for d in P.all_nodes(fn):
            if d.k != "Decl":
                continue
            for v, nm, t, init in d.vars:
                if init is not None or not scalar_type(t) or v in fn.params or fn.vars[v].get("st"):
                    continue
                if any(x.k == "ForRange" and x.slot("lvar") is d for x in d.ancestors()):
                    continue
                pos = P.dvpos(fn, v) or P.position(d)
                if pos is None:
                    continue
                k += 1
                root = ("v", v)
                bad = None
                for n in byvar.get(v, ()):
                    if not is_read(I, n) or by_reference(I, n) or not P.reachable(n):
                        continue
                    tp = P.position(n)
                    if tp is None:
                        continue
                    if re.search(NONEMPTY, fn.q) and in_loop(fn, v):
                        continue
                    if not flows(a, I, fn, pos, tp, root, n):
                        continue
                    bad = n
                    break
                a.check(bad is None, "G02.local", fn.where(d), "%s in %s has a value before each use" % (nm, short(fn.q)),
                        "%s in %s can be used (line %s) before it has a value" % (nm, short(fn.q), bad.l if bad is not None else ""))
    a.need("G02.local", k, 10, "locals declared without a value")


# the loop that stores the variable runs at least once: an empty vector was answered before
NONEMPTY = r"MatrixUtils::argmax_elt$"


def in_loop(fn, v):
    for n in fn.pos and fn.body.walk():
        for pl, x in assigned_place(n):
            if pl.k == "Var" and pl.d["v"] == v and any(y.k in ("For", "ForRange", "While") for y in n.ancestors()):
                return True
    return False


def lit(n):
    n = unwrap(n)
    if n is None:
        return None
    c = n.cv if n.cv is not None else (n.d.get("v") if n.k == "Lit" else None)
    try:
        return int(c)
    except (TypeError, ValueError):
        return None


def first_turns(a, fn, elem):
    """the way past a loop with constant limits, at least one turn, whose body always passes elem"""
    P = a.P
    out = set()
    for L in P.all_nodes(fn):
        if L.k != "For" or L.slot("cond") is None or L.slot("init") is None:
            continue
        c = unwrap(L.slot("cond"))
        if c.k != "Bin" or c.d.get("op") not in ("<", "<=", "!="):
            continue
        at = {}
        for d in L.slot("init").walk():
            if d.k == "Decl":
                at.update((v, i) for v, nm, t, i in d.vars if i is not None)
            elif d.k == "Assign" and strip(d.c[0]).k == "Var":
                at[strip(d.c[0]).d["v"]] = d.c[1]
        x, y = [lit(at[z.d["v"]]) if z.k == "Var" and z.d["v"] in at else lit(z) for z in (unwrap(c.c[0]), unwrap(c.c[1]))]
        if x is None or y is None or not (x < y):
            continue
        pos = P.position(c)
        if pos is None:
            continue
        b = pos[0]
        s = fn.blocks[b].succ
        if len(s) == 2 and s[0] is not None and uncut(a, fn, (s[0], -1), pos, set(), elem) is None:
            out.add((b, 1))
    return out


def flows(a, I, fn, pos, tp, root, n, field=None):
    mine = set(x.id for x in n.ancestors())

    def elem(e):
        return e.id not in mine and I.defines(e, root, field)
    return uncut(a, fn, pos, tp, joined(I.assumed(fn, root, field is None), first_turns(a, fn, elem)), elem) is not None


RULES.setdefault("G02", []).append(g02_local)
TEXT["G02.local"] = "a scalar local has a value on every path to each of its uses"


def creations(a, I):
    """(function, creating node, root or None, class, fields the constructor leaves open)"""
    P = a.P
    for fn in P.funcs.values():
        if fn.impl or not OWN.match(fn.file or "") or not fn.blocks:
            continue
        for n in P.all_nodes(fn):
            if n.k == "New" and n.c and strip(n.c[0]).k == "Ctor":
                q, op = I.left_open(strip(n.c[0]))
                if not op:
                    continue
                root = None
                p, x = n.p, n
                while p is not None and p.k in ("Paren", "Cast", "Un"):
                    x, p = p, p.p
                if p is not None and p.k == "Decl":
                    for v, nm, t, init in p.vars:
                        if init is not None and any(y is n for y in init.walk()):
                            root = ("v", v)
                elif p is not None and p.k == "Assign" and p.d.get("op") == "=":
                    r = I.root(p.c[0])
                    if r is not None and r[1] == ():
                        root = r[0]
                yield fn, n, root, q, op
            elif n.k == "Decl":
                for v, nm, t, init in n.vars:
                    x = strip(init) if init is not None else None
                    if x is not None and x.k == "Ctor" and not fn.vars[v].get("st"):
                        q, op = I.left_open(x)
                        if op:
                            yield fn, n, ("v", v), q, op


def whole_use(I, n):
    """the object as a whole is read: copied, returned, handed over by value or as something the callee cannot change"""
    P = I.P
    p, x = n.p, n
    while p is not None and p.k in ("Paren", "Cast"):
        x, p = p, p.p
    if p is None:
        return False
    if p.k == "Return":
        return True
    if p.k == "Ctor" and p.d.get("copy"):
        return True
    if p.k == "Assign" and p.d.get("op") == "=":
        return strip(p.c[0]) is not n
    if p.k == "Call":
        if n is p.slot("obj") or x is p.slot("obj"):
            return False
        args = [c for c in p.c if c is not p.slot("obj")]
        for k, c in enumerate(args):
            if strip(c) is n:
                res = P.resolve(p)
                if not res:
                    return True
                return any(k < len(g.params) and (not is_ref_type(g.vars[g.params[k]]["t"]) or g.vars[g.params[k]]["t"].startswith("const ")) for g in res)
    return False


def outside(I, fn, q):
    """objects of class q made by fn can be seen by code that is not of fn's class"""
    P = I.P
    C = fn.cls
    if not C or any(g.cls != C for g in I.makers.get(q, ())):
        pass
    else:
        return True
    if not C:
        return True
    mine = [g for g in P.funcs.values() if g.cls == C]
    short_q = q.rsplit("::", 1)[-1]
    for g in mine:
        if short_q in (g.rt or ""):
            for f2, c in P.callers.get(g.usr, ()):
                if f2.cls != C:
                    return True
    for r in P.records.values():
        if r["q"] != C:
            continue
        for f in r["fields"]:
            if f["cls"] in ("class", "ptr", "ref") and any(n.fn.cls != C for n in I.reads.get(f["q"], ())) and ("Hash" in f["s"] or short_q in f["t"]):
                return True
    return False


def setups(I, q, field):
    """methods of the class (own, inherited or overriding) that always give the field a value"""
    P = I.P
    fam = set()
    todo = [q]
    while todo:
        x = todo.pop()
        if x in fam:
            continue
        fam.add(x)
        r = I.rec.get(x)
        if r:
            todo += [b if isinstance(b, str) else b[0] for b in r.get("bases") or ()]
    out = []
    for g in P.funcs.values():
        if g.cls in fam and not g.ctor and "operator" not in g.q and g.blocks and (P.callers.get(g.usr) or g.virt) and I.must(g, "this", field):
            out.append(g)
    return out


def covered(a, I, q, field):
    """every read of the field of the same object comes after a store, in the method or in all its callers"""
    P = a.P
    seen = {}

    def fine(g, pos):
        el = lambda e: I.defines(e, "this", field)
        if uncut(a, g, (g.entry, -1), pos, Edges(), el) is None:
            return True
        if g.usr in seen:
            return seen[g.usr]
        seen[g.usr] = True
        cs = list(P.callers.get(g.usr, ()))
        r = bool(cs)
        for f2, c in cs:
            o = c.slot("obj")
            if f2.cls != g.cls or (o is not None and I.root(o) != ("this", ())) or not fine(f2, P.position(c)):
                r = False
                break
        seen[g.usr] = r
        return r
    return all(I.root(m) == ("this", (field,)) and fine(m.fn, P.position(m)) for m in I.reads.get(field, ()) if P.reachable(m))


def reads_first(a, I, g, v, field, depth=3):
    """a node of g (or of what it calls) that reads the field of the record handed in before it has a value"""
    key = ("first", g.usr, v, field)
    if key in I.memo:
        return I.memo[key]
    I.memo[key] = None
    P = a.P
    root = v if v == "this" else ("v", v)
    for m in P.all_nodes(g):
        if v == "this" and m.k == "Call" and (m.slot("obj") is None and P.resolve(m) and P.resolve(m)[0].cls and not m.d.get("stat") or m.slot("obj") is not None and I.root(m.slot("obj")) == ("this", ())):
            if depth == 0 or not any(reads_first(a, I, g2, "this", field, depth - 1) for g2 in P.resolve(m) if g2.blocks):
                continue
        elif m.k == "Mem" and m.d.get("q") == field and I.root(m) == (root, (field,)):
            if not is_read(I, m) or by_reference(I, m):
                continue
        elif m.k == "Var" and m.d["v"] == v:
            if not whole_use(I, m):
                h = handed(I, m)
                if h is None or depth == 0 or not any(reads_first(a, I, g2, v2, field, depth - 1) for g2, v2 in h):
                    continue
        else:
            continue
        tp = P.position(m)
        if tp is None or not P.reachable(m) or tagged(I, m, root, field):
            continue
        if flows(a, I, g, (g.entry, -1), tp, root, m, field):
            I.memo[key] = m
            return m
    return None


def tagged(I, m, root, field):
    """the read is made only for some values of another field of the same object, which says what the object holds"""
    for x in m.ancestors():
        c = x.slot("cond") if x.k in ("If", "Switch") else x.c[0] if x.k == "Cond" and x.c else None
        if c is None or any(y is m for y in c.walk()):
            continue
        for y in c.walk():
            if y.k == "Mem" and y.d.get("q") != field:
                r = I.root(y)
                if r is not None and r[0] == root and len(r[1]) == 1:
                    return True
    return False


def handed(I, n):
    """[(callee, parameter)] that receive the variable by a reference they may change"""
    p = n.p
    x = n
    while p is not None and (p.k in ("Paren", "Cast") or p.k == "Un" and p.d.get("op") == "&"):
        x, p = p, p.p
    if p is not None and p.k == "Call" and x is p.slot("obj"):
        return [(g, "this") for g in I.P.resolve(p) if g.blocks]
    if p is None or p.k != "Call":
        return None
    args = [c for c in p.c if c is not p.slot("obj")]
    for k, c in enumerate(args):
        if c is x or strip(c) is n:
            return [(g, g.params[k]) for g in I.P.resolve(p) if k < len(g.params) and g.blocks]
    return None


def g02_object(a):
    """a new object has a value in every scalar field that is read, before anything can read it"""
    P = a.P
    I = a._init = getattr(a, "_init", None) or Init(a)
    k = 0
    for fn, n, root, q, op in creations(a, I):
        pos = P.position(n)
        if pos is None or not P.reachable(n):
            continue
        near = None
        for f in op:
            if f["q"] not in I.reads:
                continue
            k += 1
            what = "%s of the new %s in %s" % (f["n"], short(q), short(fn.q))
            if n.k == "Decl":
                bad = None
                for m in P.all_nodes(fn):
                    if m.k == "Mem" and m.d.get("q") == f["q"] and I.root(m) == (root, (f["q"],)):
                        if not is_read(I, m) or by_reference(I, m):
                            continue
                    elif m.k == "Var" and ("v", m.d["v"]) == root:
                        if not whole_use(I, m):
                            h = handed(I, m)
                            if h is None or not any(reads_first(a, I, g2, v2, f["q"]) for g2, v2 in h):
                                continue
                    else:
                        continue
                    tp = P.position(m)
                    if tp is None or not P.reachable(m):
                        continue
                    if flows(a, I, fn, pos, tp, root, m, f["q"]):
                        bad = m
                        break
                a.check(bad is None, "G02.object", fn.where(n), what + " has a value before it is used",
                        what + " can be used (line %s) before it has a value" % (bad.l if bad is not None else ""))
                continue
            if root is not None and uncut(a, fn, pos, "exit", I.assumed(fn, root), lambda e: I.defines(e, root, f["q"])) is None:
                a.ok("G02.object", fn.where(n), what + " has a value when the function ends")
                continue
            s = setups(I, q, f["q"])
            if s:
                a.ok("G02.object", fn.where(n), what + " gets its value in " + ", ".join(sorted(set(short(g.q) for g in s)))[:80])
                continue
            if covered(a, I, q, f["q"]):
                a.ok("G02.object", fn.where(n), what + " is stored before each read, in the method or by all its callers")
                continue
            if near is None:
                near = not outside(I, fn, q)
            if near:
                reach = P.closure([g for g in P.funcs.values() if g.cls == fn.cls])
                hit = [m for m in I.reads[f["q"]] if m.fn.usr in reach]
                a.check(not hit, "G02.object", fn.where(n), what + " is never read: only %s sees the object" % short(fn.cls),
                        what + " is read in %s but has no value" % (short(hit[0].fn.q) if hit else ""))
                continue
            a.fail("G02.object", fn.where(n), what + " has no value when the object can be used")
    a.need("G02.object", k, 20, "scalar fields of new objects")


RULES["G02"].append(g02_object)
TEXT["G02.object"] = "a new object has a value in every scalar field that is read, before anything can read it: by its constructor, by the function that made it, or by a setup method of its class"
