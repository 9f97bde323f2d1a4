"""rule families used by several properties"""
import re
from base import *

_par = re.compile(r"\([^()]*\)")


def noargs(s):
    """strip call arguments and subscripts of an access path"""
    while True:
        t = _par.sub("", s)
        if t == s:
            break
        s = t
    return noidx(s)


def call_args(s):
    i = s.find("(")
    return s[i + 1:s.rfind(")")] if i >= 0 else ""


class Ext(object):
    """one running extremum: var is replaced by cand when cand compares beyond it"""
    __slots__ = ("fn", "var", "dir", "cand", "upd", "loop", "strict", "how", "place", "cond", "first")


def place_key(E, n):
    """identity of an lvalue expression (syntactic, resolved variables)"""
    k = n.k
    if k == "Cast":
        return place_key(E, n.c[0])
    if k == "Var":
        return ("v", n.d["v"])
    if k == "Mem":
        return ("m", n.d["n"], place_key(E, n.c[0]))
    if k == "This":
        return ("this",)
    if k == "Un" and n.d["op"] in ("*", "&"):
        return (n.d["op"], place_key(E, n.c[0]))
    if k == "Idx":
        return ("[]", place_key(E, n.c[0]), place_key(E, n.c[1]))
    if k == "Call":
        o = n.slot("obj")
        return ("c", n.d.get("q"), n.d.get("oper"), place_key(E, o) if o is not None else None,
                tuple(place_key(E, x) for x in n.c))
    if k in ("Lit", "Flt", "Bool", "Chr", "Str"):
        return ("k", str(n.d.get("v")))
    if k == "Bin":
        return ("b", n.d["op"], place_key(E, n.c[0]), place_key(E, n.c[1]))
    if k == "Global":
        return ("g", n.d["q"])
    return ("?", n.fn.usr if n.fn else None, n.id)


def strip(n):
    while n.k == "Cast":
        n = n.c[0]
    return n


def disjuncts(n):
    n = strip(n)
    if n.k == "Bin" and n.d["op"] == "||":
        return disjuncts(n.c[0]) + disjuncts(n.c[1])
    return [n]


def ifor(n):
    """disjunctive condition of the nearest enclosing if, when n is in its then branch"""
    prev = n
    for x in n.ancestors():
        if x.k == "If":
            th, c = x.slot("then"), x.slot("cond")
            if c is not None and th is not None and any(y is prev for y in [th]) and len(disjuncts(c)) > 1:
                return [(strip(c), True)]
            return []
        if x.k in ("For", "While", "Do", "ForRange"):
            return []
        prev = x
    return []


def firsttest(n):
    """a test for 'first iteration' or 'nothing chosen yet'"""
    n = strip(n)
    if n.k == "Un" and n.d["op"] == "!":
        return strip(n.c[0]).k == "Var"
    if n.k == "Bin" and n.d["op"] in ("==", "<"):
        return any(strip(y).k in ("Null", "Lit", "Zero", "Un") for y in n.c) and any(strip(y).k == "Var" for y in n.c)
    return n.k == "Var" and n.t == "bool"


def split(a, n, facts=(), depth=0):
    """the alternatives a value is chosen from: [((condition, truth)..., node)]"""
    P, E = a.P, a.E
    n = strip(n)
    if depth > 6:
        return [(facts, n)]
    if n.k == "Cond" and len(n.kids) == 3:
        return split(a, n.kids[1], facts + ((n.kids[0], True),), depth + 1) + split(a, n.kids[2], facts + ((n.kids[0], False),), depth + 1)
    if n.k == "Var" and n.fn is not None and not n.fn.vars[n.d["v"]]["p"]:
        pos = P.position(n)
        if pos is not None:
            defs, entry = E.reaching(n.fn, n.d["v"], pos)
            if len(defs) == 1 and not entry and defs[0].kind in ("init", "=") and defs[0].rhs is not None:
                return split(a, defs[0].rhs, facts, depth + 1)
    return [(facts, n)]


def find_ext(a):
    """all running extrema of the program"""
    if hasattr(a, "_ext"):
        return a._ext
    P, E = a.P, a.E
    out = []
    for fn in P.funcs.values():
        if fn.impl:
            continue
        if "/sla" in fn.file:
            continue
        for n, lhs, op, rhs in assigns(P, fn):
            if op != "=" or rhs is None:
                continue
            loop = loops_of(n)
            if not loop:
                continue
            if not P.reachable(n):
                continue
            lk = place_key(E, lhs)
            r = strip(rhs)
            # x = max(x, e)
            if r.k == "Call" and (r.d.get("q") or "").split("::")[-1] in ("max", "min", "fmax", "fmin") and len(r.c) == 2:
                ks = [place_key(E, strip(x)) for x in r.c]
                if lk in ks:
                    i = ks.index(lk)
                    x = Ext()
                    x.fn, x.place, x.dir, x.cand, x.upd, x.loop = fn, lhs, "max" if "max" in r.d["q"] else "min", r.c[1 - i], n, loop[0]
                    x.strict, x.how, x.var, x.cond = True, "call", lhs.d["v"] if lhs.k == "Var" else None, None
                    out.append(x)
                continue
            if r.k == "Cond":
                c, t, f = r.kids[0], r.kids[1], r.kids[2]
                neg = False
                while c.k == "Un" and c.d["op"] == "!":
                    c, neg = c.c[0], not neg
                if c.k == "Bin" and c.d["op"] in ("<", ">", "<=", ">="):
                    kt, kf = place_key(E, strip(t)), place_key(E, strip(f))
                    kx, ky = place_key(E, strip(c.c[0])), place_key(E, strip(c.c[1]))
                    if lk in (kt, kf) and {kt, kf} == {kx, ky}:
                        gt = (c.d["op"] in (">", ">=")) != neg
                        if kx == kt:
                            d = "max" if gt else "min"
                        else:
                            d = "min" if gt else "max"
                        x = Ext()
                        x.fn, x.place, x.dir, x.cand, x.upd, x.loop = fn, lhs, d, (f if kt == lk else t), n, loop[0]
                        x.strict, x.how, x.var, x.cond = c.d["op"] in ("<", ">"), "cond", lhs.d["v"] if lhs.k == "Var" else None, c
                        out.append(x)
                continue
            rk = place_key(E, r)
            for c, t in list(P.facts_at(n)) + ifor(n):
                first = False
                if c.k == "Bin" and c.d["op"] == "||" and t is True:
                    # "nothing chosen yet, or better"
                    ds = disjuncts(c)
                    cs = [y for y in ds if y.k == "Bin" and y.d["op"] in ("<", ">", "<=", ">=")]
                    if len(cs) == 1 and all(y is cs[0] or firsttest(y) for y in ds):
                        c, first = cs[0], True
                if c.k != "Bin" or c.d["op"] not in ("<", ">", "<=", ">="):
                    continue
                ka, kb = place_key(E, strip(c.c[0])), place_key(E, strip(c.c[1]))
                if lk == ka:
                    o, ok_, other = c.c[1], kb, c.c[1]
                    flip = True
                elif lk == kb:
                    o, ok_, other = c.c[0], ka, c.c[0]
                    flip = False
                else:
                    continue
                if ok_ != rk and E.ev(other) != E.ev(rhs):
                    continue
                if isinstance(t, tuple):
                    continue
                op_ = c.d["op"]
                if flip:  # lhs OP e  -> e OP' lhs
                    op_ = {"<": ">", ">": "<", "<=": ">=", ">=": "<="}[op_]
                if not t:
                    op_ = {"<": ">=", ">": "<=", "<=": ">", ">=": "<"}[op_]
                x = Ext()
                x.fn, x.place, x.cand, x.upd, x.loop = fn, lhs, rhs, n, loop[0]
                x.dir = "max" if op_ in (">", ">=") else "min"
                x.strict = op_ in (">", "<")
                x.how, x.var, x.cond = "guard", lhs.d["v"] if lhs.k == "Var" else None, c
                x.first = first
                out.append(x)
                break
    a._ext = out
    return out


# ---------------------------------------------------------------- conditions
def dnf(a, n, truth, ctx=None, depth=0, E=None):
    """alternatives (lists of relations) one of which holds whenever n evaluates to truth"""
    P, E = a.P, E or a.E
    if isinstance(truth, tuple):
        return [E.rels(n, truth, ctx)]
    while n.k == "Cast":
        n = n.c[0]
    if n.k == "Un" and n.d["op"] == "!":
        return dnf(a, n.c[0], not truth, ctx, depth, E)
    cv = n.d.get("cv", n.d.get("v") if n.k in ("Bool", "Lit") else None)
    if cv is not None and n.k in ("Bool", "Lit"):
        return [[]] if bool(cv) == truth else []
    if n.k == "Bin" and n.d["op"] in ("&&", "||"):
        x, y = n.c
        if (n.d["op"] == "&&") == truth:
            l, r = dnf(a, x, truth, ctx, depth, E), dnf(a, y, truth, ctx, depth, E)
            if len(l) * len(r) > 64:
                return [E.rels(n, truth, ctx)]
            return [p + q for p in l for q in r]
        l = dnf(a, x, truth, ctx, depth, E)
        r = dnf(a, y, truth, ctx, depth, E)
        nl = dnf(a, x, not truth, ctx, depth, E)
        return l + ([p + q for p in nl for q in r] if len(nl) == 1 else r)
    if n.k == "Cond" and len(n.kids) == 3:
        c, t, f = n.kids
        res = []
        for br, tr in ((t, True), (f, False)):
            for p in dnf(a, c, tr, ctx, depth, E):
                for q in dnf(a, br, truth, ctx, depth, E):
                    res.append(p + q)
        return res
    base = E.rels(n, truth, ctx)
    if depth >= 4:
        return [base]
    if n.k == "Var" and n.fn is not None and re.sub(r"^const ", "", n.t) in ("bool", "int"):
        pos = P.position(n)
        defs, entry = E.reaching(n.fn, n.d["v"], pos)
        if entry and not defs and ctx is not None and n.d["v"] in n.fn.params:
            i = n.fn.params.index(n.d["v"])
            if i < len(ctx.call.c):
                return [x + base for x in dnf(a, ctx.call.c[i], truth, ctx.up, depth + 1, E)]
        if not entry and defs and len(defs) <= 8 and all(d.kind in ("init", "=", "|=", "&=") and d.field is None and d.rhs is not None for d in defs):
            res = []
            for d in defs:
                fs = []
                for c, t in P.facts_at(d.node):
                    fs += E.rels(c, t, ctx)
                for q in dnf(a, d.rhs, truth, ctx, depth + 1, E):
                    res.append(q + fs + base + [("def", d, n, ctx)])
            return res
    if n.k == "Call":
        r = [g for g in P.resolve(n) if g.blocks]
        if len(r) == 1 and re.sub(r"^const ", "", r[0].rt or "") in ("bool", "int") and not E.is_opaque(r[0]) and not E.recursive(r[0], ctx, n):
            cx = Ctx(n, n.fn, ctx)
            res = []
            for ret in r[0].body.walk():
                if ret.k == "Return" and ret.c and P.reachable(ret):
                    fs = []
                    for c, t in P.facts_at(ret):
                        fs += E.rels(c, t, cx)
                    for q in dnf(a, ret.c[0], truth, cx, depth + 1, E):
                        res.append(q + fs + base)
            if len(res) <= 32:
                return res
    return [base]


def branches(a, fn):
    """(block, edge index, cond node, truth) of every two-way branch and switch edge"""
    P = a.P
    for b in fn.reach:
        blk = fn.blocks[b]
        if blk.cond is None:
            continue
        if blk.tk == "SwitchStmt":
            for i, s in enumerate(blk.succ):
                if s is not None and fn.blocks[s].label is not None and fn.blocks[s].label.k == "Case":
                    yield b, i, [(blk.cond, ("case", fn.blocks[s].label.d.get("cv")))]
            continue
        if len(blk.succ) == 2:
            for i in (0, 1):
                if blk.succ[i] is not None:
                    yield b, i, P.branch_atoms(fn, b, i == 0)


class Edges(set):
    """edges on which a condition is known; .cond: edges on which it depends on which definition of a flag was met last"""
    cond = None

    def __or__(self, o):
        r = Edges(set.__or__(self, o))
        r.cond = dict(self.cond or {})
        r.cond.update(getattr(o, "cond", None) or {})
        return r


def good_edges(a, fn, pred, ctx=None, E=None, drop=None):
    """edges on which pred(relations) holds in every alternative (but those to drop)"""
    out = Edges()
    cond = {}
    for b, i, ats in branches(a, fn):
        for n, t in ats:
            alts = dnf(a, n, t, ctx, 0, E)
            if drop is not None:
                alts = [x for x in alts if not drop(x)]
            g = [pred(x) for x in alts]
            if all(g):
                out.add((b, i))
                break
            tags = [frozenset((r[1].var, r[1].idx) for r in x if r[0] == "def" and r[2].fn is fn) for x in alts]
            if any(tags):
                cond.setdefault((b, i), []).append(list(zip(tags, g)))
    out.cond = {e: l for e, l in cond.items() if e not in out}
    return out


def uncut(a, fn, start, target, edges, elem=None, ctx=None):
    """a path start -> target that crosses no edge of `edges` and no element satisfying elem.
    start: (block, index) exclusive; target: (block, index) or 'exit'.  -> list of blocks or None"""
    b0, i0 = start
    cond = getattr(edges, "cond", None) or {}
    D = fn_defs(a.P, fn) if cond else None
    watch = set(v for l in cond.values() for alts in l for tags, g in alts for v, _ in tags)
    st0 = ()
    if watch and (b0, i0) in D.at:
        st0 = tuple(sorted((d.var, d.idx) for d in D.at[(b0, i0)] if d.var in watch and d.field is None))
    seen = set()
    st = [(b0, i0 + 1, (b0,), st0)]
    while st:
        b, i, path, known = st.pop()
        blk = fn.blocks[b]
        stop = False
        for j in range(i, len(blk.el)):
            if target != "exit" and (b, j) == target:
                return path
            e = blk.el[j]
            if elem is not None and isinstance(e, Node) and elem(e):
                stop = True
                break
            if watch and (b, j) in D.at:
                for d in D.at[(b, j)]:
                    if d.var in watch and d.field is None:
                        known = tuple(sorted([k for k in known if k[0] != d.var] + [(d.var, d.idx)]))
        if stop:
            continue
        if target != "exit" and target[0] == b and target[1] >= len(blk.el) and i <= target[1]:
            return path
        if b == fn.exit and target == "exit":
            return path
        for k, s in enumerate(blk.succ):
            if s is None or (b, k) in edges or (s, known) in seen:
                continue
            if (b, k) in cond and known:
                kn = dict(known)
                cut = False
                for alts in cond[(b, k)]:
                    live = [g for tags, g in alts if all(kn.get(v, x) == x for v, x in tags)]
                    if _edge_tagged(alts, kn) and all(live):
                        cut = True
                        break
                if cut:
                    continue
            seen.add((s, known))
            st.append((s, 0, path + (s,), known))
    return None


def _edge_tagged(alts, kn):
    return any(v in kn for tags, g in alts for v, _ in tags)


def guarded(a, node, pred, ctx=None, depth=3, E=None, elem=None, plain=False):
    """every path from the entry of node's function to node crosses an edge on which pred holds (or an element satisfying
    elem); else every call site of the function is guarded the same way"""
    P, fn = a.P, node.fn
    pos = P.position(node)
    if pos is None:
        return False
    es = good_edges(a, fn, pred, ctx, E)
    if plain:
        es = set(es)
    if uncut(a, fn, (fn.entry, -1), pos, es, elem) is None:
        return True
    # short-circuit operands and conditional arms are separate blocks; nothing else to try locally
    if depth > 0:
        cs = [(c, n) for c, n in P.callers.get(fn.usr, ()) if c is not fn]
        if cs and all(guarded(a, n, pred, ctx.up if ctx else None, depth - 1, E, elem, plain) for c, n in cs):
            return True
    return False


def rel(ops, specs, voc):
    """predicate on a list of relations: some relation has an operator in ops and matches specs"""
    if isinstance(specs, str):
        specs = [specs]

    def p(rs):
        for r in rs:
            if r[0] in ops and isinstance(r[1], frozenset) and r[1] and all(match_any(q, specs, voc) for q in r[1]):
                return True
        return False
    return p


def truthy(rx_, want):
    """predicate: some relation says that an expression matching the regular expression is true (T) / false (F)"""
    r_ = re.compile(rx_)

    def p(rs):
        for r in rs:
            if r[0] == want and isinstance(r[1], frozenset) and any(r_.search(noargs(pstr(q))) for q in r[1]):
                return True
        return False
    return p


def anyof(*ps):
    return lambda rs: any(p(rs) for p in ps)


def scc_of(P, fns):
    """call-graph strongly connected components restricted to fns: usr -> component id (only recursive ones)"""
    fns = {f.usr: f for f in fns}
    edges = {u: set() for u in fns}
    for u, f in fns.items():
        for n in P.all_nodes(f):
            if n.k in ("Call", "Ctor"):
                for g in P.resolve(n):
                    if g.usr in fns:
                        edges[u].add(g.usr)
    reach = {}
    for u in fns:
        seen, st = set(), list(edges[u])
        while st:
            v = st.pop()
            if v not in seen:
                seen.add(v)
                st.extend(edges[v])
        reach[u] = seen
    comp = {}
    for u in fns:
        if u in reach[u]:
            comp[u] = frozenset(v for v in fns if v in reach[u] and u in reach[v])
    return comp


def lvstr(v, n=200):
    s = vstr(v)
    for h in set(re.findall(r"~[0-9a-f]+", s)):
        from vals import HASHED
        s = s.replace(h, HASHED.get(h, h))
    return s


def calls_in(P, fn, rxs):
    r_ = re.compile(rxs)
    for n in P.calls(fn):
        if r_.search(n.d.get("q") or ""):
            yield n


def virtcall(n, name):
    return n.k == "Call" and (n.d.get("q") or "").split("::")[-1] == name


def settled(a, fn, node):
    """branches not taken after node because a local that is set once was seen to have the other truth on the way to it"""
    out = Edges()
    decl = {}
    for n in a.P.all_nodes(fn):
        if n.k == "Decl":
            for v, nm, t, i in n.vars:
                decl[v] = n
        elif n.k == "Assign" and strip(n.c[0]).k == "Var":
            decl[strip(n.c[0]).d["v"]] = None
        elif n.k == "Un" and n.d.get("op") in ("&", "++", "--", "post++", "post--") and strip(n.c[0]).k == "Var":
            decl[strip(n.c[0]).d["v"]] = None
    known = {}
    for x, t in a.P.facts_at(node):
        x = strip(x)
        while x.k == "Un" and x.d.get("op") == "!" and isinstance(t, bool):
            x, t = strip(x.c[0]), not t
        if x.k == "Var" and isinstance(t, bool) and decl.get(x.d["v"]) is not None:
            known[x.d["v"]] = t
    if known:
        for b, i, ats in branches(a, fn):
            for x, t in ats:
                x = strip(x)
                while x.k == "Un" and x.d.get("op") == "!" and isinstance(t, bool):
                    x, t = strip(x.c[0]), not t
                if x.k == "Var" and x.d["v"] in known and isinstance(t, bool) and t != known[x.d["v"]]:
                    out.add((b, i))
    return out
