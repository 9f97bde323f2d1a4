"""M03, M04, M05, M09: what the two model readers accept and what they make of it."""
import os
from rules.common import *
import vals
from rules.models2 import canon, unhash, rets, tidy

RULES = {}
TEXT = {}


# ---------------------------------------------------------------- the grammar file
class Item(object):
    __slots__ = ("kind", "name", "l0", "l1")

    def __init__(self, kind, name, l0, l1):
        self.kind, self.name, self.l0, self.l1 = kind, name, l0, l1


def grammar(a):
    """rules of the yacc file: {lhs: [[Item...], ...]}, start symbol, path suffix"""
    if getattr(a.P, "_grammar", None):
        return a.P._grammar
    ys = [f for f in sorted(set(fn.file for fn in a.P.funcs.values())) if f.endswith(".y")]
    if not ys:
        raise BrokenAnalysis("no grammar file among the analysed sources")
    path = os.path.join(os.environ.get("ZMDP_REPO", "/repo"), ys[0])
    s = open(path, errors="replace").read()
    i = s.index("\n%%") + 3
    line = s.count("\n", 0, i) + 1
    toks = []
    n = len(s)
    while i < n:
        c = s[i]
        if s.startswith("%%", i):
            break
        if c == "\n":
            line += 1
            i += 1
        elif c.isspace():
            i += 1
        elif s.startswith("/*", i):
            j = s.index("*/", i) + 2
            line += s.count("\n", i, j)
            i = j
        elif s.startswith("//", i):
            i = s.index("\n", i)
        elif c == "{":
            l0, d, j = line, 0, i
            while True:
                ch = s[j]
                if s.startswith("/*", j):
                    k = s.index("*/", j) + 2
                elif s.startswith("//", j):
                    k = s.index("\n", j)
                elif ch in "\"'":
                    k = j + 1
                    while s[k] != ch:
                        k += 2 if s[k] == "\\" else 1
                    k += 1
                else:
                    k = j + 1
                    d += (ch == "{") - (ch == "}")
                line += s.count("\n", j, k)
                j = k
                if d == 0:
                    break
            toks.append(Item("act", s[i:j], l0, line))
            i = j
        elif c in ":|;":
            toks.append(Item(c, c, line, line))
            i += 1
        elif c in "\"'":
            j = i + 1
            while s[j] != c:
                j += 2 if s[j] == "\\" else 1
            toks.append(Item("sym", s[i:j + 1], line, line))
            i = j + 1
        else:
            m = re.compile(r"[A-Za-z_.][\w.]*|%\w+|.").match(s, i)
            toks.append(Item("sym", m.group(0), line, line))
            i = m.end()
    G, start = {}, None
    k = 0
    while k < len(toks):
        if toks[k].kind == "sym" and k + 1 < len(toks) and toks[k + 1].kind == ":":
            lhs = toks[k].name
            start = start or lhs
            alts, cur = [], []
            k += 2
            while k < len(toks) and toks[k].kind != ";" and not (toks[k].kind == "sym" and k + 1 < len(toks) and toks[k + 1].kind == ":"):
                if toks[k].kind == "|":
                    alts.append(cur)
                    cur = []
                else:
                    cur.append(toks[k])
                k += 1
            alts.append(cur)
            G.setdefault(lhs, []).extend(alts)
            if k < len(toks) and toks[k].kind == ";":
                k += 1
        else:
            k += 1
    m = re.search(r"^%start\s+(\w+)", s, re.M)
    a.P._grammar = (G, m.group(1) if m else start, ys[0])
    return a.P._grammar


def action_of(a, node):
    """(lhs, alternative, index of the item) of the grammar action a node of the generated parser stands in"""
    G, start, f = grammar(a)
    p = a.P.relfile(node) if hasattr(a.P, "relfile") else None
    for lhs, alts in G.items():
        for alt in alts:
            for k, it in enumerate(alt):
                if it.kind == "act" and it.l0 <= node.l <= it.l1:
                    return lhs, alt, k
    return None


def yyparse(a):
    return [f for f in a.P.funcs.values() if f.q == "yyparse" and f.blocks]


# ---------------------------------------------------------------- M03
TOL = 1.1e-4


def num(m):
    """numeric value of a constant monomial's factors, None when not constant"""
    r = 1.0
    for x in m:
        if isinstance(x, str) and x.startswith("#"):
            try:
                r *= float(x[1:])
            except ValueError:
                return None
        else:
            return None
    return r


def linear(p):
    """(constant part, [(sign, text)]) of a polynomial"""
    k, rest = 0.0, []
    for s, m in p:
        c = num(m)
        if c is not None:
            k += s * c
        else:
            rest.append((s, unhash(pstr(frozenset([(1, m)])))))
    return k, rest


class Sums(object):
    """path analysis of the distribution checks of one reader"""

    def __init__(self, a, tables, reject, gate):
        self.a, self.P = a, a.P
        self.E = vals.Eval(a.P, opaque=("sumIMatrixRowValues", "sumRowValues"))
        self.tables, self.reject, self.gate = tables, reject, gate
        self.memo = {}

    def open_args(self, t, n, ctx):
        """the operands of the sums in a condition, where the value's text leaves them out"""
        if "(~)" not in t:
            return t
        out = [t]
        for y in n.walk():
            if y.k == "Call" and (y.d.get("q") or "").split("::")[-1] == "sum" and y.c:
                out.append("sum(%s)" % " | ".join(unhash(pstr(p)) for p in self.E.ev(y.c[0], ctx)))
        return " ".join(out)

    def bound(self, rs, table, side, n=None, ctx=None):
        """the relations say that a sum of the table is at most / at least one (within the tolerance): its text, or None"""
        for r in rs:
            if r[0] not in (">", ">=", "==") or not isinstance(r[1], frozenset) or not r[1]:
                continue
            good = None
            for p in r[1]:
                k, rest = linear(p)
                if not rest:
                    good = None
                    break
                t0 = " ".join(x for _, x in rest)
                t = self.open_args(t0, n, ctx) if n is not None else t0
                fab = [x for s, x in rest if s < 0 and re.match(r"\+f?abs\(", x)]
                if not table.search(t):
                    good = None
                    break
                if fab and len(rest) == 1:
                    # k - fabs(S - 1) >= 0
                    if not (0 < k <= TOL) or not (t0.rstrip(")").endswith(" -1") or re.match(r"\+f?abs\(\+?1 -|\+f?abs\(-1 ", t0)):
                        good = None
                        break
                    good = t
                    continue
                if any(re.match(r"\+f?abs\(", x) for _, x in rest):
                    good = None
                    break
                sg = set(s for s, _ in rest)
                if len(sg) != 1:
                    good = None
                    break
                s = sg.pop()
                if side == "low" and s > 0 and 0 < -k - (1 - TOL) <= TOL or side == "high" and s < 0 and 0 < (1 + TOL) - k <= TOL:
                    good = t
                    continue
                good = None
                break
            if good:
                return good
        return None

    def edges(self, fn, ctx, table, side):
        """{edge: texts of the sums it bounds}, gates allowed"""
        P, a = self.P, self.a
        out, gates = {}, set()
        for b, i, ats in branches(a, fn):
            for n, t in ats:
                alts = dnf(a, n, t, ctx, 0, self.E)
                if not alts:
                    continue
                got = [self.bound(x, table, side, n, ctx) for x in alts]
                if all(got):
                    out.setdefault((b, i), set()).update(got)
                elif self.gate and all(self.gate(x) for x in alts):
                    gates.add((b, i))
        return out, gates

    def covered(self, fn, ctx, table, side, depth=3):
        """every path through fn either rejects the model or has the bound for every row of the table"""
        key = (fn.usr, ctx.key if ctx else None, table.pattern, side)
        if key in self.memo:
            return self.memo[key]
        self.memo[key] = (False, set())
        out, gates = self.edges(fn, ctx, table, side)
        texts = {}
        for k, v in out.items():
            texts[k] = set(v)
        edges = set(out) | gates
        inner = {}

        def elem(e):
            if e.k == "Assign" or e.k == "Bin":
                if self.normalises(e, ctx, table):
                    inner.setdefault(e.id, set()).add("normalised:" + " ".join(canon(self.a, fn, self.E.ev(e.c[0], ctx))))
                    return True
            if e.k != "Call":
                return False
            if self.reject(e):
                return True
            if depth > 0:
                if e.id in inner:
                    return bool(inner[e.id])
                inner[e.id] = set()
                for g in self.P.resolve(e):
                    if g.blocks and g is not fn and not self.E.is_opaque(g) and not g.file.startswith("/") and self.mentions(g, depth):
                        ok, tx = self.covered(g, vals.Ctx(e, fn, ctx), table, side, depth - 1)
                        if not ok:
                            inner[e.id] = set()
                            return False
                        inner[e.id] |= tx | {"call"}
                return bool(inner[e.id])
            return False
        loops = [n for n in self.P.all_nodes(fn) if n.k in ("For", "While", "Do")]
        loops.sort(key=lambda n: -len(list(n.ancestors())))
        alltx = set()
        for L in loops:
            body = loop_parts(self.P, fn, L)
            if body is None:
                continue
            bl, heads, entries, exits = body
            if not entries or not exits:
                continue
            tx = set()
            for (b, i), v in texts.items():
                if b in bl:
                    tx |= v
            if escapes(fn, entries, heads, edges, elem):
                continue
            for y in L.walk():
                tx |= inner.get(y.id, set())
            li = loop_info(self.a, L, ctx)
            if li is None or li.kind not in ("count", "up", "down", "counted", "int") and li.kind in ("range", "iter"):
                continue
            if not fullrange(self.a, li):
                continue
            v = "iv:%s." % fn.vars[li.var]["n"] if isinstance(li.var, int) else None
            use = set(t for t in tx if t != "call")
            if v and use and not all(v in t or "[]" in t for t in use):
                continue
            for e in exits:
                edges.add(e)
                texts.setdefault(e, set()).update(use)
            alltx |= use
        ok = uncut(self.a, fn, (fn.entry, -1), "exit", edges, elem) is None
        for v in texts.values():
            alltx |= v
        for v in inner.values():
            alltx |= v
        self.memo[key] = (ok and bool(alltx), alltx)
        return self.memo[key]

    def mentions(self, g, depth):
        return True

    def normalises(self, e, ctx, table):
        """x[i] /= (sum of x), or x[i] = x[i] / sum"""
        op = e.d.get("op")
        if op == "/=":
            l, r = e.c[0], e.c[1]
        elif op == "=" and strip(e.c[1]).k == "Bin" and strip(e.c[1]).d["op"] == "/":
            l, r = e.c[0], strip(e.c[1]).c[1]
        else:
            return False
        lt = vstr(self.E.ev(l, ctx))
        rt = vstr(self.E.ev(r, ctx))
        return bool(table.search(unhash(lt))) and bool(table.search(unhash(rt)))


def loop_parts(P, fn, L):
    """(blocks of the body, blocks of increment and condition, entry edges' targets, exit edges)"""
    body = L.slot("body")
    if body is None:
        return None
    bl, inc = set(), set()
    for y in body.walk():
        p = P.position(y)
        if p:
            bl.add(p[0])
    for s in ("inc", "cond"):
        x = L.slot(s)
        for y in (x.walk() if x is not None else ()):
            p = P.position(y)
            if p:
                inc.add(p[0])
    inc = set(b for b in inc if b in fn.blocks)
    bl -= inc
    # blocks without elements of their own inside the body
    entries, exits = [], []
    for b in inc:
        blk = fn.blocks[b]
        if blk.cond is None:
            continue
        for i, s in enumerate(blk.succ):
            if s is None or s in inc:
                continue
            if s in bl or reaches(fn, s, bl, inc):
                entries.append(s)
            else:
                exits.append((b, i))
    return bl, inc, entries, exits


def reaches(fn, s, bl, stop):
    seen, st = set(), [s]
    while st:
        b = st.pop()
        if b in seen or b in stop:
            continue
        if b in bl:
            return True
        seen.add(b)
        if fn.blocks[b].el:
            continue
        st += [x for x in fn.blocks[b].succ if x is not None]
    return False


def escapes(fn, entries, targets, edges, elem):
    st, seen = list(entries), set()
    while st:
        b = st.pop()
        if b in seen:
            continue
        seen.add(b)
        if b in targets:
            return True
        blk = fn.blocks[b]
        if any(isinstance(e, Node) and elem(e) for e in blk.el):
            continue
        for i, s in enumerate(blk.succ):
            if s is not None and (b, i) not in edges:
                st.append(s)
    return False


def fullrange(a, L):
    from rules.bounds import full_range
    t = Probe(a)
    full_range(t, "x", "x", "x", L)
    return t.good


class Probe(object):
    """stands in for the analysis object to ask a rule without reporting"""

    def __init__(self, a):
        self.a, self.E, self.P, self.good = a, a.E, a.P, True

    def ok(self, *x, **k):
        return True

    def check(self, c, *x, **k):
        self.good = self.good and bool(c)
        return c

    def fail(self, *x, **k):
        self.good = False


def problem_gate(rs):
    """the branch on which the model has no observations"""
    for r in rs:
        if not isinstance(r[1], frozenset):
            continue
        t = vstr(r[1])
        if "gProblemType" in t and (r[0] == "==" and "MDP_problem_type" in t and "POMDP" not in t or r[0] == "!=" and "POMDP_problem_type" in t):
            return True
        if r[0] == "F" and t in ("+$bool",):
            return True
    return False


def m03(a):
    P, E = a.P, a.E
    rej = lambda e: (e.d.get("q") or "") == "ERR_enter"
    # the grammar reader
    cass = [("transition", re.compile(r"g:IP\[iv:\w+\.\d+\](\.row\[|,\+?iv:)"), False),
            ("observation", re.compile(r"g:IR\[iv:\w+\.\d+\](\.row\[|,\+?iv:)"), True),
            ("start", re.compile(r"g:gInitialBelief\["), True)]
    G, start, yf = grammar(a)
    yy = yyparse(a)
    a.need("M03", len(yy), 1, "generated parser")
    acts = []
    for fn in yy:
        for c in P.calls(fn):
            w = action_of(a, c)
            if w and w[0] == start:
                acts.append((fn, c, w))
    for name, rx_, gated in cass:
        done = []
        for fn, c, w in acts:
            if any(k.k in ("If", "For", "While", "Cond") for k in c.ancestors()):
                continue
            for g in P.resolve(c):
                if not g.blocks:
                    continue
                r = [Sums(a, None, rej, problem_gate if gated else None).covered(g, vals.Ctx(c, fn, None), rx_, side) for side in ("low", "high")]
                if all(x[0] for x in r):
                    done.append((g, c, w))
        ok = bool(done) and all(any(w[1] is alt for _, _, w in done) for alt in G[start])
        a.check(ok, "M03.checked", "%s:%s" % (yf, yy[0].line), "the grammar reader compares every %s distribution with one on both sides and reports it (%s, called when the model is complete)" % (name, ", ".join(sorted(set(g.q for g, _, _ in done)))),
                "the grammar reader can accept a model whose %s probabilities do not sum to one: no unconditional action of the start rule reports every row whose sum is too small or too large" % name, key="M03.checked grammar " + name)
        for g, c, w in done:
            if name != "start":
                k = [i for i, it in enumerate(w[1]) if it.kind == "sym"]
                a.check(w[2] > max(k), "M03.checked", c.fn.where(c), "after the last statement of the model", "the %s distributions are checked before the model is complete" % name, key="M03.checked order " + name)
    # the fast reader
    fast = [("transition", re.compile(r"sum\(.*(\.T(tr)?\[iv:\w+\.\d+\]\[:?,?(iv:\w+\.\d+)|\"T: )"), False),
            ("observation", re.compile(r"sum\(.*(\.O\[iv:|\"O: )"), True),
            ("start", re.compile(r"sum\(.*initialBelief"), True)]
    fns = [f for f in P.find("zmdp::FastParser::readModelFromStream") if f.blocks]
    a.need("M03", len(fns), 1, "fast reader")
    for fn in fns:
        for name, rx_, gated in fast:
            r = [Sums(a, None, lambda e: False, fast_gate(a, fn) if gated else None).covered(fn, None, rx_, side) for side in ("low", "high")]
            ok = all(x[0] for x in r)
            a.check(ok, "M03.checked", "%s:%s" % (fn.file, fn.line), "the fast reader compares every %s distribution with one on both sides and refuses the model" % name,
                    "the fast reader can accept a model whose %s probabilities do not sum to one" % name, key="M03.checked fast " + name)
    sums(a)
    entries(a)


def fast_gate(a, fn):
    def p(rs):
        return any(r[0] == "F" and isinstance(r[1], frozenset) and vstr(r[1]) == "+$bool" for r in rs)
    return p


def sums(a):
    """the sums are sums of all entries"""
    P, E = a.P, a.E
    n = 0
    for fn in sorted(P.funcs.values(), key=lambda f: f.q):
        if not fn.blocks or "parsers/" not in fn.file and not fn.file.endswith(".y"):
            continue
        for nd, lhs, op, rhs in assigns(P, fn):
            if op != "+=" or strip(lhs).k != "Var" or not re.sub("const ", "", lhs.t).startswith("double"):
                continue
            ls = loops_of(nd)
            v = strip(lhs).d["v"]
            if not ls or not decides(P, fn, v):
                continue
            n += 1
            w = fn.where(nd)
            L = ls[0]
            li = loop_info(a, L)
            nm = fn.vars[v]["n"]
            if li is not None:
                a.check(fullrange(a, li) or rowrange(a, li), "M03.sum", w, "sum %s in %s goes over all entries" % (nm, short(fn.q)), "the sum %s in %s leaves out entries: from %s below %s" % (nm, short(fn.q), vstr(li.lo) if li.lo is not None else "?", vstr(li.hi) if li.hi is not None else "?"),
                        key="M03.sum range %s" % fn.q)
            else:
                a.check(listloop(a, fn, L), "M03.sum", w, "sum %s in %s goes over the whole list" % (nm, short(fn.q)), "the sum %s in %s does not go over every entry of the list" % (nm, short(fn.q)), key="M03.sum list %s" % fn.q)
            bp = loop_parts(P, fn, L)
            if bp:
                a.check(not escapes(fn, bp[2], bp[1], set(), lambda e: e.id == nd.id), "M03.sum", w, "every round adds its entry", "%s: a round can leave its entry out of the sum %s" % (short(fn.q), nm), key="M03.sum every %s" % fn.q)
            # starts from zero
            ins = set(y.id for y in L.walk())
            ds = [d for d in E.reaching(fn, v, first_pos(P, L))[0] if d.node.id not in ins]
            a.check(bool(ds) and all(d.rhs is not None and vstr(E.ev(d.rhs)) == "0" for d in ds), "M03.sum", w, "from zero", "%s: the sum %s does not start from zero" % (short(fn.q), nm), key="M03.sum zero %s" % fn.q)
    a.need("M03.sum", n, 2, "accumulated sums in the readers")


def decides(P, fn, v):
    """the sum is what the function returns or compares with a number"""
    for y in P.all_nodes(fn):
        if y.k == "Return" and y.c and strip(y.c[0]).k == "Var" and strip(y.c[0]).d["v"] == v:
            return True
        if y.k == "Bin" and y.d["op"] in ("<", ">", "<=", ">=", "==", "!=") and any(z.k == "Var" and z.d["v"] == v for z in y.walk()):
            return True
    return False


def first_pos(P, L):
    for s in ("cond", "body"):
        x = L.slot(s)
        if x is not None:
            for y in x.walk():
                p = P.position(y)
                if p:
                    return p
    return None


def rowrange(a, L):
    """row_start[i] .. row_start[i] + row_length[i]"""
    lo = vstr(L.lo) if L.lo is not None else ""
    hi = vstr(L.hi) if L.hi is not None else ""
    m = re.match(r"\+(.*)\.row_start(\[.*\])$", lo)
    return bool(m) and set(hi.split(" ")) == {"+%s.row_start%s" % m.groups(), "+%s.row_length%s" % m.groups()}


def listloop(a, fn, L):
    """while (p != NULL) { ... p = p->next; } from the head of the list"""
    P, E = a.P, a.E
    cond = L.slot("cond")
    if cond is None:
        return False
    vs = [y for y in cond.walk() if y.k == "Var"]
    if len(vs) != 1:
        return False
    v = vs[0].d["v"]
    rel_ = dnf(a, cond, True)
    ins = set(y.id for y in L.walk())
    bp = loop_parts(P, fn, L)
    ds = [d for d in fn_defs(P, fn).byvar.get(v, ()) if d.node.id in ins and d.field is None]
    if bp is None or len(ds) != 1 or ds[0].rhs is None:
        return False
    s = strip(ds[0].rhs)
    if not (s.k == "Mem" and s.d["n"] == "next" and strip(s.c[0]).k == "Var" and strip(s.c[0]).d["v"] == v):
        return False
    if escapes(fn, bp[2], bp[1], set(), lambda e: e.id == ds[0].node.id) and ds[0].node.id not in set(y.id for x in ("inc",) if L.slot(x) is not None for y in L.slot(x).walk()):
        return False
    outs = [d for d in fn_defs(P, fn).byvar.get(v, ()) if d.node.id not in ins and d.field is None]
    if any(d.rhs is not None and re.search(r"\.next", vstr(E.ev(d.rhs))) for d in outs):
        return False
    # no other way out than the end of the list
    return not any(y.k in ("Break", "Return", "Goto") for y in L.slot("body").walk())


def entries(a):
    """no single probability is negative (and none can exceed one where they sum to one)"""
    P, E = a.P, a.E
    n = 0
    G, start, yf = grammar(a)
    # entries of the fast reader
    for fn in P.funcs.values():
        if not fn.blocks or fn.cls != "zmdp::FastParser":
            continue
        for c in P.calls(fn):
            q = c.d.get("q") or ""
            pa = None
            if q == "sla::kmatrix_set_entry" and len(c.c) == 4 and isprob(c.c[0]):
                pa = c.c[3]
            elif q.endswith("cvector::push_back") and len(c.c) == 2:
                pa = c.c[1]
            if pa is None:
                continue
            v = strip(pa)
            if v.k in ("Flt", "Lit"):
                continue
            if v.k != "Var" or not v.t.replace("const ", "").startswith("double"):
                continue
            n += 1
            for side in ("low",):
                ok = var_guarded(a, fn, c, v, side)
                a.check(ok, "M03.entry", fn.where(c), "probability compared with %s" % ("zero" if side == "low" else "one"), "%s enters a probability that may be %s" % (short(fn.q), "negative" if side == "low" else "larger than one"),
                        key="M03.entry fast %s %s" % (side, n))
    a.need("M03.entry", n, 2, "probabilities entered by the fast reader")
    # the grammar's probability symbol
    m = 0
    for fn in yyparse(a):
        for nd, lhs, op, rhs in assigns(P, fn):
            w = action_of(a, nd)
            if not w or w[0] != "prob" or op != "=" or "yyval" not in vstr(E.ev(lhs)) and not (strip(lhs).k == "Mem" and strip(lhs).c and strip(strip(lhs).c[0]).k == "Var"):
                continue
            if strip(lhs).k != "Mem":
                continue
            m += 1
            fld = strip(lhs)
            pos = P.position(nd)
            rej = lambda e: e.k == "Call" and (e.d.get("q") or "") == "ERR_enter"
            for side in ("low",):
                es = set()
                for b, i, ats in branches(a, fn):
                    for cn, t in ats:
                        alts = dnf(a, cn, t)
                        if alts and all(place_bound(a, x, fld, side, cn) or start_context(x) for x in alts):
                            es.add((b, i))
                # leave the action only over such an edge or after a report
                ok = leaves(a, fn, nd, w, es, rej)
                a.check(not ok, "M03.entry", fn.where(nd), "probability compared with %s" % ("zero" if side == "low" else "one"), "the grammar accepts a probability that is %s" % ("negative" if side == "low" else "larger than one"),
                        key="M03.entry grammar %s %d" % (side, m))
    a.need("M03.entry", m, 1, "probability symbols of the grammar")


def isprob(n):
    """an element of a list of matrices: one table per action"""
    s = strip(n)
    return s.k in ("Idx",) or s.k == "Call" and s.d.get("oper") == "[]"


def var_guarded(a, fn, at, v, side):
    """every path from where the variable gets its value to the node - or past it, to the next value or out of the function -
    crosses an edge on which a comparison of this variable says >= 0 / <= 1"""
    P = a.P
    es = set()
    for b, i, ats in branches(a, fn):
        for n, t in ats:
            if not any(y.k == "Var" and y.d["v"] == v.d["v"] for y in n.walk()):
                continue
            alts = dnf(a, n, t)
            if alts and all(any(numrel(r, side) for r in x if r[0] in (">", ">=", "==") and isinstance(r[1], frozenset)) for x in alts):
                es.add((b, i))
    pos = P.position(at)
    # from every definition of the variable
    ds, entry = a.E.reaching(fn, v.d["v"], pos)
    starts = [P.position(d.node) or d.pos for d in ds] or [(fn.entry, -1)]
    tgts = [pos, "exit"] + [s for s in starts if s is not None]
    return all(s is None or uncut(a, fn, s, t, es) is None for s in starts for t in tgts)


def numrel(r, side):
    """x >= 0 resp. 1 - x >= 0 for one non-constant x"""
    for p in r[1]:
        k, rest = linear(p)
        if len(rest) != 1:
            return False
        s = rest[0][0]
        if side == "low" and not (s > 0 and -1e-9 <= -k <= 1.0):
            return False
        if side == "high" and not (s < 0 and 0 < k <= 1 + 1e-4):
            return False
    return bool(r[1])


def place_bound(a, rs, fld, side, cn):
    return any(numrel(r, side) for r in rs if r[0] in (">", ">=", "==") and isinstance(r[1], frozenset))


def start_context(rs):
    """the number of the start state of a model without observations"""
    return any(r[0] == "==" and isinstance(r[1], frozenset) and re.search(r"mc_mdp_start|gInitialState|#%d\b" % 0, "") for r in rs) or \
        any(r[0] == "==" and isinstance(r[1], frozenset) and "curMatrixContext" in vstr(r[1]) for r in rs)


def leaves(a, fn, nd, w, edges, rej):
    """a path from nd out of its grammar action that crosses no such edge and meets no report"""
    P = a.P
    it = w[1][w[2]]
    pos = P.position(nd)
    st, seen = [(pos[0], pos[1] + 1)], set()
    while st:
        b, i = st.pop()
        blk = fn.blocks[b]
        stop = False
        for e in blk.el[i:]:
            if isinstance(e, Node):
                if not (it.l0 <= e.l <= it.l1):
                    return True
                if rej(e):
                    stop = True
                    break
        if stop:
            continue
        for k, s in enumerate(blk.succ):
            if s is None or (b, k) in edges or s in seen:
                continue
            seen.add(s)
            st.append((s, 0))
    return False


RULES["M03"] = [m03]
TEXT.update({
    "M03.checked": "each reader, before it accepts a model, compares the sum of every row of every transition, observation and start distribution with one on both sides and reports a deviation",
    "M03.sum": "the sums compared start from zero and add every entry",
    "M03.entry": "a single probability below zero or above one is refused",
})


# ---------------------------------------------------------------- M04
def yyarg(n, k):
    """the symbol position $m an argument of an action (item number k of its alternative) denotes"""
    n = strip(n)
    while n.k == "Mem":
        n = strip(n.c[0])
    if n.k != "Idx":
        return None
    b = strip(n.c[0])
    if not (b.k == "Var" and b.fn.vars[b.d["v"]]["n"] == "yyvsp"):
        return None
    cv = fold(n.c[1])
    return None if cv is None else k + cv


def fold(n):
    n = strip(n)
    if n.k == "Lit":
        return int(n.d["v"])
    if n.d.get("cv") is not None:
        return int(n.d["cv"])
    if n.k == "Un" and n.d["op"] == "-":
        x = fold(n.c[0])
        return None if x is None else -x
    if n.k == "Bin" and n.d["op"] in "+-":
        x, y = fold(n.c[0]), fold(n.c[1])
        return None if x is None or y is None else x + y if n.d["op"] == "+" else x - y
    return None


def contexts(a):
    """what the grammar fixes in each kind of statement: {context number: [(parameter, symbol) in the order of the text]}"""
    P = a.P
    out, sites = {}, {}
    for fn in yyparse(a):
        for c in P.calls(fn):
            w = action_of(a, c)
            if not w or len(c.c) != 5:
                continue
            g = [x for x in P.resolve(c) if x.blocks]
            if not g or not re.match(r"enum|Matrix_Context|.*Context", c.c[0].ct or c.c[0].t):
                continue
            cv = fold(c.c[0])
            if cv is None:
                continue
            syms = []
            for i, x in enumerate(c.c[1:]):
                m = yyarg(x, w[2])
                if m is not None and 1 <= m <= len(w[1]) and w[1][m - 1].kind == "sym":
                    syms.append((m, i + 1, w[1][m - 1].name))
                elif fold(x) != 0:
                    syms.append((99, i + 1, "?"))
            out[cv] = [(i, s) for m, i, s in sorted(syms)]
            sites[cv] = (c, w, g[0], syms)
    return out, sites


def pairs(a):
    """variables that bound inclusive index loops of the grammar's actions: {(low global, high global)}"""
    P = a.P
    out = {}
    for fn in P.funcs.values():
        if not fn.file.endswith(".y") or not fn.blocks:
            continue
        for L in (n for n in P.all_nodes(fn) if n.k in ("For", "While", "Do")):
            li = loop_info(a, L)
            if li is None or li.lo is None or li.hi is None:
                continue
            m = re.match(r"\+g:(\w+)$", vstr(li.lo))
            if m and m.group(1) != "0":
                out.setdefault(m.group(1), []).append((fn, L, li))
    return out


def m04(a):
    P, E = a.P, a.E
    G, start, yf = grammar(a)
    ctx, sites = contexts(a)
    a.need("M04", len([c for c in ctx if ctx[c]]), 6, "kinds of statements with indices")
    # 1. positions
    setter = None
    for cv in sorted(sites):
        c, w, g, syms = sites[cv]
        setter = g
        named = [it.name for it in w[1][:w[2]] if it.kind == "sym" and it.name in ("action", "state", "obs")]
        got = [s for _, s in ctx[cv]]
        ok = got == named and [i for i, _ in ctx[cv]] == sorted(set(i for i, _ in ctx[cv])) and "?" not in got
        a.check(ok, "M04.position", c.fn.where(c), "the indices of the statement (%s) are taken in the order written" % " ".join(named), "the indices of the statement are taken as %s where the text has %s" % (got, named), key="M04.position %d" % cv)
    # 2. ranges
    prs = pairs(a)
    dims = {}      # low global -> parameter number
    nr = 0
    if setter is not None:
        for lo in sorted(prs):
            nr += 1
            dims[lo] = rng(a, setter, lo, prs[lo])
    a.need("M04.range", nr, 3, "index ranges of the grammar")
    # 3. what is filled
    nf = 0
    for fn in sorted(P.funcs.values(), key=lambda f: f.q):
        if not fn.file.endswith(".y") or not fn.blocks:
            continue
        for c in P.calls(fn):
            if (c.d.get("q") or "") in ("addEntryToIMatrix", "accumulateEntryInIMatrix") and len(c.c) == 4:
                nf += 1
                fill(a, fn, c, ctx, dims)
            elif (c.d.get("q") or "") == "enterImmReward" and len(c.c) == 4:
                nf += 1
                rfill(a, fn, c, ctx)
            elif (c.d.get("q") or "") == "newImmReward" and len(c.c) == 4:
                nf += 1
                rnew(a, fn, c, ctx)
    a.need("M04.fill", nf, 10, "places where values are entered")
    lists(a)
    tree(a)
    fastlast(a)


def cases(a, c):
    return set(t[1] for n, t in a.P.facts_at(c) if isinstance(t, tuple) and "curMatrixContext" in vstr(a.E.ev(n)))


def rng(a, fn, lo, uses):
    """low = high = the index when one is given, 0 .. size-1 for a wildcard; -> parameter number"""
    P, E = a.P, a.E
    his = set(vstr(li.hi) for _, _, li in uses)
    hi = None
    for h in his:
        m = set(re.findall(r"g:(\w+)", h))
        if len(m) == 1:
            hi = m.pop()
    for f, L, li in uses:
        h = set(vstr(li.hi).split(" "))
        a.check(hi is not None and h == {"+g:%s" % hi, "+1"}, "M04.range", f.where(L), "%s runs over every index from %s to %s" % (short(f.q), lo, hi), "%s does not run over every index of the given range: it stops before %s" % (short(f.q), vstr(li.hi)),
                key="M04.range %s %s" % (f.q, lo))
    w = "%s:%s" % (fn.file, fn.line)
    par = None
    okk = True
    for gname, wild in ((lo, "0"), (hi, None)):
        st = [(n, rhs) for n, lhs, op, rhs in assigns(P, fn) if op == "=" and strip(lhs).k == "Global" and strip(lhs).d["q"].split("::")[-1] == gname]
        ids = set(n.id for n, _ in st)
        path = uncut(a, fn, (fn.entry, -1), "exit", set(), lambda e: e.id in ids)
        a.check(bool(st) and path is None, "M04.range", w, "%s is set for every statement" % gname, "%s can leave %s as it was for an earlier statement" % (short(fn.q), gname), key="M04.range set %s" % gname)
        for n, rhs in st:
            r = strip(rhs)
            while r.k == "Assign" and r.d["op"] == "=":
                r = strip(r.c[1])
            v = vstr(E.ev(r))
            if r.k == "Var" and r.d["v"] in fn.params:
                p = fn.params.index(r.d["v"])
                par = p if par is None else par
                good = p == par and guarded(a, n, sign_of(a, fn, p, False), depth=0)
                a.check(good, "M04.range", fn.where(n), "a given index is the whole range", "%s: %s takes the index given although it may be a wildcard, or of another position" % (short(fn.q), gname), key="M04.range given %s" % gname)
            else:
                isw = v == "0" if wild == "0" else bool(re.match(r"\+g:(gNum\w+) -1$|-1 \+g:(gNum\w+)$", v))
                p = wild_param(a, fn, n)
                par = p if par is None else par
                a.check(isw and p is not None and p == par, "M04.range", fn.where(n), "a wildcard stands for every index", "%s: for a wildcard %s is %s" % (short(fn.q), gname, v), key="M04.range wild %s" % gname)
    return par


def sign_of(a, fn, p, neg):
    """relations say that parameter p is negative (a wildcard) / not negative"""
    ts = set(pstr(q) for q in a.E.param(fn, fn.params[p], None, None))

    def pred(rs):
        for r in rs:
            if not isinstance(r[1], frozenset):
                continue
            v = vstr(r[1])
            for t in ts:
                if not neg and (r[0] == ">=" and v == t or r[0] == ">" and v in (t, t + " +1", "+1 " + t) or r[0] == "!=" and v in (t + " +1", "+1 " + t, "-1 -" + t[1:])):
                    return True
                if neg and (r[0] == ">" and v == "-" + t[1:] or r[0] == ">=" and v in ("-" + t[1:] + " -1", "-1 -" + t[1:]) or r[0] == "==" and v in (t + " +1", "+1 " + t, "-1 -" + t[1:])):
                    return True
        return False
    return pred


def wild_param(a, fn, n):
    for p in range(len(fn.params)):
        if re.sub("const ", "", fn.vars[fn.params[p]]["t"]) == "int" and guarded(a, n, sign_of(a, fn, p, True), depth=0):
            return p
    return None


def coord(a, fn, c, x, dims):
    """how an index of a table entry is chosen: ('range', parameter) | 'row' | 'col' | 'all' | text"""
    x = strip(x)
    if x.k == "Var":
        for L in loops_of(c):
            li = loop_info(a, L)
            if li is not None and li.var == x.d["v"] and li.lo is not None and li.hi is not None:
                m = re.match(r"\+g:(\w+)$", vstr(li.lo))
                if m and m.group(1) in dims:
                    return ("range", dims[m.group(1)]), L
                if vstr(li.lo) == "0" and re.match(r"\+g:gNum\w+$", vstr(li.hi)):
                    return "all", L
                return "%s..%s" % (vstr(li.lo), vstr(li.hi)), L
    t = vstr(a.E.ev(x))
    return {"+g:curRow": "row", "+g:curCol": "col"}.get(t, t), None


def fill(a, fn, c, ctx, dims):
    P, E = a.P, a.E
    w = fn.where(c)
    cs = sorted(k for k in cases(a, c) if k in ctx)
    base = strip(c.c[0])
    ai = base.c[1] if base.k == "Idx" else None
    if ai is None:
        return
    cc = [coord(a, fn, c, y, dims) for y in (ai, c.c[1], c.c[2])]
    kinds = [k for k, _ in cc]
    # every round of every loop reaches the entry, or one with the same coordinates
    sib = set(y.id for y in P.calls(fn) if (y.d.get("q") or "") == c.d.get("q") and [vstr(E.ev(z)) for z in y.c[:3]] == [vstr(E.ev(z)) for z in c.c[:3]])
    for L in loops_of(c):
        bp = loop_parts(P, fn, L)
        if bp:
            inner = set(y.id for y in L.walk())
            ex = set()
            for M in loops_of(c):
                if M is not L and M.id in inner:
                    q = loop_parts(P, fn, M)
                    if q:
                        ex |= set(q[3])
            a.check(not escapes(fn, bp[2], bp[1], ex, lambda e: e.id in sib), "M04.fill", w, "no index is passed over", "%s passes over some indices without entering the value" % short(fn.q), key="M04.fill every %s %s" % (fn.q, cs))
    if not cs:
        # a reset line: any context the function accepts
        cs = sorted(k for k in ctx if guarded(a, c, ctx_is(a, k), depth=0))
    a.check(bool(cs), "M04.fill", w, "the statement is known", "%s enters values for statements of any kind" % short(fn.q), key="M04.fill ctx %s" % fn.q)
    for k in cs:
        given = ctx[k]
        for j, (kd, nm) in enumerate(zip(kinds, ("action", "row", "column"))):
            if j < len(given):
                ok = kd == ("range", given[j][0])
                a.check(ok, "M04.fill", w, "%s given in the statement: that index, or every index for a wildcard" % nm, "%s: the %s given in the statement is not what is filled: %s" % (short(fn.q), nm, kd), key="M04.fill %s %s %d" % (fn.q, nm, k))
            else:
                want = {"row": ("row", "all"), "column": ("col", "all", "+g:gInitialState"), "action": ()}[nm]
                if kd == "+g:gInitialState":
                    a.check(any(vstr(E.ev(y.c[3])) == "0" and coord(a, fn, y, y.c[2], dims)[0] == "all" for y in P.calls(fn) if (y.d.get("q") or "") == c.d.get("q")),
                            "M04.fill", w, "the other entries of the row are cleared", "%s: the entries the row had before stay beside the new one" % short(fn.q), key="M04.fill rest %s" % fn.q)
                a.check(kd in want, "M04.fill", w, "%s taken from the position in the list of values" % nm, "%s: the %s is taken from %s instead of the position in the list" % (short(fn.q), nm, kd), key="M04.fill %s %s %d" % (fn.q, nm, k))
    # the value
    v = canon(a, fn, E.ev(c.c[3]))
    if fn.params and len(fn.params) == 1:
        a.check(v == {"P0"} or v == {"+P0"}, "M04.value", w, "the value written is the value entered", "%s enters %s instead of the value read" % (short(fn.q), sorted(v)[:2]), key="M04.value %s" % fn.q)
    else:
        it = strip(c.c[2])
        good = False
        txt = sorted(v)
        colsz = None
        if it.k == "Var":
            for L in loops_of(c):
                li = loop_info(a, L)
                if li is not None and li.var == it.d["v"]:
                    colsz = vstr(li.hi)
        if len(v) == 1:
            t = txt[0]
            good = colsz is not None and t == "+/" + colsz[1:] or t in ("+1", "0") or re.match(r"\+g:gInitialBelief\[iv:", t)
            if t in ("+1", "0"):
                good = unit(a, fn, c, t == "+1")
        elif v <= {"+1", "0"}:
            y = strip(c.c[3])
            if y.k == "Cond" and len(y.c) == 3:
                arms = [(y.c[1], [(y.c[0], True)]), (y.c[2], [(y.c[0], False)])]
            elif y.k == "Var":
                ds, entry = E.reaching(fn, y.d["v"], P.position(c))
                arms = [(d.rhs, list(P.facts_at(d.node))) for d in ds] if not entry else []
            else:
                arms = []
            good = bool(arms) and all(x is not None and canon(a, fn, E.ev(x)) in ({"+1"}, {"0"}) and unit(a, fn, c, canon(a, fn, E.ev(x)) == {"+1"}, fs) for x, fs in arms)
        a.check(bool(good), "M04.value", w, "uniform, identity or start distribution", "%s enters %s" % (short(fn.q), txt[:2]), key="M04.value %s %s" % (fn.q, cs))


def unit(a, fn, c, one, facts=()):
    """one where row and column agree, zero elsewhere"""
    r, q = strip(c.c[1]), strip(c.c[2])
    vs = set(x.d["v"] for x in (r, q) if x.k == "Var")
    for n, t in list(facts) + list(a.P.facts_at(c)):
        n = strip(n)
        if n.k == "Bin" and n.d["op"] in ("==", "!="):
            x = [strip(y) for y in n.c]
            same_ = (n.d["op"] == "==") == (t is True)
            if set(y.d["v"] for y in x if y.k == "Var") and set(y.d["v"] for y in x if y.k == "Var") <= vs:
                return same_ == one
            if any(y.k == "Global" and "gInitialState" in y.d["q"] for y in x):
                return same_ == one
    t = vstr(a.E.ev(q))
    return one and t == "+g:gInitialState"


def ctx_is(a, k):
    def p(rs):
        return any(r[0] == "==" and isinstance(r[1], frozenset) and "curMatrixContext" in vstr(r[1]) and a_const(r[1], k) for r in rs)
    return p


def a_const(v, k):
    t = vstr(v)
    m = re.search(r"enum:(\w+)", t)
    if m:
        return k in ENUMS.get(m.group(1), ())
    return bool(re.search(r"#%d(?!\d)" % k, t)) or k in (0, 1) and bool(re.search(r"[+-]%d( |$)" % k, t))


ENUMS = {}


def enums(a):
    for fn in a.P.funcs.values():
        if fn.file.endswith((".y", ".cc")) and "pars" in fn.file:
            for n in a.P.all_nodes(fn):
                if n.k == "Enum" and n.d.get("cv") is not None:
                    ENUMS.setdefault(n.d["q"].split("::")[-1], set()).add(int(n.d["cv"]))


def isP(a, c):
    """True: only in a model with observations; False: only without; None: either"""
    for pred, r in ((pt(True), True), (pt(False), False)):
        if guarded(a, c, pred, depth=0):
            return r
    return None


def pt(want):
    def p(rs):
        for r in rs:
            if isinstance(r[1], frozenset):
                t = vstr(r[1])
                if "gProblemType" in t:
                    pom = "POMDP" in t
                    if r[0] == "==" and pom == want or r[0] == "!=" and pom != want:
                        return True
        return False
    return p


def rfill(a, fn, c, ctx):
    """reward values: the coordinates the statement leaves open are the position in the list"""
    P, E = a.P, a.E
    w = fn.where(c)
    got = [coord(a, fn, c, x, {})[0] for x in c.c[:3]]
    pom = isP(a, c)
    v = canon(a, fn, E.ev(c.c[3]))
    a.check(v in ({"P0"}, {"+P0"}), "M04.value", w, "the value written is the value entered", "%s enters %s instead of the value read" % (short(fn.q), sorted(v)[:2]), key="M04.value %s" % fn.q)
    for k in sorted(cases(a, c)):
        if k not in ctx or pom is None:
            continue
        given = len(ctx[k])            # action, state, next state, observation
        want = ["0", "0", "0"]
        open_ = list(range(given, 4 if pom else 3))
        pos = {1: 0, 2: 1, 3: 2}
        if open_:
            want[pos[open_[-1]]] = "col"
        if len(open_) > 1:
            want[pos[open_[-2]]] = "row"
        a.check(all(g == x or x == "0" for g, x in zip(got, want)), "M04.fill", w, "list values go to the coordinates the statement leaves open", "%s: list values are entered at %s" % (short(fn.q), got), key="M04.fill reward %d %s" % (k, pom))


def rnew(a, fn, c, ctx):
    P, E = a.P, a.E
    w = fn.where(c)
    pom = isP(a, c)
    got = sorted(canon(a, fn, E.ev(x)) for x in ())
    for k in sorted(cases(a, c)):
        if k not in ctx:
            continue
        given = ctx[k]
        for j, x in enumerate(c.c):
            t = canon(a, fn, E.ev(x))
            if j < len(given):
                a.check(t <= {"P%d" % given[j][0], "+P%d" % given[j][0]}, "M04.position", w, "reward index %d is the one written" % (j + 1), "%s: reward index %d is taken from %s" % (short(fn.q), j + 1, sorted(t)), key="M04.position reward %d %d" % (k, j))
            elif j == 3 and pom is False:
                continue
            else:
                a.check(all(re.match(r"-#\d+$", z) for z in t) and t != {"-1"}, "M04.position", w, "an index the statement leaves open is marked so", "%s: reward index %d, which the statement leaves open, is %s" % (short(fn.q), j + 1, sorted(t)), key="M04.position reward %d %d" % (k, j))


def lists(a):
    """entries of the intermediate tables: a later entry replaces the earlier one, zero removes it"""
    P, E = a.P, a.E
    n = 0
    for fn in P.find("addEntryToIMatrix"):
        for c in P.calls(fn):
            if (c.d.get("q") or "") == "addEntryToRow":
                n += 1
                w = fn.where(c)
                got = [canon(a, fn, E.ev(x)) for x in c.c]
                a.check(got[1] in ({"P2"}, {"+P2"}) and got[2] in ({"P3"}, {"+P3"}) and got[4] == {"0"}, "M04.last", w, "an entry replaces an earlier one", "%s does not replace the earlier entry: %s" % (short(fn.q), [sorted(g) for g in got[1:]]), key="M04.last add")
                st = [lhs for nd, lhs, op, rhs in assigns(P, fn) if op == "=" and any(y.id == c.id for y in rhs.walk())]
                rows = set(x for l in st for x in canon(a, fn, E.ev(l)))
                a.check(bool(st) and all("row[P1]" in x.replace("@", "") for x in rows) and all("row[P1]" in x for x in got[0]), "M04.last", w, "in the row of the entry", "%s stores the entry in another row: %s" % (short(fn.q), sorted(rows)), key="M04.last row")
    for fn in P.find("addEntryToRow"):
        n += 1
        rowlist(a, fn)
    for fn in P.find("removeRowNode"):
        n += 1
        unlink(a, fn)
    a.need("M04.last", n, 3, "routines of the intermediate tables")


def rels_edge(a, fn, want):
    """edges on which a list node's column equals the column asked for"""
    out = set()
    for b, i, ats in branches(a, fn):
        for cn, t in ats:
            for x in dnf(a, cn, t):
                for r in x:
                    if r[0] in want and isinstance(r[1], frozenset):
                        s = vstr(r[1])
                        if ".column" in s and "$int" in s:
                            out.add((b, i, cn))
    return out


def rowlist(a, fn):
    P, E = a.P, a.E
    w = "%s:%s" % (fn.file, fn.line)
    acc = fn.params[-1]
    # where a node with the column is found, its value is replaced before anything is returned
    def store(e):
        return e.k == "Assign" and strip(e.c[0]).k == "Mem" and strip(e.c[0]).d["n"] == "value" and e.d["op"] == "=" and canon(a, fn, E.ev(e.c[1])) in ({"P2"}, {"+P2"})
    def add(e):
        return e.k == "Assign" and strip(e.c[0]).k == "Mem" and strip(e.c[0]).d["n"] == "value" and e.d["op"] == "+=" and canon(a, fn, E.ev(e.c[1])) in ({"P2"}, {"+P2"})
    acc_edges = set()
    for b, i, ats in branches(a, fn):
        for cn, t in ats:
            if any(y.k == "Var" and y.d["v"] == acc for y in cn.walk()) and t is True:
                acc_edges.add((b, i))
    n = 0
    for b, i, cn in rels_edge(a, fn, ("==",)):
        n += 1
        s = fn.blocks[b].succ[i]
        path = uncut(a, fn, (s, -1), "exit", acc_edges, store)
        a.check(path is None, "M04.last", fn.where(cn), "a later entry replaces the earlier one", "%s can find the earlier entry and keep it" % short(fn.q), key="M04.last replace")
    a.check(n > 0, "M04.last", w, "an earlier entry is looked for", "%s never looks for an earlier entry" % short(fn.q), key="M04.last look")
    # a zero removes
    rem = [c for c in P.calls(fn) if (c.d.get("q") or "") == "removeRowNode"]
    a.check(bool(rem), "M04.last", w, "a zero removes the earlier entry", "%s never removes an entry that is set to zero" % short(fn.q), key="M04.last zero")
    for c in rem:
        got = [canon(a, fn, E.ev(x)) for x in c.c[:2]]
        a.check(got[0] in ({"P0"}, {"+P0"}) and got[1] in ({"P1"}, {"+P1"}), "M04.last", fn.where(c), "of that row and column", "%s removes another entry" % short(fn.q), key="M04.last zero-args")
        a.check(any(y.k == "Return" for y in c.ancestors()), "M04.last", fn.where(c), "the shortened list is the result", "%s does not return the list without the entry" % short(fn.q), key="M04.last zero-ret")
    # a new node is put in front of the first larger column, or at the end
    for c in P.calls(fn):
        if (c.d.get("q") or "") != "newRowNode":
            continue
        got = [canon(a, fn, E.ev(x)) for x in c.c]
        a.check(got[0] in ({"P1"}, {"+P1"}) and got[1] in ({"P2"}, {"+P2"}), "M04.last", fn.where(c), "the new node holds column and value", "%s: the new node holds %s" % (short(fn.q), [sorted(g) for g in got]), key="M04.last node")

        def pred(rs):
            for r in rs:
                if isinstance(r[1], frozenset):
                    s = vstr(r[1])
                    if r[0] == ">" and ".column" in s and re.search(r"(^| )-\$int", s):
                        return True
                    if r[0] in ("F",) or r[0] == "==" and ("Row" in s):
                        return True
            return False
        a.check(guarded(a, c, pred, depth=0), "M04.last", fn.where(c), "only where the row has no entry for the column yet", "%s adds a second entry for a column" % short(fn.q), key="M04.last second")


def unlink(a, fn):
    P, E = a.P, a.E
    n = 0
    def gone(e):
        return e.k == "Assign" and e.d["op"] == "=" and any(".next" in x for x in [vstr(E.ev(e.c[1]))])
    for b, i, cn in rels_edge(a, fn, ("==",)):
        n += 1
        s = fn.blocks[b].succ[i]
        path = uncut(a, fn, (s, -1), "exit", set(), gone)
        a.check(path is None, "M04.last", fn.where(cn), "the entry is taken out of the list", "%s can leave the entry in the list" % short(fn.q), key="M04.last unlink")
        cnt = uncut(a, fn, (s, -1), "exit", set(), lambda e: e.k == "Un" and "--" in e.d["op"] or e.k == "Assign" and e.d["op"] == "-=")
        a.check(cnt is None, "M04.last", fn.where(cn), "and the row's length goes down", "%s does not count the entry taken out" % short(fn.q), key="M04.last uncount")
    a.check(n >= 1, "M04.last", "%s:%s" % (fn.file, fn.line), "the entry is looked for", "%s never compares columns" % short(fn.q), key="M04.last unlook")


def tree(a):
    """the reward tree: later lines override, wildcards reach every branch"""
    P, E = a.P, a.E
    n = 0
    for fn in P.find("doneImmReward"):
        n += 1
        path = None
        none = set()
        for b, i, ats in branches(a, fn):
            for cn, t in ats:
                for x in dnf(a, cn, t):
                    if any(isinstance(r[1], frozenset) and "gCurImmRewardNode" in vstr(r[1]) and r[0] in ("F", "==") and ".type" not in vstr(r[1]) for r in x):
                        none.add((b, i))
        path = uncut(a, fn, (fn.entry, -1), "exit", none, lambda e: e.k == "Call" and any(g.q.startswith("irAdd") or a_reaches(P, g, "dtAdd") for g in P.resolve(e)))
        a.check(path is None, "M04.reward", "%s:%s" % (fn.file, fn.line), "every finished reward line is entered into the tree, in the order read", "%s can finish a reward line without entering it" % short(fn.q), key="M04.reward enter")
    # the lines in the tree
    for fn in P.funcs.values():
        cs = [c for c in P.calls(fn) if (c.d.get("q") or "") == "dtAdd" and len(c.c) == 5] if fn.blocks and fn.file.endswith(".c") else []
        for c in cs:
            n += 1
            addline(a, fn, c)
    for nm in ("dtAdd", "dtGet"):
        for fn in P.find(nm):
            n += 1
            order_(a, fn)
    for fn in P.find("dtAddInternal"):
        n += 1
        insert(a, fn)
    for fn in P.find("dtGetInternal"):
        n += 1
        lookup(a, fn)
    for fn in P.find("dtConvertToTable"):
        n += 1
        ok = False
        for nd, lhs, op, rhs in assigns(P, fn):
            if strip(lhs).k == "Mem" and strip(lhs).d["n"] == "defaultEntry":
                t = vstr(E.ev(rhs))
                arg = [vstr(E.ev(y.c[0])) for y in rhs.walk() if y.k == "Call" and y.c]
                ok = any(".val" in x for x in arg + [t])
                a.check(ok, "M04.reward", fn.where(nd), "the value that stood for all stays the default", "%s loses the value that stood for every index" % short(fn.q), key="M04.reward default")
        a.check(ok, "M04.reward", "%s:%s" % (fn.file, fn.line), "the value that stood for all stays the default", "%s loses the value that stood for every index" % short(fn.q), key="M04.reward default")
    a.need("M04.reward", n, 6, "routines of the reward tree")


def a_reaches(P, g, q):
    return g.blocks and any((c.d.get("q") or "") == q for c in P.calls(g))


def addline(a, fn, c):
    """action, state, next state, observation of the line, or the position in its list of values"""
    P, E = a.P, a.E
    w = fn.where(c)
    got = [unhash(vstr(E.ev(x))) for x in c.c]
    flds = ("action", "cur_state", "next_state", "obs")
    ivs = []
    for j, (g, f) in enumerate(zip(got[:4], flds)):
        ok = g.endswith("." + f) or g == "-1" and j == 3 and isP(a, c) is not True
        x = strip(c.c[j])
        if not ok and x.k == "Var":
            for L in loops_of(c):
                li = loop_info(a, L)
                if li is not None and li.var == x.d["v"]:
                    ivs.append(li)
                    ok = fullrange(a, li)
                    bp = loop_parts(P, fn, L)
                    if bp:
                        inner = set(y.id for y in L.walk())
                        sib = set(y.id for y in P.calls(fn) if (y.d.get("q") or "") == "dtAdd")
                        ex = set(e for M in L.walk() if M.k in ("For", "While", "Do") and M is not L and any(z.id in sib for z in M.walk()) for e in (loop_parts(P, fn, M) or ((), (), (), ()))[3])
                        ok = ok and not escapes(fn, bp[2], bp[1], ex, lambda e: e.id in sib)
                        a.check(ok, "M04.reward", w, "every position of the list is entered", "%s passes over positions of the list" % short(fn.q), key="M04.reward pass %s" % f)
                    break
        if not ok and re.search(r"\.matrix\.col\[", g):
            # only the entries that are not zero: an earlier reward would stay where this line says zero
            a.fail("M04.reward", w, "%s enters only the entries of a reward matrix that are not zero, an earlier reward stays in force where the line says zero" % short(fn.q), key="M04.reward zeros")
            continue
        a.check(ok, "M04.reward", w, "reward index %s" % f, "%s enters a reward under %s = %s" % (short(fn.q), f, g[:80]), key="M04.reward idx %s" % f)
    v = got[4]
    ok = v.endswith(".rep.value") or ".rep.vector[iv:" in v or ".mat_val[" in v or "getEntryMatrix(" in v
    if "getEntryMatrix(" not in v and strip(c.c[4]).k == "Call" and (strip(c.c[4]).d.get("q") or "") == "getEntryMatrix":
        ok = True
    y = strip(c.c[4])
    if y.k == "Var":
        ok = ok or all(d.rhs is not None for d in fn_defs(P, fn).byvar.get(y.d["v"], ()))
    if y.k == "Call" and len(y.c) == 3:
        last2 = [strip(x) for x in c.c[1:4] if strip(x).k == "Var"]
        ok = [strip(z).d.get("v") for z in y.c[1:]] == [z.d["v"] for z in last2]
    a.check(ok, "M04.reward", w, "the value of the line at that position", "%s enters %s" % (short(fn.q), v[:80]), key="M04.reward value")


def order_(a, fn):
    P, E = a.P, a.E
    seen = {}
    for nd, lhs, op, rhs in assigns(P, fn):
        t = strip(lhs)
        if t.k == "Idx" and op == "=":
            k = fold(t.c[1])
            r = strip(rhs)
            if k is not None and r.k == "Var" and r.d["v"] in fn.params:
                seen[k] = fn.params.index(r.d["v"])
    for d in P.all_nodes(fn):
        if d.k == "InitList":
            for k, y in enumerate(d.c):
                y = strip(y)
                if y.k == "Var" and y.d["v"] in fn.params:
                    seen[k] = fn.params.index(y.d["v"])
    w = "%s:%s" % (fn.file, fn.line)
    if seen:
        a.check(seen == {0: 0, 1: 1, 2: 2, 3: 3}, "M04.reward", w, "indices in the order action, state, next state, observation", "%s takes its indices in another order than they are entered: %s" % (short(fn.q), seen), key="M04.reward order %s" % fn.q)
    for c in P.calls(fn):
        q = c.d.get("q") or ""
        if q.startswith("dt") and q.endswith("Internal") and c.c:
            k = 2
            a.check(fold(c.c[k]) == 0, "M04.reward", fn.where(c), "from the first index", "%s starts at index %s" % (short(fn.q), fold(c.c[k])), key="M04.reward first %s" % fn.q)


def insert(a, fn):
    """dtAddInternal: wildcard -> default and every branch that exists; index -> that branch, started from the default"""
    P, E = a.P, a.E
    w = "%s:%s" % (fn.file, fn.line)
    # recursion: same indices, next position, same value
    rec = [c for c in P.calls(fn) if any(g is fn for g in P.resolve(c))]
    a.check(len(rec) >= 2, "M04.reward", w, "descends into the branches", "%s does not descend" % short(fn.q), key="M04.reward rec")
    for c in rec:
        got = [canon(a, fn, E.ev(x)) for x in c.c[1:]]
        ok = got[0] in ({"P1"}, {"+P1"}) and got[1] in ({"P2 +1"}, {"+P2 +1"}, {"+1 +P2"}, {"+1 P2"}) and got[2] in ({"P3"}, {"+P3"})
        a.check(ok, "M04.reward", fn.where(c), "with the remaining indices and the value", "%s descends with %s" % (short(fn.q), [sorted(g) for g in got]), key="M04.reward rec-args")
        # the result is put back where it came from
        st = [(lhs, rhs) for nd, lhs, op, rhs in assigns(P, fn) if op == "=" and any(y.id == c.id for y in rhs.walk())]
        same_ = bool(st) and all(set(re.sub(r"^\+", "", x) for x in canon(a, fn, E.ev(l))) & set(re.sub(r"^\+", "", x) for x in canon(a, fn, E.ev(c.c[0]))) for l, _ in st)
        a.check(same_, "M04.reward", fn.where(c), "and the changed branch is put back", "%s does not put the changed branch back in its place" % short(fn.q), key="M04.reward rec-back")

    def has(rs, op):
        return any(r[0] == op and isinstance(r[1], frozenset) and "[" in unhash(vstr(r[1])) and "iv:" not in unhash(vstr(r[1])) and re.search(r"[-+]1( |$)", unhash(vstr(r[1]))) for r in rs)
    wild, given = set(), set()
    lps = [n for n in P.all_nodes(fn) if n.k in ("For", "While", "Do")]
    for b, i, ats in branches(a, fn):
        for cn, t in ats:
            if any(cn.id == y.id for L in lps for y in L.walk()):
                continue
            alts = dnf(a, cn, t)
            if alts and all(has(x, "==") for x in alts):
                wild.add((b, i))
            if alts and all(has(x, "!=") for x in alts):
                given.add((b, i))
    a.check(bool(wild) and bool(given), "M04.reward", w, "wildcards are told from indices", "%s does not tell wildcards from indices" % short(fn.q), key="M04.reward wild")
    dflt = lambda e: e.k == "Call" and any(c.id == e.id for c in rec) and all(x.endswith("defaultEntry") for x in canon(a, fn, E.ev(e.c[0])))
    allof = [L for L in lps if any(c.id == y.id for c in rec for y in L.walk())]
    for b, i in wild:
        s = fn.blocks[b].succ[i]
        a.check(uncut(a, fn, (s, -1), "exit", set(), dflt) is None, "M04.reward", w, "a wildcard changes the default", "%s: a wildcard does not reach the default branch" % short(fn.q), key="M04.reward wild-default")
        ids = set()
        for L in allof:
            li = loop_info(a, L)
            if li is None or not fullrange(a, li):
                continue
            bp = loop_parts(P, fn, L)
            null = set()
            for bb, ii, ats in branches(a, fn):
                for cn, t in ats:
                    if any(r[0] in ("F", "==") and isinstance(r[1], frozenset) and "entries[" in unhash(vstr(r[1])) for x in dnf(a, cn, t) for r in x):
                        null.add((bb, ii))
            if bp and not escapes(fn, bp[2], bp[1], null, lambda e: any(c.id == e.id for c in rec)):
                ids |= set(bp[3])
        a.check(bool(ids) and uncut(a, fn, (s, -1), "exit", ids) is None, "M04.reward", w, "and every branch that exists", "%s: a wildcard does not reach every branch that exists" % short(fn.q), key="M04.reward wild-all")
    # an index that has no branch of its own starts from the default
    for b, i in given:
        s = fn.blocks[b].succ[i]
        own = lambda e: e.k == "Call" and any(c.id == e.id for c in rec)
        a.check(uncut(a, fn, (s, -1), "exit", set(), own) is None, "M04.reward", w, "an index changes its branch", "%s: an index is not entered" % short(fn.q), key="M04.reward given")
        have = set()
        for bb, ii, ats in branches(a, fn):
            for cn, t in ats:
                alts = dnf(a, cn, t)
                if alts and all(any(r[0] in ("T", "!=") and isinstance(r[1], frozenset) and "entries" in unhash(vstr(r[1])) for r in x) for x in alts):
                    have.add((bb, ii))
        cp = lambda e: e.k == "Call" and (e.d.get("q") or "").startswith("dtDeepCopy") and all(x.endswith("defaultEntry") for x in canon(a, fn, E.ev(e.c[0])))
        for c in rec:
            pos = P.position(c)
            if uncut(a, fn, (s, -1), pos, set()) is None:
                continue
            a.check(uncut(a, fn, (s, -1), pos, have, cp) is None, "M04.reward", fn.where(c), "a branch made new starts as a copy of the default", "%s: a new branch does not start from the default" % short(fn.q), key="M04.reward copy")


def lookup(a, fn):
    P, E = a.P, a.E
    w = "%s:%s" % (fn.file, fn.line)
    for c in P.calls(fn):
        if any(g is fn for g in P.resolve(c)):
            got = [canon(a, fn, E.ev(x)) for x in c.c]
            ok = got[1] in ({"P1"}, {"+P1"}) and got[2] in ({"P2 +1"}, {"+P2 +1"}, {"+1 +P2"}) and all("entries[P1[P2]]" in x.replace("@", "") or x.endswith("defaultEntry") for x in got[0])
            a.check(ok and len(got[0]) == 2, "M04.reward", fn.where(c), "the branch of the index, else the default", "%s looks up %s" % (short(fn.q), [sorted(g) for g in got]), key="M04.reward get")
    for nd, lhs, op, rhs in assigns(P, fn):
        if op == "=" and all(x.endswith("defaultEntry") for x in canon(a, fn, E.ev(rhs))):
            ok = any(t is True and n.k == "Bin" and n.d["op"] == "==" or t is False for n, t in P.facts_at(nd) if "entries" in unhash(vstr(E.ev(n))) or any("entries" in unhash(vstr(E.ev(y))) for y in n.walk() if y.k == "Var"))
            a.check(ok, "M04.reward", fn.where(nd), "the default only where the index has no branch", "%s takes the default although the index has a branch" % short(fn.q), key="M04.reward get-default")


def fastlast(a):
    """the fast reader's tables keep the last entry of a cell"""
    P, E = a.P, a.E
    n = 0
    for fn in P.find("sla::kmatrix::canonicalize"):
        if not fn.blocks:
            continue
        n += 1
        w = "%s:%s" % (fn.file, fn.line)
        srt = [c for c in P.calls(fn) if (c.d.get("q") or "").startswith("std::") and "sort" in (c.d.get("q") or "")]
        a.check(bool(srt) and all("stable_sort" in c.d["q"] for c in srt), "M04.last", w, "equal cells keep the order in which they were read", "%s sorts equal cells in no particular order" % short(fn.q), key="M04.last stable")
        eq = set()
        for b, i, ats in branches(a, fn):
            for cn, t in ats:
                if t is True and any(y.k == "Call" and (y.d.get("q") or "").endswith("rc_equal") for y in cn.walk()):
                    eq.add((b, i))
        for b, i in eq:
            s = fn.blocks[b].succ[i]
            rep = lambda e: (e.k == "Call" and e.d.get("oper") == "=" or e.k == "Assign") and "data" in vstr(E.ev(e.c[-1])) and (any(y.k == "Call" and (y.d.get("q") or "").endswith("::back") for y in e.walk()))
            heads = set(x for L in P.all_nodes(fn) if L.k in ("For", "While", "Do") for x in (loop_parts(P, fn, L) or ((), (), (), ()))[1])
            a.check(not escapes(fn, [s], heads | {fn.exit}, set(), rep), "M04.last", w, "a later entry of the same cell replaces the earlier one", "%s keeps the earlier entry of a cell" % short(fn.q), key="M04.last fast")
        a.check(bool(eq), "M04.last", w, "equal cells are recognised", "%s does not recognise entries of the same cell" % short(fn.q), key="M04.last eq")
    for fn in P.find("sla::kmatrix_set_entry"):
        if not fn.blocks:
            continue
        n += 1
        path = uncut(a, fn, (fn.entry, -1), "exit", set(), lambda e: e.k == "Call" and (e.d.get("q") or "").endswith("kmatrix::push_back"))
        a.check(path is None, "M04.last", "%s:%s" % (fn.file, fn.line), "every entry read is recorded, zeros too", "%s can drop an entry, so an earlier one stays in force" % short(fn.q), key="M04.last drop")
    for fn in P.find("sla::kmatrix::push_back"):
        if fn.blocks:
            path = uncut(a, fn, (fn.entry, -1), "exit", set(), lambda e: e.k == "Call" and (e.d.get("q") or "").endswith("::push_back"))
            a.check(path is None, "M04.last", "%s:%s" % (fn.file, fn.line), "every entry read is recorded, zeros too", "%s can drop an entry, so an earlier one stays in force" % short(fn.q), key="M04.last drop2")
    for fn in P.find("sla::copy"):
        if fn.blocks and len(fn.params) == 2 and "kmatrix" in fn.vars[fn.params[1]]["t"] and "cmatrix" in fn.vars[fn.params[0]]["t"]:
            n += 1
            pb = [c for c in P.calls(fn) if (c.d.get("q") or "").endswith("cmatrix::push_back")]
            for c in pb:
                pos = P.position(c)
                path = uncut(a, fn, (fn.entry, -1), pos, set(), lambda e: e.k == "Call" and (e.d.get("q") or "").endswith("kmatrix::canonicalize"))
                a.check(path is None, "M04.last", fn.where(c), "the cells are made unique first", "%s copies cells before repeated entries are resolved" % short(fn.q), key="M04.last canon")
    a.need("M04.last", n, 2, "table routines of the fast reader")
    for fn in P.funcs.values():
        if fn.cls == "zmdp::FastParser" and fn.blocks:
            for c in P.calls(fn):
                if (c.d.get("q") or "") == "sla::kmatrix_set_entry":
                    for y in P.facts_at(c):
                        pass
                    v = strip(c.c[3])
                    if v.k == "Var":
                        zero = [x for x, t in P.facts_at(c) if any(z.k == "Var" and z.d["v"] == v.d["v"] for z in x.walk()) and zerocut(a, x, t)]
                        a.check(not zero, "M04.last", fn.where(c), "entries are recorded whatever their value", "%s leaves out entries that are zero, so an earlier one stays in force" % short(fn.q), key="M04.last fastzero")


def zerocut(a, x, t):
    """the fact excludes the value zero"""
    for alt in dnf(a, x, t):
        for r in alt:
            if isinstance(r[1], frozenset) and (r[0] in ("T", "!=") or r[0] == ">" and all(linear(p)[0] <= 0 for p in r[1])):
                return True
    return False


def start(a):
    """start distributions: which states a list includes or leaves out"""
    P, E = a.P, a.E
    seen = {}
    n = 0
    for fn in P.funcs.values():
        if not fn.blocks:
            continue
        for nd, lhs, op, rhs in assigns(P, fn):
            l = strip(lhs)
            if l.k != "Idx" or not vstr(E.ev(l.c[0])).startswith("+g:gInitialBelief") or op != "=" or not P.reachable(nd):
                continue
            v = vstr(E.ev(rhs))
            w = fn.where(nd)
            ints = [p for p in range(len(fn.params)) if re.sub("const ", "", fn.vars[fn.params[p]]["t"]) == "int"]
            inc = [k for k in ("mc_start_include", "mc_start_exclude") if any(guarded(a, nd, ctx_is(a, c), depth=0) or c in cases(a, nd) for c in ENUMS.get(k, ()))]
            lis = [li for L in loops_of(nd) for li in [loop_info(a, L)] if li is not None and strip(l.c[1]).k == "Var" and li.var == strip(l.c[1]).d["v"]]
            if len(inc) == 1 and v in ("+1", "0"):
                n += 1
                one = inc[0] == "mc_start_include"
                direct = strip(l.c[1])
                if len(ints) == 1 or direct.k == "Var" and direct.d["v"] in fn.params:
                    # a state of the list
                    a.check(v == ("+1" if one else "0"), "M04.start", w, "a state listed is %s" % ("included" if one else "left out"), "%s sets the weight of a state the list %s to %s" % (short(fn.q), "includes" if one else "leaves out", v),
                            key="M04.start value %s" % inc[0])
                    pi = ints[0] if ints else 0
                    got = seen.setdefault((fn.q, inc[0]), [fn, set(), w])[1]
                    if lis and lis[0].lo is not None and lis[0].hi is not None:
                        lo, hi = canon(a, fn, lis[0].lo), canon(a, fn, lis[0].hi)
                        P0 = "+P%d" % pi
                        if "0" in lo and any(re.match(r"\+g:gNumStates$", h) for h in hi) and (len(lo) == len(hi) == 2 and P0 in lo and (P0 + " +1" in hi or "+1 " + P0 in hi)):
                            got |= {"all", "one"}
                        elif lo == {"0"} and hi == {"+g:gNumStates"} and guarded(a, nd, sign_of(a, fn, pi, True), depth=0):
                            got.add("all")
                        elif lo == {P0} and hi == {P0 + " +1"} and guarded(a, nd, sign_of(a, fn, pi, False), depth=0):
                            got.add("one")
                        else:
                            got.add("bad %s .. %s" % (sorted(lo), sorted(hi)))
                    elif direct.k == "Var" and direct.d["v"] in fn.params and guarded(a, nd, sign_of(a, fn, pi, False), depth=0):
                        got.add("one")
                    elif direct.k == "Var" and direct.d["v"] in fn.params:
                        got.add("the number as it was read, the wildcard included")
                    else:
                        got.add("bad")
                else:
                    # before the list
                    a.check(v == ("0" if one else "+1"), "M04.start", w, "before the list every state is %s" % ("left out" if one else "included"), "%s starts the list with every state's weight %s" % (short(fn.q), v),
                            key="M04.start before %s" % inc[0])
                    a.check(bool(lis) and full_range(a, lis[0], "+g:gNumStates"), "M04.start", w, "the whole table is set", "%s sets only some states before the list" % short(fn.q), key="M04.start all %s" % inc[0])
            elif re.match(r"\+/g:gNum", v):
                n += 1
                a.check(v == "+/g:gNumStates" and bool(lis) and full_range(a, lis[0], "+g:gNumStates"), "M04.start", w, "without a start line all states are equally likely", "%s: the default start distribution is not uniform over all states" % short(fn.q), key="M04.start uniform")
    for (q, k), (fn, got, w) in sorted(seen.items()):
        a.check(got == {"all", "one"}, "M04.start", w, "a state listed is one state, a wildcard all of them", "%s: a start list does not cover exactly the states it names: %s" % (short(q), sorted(got)),
                key="M04.start %s %s" % ("wildcard" if len(got) == 1 and "the number" in min(got) else "cover", k))
    a.need("M04.start", n, 3, "start distributions")


def is_pomdp(rs):
    for r in rs:
        if isinstance(r[1], frozenset) and r[0] in ("==", "!="):
            t = vstr(r[1])
            if "gProblemType" in t and (r[0] == "==") == ("POMDP_problem" in t) and "UNKNOWN" not in t:
                return True
    return False


def room(a):
    """a table that only exists for one kind of problem is used for that kind only"""
    P, E = a.P, a.E
    some = {}
    for fn in P.funcs.values():
        for n, lhs, op, rhs in assigns(P, fn):
            l = strip(lhs)
            if l.k != "Global" or op != "=" or rhs is None or not P.reachable(n) or "Matrix" not in (l.t or ""):
                continue
            r = strip(rhs)
            if r.k == "New" or r.k == "Call" and (r.d.get("q") or "") in ("malloc", "calloc"):
                some.setdefault(l.d["q"], []).append((n, guarded(a, n, is_pomdp, depth=0)))
    some = set(q for q, v in some.items() if all(g for _, g in v))
    # tables made from them
    for fn in P.funcs.values():
        for n, lhs, op, rhs in assigns(P, fn):
            l = strip(lhs)
            if l.k == "Idx" and strip(l.c[0]).k == "Global" and rhs is not None and any(y.k == "Global" and y.d["q"] in some for y in rhs.walk()):
                some.add(strip(l.c[0]).d["q"])
    k = 0
    for fn in sorted(P.funcs.values(), key=lambda f: f.q):
        if not re.search(r"\.(y|c)$", fn.file):
            continue
        for n in P.all_nodes(fn):
            if n.k != "Idx" or strip(n.c[0]).k != "Global" or strip(n.c[0]).d["q"] not in some or not P.reachable(n):
                continue
            k += 1
            a.check(guarded(a, n, is_pomdp, depth=2), "M05.room", fn.where(n), "observation tables are used for a POMDP only",
                    "%s uses an observation table although the model may be an MDP, which has none" % short(fn.q), key="M05.room %s" % short(fn.q))
    a.need("M05.room", k, 3, "uses of observation tables")


def full_range(a, li, hi):
    return li.lo is not None and li.hi is not None and vstr(li.lo) == "0" and vstr(li.hi) == hi


def _m04(a):
    enums(a)
    m04(a)
    start(a)


RULES["M04"] = [_m04]
RULES["M05"] = [room]
TEXT.update({
    "M05.room": "tables that exist only for one kind of problem are used only under a test for that kind",
    "M04.position": "the indices of a statement go to the coordinates in the order written",
    "M04.range": "an index given is the whole range, a wildcard is the range of all indices, and loops run over the whole range",
    "M04.fill": "each kind of statement fills exactly the coordinates it names, over their ranges, and lists fill the rest by position",
    "M04.value": "the value entered is the value written (uniform, identity, reset as documented)",
    "M04.last": "a later entry of a cell replaces the earlier one, a later zero included",
    "M04.start": "start lists include or leave out exactly the states they name, a wildcard naming all; without a start line the distribution is uniform",
    "M04.reward": "reward lines are applied in order, each to every combination its wildcards stand for",
})
