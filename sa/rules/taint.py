"""Numbers read from files: every one that addresses a table was compared with both ends of the table first."""
from rules.common import *
import vals
from rules.models2 import unhash
from rules.parse import linear

SRC = {"atoi", "atol", "strtol", "strtoul", "H_lookup", "strtoll"}
SCAN = {"sscanf": 2, "fscanf": 2, "scanf": 1}
INT = re.compile(r"^(const )?(unsigned |signed )?(int|long|short|unsigned|size_t|long long|unsigned long|unsigned int)( int)?$|size_type$")


def isint(t):
    return bool(INT.match((t or "").replace("&", "").strip()))


def polys(v):
    out = []
    for p in v:
        k, r = linear(p)
        out.append((k, tuple(sorted(r))))
    return out


class Taint(object):
    """demand-driven backward slice of an index; bits 'L' / 'H' = not compared with zero / with a size, 'W' = may be the wildcard"""

    def __init__(self, a):
        self.a, self.P, self.E = a, a.P, vals.Eval(a.P, opaque=tuple(SRC))
        self.live = live(a.P)
        self.fmemo, self.edgememo, self.active, self.ext = {}, {}, set(), 0
        self.srcs = None
        self.cut = 0

    # ---- guards
    def edges(self, fn, leaf):
        """edges of fn on which the leaf's value is known >= 0 / below some size / not the wildcard"""
        L = polys(self.E.ev(leaf))
        key = (fn.usr, tuple(sorted(L)), self.place(leaf))
        if key in self.edgememo:
            return self.edgememo[key]
        res = {"L": set(), "H": set(), "W": set()}
        self.edgememo[key] = res
        for b, i, ats in branches(self.a, fn):
            for cn, t in ats:
                if isinstance(t, tuple):
                    continue
                alts = dnf(self.a, cn, t, E=self.E)
                if not alts:
                    continue
                for bit in "LHW":
                    if all(any(self.implies(r, L, bit) for r in x) or self.syn(x, cn, t, leaf, bit) for x in alts):
                        res[bit].add((b, i))
        return res

    def place(self, leaf):
        s = strip(leaf)
        return ("v", s.d["v"]) if s.k == "Var" else ("t", unhash(vstr(self.E.ev(s))))

    def syn(self, x, cn, t, leaf, bit):
        return False

    def implies(self, r, L, bit):
        if not isinstance(r[1], frozenset) or r[0] not in (">", ">=", "==", "!="):
            return False
        for k, rest in polys(r[1]):
            if not any(self.one(r[0], k, rest, l, bit) for l in L if l[1]):
                return False
        return True

    def one(self, op, k, rest, l, bit):
        lk, lr = l
        if bit in "LW":
            # r = leaf + c
            if rest == lr:
                c = k - lk
                if op == ">=" and c <= 0 or op == ">" and c <= 1 or op == "==" and c <= 0:
                    return True
                if bit == "W" and op == "!=" and c == 1:
                    return True
            if bit == "W" and op == "!=" and rest == tuple(sorted((-s, m) for s, m in lr)) and k + lk == -1:
                return True
            if op == "==" and rest == tuple(sorted((-s, m) for s, m in lr)) and k + lk >= 0:
                return True
            return False
        # r = N - leaf + c
        d = list(rest)
        for s, m in lr:
            if (-s, m) not in d:
                return False
            d.remove((-s, m))
        c = k + lk
        if d and not all(s > 0 for s, m in d):
            return False
        if op == ">" and c <= (0 if d else 1e9) or op == ">=" and c <= (-1 if d else 1e9):
            return True
        if op == "==" and not d:
            return True
        return False

    def left(self, fn, leaf, start, pos, bits, stop=None):
        """bits that stay on some path start -> pos"""
        if start is None or pos is None or not bits:
            return bits
        es = self.edges(fn, leaf)
        return frozenset(b for b in bits if uncut(self.a, fn, start, pos, es[b], stop) is not None)

    # ---- sources
    def sources(self):
        """stores and reads into fields and globals: name -> [(fn, node, kind, rhs)]"""
        if self.srcs is not None:
            return self.srcs
        self.srcs = {}
        P = self.P
        for fn in P.funcs.values():
            if not fn.blocks or fn.usr not in self.live:
                continue
            for i in fn.inits:
                if i["m"] and i["e"] is not None:
                    self.srcs.setdefault(i["m"], []).append((fn, i["e"], "=", i["e"]))
            for nd, lhs, op, rhs in assigns(P, fn):
                t = strip(lhs)
                if t.k in ("Mem", "Global"):
                    self.srcs.setdefault(t.d["q"], []).append((fn, nd, op, rhs))
            for n in P.all_nodes(fn):
                if n.k == "Un" and n.d["op"].replace("post", "") in ("++", "--"):
                    t = strip(n.c[0])
                    if t.k in ("Mem", "Global"):
                        self.srcs.setdefault(t.d["q"], []).append((fn, n, n.d["op"].replace("post", ""), None))
                if n.k == "Call":
                    for x in self.outs(n):
                        if x.k in ("Mem", "Global"):
                            self.srcs.setdefault(x.d["q"], []).append((fn, n, "read", None))
        return self.srcs

    def outs(self, n):
        """places a call reads a number from a file into"""
        q = (n.d.get("q") or "").split("::")[-1]
        if n.d.get("oper") == ">>" and n.c:
            x = strip(n.c[-1])
            return [x] if isint(x.t) and "istream" in (n.d.get("q") or "") else []
        if q in SCAN:
            r = []
            for x in n.c[SCAN[q]:]:
                x = strip(x)
                if x.k == "Un" and x.d["op"] == "&" and isint(strip(x.c[0]).t):
                    r.append(strip(x.c[0]))
            return r
        return []

    # ---- the slice
    def bits(self, e, depth=0):
        """bits of the value of expression e, at e"""
        P, E = self.P, self.E
        e = strip(e)
        fn = e.fn
        none = frozenset()
        if depth > 14 or e.k in ("Lit", "Flt", "Bool", "Str", "Enum", "Sizeof", "Char"):
            return none
        if e.k == "Cast":
            return self.bits(e.c[0], depth)
        if e.k == "Un":
            if e.d["op"] == "-" and e.c:
                v = strip(e.c[0])
                if v.k == "Lit":
                    return none
            if e.d["op"] in ("&", "!", "*"):
                return none if e.d["op"] != "*" else none
            return self.bits(e.c[0], depth) if e.c else none
        if e.k == "Bin":
            o = e.d["op"]
            if o in ("+", "-", "*", "/"):
                r = self.bits(e.c[0], depth + 1) | self.bits(e.c[1], depth + 1)
                if o == "/":
                    r = self.bits(e.c[0], depth + 1)
                # the sum itself may be what was compared
                return self.left(fn, e, (fn.entry, -1), P.position(e), r) if r else r
            if o == "%":
                return self.bits(e.c[0], depth + 1) - {"H"}
            return none
        if e.k == "Cond":
            k = e.kids
            return self.bits(k[1], depth + 1) | self.bits(k[2], depth + 1) if len(k) == 3 else none
        if e.k == "Assign" and e.d["op"] == "=":
            return self.bits(e.c[1], depth + 1)
        if e.k == "Call":
            nm = (e.d.get("q") or "").split("::")[-1]
            if nm in SRC:
                self.ext += 1
                return frozenset("LH")
            if nm in ("min",) and len(e.c) == 2:
                x, y = [self.bits(z, depth + 1) for z in e.c]
                return (x | y) & frozenset("L") | (x & y & frozenset("H"))
            if nm in ("max",) and len(e.c) == 2:
                x, y = [self.bits(z, depth + 1) for z in e.c]
                return (x | y) & frozenset("H") | (x & y & frozenset("L"))
            return none
        if e.k == "Mem" and e.d["n"] == "theInt":
            self.ext += 1
            return self.left(fn, e, (fn.entry, -1), P.position(e), frozenset("LH"))
        if e.k in ("Mem", "Global"):
            return self.field(e, depth)
        if e.k == "Var":
            return self.var(e, depth)
        return none

    def var(self, e, depth):
        P, E, fn = self.P, self.E, e.fn
        v = e.d["v"]
        if not isint(fn.vars[v]["t"]) or is_ptr(fn.vars[v]["t"]):
            if not fn.vars[v]["t"].replace("const ", "").rstrip("& ").endswith(("int", "long", "unsigned", "char", "short", "double")):
                return frozenset()
        pos = P.position(e)
        key = (fn.usr, v, pos)
        if key in self.active:
            self.cut += 1
            return frozenset()
        if key in self.fmemo:
            self.ext += self.fmemo[key][1]
            return self.fmemo[key][0]
        self.active.add(key)
        c0, e0 = self.cut, self.ext
        ds, entry = E.reaching(fn, v, pos)
        res = frozenset()
        kill = set(d.node.id for d in fn_defs(P, fn).byvar.get(v, ()) if d.strong and d.node is not None)
        for d in ds:
            b = frozenset()
            if d.kind in ("call", "ptrcall") and d.call is not None:
                if any(x.k == "Var" and x.d["v"] == v for x in self.outs(d.call)):
                    self.ext += 1
                    b = frozenset("LH")
            elif d.kind in ("=", "init") and d.rhs is not None:
                b = self.bits(d.rhs, depth + 1)
                r = strip(d.rhs)
                if "H" in b and r.k == "Bin" and r.d["op"] == "-" and strip(r.c[1]).k == "Lit" and int(strip(r.c[1]).d["v"]) >= 1 and any(
                        li is not None and li.var == v and not li.up for L in loops_of(e) for li in [loop_info(self.a, L)]):
                    # counting down from the last index: as good as counting up to below the size
                    b -= {"H"}
            elif d.kind in ("+=", "-=") and d.rhs is not None:
                b = self.bits(d.rhs, depth + 1)
            if b and d.pos is not None:
                b = self.left(fn, e, d.pos, pos, b, lambda x, k=kill, me=d: x.id in k and x.id != me.node.id)
            res |= b
        if entry and v in fn.params:
            k = fn.params.index(v)
            b = frozenset()
            for cf, c in P.callers.get(fn.usr, ()):
                if cf.usr not in self.live:
                    continue
                if k < len(c.c):
                    b |= self.bits(c.c[k], depth + 1)
            if b:
                b = self.left(fn, e, (fn.entry, -1), pos, b, lambda x, kk=kill: x.id in kk)
            res |= b
        return self.done(key, res, c0, e0)

    def done(self, key, res, c0, e0):
        self.active.discard(key)
        if self.cut == c0 or not self.active:
            self.fmemo[key] = (res, 1 if self.ext > e0 else 0)
        return res

    def field(self, e, depth):
        P, E, fn = self.P, self.E, e.fn
        q = e.d["q"]
        if not isint(e.t):
            return frozenset()
        pos = P.position(e)
        key = ("f", q, fn.usr, pos)
        if key in self.fmemo:
            self.ext += self.fmemo[key][1]
            return self.fmemo[key][0]
        if key in self.active:
            self.cut += 1
            return frozenset()
        self.active.add(key)
        c0, e0 = self.cut, self.ext
        res = frozenset()
        txt = unhash(vstr(E.ev(e)))
        here, away = [], frozenset()
        stores = self.sources().get(q, [])
        for sf, nd, op, rhs in stores:
            if sf is fn:
                here.append((nd, op, rhs))
            # what it leaves for other functions: not compared before that function ends
            away |= self.leaves(sf, nd, op, rhs, q, depth)
        ids = set(nd.id for nd, op, rhs in here)
        for nd, op, rhs in here:
            b = self.stored(nd, op, rhs, q, depth)
            p = P.position(nd)
            if b and p is not None:
                b = self.left(fn, e, p, pos, b, lambda x, me=nd: x.id in ids and x.id != me.id)
                res |= b
        if away:
            res |= self.left(fn, e, (fn.entry, -1), pos, away, lambda x: x.id in ids)
        return self.done(key, res, c0, e0)

    def stored(self, nd, op, rhs, q, depth):
        if op == "read" and q.split("::")[-2:-1] == ["LSPos"]:
            # the list of survey targets: positions only ever compared with others; map accesses are X03's
            return frozenset()
        if op == "read":
            self.ext += 1
            return frozenset("LH")
        if op == "++":
            # a position counted up while entries are read
            return frozenset("H") if q in ("curRow", "curCol") else frozenset()
        if rhs is None:
            return frozenset()
        r = strip(rhs)
        if q.endswith("i_num") and r.k == "Un" and r.d["op"] == "-":
            return frozenset("W")
        return self.bits(rhs, depth + 1)

    def leaves(self, sf, nd, op, rhs, q, depth):
        key = ("leaves", nd.id, sf.usr)
        if key in self.fmemo:
            self.ext += self.fmemo[key][1]
            return self.fmemo[key][0]
        if key in self.active:
            self.cut += 1
            return frozenset()
        self.active.add(key)
        c0, e0 = self.cut, self.ext
        b = self.stored(nd, op, rhs, q, depth)
        if b and op in ("read", "="):
            # a later comparison of the stored place in the same function counts
            place = None
            if op == "=":
                for n2, lhs, o2, r2 in assigns(self.P, sf):
                    if n2.id == nd.id:
                        place = strip(lhs)
            else:
                for x in self.outs(nd):
                    if x.d.get("q") == q:
                        place = x
            if place is not None:
                later = [x for x in self.P.all_nodes(sf) if x.k == place.k and x.d.get("q") == q]
                p = self.P.position(nd)
                keep = b
                again = set(n3.id for f3, n3, o3, r3 in self.sources().get(q, []) if f3 is sf and n3.id != nd.id)
                for x in later:
                    if x.id == place.id:
                        continue
                    es = self.edges(sf, x)
                    keep = frozenset(y for y in keep if uncut(self.a, sf, p, "exit", es[y], lambda z: z.id in again) is not None) if p else keep
                b = keep
        return self.done(key, b, c0, e0)


def live(P):
    """functions not known to be unused: without the plain functions nothing live calls or mentions"""
    named = set()
    for fn in P.funcs.values():
        for n in P.all_nodes(fn):
            if n.k not in ("Call", "Ctor", "Var", "Mem") and n.d.get("fn"):
                named.add(n.d["fn"])
            elif n.d.get("q") and n.k not in ("Call", "Ctor"):
                named.add(n.d["q"])
    out = set(u for u, fn in P.funcs.items() if fn.blocks)
    while True:
        dead = set()
        for u in out:
            fn = P.funcs[u]
            if fn.q == "main" or fn.virt or u in named or fn.q in named or fn.cls and fn.q.split("::")[-1].lstrip("~") == fn.cls.split("::")[-1]:
                continue
            if not any(cf.usr in out and cf is not fn for cf, c in P.callers.get(u, ())):
                dead.add(u)
        if not dead:
            return out
        out -= dead


def is_ptr(t):
    return t.rstrip().endswith("*")


def sinks(a):
    """(fn, node, index expression, kind) of everything that addresses or sizes a table"""
    P = a.P
    for fn in P.funcs.values():
        if not fn.blocks or "/include/" in fn.file and False:
            continue
        for n in P.all_nodes(fn):
            if n.k == "Idx" and len(n.c) == 2:
                yield fn, n, n.c[1], "index"
            elif n.k == "Call":
                q = n.d.get("q") or ""
                o = n.slot("obj")
                nm = q.split("::")[-1]
                if n.d.get("oper") in ("[]", "()"):
                    t = (o.ct or o.t or "") if o is not None else (n.c[0].t if n.c else "")
                    if "map<" in t or "string" in t and False:
                        continue
                    args = n.c if o is not None else n.c[1:]
                    for x in args:
                        if isint(strip(x).t) or strip(x).k in ("Bin",):
                            yield fn, n, x, "index"
                elif q == "sla::kmatrix_set_entry" and len(n.c) == 4:
                    yield fn, n, n.c[1], "index"
                    yield fn, n, n.c[2], "index"
                elif nm == "push_back" and len(n.c) >= 2:
                    for x in n.c[:-1]:
                        yield fn, n, x, "index"
                    if vstr(a.E.ev(o)).endswith("CassandraModel.initialState"):
                        # a state of a table model is a row of its tables
                        yield fn, n, n.c[-1], "index"
                elif nm == "resize" or nm in ("malloc", "calloc"):
                    for x in n.c:
                        yield fn, n, x, "size"
            elif n.k == "New" and n.slot("size") is not None:
                yield fn, n, n.slot("size"), "size"


def m05(a):
    P = a.P
    T = Taint(a)
    n = 0
    for fn, nd, x, kind in sinks(a):
        if fn.usr not in T.live or not isinstance(x, Node) or not P.reachable(nd):
            continue
        T.ext = 0
        b = T.bits(x)
        if kind == "size":
            b &= frozenset("L")
        if not b and not T.ext:
            continue
        n += 1
        what = {"L": "may be negative", "H": "may be beyond the end", "W": "may be the wildcard"}
        a.check(not b, "M05.range", fn.where(nd), "compared with both ends before it %s" % ("addresses a table" if kind == "index" else "sizes a table"),
                "%s: a number read from a file %s a table although it %s" % (short(fn.q), "addresses" if kind == "index" else "sizes", " and ".join(what[y] for y in sorted(b))),
                key="M05.range %s %s" % (fn.q, unhash(vstr(a.E.ev(x)))[:60]))
    a.need("M05.range", n, 8, "uses of numbers read from files")


RULES = {"M05": [m05]}
TEXT = {"M05.range": "a number read from an input file (or a wildcard) reaches an index or a size only over comparisons with zero and with the size"}
