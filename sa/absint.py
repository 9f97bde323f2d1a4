"""Conditional constant propagation over the interprocedural control flow graph, specialised to assumed option values.

The domain is flat: a place holds one known constant (number, string, pointer to a known object, position in a constant
table) or is unknown.  Branches whose condition is decided by known constants are pruned, all others are followed both
ways, so what is reported as unreachable really is; unknown values never decide anything.
"""
import operator
from base import *
from rules.common import strip, place_key


def last(q):
    return (q or "").split("::")[-1]


class Str(object):
    """a known text (std::string or char array)"""
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v

    def __eq__(self, o):
        return isinstance(o, Str) and o.v == self.v

    def __hash__(self):
        return hash(("Str", self.v))

    def __repr__(self):
        return "'%s'" % self.v


class Ptr(object):
    __slots__ = ("loc",)

    def __init__(self, loc):
        self.loc = loc

    def __eq__(self, o):
        return isinstance(o, Ptr) and o.loc == self.loc

    def __hash__(self):
        return hash(("Ptr", self.loc))

    def __repr__(self):
        return "&%s" % (self.loc,)


class Tab(object):
    """a row of a constant table"""
    __slots__ = ("g", "i")

    def __init__(self, g, i):
        self.g, self.i = g, i

    def __eq__(self, o):
        return isinstance(o, Tab) and (o.g, o.i) == (self.g, self.i)

    def __hash__(self):
        return hash(("Tab", self.g, self.i))

    def __repr__(self):
        return "%s[%d]" % (self.g, self.i)


class St(object):
    """known places; ev: what happened so far (ordered set of tags)"""
    __slots__ = ("m", "ev", "_k")

    def __init__(self, m=None, ev=()):
        self.m, self.ev, self._k = m or {}, ev, None

    def key(self):
        if self._k is None:
            self._k = (frozenset(self.m.items()), self.ev)
        return self._k

    def set(self, loc, v):
        if loc is None:
            return self
        if v is None:
            if loc not in self.m:
                return self
            m = dict(self.m)
            del m[loc]
            return St(m, self.ev)
        if self.m.get(loc) == v and type(self.m.get(loc)) is type(v):
            return self
        m = dict(self.m)
        m[loc] = v
        return St(m, self.ev)

    def drop(self, pred):
        ks = [k for k in self.m if pred(k)]
        if not ks:
            return self
        m = dict(self.m)
        for k in ks:
            del m[k]
        return St(m, self.ev)

    def event(self, t):
        return self if t in self.ev else St(self.m, self.ev + (t,))


def under(loc, root):
    while isinstance(loc, tuple):
        if loc == root:
            return True
        if loc[0] != "F":
            return False
        loc = loc[1]
    return False


CMP = {"==": operator.eq, "!=": operator.ne, "<": operator.lt, ">": operator.gt, "<=": operator.le, ">=": operator.ge}
NPOS = 2 ** 64 - 1


class Interp(object):
    """opts: assumed option values; enter(g): follow calls to g; on(node, state, interp): None, "stop", or an event tag"""

    def __init__(self, a, opts=None, enter=None, on=None, assume=None, limit=150000, maxdepth=14, config=True,
                 ret=None):
        # ret: values assumed for calls that are not followed, by unqualified name: a value or f(call, frame, state, interp)
        self.ret = ret or {}
        self.a, self.P = a, a.P
        self.opts, self.enter, self.on, self.assume = opts or {}, enter or (lambda g: True), on, assume or {}
        self.steps, self.limit, self.maxdepth, self.config = 0, limit, maxdepth, config
        self.over = False
        self.decls = {}
        self.read = set()        # options consulted
        self.frames = {}

    # -- locations ----------------------------------------------------------
    def initof(self, fn, v):
        d = self.decls.get(fn.usr + (fn.unit or ""))
        if d is None:
            d = {}
            for n in self.P.all_nodes(fn):
                if n.k == "Decl":
                    for x in n.vars:
                        d[x[0]] = x
            self.decls[fn.usr + (fn.unit or "")] = d
        return d.get(v)

    def loc(self, n, fr, st):
        k = n.k
        if k == "Cast":
            return self.loc(n.c[0], fr, st)
        if k == "Var":
            v = n.fn.vars[n.d["v"]]
            if v.get("st"):
                return ("G", n.fn.usr, n.d["v"])
            r = st.m.get(("ref", fr, n.d["v"]))
            if r is not None:
                return r.loc if isinstance(r, Ptr) else None
            if ("noref", fr, n.d["v"]) in st.m:
                return None
            return ("L", fr, n.d["v"])
        if k == "Mem":
            b = n.c[0]
            if n.d.get("arrow"):
                p = self.val(b, fr, st)
                if isinstance(p, Ptr) and p.loc is not None:
                    return ("F", p.loc, n.d["n"])
                if isinstance(p, Tab):
                    return ("T", p.g, p.i, n.d["n"])
                return None
            l = self.loc(b, fr, st)
            if l is None:
                p = self.val(b, fr, st)
                return ("T", p.g, p.i, n.d["n"]) if isinstance(p, Tab) else None
            if isinstance(l, tuple) and l[0] == "T" and len(l) == 3:
                return ("T", l[1], l[2], n.d["n"])
            return ("F", l, n.d["n"])
        if k == "Global":
            return ("G", n.d["q"])
        if k == "Un" and n.d["op"] == "*":
            p = self.val(n.c[0], fr, st)
            return p.loc if isinstance(p, Ptr) else ("T", p.g, p.i) if isinstance(p, Tab) else None
        if k == "Idx":
            b, i = self.val(n.c[0], fr, st), self.val(n.c[1], fr, st)
            if isinstance(b, Tab) and isinstance(i, int):
                return ("T", b.g, b.i + i)
            if isinstance(b, Ptr) and i == 0:
                return b.loc
            return None
        if k == "Cond":
            c = self.truth(n.kids[0], fr, st)
            return None if c is None else self.loc(n.kids[1 if c else 2], fr, st)
        if k == "Call":
            o = n.slot("obj")
            if o is not None and last(n.d.get("q")) in ("operator*", "operator->", "get") and not n.d.get("repo"):
                p = self.val(o, fr, st)
                return p.loc if isinstance(p, Ptr) else None
            r = st.m.get(("R", fr, n.id))
            if isinstance(r, Ptr) and (n.t or "").endswith("&"):
                return r.loc
            return None
        if k == "Ctor" and len(n.c) == 1:
            return None
        if k == "This":
            r = st.m.get(("this", fr))
            return r.loc if isinstance(r, Ptr) else None
        return None

    # -- values -------------------------------------------------------------
    def fetch(self, loc, st):
        if loc is None:
            return None
        if loc[0] == "T":
            return self.cell(loc)
        v = st.m.get(loc)
        if v is None and loc[0] == "G" and len(loc) == 2:
            if loc[1].endswith("::npos"):
                return NPOS
            g = self.P.globals.get(loc[1])
            if g:
                if g.get("asz") or "[" in (g.get("t") or ""):
                    return Tab(loc[1], 0)
                if "const" in (g.get("t") or "").split("*")[-1] and g.get("init") is not None:
                    return self.val(g["init"], None, st)
        return v

    def cell(self, loc):
        g = self.P.globals.get(loc[1])
        if not g or g.get("init") is None or g["init"].k != "InitList":
            return None
        rows = g["init"].c
        if not 0 <= loc[2] < len(rows):
            return None
        row = rows[loc[2]]
        if len(loc) == 3:
            return self.val(row, None, St()) if row.k != "InitList" else Tab(loc[1], loc[2])
        m = re.sub(r"\[.*$", "", g["t"]).replace("const ", "").strip()
        r = self.P.recq.get(m)
        if not r or row.k != "InitList":
            return None
        for i, f in enumerate(r["fields"]):
            if f["n"] == loc[3] and i < len(row.c):
                return self.val(row.c[i], None, St())
        return None

    def val(self, n, fr, st):
        k, d = n.k, n.d
        if k in ("Lit", "Bool", "Chr", "Enum"):
            v = d.get("cv", d.get("v"))
            return int(v) if isinstance(v, bool) else v
        if k == "Flt":
            v = d.get("v")
            try:
                return float(v)
            except (TypeError, ValueError):
                return None
        if k == "Str":
            return Str(d["v"])
        if k in ("Null", "Zero"):
            return 0
        if d.get("cv") is not None and k in ("Bin", "SizeOf", "Un", "Cast"):
            return int(d["cv"])
        if k == "Cast":
            v = self.val(n.c[0], fr, st)
            if isinstance(v, float) and n.t in ("int", "long", "unsigned int", "size_t", "bool"):
                return int(v) if n.t != "bool" else int(v != 0)
            if n.t == "bool":
                t = self.tv(v)
                return None if t is None else int(t)
            return v
        if k == "Var" or k == "Mem" or k == "Idx":
            return self.fetch(self.loc(n, fr, st), st)
        if k == "Global":
            return self.fetch(("G", d["q"]), st)
        if k == "This":
            return st.m.get(("this", fr))
        if k == "Un":
            op = d["op"]
            if op == "!":
                t = self.truth(n.c[0], fr, st)
                return None if t is None else int(not t)
            if op == "-":
                v = self.val(n.c[0], fr, st)
                return -v if isinstance(v, (int, float)) else None
            if op == "&":
                l = self.loc(n.c[0], fr, st)
                return Tab(l[1], l[2]) if l is not None and l[0] == "T" and len(l) == 3 else Ptr(l) if l is not None else None
            if op == "*":
                return self.fetch(self.loc(n, fr, st), st)
            if op in ("++", "--", "post++", "post--"):
                v = self.fetch(self.loc(n.c[0], fr, st), st)
                if op.startswith("post"):
                    return self.shift(v, -1 if "+" in op else 1)
                return v
            return None
        if k == "Bin":
            op = d["op"]
            if op in ("&&", "||"):
                x, y = self.truth(n.c[0], fr, st), self.truth(n.c[1], fr, st)
                if op == "&&":
                    return 0 if x is False or y is False else 1 if x and y else None
                return 1 if x or y else 0 if x is False and y is False else None
            if op == ",":
                return self.val(n.c[1], fr, st)
            return self.arith(op, self.val(n.c[0], fr, st), self.val(n.c[1], fr, st))
        if k == "Assign":
            return self.fetch(self.loc(n.c[0], fr, st), st)
        if k == "Cond":
            c = self.truth(n.kids[0], fr, st)
            if c is None:
                x, y = self.val(n.kids[1], fr, st), self.val(n.kids[2], fr, st)
                return x if x == y else None
            return self.val(n.kids[1 if c else 2], fr, st)
        if k == "New":
            r = st.m.get(("R", fr, n.id))
            return r
        if k == "Call":
            r = st.m.get(("R", fr, n.id))
            if r is not None:
                if (n.t or "").endswith("&") and isinstance(r, Ptr):
                    return self.fetch(r.loc, st)
                return r
            return self.pure(n, fr, st)
        if k == "Ctor":
            if len(n.c) >= 1 and re.search(r"basic_string", n.t or ""):
                return self.val(n.c[0], fr, st) if len(n.c) == 1 or n.c[1].d.get("deflt") else None
            if not n.c and re.search(r"basic_string", n.t or ""):
                return Str("")
            if len(n.c) == 1:
                return self.val(n.c[0], fr, st)
            return None
        if k in ("DefArg", "Paren", "Temp", "Bind") and n.c:
            return self.val(n.c[0], fr, st)
        return None

    def shift(self, v, by):
        if isinstance(v, Tab):
            return Tab(v.g, v.i + by)
        if isinstance(v, (int, float)):
            return v + by
        return None

    def arith(self, op, x, y):
        if x is None or y is None:
            return None
        if op in CMP:
            if isinstance(x, (int, float)) and isinstance(y, (int, float)):
                return int(CMP[op](x, y))
            if op in ("==", "!="):
                # pointers: a known object or text is never null
                for p, q in ((x, y), (y, x)):
                    if isinstance(p, (Ptr, Str, Tab)) and isinstance(q, (int, float)):
                        return int((q != 0) == (op == "==")) if q != 0 else int(op == "!=")
                if isinstance(x, (Ptr, Tab)) and type(x) is type(y):
                    return int((x == y) == (op == "=="))
            if isinstance(x, Tab) and isinstance(y, Tab) and x.g == y.g:
                return int(CMP[op](x.i, y.i))
            return None
        if isinstance(x, Tab) and isinstance(y, int) and op in "+-":
            return Tab(x.g, x.i + (y if op == "+" else -y))
        if isinstance(x, Tab) and isinstance(y, Tab) and op == "-" and x.g == y.g:
            return x.i - y.i
        if not (isinstance(x, (int, float)) and isinstance(y, (int, float))):
            return None
        try:
            if op == "+":
                return x + y
            if op == "-":
                return x - y
            if op == "*":
                return x * y
            if op == "/":
                return x / y if isinstance(x, float) or isinstance(y, float) else int(x / y)
            if op == "%":
                return x - y * int(x / y)
            if op == "&":
                return x & y
            if op == "|":
                return x | y
            if op == "^":
                return x ^ y
            if op == "<<":
                return x << y if 0 <= y < 64 else None
            if op == ">>":
                return x >> y if 0 <= y < 64 else None
        except (ZeroDivisionError, TypeError, OverflowError):
            return None
        return None

    def tv(self, v):
        if v is None:
            return None
        if isinstance(v, (int, float)):
            return v != 0
        return True

    def truth(self, n, fr, st):
        n = strip(n)
        t = self.tv(self.val(n, fr, st))
        if t is None and self.assume:
            t = self.assumed(n)
        return t

    def assumed(self, n):
        return self.assume.get((n.fn.usr if n.fn else None, n.id))

    # -- library vocabulary -------------------------------------------------
    def pure(self, n, fr, st):
        nm, q, op = last(n.d.get("q")), n.d.get("q") or "", n.d.get("oper")
        o = n.slot("obj")
        ov = (lambda: self.val(o, fr, st) if o is not None else None)
        av = (lambda i: self.val(n.c[i], fr, st) if i < len(n.c) else None)
        if op in ("==", "!=", "<", ">", "<=", ">="):
            xs = ([o] if o is not None else []) + list(n.c)
            if len(xs) == 2:
                x, y = (self.val(z, fr, st) for z in xs)
                if isinstance(x, Str) and isinstance(y, Str):
                    return int(CMP[op](x.v, y.v))
                if isinstance(x, (int, float)) and isinstance(y, (int, float)):
                    return int(CMP[op](x, y))
            return None
        if op == "+" and "basic_string" in (n.t or ""):
            xs = [self.val(z, fr, st) for z in (([o] if o is not None else []) + list(n.c))]
            xs = [Str(chr(x)) if isinstance(x, int) else x for x in xs]
            if len(xs) == 2 and all(isinstance(x, Str) for x in xs):
                return Str(xs[0].v + xs[1].v)
            return None
        if o is not None and "basic_string" in (o.t or "") + (o.ct or ""):
            s = ov()
            if not isinstance(s, Str):
                return None
            s = s.v
            if nm in ("c_str", "data", "str"):
                return Str(s)
            if nm in ("size", "length"):
                return len(s)
            if nm == "empty":
                return int(not s)
            x, y = av(0), av(1)
            if nm == "compare" and len(n.c) == 1 and isinstance(x, Str):
                return (s > x.v) - (s < x.v)
            if nm == "compare" and len(n.c) == 3 and isinstance(x, int) and isinstance(y, int) and isinstance(av(2), Str):
                t, z = s[x:x + y] if y != NPOS else s[x:], av(2).v
                return (t > z) - (t < z)
            if nm == "substr" and isinstance(x, int) and 0 <= x <= len(s):
                if len(n.c) < 2 or n.c[1].d.get("deflt"):
                    return Str(s[x:])
                return Str(s[x:x + y]) if isinstance(y, int) and y >= 0 else None
            if nm in ("find", "rfind") and (isinstance(x, Str) or isinstance(x, int)):
                t = x.v if isinstance(x, Str) else chr(x)
                if len(n.c) > 1 and not n.c[1].d.get("deflt") and not (nm == "find" and y == 0):
                    return None
                r = s.find(t) if nm == "find" else s.rfind(t)
                return r if r >= 0 else NPOS
            if (nm in ("at", "operator[]") or op == "[]") and isinstance(x, int):
                return ord(s[x]) if 0 <= x < len(s) else 0 if x == len(s) else None
            if nm == "front" and s:
                return ord(s[0])
            if nm == "back" and s:
                return ord(s[-1])
            if nm in ("starts_with", "ends_with") and isinstance(x, Str):
                return int(s.startswith(x.v) if nm == "starts_with" else s.endswith(x.v))
            return None
        if nm in ("strcmp", "strcasecmp", "strncmp") and len(n.c) >= 2:
            x, y = av(0), av(1)
            if isinstance(x, Str) and isinstance(y, Str):
                p, r = x.v, y.v
                if nm == "strcasecmp":
                    p, r = p.lower(), r.lower()
                if nm == "strncmp":
                    k = av(2)
                    if not isinstance(k, int):
                        return None
                    p, r = p[:k], r[:k]
                return (p > r) - (p < r)
            return None
        if nm == "strlen":
            x = av(0)
            return len(x.v) if isinstance(x, Str) else None
        if nm in ("atoi", "atol", "stoi", "strtol", "atoll") and n.c:
            x = av(0)
            if isinstance(x, Str):
                m = re.match(r"\s*[-+]?\d+", x.v)
                return int(m.group(0)) if m else 0
            return None
        if nm in ("atof", "stod", "strtod") and n.c:
            x = av(0)
            if isinstance(x, Str):
                m = re.match(r"\s*[-+]?(\d+\.?\d*([eE][-+]?\d+)?|\.\d+([eE][-+]?\d+)?)", x.v)
                return float(m.group(0)) if m else 0.0
            return None
        if nm in ("max", "min") and len(n.c) == 2:
            x, y = av(0), av(1)
            if isinstance(x, (int, float)) and isinstance(y, (int, float)):
                return max(x, y) if nm == "max" else min(x, y)
            return None
        if q.endswith("numeric_limits<int>::max"):
            return 2 ** 31 - 1
        return None

    def option(self, n, fr, st):
        """value an option reader returns"""
        nm = last(n.d.get("q"))
        key = self.val(n.c[0], fr, st) if n.c else None
        if not isinstance(key, Str):
            return None
        self.read.add(key.v)
        v = st.m.get(("C", key.v))
        if v is None:
            return None
        if nm == "getString":
            return v
        try:
            if nm == "getInt":
                return int(re.match(r"\s*[-+]?\d+", v.v).group(0))
            if nm == "getDouble":
                return float(v.v)
            if nm == "getBool":
                return int(int(re.match(r"\s*[-+]?\d+", v.v).group(0)) != 0)
            if nm == "defined":
                return 1
        except (AttributeError, ValueError):
            return None
        return None

    def is_config(self, n):
        return self.config and n.k == "Call" and (n.d.get("q") or "").startswith("zmdp::ZMDPConfig::")

    # -- exploration --------------------------------------------------------
    def start(self, fn, this=None, args=None):
        st = St({("C", k): Str(v) for k, v in self.opts.items() if v is not None})
        fr = (fn.usr,)
        if this is not None:
            st = st.set(("this", fr), Ptr(this))
        for v, x in (args or {}).items():
            st = st.set(("L", fr, v), x)
        return self.run(fn, fr, st, 0)

    def run(self, fn, fr, st, depth):
        """-> [(kind, value, state, node)]; kind: ret, fatal, stop, limit"""
        out, seen, outk = [], set(), set()
        visits, last_ = {}, {}
        work = [(fn.entry, 0, st)]
        while work:
            b, i, s = work.pop()
            self.steps += 1
            if self.steps > self.limit:
                self.over = True
                out.append(("limit", None, s, None))
                return out
            blk = fn.blocks[b]
            nxt = [s]
            j = i
            dead = False
            while j < len(blk.el) and not dead:
                x = blk.el[j]
                j += 1
                if isinstance(x, tuple):
                    if x[0] == "dv":
                        s = self.declare(fn, x[1], fr, s)
                    elif x[0] == "init" and x[1]:
                        s = self.member(fn, x[1], fr, s)
                    continue
                if not isinstance(x, Node):
                    continue
                if self.on is not None:
                    r = self.on(x, fr, s, self)
                    if r == "stop":
                        self.emit(out, outk, "stop", None, s, x)
                        dead = True
                        break
                    if isinstance(r, St):
                        s = r
                    elif r is not None:
                        s = s.event(r)
                if x.k == "Return":
                    v = self.val(x.c[0], fr, s) if x.c else None
                    if x.c and (fn.rt or "").endswith("&"):
                        l = self.loc(x.c[0], fr, s)
                        v = Ptr(l) if l is not None else None
                    self.emit(out, outk, "ret", v, self.leave(s, fr), x)
                    dead = True
                    break
                if x.k == "Call" and self.P.call_noreturn(x) and not self.enterable(x, depth):
                    self.emit(out, outk, "fatal", None, s, x)
                    dead = True
                    break
                if x.k in ("Call", "Ctor", "New"):
                    res = self.docall(x, fr, s, depth, out, outk)
                    if not res:
                        dead = True
                        break
                    if len(res) > 1:
                        for r in res[1:]:
                            work.append((b, j, r))
                    s = res[0]
                    continue
                s = self.effect(x, fr, s)
            if dead:
                continue
            if b == fn.exit:
                self.emit(out, outk, "ret", None, self.leave(s, fr), None)
                continue
            if not any(t is not None for t in blk.succ):
                x = next((y for y in reversed(blk.el) if isinstance(y, Node)), None)
                self.emit(out, outk, "fatal", None, s, x)
                continue
            for t, s2 in self.branch(fn, b, blk, fr, s):
                k = (t, s2.key())
                if k in seen:
                    continue
                seen.add(k)
                visits[t] = visits.get(t, 0) + 1
                here = s2.m
                if visits[t] > 60:
                    # a loop over unknown data: forget this function's numbers
                    fixed = self.fixed(fn)
                    was = last_[t] if visits[t] <= 120 else None
                    s2 = s2.drop(lambda l: l[0] == "L" and l[1] == fr and l[2] not in fixed and isinstance(s2.m[l], (int, float, Tab))
                                 and (was is None or was.get(l) != s2.m[l])
                                 or l[0] == "R" and l[1] == fr)
                    k2 = (t, s2.key())
                    if k2 != k:
                        if k2 in seen:
                            continue
                        seen.add(k2)
                last_[t] = here
                work.append((t, 0, s2))
        return out

    def fixed(self, fn):
        """parameters that keep the value they were given"""
        memo = self.a.__dict__.setdefault("_fixed", {})
        key = fn.usr + (fn.unit or "")
        if key not in memo:
            ps = set(fn.params)
            for n in self.P.all_nodes(fn):
                if n.k == "Assign" or n.k == "Un" and n.d["op"] in ("++", "--", "post++", "post--", "&"):
                    y = strip(n.c[0])
                    if y.k == "Var":
                        ps.discard(y.d["v"])
                elif n.k in ("Call", "Ctor"):
                    pts = n.d.get("ptn") or []
                    for i, y in enumerate(n.c):
                        y = strip(y)
                        if y.k == "Var" and i < len(pts) and pts[i].endswith("&") and not pts[i].startswith("const "):
                            ps.discard(y.d["v"])
            memo[key] = ps
        return memo[key]

    def emit(self, out, outk, kind, v, s, n):
        k = (kind, v if not isinstance(v, float) or v == v else None, s.key(), n.id if n is not None and kind != "ret" else None)
        if k not in outk:
            outk.add(k)
            out.append((kind, v, s, n))

    def leave(self, s, fr):
        return s.drop(lambda l: l[0] in ("L", "R", "ref", "noref", "this") and l[1] == fr)

    def branch(self, fn, b, blk, fr, s):
        ss = [x for x in blk.succ]
        if blk.tk == "SwitchStmt" and blk.cond is not None:
            v = self.val(blk.cond, fr, s)
            l = self.loc(strip(blk.cond), fr, s)
            cases, other = [], None
            for t in ss:
                if t is None:
                    continue
                lab = fn.blocks[t].label
                if lab is not None and lab.k == "Case":
                    cases.append((t, self.casevals(lab)))
                else:
                    other = t
            res = []
            if isinstance(v, (int, float)):
                for t, cv in cases:
                    if cv is None or int(v) in cv:
                        res.append((t, s))
                if not any(cv is not None and int(v) in cv for _, cv in cases) and other is not None:
                    res.append((other, s))
                return res
            for t, cv in cases:
                res.append((t, s.set(l, cv[0]) if cv and len(cv) == 1 and l is not None and l[0] != "T" else s))
            if other is not None:
                res.append((other, s))
            return res
        if blk.cond is None or len(ss) != 2:
            return [(t, s) for t in ss if t is not None]
        res = []
        for k, t in enumerate(ss):
            if t is None:
                continue
            okk, s2 = True, s
            for c, tr in self.P.branch_atoms(fn, b, k == 0):
                if not isinstance(tr, bool):
                    continue
                v = self.truth(c, fr, s2)
                if v is not None and v != tr:
                    okk = False
                    break
                if v is None:
                    s2 = self.refine(c, tr, fr, s2)
            if okk:
                res.append((t, s2))
        return res

    def casevals(self, lab):
        vs = []
        n = lab
        while n is not None and n.k == "Case":
            if n.d.get("cv") is None:
                return None
            vs.append(int(n.d["cv"]))
            # stacked labels share the block
            n = next((y for y in n.kids if y.k in ("Case", "Default")), None)
            if n is not None and n.k == "Default":
                return None
        return vs

    def refine(self, c, tr, fr, s):
        c = strip(c)
        if c.k in ("Var", "Mem") and not tr:
            l = self.loc(c, fr, s)
            return s.set(l, 0) if l is not None and l[0] != "T" else s
        if c.k in ("Var", "Mem") and tr and (c.t or "") == "bool":
            l = self.loc(c, fr, s)
            return s.set(l, 1) if l is not None and l[0] != "T" else s
        if c.k == "Bin" and c.d["op"] in ("==", "!=") and tr == (c.d["op"] == "=="):
            for i in (0, 1):
                v = self.val(c.c[1 - i], fr, s)
                x = strip(c.c[i])
                if v is not None and x.k in ("Var", "Mem"):
                    l = self.loc(x, fr, s)
                    if l is not None and l[0] != "T":
                        return s.set(l, v)
        if c.k == "Call" and c.d.get("oper") in ("==", "!=") and tr == (c.d["oper"] == "=="):
            xs = ([c.slot("obj")] if c.slot("obj") is not None else []) + list(c.c)
            if len(xs) == 2:
                for i in (0, 1):
                    v = self.val(xs[1 - i], fr, s)
                    x = strip(xs[i])
                    if isinstance(v, Str) and x.k in ("Var", "Mem"):
                        l = self.loc(x, fr, s)
                        if l is not None and l[0] != "T":
                            return s.set(l, v)
        return s

    def declare(self, fn, v, fr, s):
        x = self.initof(fn, v)
        t = fn.vars[v]["t"]
        if fn.vars[v].get("st"):
            return s
        if x is None or x[3] is None:
            s = s.drop(lambda l: l[0] in ("ref", "noref") and l[1:] == (fr, v))
            return s.drop(lambda l: under(l, ("L", fr, v)))
        if t.endswith("&"):
            l = self.loc(x[3], fr, s)
            if l is None:
                val = self.val(x[3], fr, s)
                s = s.set(("ref", fr, v), None)
                s = s.set(("noref", fr, v), None)
                return s.set(("L", fr, v), val)
            return s.set(("ref", fr, v), Ptr(l))
        s = s.drop(lambda l: under(l, ("L", fr, v)) and l != ("L", fr, v)) if x[3].k != "Ctor" else s
        val = self.val(x[3], fr, s)
        s = s.set(("L", fr, v), val)
        src = self.loc(strip(x[3]) if x[3].k == "Cast" else x[3].c[0] if x[3].k == "Ctor" and len(x[3].c) == 1 else x[3], fr, s)
        if src is not None and not isinstance(val, (Ptr, Str)) and "*" not in t:
            s = self.copy(s, src, ("L", fr, v))
        return s

    def copy(self, s, a, b):
        for k, v in list(s.m.items()):
            if isinstance(k, tuple) and k[0] == "F" and under(k, a):
                s = s.set(self.rebase(k, a, b), v)
        return s

    def rebase(self, k, a, b):
        return b if k == a else ("F", self.rebase(k[1], a, b), k[2])

    def member(self, fn, mq, fr, s):
        th = s.m.get(("this", fr))
        if not isinstance(th, Ptr):
            return s
        for i in fn.inits:
            if i["m"] == mq and i["e"] is not None:
                return s.set(("F", th.loc, last(mq)), self.val(i["e"], fr, s))
        return s

    def effect(self, x, fr, s):
        if x.k == "Decl":
            for v in x.vars:
                s = self.declare(x.fn, v[0], fr, s)
            return s
        if x.k == "Assign":
            l = self.loc(x.c[0], fr, s)
            if l is None or l[0] == "T":
                return s
            op = x.d["op"]
            if op == "=":
                v = self.val(x.c[1], fr, s)
                return self.store(s, l, v, x.c[0])
            return self.store(s, l, self.arith(op[:-1], self.fetch(l, s), self.val(x.c[1], fr, s)), x.c[0])
        if x.k == "Un" and x.d["op"] in ("++", "--", "post++", "post--"):
            l = self.loc(x.c[0], fr, s)
            if l is None or l[0] == "T":
                return s
            return s.set(l, self.shift(self.fetch(l, s), 1 if "+" in x.d["op"] else -1))
        return s

    def store(self, s, l, v, lhs):
        t = (lhs.t or "").strip()
        if t == "bool" and v is not None:
            v = int(self.tv(v))
        elif isinstance(v, float) and t in ("int", "long", "unsigned int", "size_t"):
            v = int(v)
        elif isinstance(v, int) and t in ("double", "float"):
            v = float(v)
        return s.set(l, v)

    # -- calls --------------------------------------------------------------
    def target(self, n, fr, s):
        """the one function a call reaches, when known"""
        rs = [g for g in self.P.resolve(n) if g.blocks]
        if not rs:
            return None
        if n.d.get("virt") and n.slot("obj") is not None:
            o = n.slot("obj")
            v = self.val(o, fr, s)
            l = v.loc if isinstance(v, Ptr) else self.loc(o, fr, s)
            if l is not None and l[0] == "O":
                c = l[1]
                order = self.ancestry(c)
                for q in order:
                    for g in rs:
                        if g.cls == q or (g.q.rsplit("::", 1)[0] == q):
                            return g
            if len(rs) > 1:
                return None
        return rs[0] if len(rs) == 1 else None

    def ancestry(self, q):
        out, st = [], [q]
        while st:
            x = st.pop(0)
            if x in out:
                continue
            out.append(x)
            r = self.P.recq.get(x)
            if r:
                for b in r.get("bases", ()):
                    st.append(b[0] if isinstance(b, (list, tuple)) else b.get("q") if isinstance(b, dict) else b)
        return out

    def enterable(self, x, depth):
        if depth >= self.maxdepth or self.is_config(x):
            return False
        rs = [g for g in self.P.resolve(x) if g.blocks]
        return bool(rs) and any(self.enter(g) for g in rs)

    def docall(self, x, fr, s, depth, out, outk):
        rk = ("R", fr, x.id)
        if x.k == "New":
            t = re.sub(r"\s*\*$", "", x.t or "").replace("const ", "").strip()
            obj = ("O", t, x.id)
            s = s.set(rk, Ptr(obj))
            c = next((y for y in x.kids if y.k == "Ctor"), None)
            if c is not None:
                # the constructor ran on a fresh object: its effects are known under the constructor's own location
                s = self.move(s, ("N", fr, c.id), obj)
            return [s]
        if self.is_config(x):
            nm = last(x.d["q"])
            if nm in ("getString", "getInt", "getDouble", "getBool", "defined"):
                v = self.option(x, fr, s)
                return [s.set(rk, v)]
            if nm in ("setString", "setInt", "setDouble", "setBool") and len(x.c) == 2:
                k, v = self.val(x.c[0], fr, s), self.val(x.c[1], fr, s)
                if isinstance(k, Str) and v is not None:
                    s = s.set(("C", k.v), v if isinstance(v, Str) else Str(repr(v)))
                return [s]
            return [s]
        g = self.target(x, fr, s)
        if g is not None and depth < self.maxdepth and self.enter(g) and fr.count(g.usr) < 2:
            nf = fr + (x.id, g.usr)
            s2 = self.bind(x, g, fr, nf, s)
            res, byk = [], set()
            for kind, v, s3, node in self.run(g, nf, s2, depth + 1):
                if kind == "ret":
                    s4 = s3.set(rk, v) if x.k == "Call" else s3
                    if s4.key() not in byk:
                        byk.add(s4.key())
                        res.append(s4)
                else:
                    self.emit(out, outk, kind, v, s3, node)
            return res
        # not followed: forget what it may change
        s = s.set(rk, None)
        rv = self.ret.get(last(x.d.get("q"))) if x.k == "Call" else None
        if callable(rv):
            rv = rv(x, fr, s, self)
        if rv is not None:
            s = s.set(rk, rv)
        if x.d.get("oper") in ("=", "+="):
            o = x.slot("obj") or (x.c[0] if x.c else None)
            r = x.c[-1] if x.c else None
            l = self.loc(o, fr, s) if o is not None else None
            if l is not None and l[0] != "T":
                v = self.val(r, fr, s) if x.d["oper"] == "=" and r is not None else None
                if v is None and x.d["oper"] == "+=":
                    p, q = self.fetch(l, s), self.val(r, fr, s)
                    v = Str(p.v + q.v) if isinstance(p, Str) and isinstance(q, Str) else None
                s = s.drop(lambda k: under(k, l))
                s = s.set(l, v)
                src = self.loc(r, fr, s) if r is not None else None
                if src is not None and v is None:
                    s = self.copy(s, src, l)
            return [s]
        pv = self.pure(x, fr, s) if x.k == "Call" else None
        if pv is not None:
            return [s]
        o = x.slot("obj")
        if o is not None and not x.d.get("cst") and x.k == "Call":
            v = self.val(o, fr, s)
            l = v.loc if isinstance(v, Ptr) else self.loc(o, fr, s)
            if l is not None:
                ms = self.mods(x)
                s = s.drop(lambda k: under(k, l) and (ms is None or k[0] != "F" or k[2] in ms))
        pts = x.d.get("ptn") or []
        ms = None
        for i, y in enumerate(x.c):
            t = pts[i] if i < len(pts) else ""
            if t.endswith(("&", "*")) and not t.startswith("const "):
                if t.endswith("&"):
                    l = self.loc(y, fr, s)
                else:
                    v = self.val(y, fr, s)
                    l = v.loc if isinstance(v, Ptr) else None
                if l is not None:
                    ms = self.mods(x)
                    s = s.drop(lambda k: under(k, l) and (ms is None or k[0] != "F" or k[2] in ms))
        return [s]

    def mods(self, x):
        """names of the fields a call may store to; None: any"""
        rs = [g for g in self.P.resolve(x) if g.blocks]
        if not rs:
            return None
        memo = self.a.__dict__.setdefault("_mods", {})
        out = set()
        for g in rs:
            m = memo.get(g.usr)
            if m is None:
                m = set()
                for h in self.P.closure([g]).values():
                    for n in self.P.all_nodes(h):
                        t = None
                        if n.k == "Assign" or n.k == "Un" and n.d["op"] in ("++", "--", "post++", "post--"):
                            t = [n.c[0]]
                        elif n.k in ("Call", "Ctor"):
                            # operands a call may change
                            t = list(n.c) + ([n.slot("obj")] if n.slot("obj") is not None and not n.d.get("cst") else [])
                        elif n.k == "Un" and n.d["op"] == "&":
                            t = [n.c[0]]
                        for y in t or ():
                            while y.k in ("Cast", "Idx") or y.k == "Un" and y.d["op"] in ("*", "&"):
                                y = y.c[0]
                            if y.k == "Mem":
                                m.add(y.d["n"])
                    if h.ctor:
                        m |= {last(i["m"]) for i in h.inits if i["m"]}
                memo[g.usr] = m
            out |= m
        return out

    def move(self, s, a, b):
        for k, v in list(s.m.items()):
            if isinstance(k, tuple) and k[0] == "F" and under(k, a):
                s = s.set(self.rebase(k, a, b), v)
        return s.drop(lambda k: under(k, a))

    def bind(self, x, g, fr, nf, s):
        if x.k == "Ctor":
            if x.p is None and x.fn is not None and any(i["e"] is x and not i["m"] for i in x.fn.inits):
                th = s.m.get(("this", fr))
                s = s.set(("this", nf), th)
            else:
                l = None
                y = x
                while y.p is not None and y.p.k == "Cast":
                    y = y.p
                if y.p is not None and y.p.k == "Decl":
                    v = next((v for v in y.p.vars if v[3] is not None and any(z is x for z in v[3].walk())), None)
                    l = ("L", fr, v[0]) if v else None
                if l is None and y.p is None:
                    i = next((i for i in x.fn.inits if i["e"] is y and i["m"]), None)
                    th = s.m.get(("this", fr))
                    if i and isinstance(th, Ptr):
                        l = ("F", th.loc, last(i["m"]))
                s = s.set(("this", nf), Ptr(l or ("N", fr, x.id)))
        elif x.slot("obj") is not None:
            o = x.slot("obj")
            v = self.val(o, fr, s)
            l = v.loc if isinstance(v, Ptr) else self.loc(o, fr, s)
            if l is not None:
                s = s.set(("this", nf), Ptr(l))
        for i, y in enumerate(x.c):
            if i >= len(g.params):
                break
            p = g.params[i]
            t = g.vars[p]["t"]
            if t.endswith("&"):
                l = self.loc(y, fr, s)
                if l is not None and l[0] != "T":
                    s = s.set(("ref", nf, p), Ptr(l))
                    continue
            v = self.val(y, fr, s)
            if t == "bool" and v is not None:
                v = int(self.tv(v))
            elif isinstance(v, int) and t == "double":
                v = float(v)
            s = s.set(("L", nf, p), v)
        return s
