"""What is written to a file and what the program itself reads back: agreement of writers and readers.

The writer is abstracted to the set of lines it can write (texts with typed holes for the values) and to which line can
follow which: a dataflow over its control flow graph, with constant flags.  The reader is abstracted to a transition
system over those lines: constant propagation of its state through the control flow graph, one line at a time, with the
line's text deciding searches, comparisons and conversions.  Nothing is run; every pair (line, reader state) that can occur
is examined."""
from base import *
from rules.common import *
import vals
from vals import const
from rules.runs import mstr1

RULES = {}

INT, REAL, TXT = "\x01", "\x02", "\x03"


def last(q):
    return (q or "").split("::")[-1]


def peel(n):
    n = strip(n)
    while n.k in ("Cast", "Paren") and n.c:
        n = strip(n.c[0])
    return n


def kind_of(t):
    t = (t or "").replace("const ", "").replace("&", "").strip()
    if re.search(r"\b(double|float)\b", t) and "vector" not in t:
        return REAL
    if re.match(r"^(unsigned |signed |long |short |int|size_t|std::size_t|bool)", t + " "):
        return INT
    return TXT


# ---------------------------------------------------------------- writers
class Lines(object):
    """the lines a function can write to a stream, each given to follow(state, line) -> states of whoever reads them"""

    def __init__(self, a, fn, follow, init, stream=None, limit=6000):
        self.a, self.P, self.E = a, a.P, a.E
        self.follow = follow
        self.lines = {}
        self.nodes = {}
        self.puts = {}
        self.over = False
        self.grow = None
        self.n, self.limit = 0, limit
        out = self.func(fn, stream, set((s, (), ()) for s in init), 0)
        # an unfinished last line is a line too
        for s in [x for x in out if x[1]]:
            out |= self.line(s, None)
        self.final = set(p for p, toks, fl in out if not toks)

    def line(self, s, n):
        prev, toks, fl = s
        self.lines.setdefault(toks, n)
        return set((p, (), fl) for p in self.follow(prev, toks))

    def flags(self, fn):
        """local variables only ever given constants"""
        m = self.a.__dict__.setdefault("_flagvars", {})
        if fn.usr not in m:
            res = {}
            for v, ds in fn_defs(self.P, fn).byvar.items():
                if not isinstance(v, int) or v >= len(fn.vars) or fn.vars[v].get("p") or kind_of(fn.vars[v]["t"]) != INT:
                    continue
                if all(d.field is None and d.kind in ("init", "=") and d.rhs is not None and peel(d.rhs).k in ("Lit", "Bool") for d in ds):
                    res[v] = True
            m[fn.usr] = res
        return m[fn.usr]

    def func(self, fn, stream, st, depth):
        """states at the exit of fn entered with the states st; stream: index of the parameter written to, or None for
        the local file stream"""
        P = self.P
        fl = self.flags(fn)
        inn = {fn.entry: set((p, t, (f, ())) for p, t, f in st)}
        out = set()
        work = [fn.entry]
        while work:
            b = work.pop()
            self.n += 1
            if self.n > self.limit:
                self.over = True
                return set()
            blk = fn.blocks[b]
            ss = set(inn[b])
            dead = False
            for j, e in enumerate(blk.el):
                if isinstance(e, Node):
                    ss = self.elem(fn, stream, e, ss, depth, fl)
                    if e.k == "Call" and e.d.get("nr"):
                        dead = True
                        break
            if dead:
                continue
            if b == fn.exit:
                out |= ss
                continue
            for k, t in enumerate(blk.succ):
                if t is None:
                    continue
                go = set(s for s in ss if self.may(fn, blk, k, s))
                old = inn.setdefault(t, set())
                if not go <= old or t not in inn:
                    old |= go
                    if t not in work:
                        work.append(t)
        return set((p, t, f[0]) for p, t, f in out)

    def may(self, fn, blk, k, s):
        if blk.cond is None or len(blk.succ) != 2 or blk.tk == "SwitchStmt":
            return True
        known = dict(s[2][1])
        n, t = blk.cond, k == 0
        n = peel(n)
        while n.k == "Un" and n.d.get("op") == "!":
            n, t = peel(n.c[0]), not t
        if n.k == "Bin" and n.d["op"] in ("==", "!="):
            for i in (0, 1):
                x, y = peel(n.c[i]), peel(n.c[1 - i])
                if x.k == "Var" and y.k in ("Lit", "Bool") and x.d["v"] in known:
                    eq = known[x.d["v"]] == y.d.get("v", y.d.get("cv"))
                    return (eq == (n.d["op"] == "==")) == t
            return True
        if n.k == "Var" and n.d["v"] in known:
            return bool(known[n.d["v"]]) == t
        return True

    def base(self, n):
        """the stream an insertion goes to"""
        n = peel(n)
        while n.k == "Call" and n.d.get("oper") == "<<" or n.k == "Call" and last(n.d.get("q")) in ("setprecision", "precision"):
            n = peel(n.kids[0])
        while n.k == "Un" and n.d.get("op") == "*":
            n = peel(n.c[0])
        return n

    def mine(self, fn, stream, n):
        b = self.base(n)
        if b.k == "Var":
            if stream is not None:
                return b.d["v"] == fn.params[stream]
            return re.search(r"ofstream|ostream", fn.vars[b.d["v"]]["t"]) is not None and b.d["v"] not in fn.params or \
                re.search(r"FILE \*", fn.vars[b.d["v"]]["t"]) is not None and b.d["v"] not in fn.params
        return False

    def elem(self, fn, stream, e, ss, depth, fl):
        if e.k in ("Decl", "Assign"):
            upd = []
            if e.k == "Decl":
                upd = [(v[0], v[3]) for v in e.vars if v[0] in fl and v[3] is not None]
            elif e.d.get("op") == "=" and peel(e.c[0]).k == "Var" and peel(e.c[0]).d["v"] in fl:
                upd = [(peel(e.c[0]).d["v"], e.c[1])]
            for v, r in upd:
                r = peel(r)
                c = r.d.get("v", r.d.get("cv"))
                ss = set((p, t, (f[0], tuple(sorted([x for x in f[1] if x[0] != v] + [(v, c)])))) for p, t, f in ss)
            return ss
        if e.k != "Call":
            return ss
        if e.d.get("oper") == "<<" and len(e.kids) == 2 and self.mine(fn, stream, e.kids[0]):
            return self.put(e, self.token(e.kids[1]), ss)
        nm = last(e.d.get("q"))
        if nm in ("fprintf", "fputs", "fputc", "putc", "fwrite"):
            i = 0 if nm == "fprintf" else 1
            if len(e.c) > i and self.mine(fn, stream, e.c[0 if nm == "fprintf" else len(e.c) - 1]):
                if nm == "fprintf":
                    for tk in self.printf(e):
                        ss = self.put(e, tk, ss)
                    return ss
                x = peel(e.c[0])
                if nm == "fputc" and isinstance(x.d.get("v", x.d.get("cv")), int):
                    return self.put(e, ("t", chr(x.d.get("v", x.d.get("cv")))), ss)
                return self.put(e, self.token(e.c[0]), ss)
        if depth < 4 and not e.d.get("oper"):
            for i, c in enumerate(e.c):
                if re.search(r"ostream|ofstream|FILE", c.t or "") and self.mine(fn, stream, c):
                    gs = [g for g in self.P.resolve(e) if g.blocks and not g.impl and i < len(g.params)]
                    if gs:
                        keep = {}
                        for s in ss:
                            keep.setdefault(s[2], set()).add((s[0], s[1], s[2]))
                        res = set()
                        for f, xs in keep.items():
                            for g in gs:
                                res |= set((p, t, f) for p, t, _ in self.func(g, i, set((p, t, f) for p, t, _ in xs), depth + 1))
                        return res
        return ss

    def token(self, n):
        x = peel(n)
        if x.k == "Str":
            return ("t", x.d["v"])
        if x.k == "Fn":
            return ("t", "\n") if last(x.d.get("q")) == "endl" else None
        if x.k == "Call" and last(x.d.get("q")) in ("setprecision", "setw", "setfill", "fixed", "scientific"):
            return ("p", x)
        c = x.d.get("v") if x.k in ("Lit", "Char") else None
        if isinstance(c, int):
            return ("t", chr(c) if re.search(r"\bchar\b", x.t or "") else str(c))
        if re.match(r"^(const )?char$", (x.ct or x.t or "")):
            return self.hole(TXT, n)
        return self.hole(kind_of(x.ct or x.t), n)

    def hole(self, k, n):
        self.nodes[n.id] = n
        return ("v", k, self.show(n), n.id)

    def show(self, n):
        return vstr(self.E.ev(n))

    def printf(self, e):
        f = peel(e.c[1])
        if f.k != "Str":
            return [("v", TXT, "?", 0)]
        res, i, s = [], 2, f.d["v"]
        for m in re.finditer(r"%%|%[-+ #0]*(?:\d+|\*)?(?:\.(?:\d+|\*))?(?:hh|h|ll|l|L|z|j|t)?([diouxXeEfFgGcsp])|[^%]+", s):
            t = m.group(0)
            if t == "%%":
                res.append(("t", "%"))
            elif m.group(1):
                k = INT if m.group(1) in "diouxX" else REAL if m.group(1) in "eEfFgG" else TXT
                if i < len(e.c):
                    x = peel(e.c[i])
                    if k == TXT and x.k == "Str":
                        res.append(("t", x.d["v"]))
                    else:
                        res.append(self.hole(k, e.c[i]))
                i += 1
            else:
                res.append(("t", t))
        return res

    def put(self, e, tk, ss):
        if tk is None or tk[0] == "p":
            return ss
        res = set()
        for s in ss:
            if tk[0] == "v":
                res.add((s[0], s[1] + (tk,), s[2]))
                continue
            cur = set([s])
            parts = tk[1].split("\n")
            for i, p in enumerate(parts):
                if p:
                    cur = set((c[0], c[1][:-1] + (("t", c[1][-1][1] + p),) if c[1] and c[1][-1][0] == "t" else c[1] + (("t", p),), c[2]) for c in cur)
                if i < len(parts) - 1:
                    nxt = set()
                    for c in cur:
                        nxt |= self.line(c, e)
                    cur = nxt
            res |= cur
        if any(len(s[1]) > 40 for s in res):
            self.grow = e
            return set(s for s in res if len(s[1]) <= 40)
        if len(res) > 600:
            self.over = True
            return set()
        return res


def text(toks):
    """a line with one placeholder character per value, and the values in order"""
    s, vs = "", []
    for t in toks:
        if t[0] == "t":
            s += t[1]
        else:
            s += t[1]
            vs.append(t)
    return s, vs


def shown(toks):
    return "".join(t[1] if t[0] == "t" else {INT: "<int>", REAL: "<real>", TXT: "<text>"}[t[1]] for t in toks).strip()


# ---------------------------------------------------------------- readers
class Tok(object):
    """a value read from a line"""
    __slots__ = ("kind", "name", "id")

    def __init__(self, kind, name, id=None):
        self.kind, self.name, self.id = kind, name, id

    def __repr__(self):
        return "<%s>" % self.name

    def __eq__(self, o):
        return isinstance(o, Tok) and o.name == self.name and o.kind == self.kind and o.id == self.id

    def __hash__(self):
        return hash((self.kind, self.name, self.id))


class L(object):
    """the line (or its stripped copy)"""
    __slots__ = ("s",)

    def __init__(self, s):
        self.s = s

    def __eq__(self, o):
        return isinstance(o, L) and o.s == self.s

    def __hash__(self):
        return hash(self.s)


class Cmp(object):
    """the result of a search or comparison: known truth of 'found'"""
    __slots__ = ("f",)

    def __init__(self, f):
        self.f = f

    def __eq__(self, o):
        return isinstance(o, Cmp) and o.f == self.f

    def __hash__(self):
        return hash(("Cmp", self.f))


class Ref(object):
    __slots__ = ("p",)

    def __init__(self, p):
        self.p = p

    def __eq__(self, o):
        return isinstance(o, Ref) and o.p == self.p

    def __hash__(self):
        return hash(("Ref", self.p))


NPOS = "npos"
NEG = {"<": ">=", ">": "<=", "<=": ">", ">=": "<", "==": "!=", "!=": "=="}
SWAP = {"<": ">", ">": "<", "<=": ">=", ">=": "<=", "==": "==", "!=": "!="}


class Reader(object):
    """transitions of a line reader"""

    def __init__(self, a, fn):
        self.a, self.P, self.E, self.fn = a, a.P, a.E, fn
        self.get = None
        for m in a.P.calls(fn):
            if last(m.d.get("q")) in ("getline", "fgets") and loops_of(m) and a.P.reachable(m):
                self.get = m
                break
        self.n = 0
        self.over = False
        self.memo = {}

    # -- places and values
    def place(self, n, env, fr):
        n = peel(n)
        if n.k == "Var":
            k = (fr, n.d["v"])
            v = env.get(k)
            if isinstance(v, Ref):
                return v.p
            return k
        if n.k == "Mem":
            if not n.kids:
                return ("this", n.d["n"])
            b = peel(n.kids[0])
            if b.k == "This":
                return ("this", n.d["n"])
            p = self.place(b, env, fr)
            return None if p is None else p + (n.d["n"],)
        if n.k == "Un" and n.d.get("op") == "*":
            v = self.val(n.c[0], env, fr)
            return v.p if isinstance(v, Ref) else self.place(n.c[0], env, fr)
        if n.k == "This":
            return ("this",)
        return None

    def val(self, n, env, fr):
        x = n
        while x.k in ("Cast", "Paren") and x.c:
            x = x.c[0]
        x = strip(x)
        if x.k in ("Cast", "Paren"):
            x = peel(x)
        if x.k == "Ctor" and len(x.c) >= 1 and re.search(r"string", x.t or ""):
            return self.val(x.c[0], env, fr)
        if x.k in ("Lit", "Bool", "Char"):
            v = x.d.get("v", x.d.get("cv"))
            return int(v) if isinstance(v, bool) else v
        if x.k == "Str":
            return x.d["v"]
        if x.d.get("cv") is not None and x.k != "Call":
            return x.d["cv"]
        if x.k in ("Global", "Mem", "Fn") and last(x.d.get("q")) == "npos":
            return NPOS
        if x.k in ("Var", "Mem"):
            p = self.place(x, env, fr)
            return env.get(p) if p is not None else None
        if x.k == "Un" and x.d.get("op") == "&":
            p = self.place(x.c[0], env, fr)
            return Ref(p) if p is not None else None
        if x.k == "Un" and x.d.get("op") == "-":
            v = self.val(x.c[0], env, fr)
            return -v if isinstance(v, (int, float)) else None
        if x.k == "Call":
            return env.get(("n", x.id))
        if x.k == "Idx":
            o = self.val(x.c[0], env, fr)
            i = self.val(x.c[1], env, fr)
            return self.char(o, i)
        if x.k == "Un" and x.d.get("op") == "*":
            p = self.place(x, env, fr)
            o = self.val(x.c[0], env, fr)
            if isinstance(o, L):
                return self.char(o, 0)
            return env.get(p) if p is not None else None
        if x.k == "Bin":
            if x.d["op"] in NEG or x.d["op"] in ("&&", "||"):
                t = self.truth(x, env, fr)
                return None if t is None else int(t)
            l, r = self.val(x.c[0], env, fr), self.val(x.c[1], env, fr)
            if isinstance(l, int) and isinstance(r, int) and x.d["op"] in ("+", "-"):
                return l + r if x.d["op"] == "+" else l - r
        return None

    def char(self, o, i):
        if isinstance(o, L) and isinstance(i, int) and 0 <= i <= len(o.s):
            return ord(o.s[i]) if i < len(o.s) else 0
        return None

    def truth(self, n, env, fr):
        n = peel(n)
        if n.k == "Un" and n.d.get("op") == "!":
            t = self.truth(n.c[0], env, fr)
            return None if t is None else not t
        if n.k == "Bin" and n.d["op"] in ("&&", "||"):
            l, r = self.truth(n.c[0], env, fr), self.truth(n.c[1], env, fr)
            if n.d["op"] == "&&":
                return False if l is False or r is False else True if l and r else None
            return True if l or r else False if l is False and r is False else None
        if n.k == "Bin" and n.d["op"] in NEG:
            op = n.d["op"]
            l, r = self.val(n.c[0], env, fr), self.val(n.c[1], env, fr)
            if isinstance(r, (Cmp, Tok)) and not isinstance(l, (Cmp, Tok)):
                l, r, op = r, l, SWAP[op]
                ln, rn = n.c[1], n.c[0]
            else:
                ln, rn = n.c[0], n.c[1]
            if isinstance(l, Cmp):
                if op in ("==", "!=") and (r == NPOS or r == -1):
                    return l.f == (op == "!=")
                return None
            if isinstance(l, Tok):
                return self.tokcmp(l, op, r, rn)
            if isinstance(l, (int, float)) and isinstance(r, (int, float)):
                if isinstance(r, int) and r in (1, 2, 3) and "char" in (peel(rn).t or "") + (peel(ln).t or ""):
                    l, r, op = r, l, SWAP[op]
                if isinstance(l, int) and l in (1, 2, 3) and "char" in (peel(rn).t or "") + (peel(ln).t or ""):
                    c = chr(int(r))
                    return None if c in "0123456789-+.einfa" else (op == "!=") if op in ("==", "!=") else None
                return {"<": l < r, ">": l > r, "<=": l <= r, ">=": l >= r, "==": l == r, "!=": l != r}[op]
            for i, (p, q) in enumerate(((l, r), (r, l))):
                if isinstance(p, L) and isinstance(q, int) and q == 0:
                    return op == "!="
            return None
        if n.k == "Call" and n.d.get("oper") in ("==", "!="):
            v = env.get(("n", n.id))
            return bool(v) if isinstance(v, (int, bool)) else None
        if n.k == "Un" and n.d.get("op") == "!":
            return None
        v = self.val(n, env, fr)
        if isinstance(v, bool) or isinstance(v, (int, float)):
            return bool(v)
        return None

    def tokcmp(self, t, op, r, rn):
        """what is written is a whole number from 0 to the size of its range less one"""
        if t.kind == REAL and not isinstance(r, Tok):
            return None
        if isinstance(r, (int, float)):
            if op in ("<", "<="):
                return False if r < 0 or r == 0 and op == "<" else None
            if op in (">", ">="):
                return True if r < 0 or r == 0 and op == ">=" else None
            if op in ("==", "!="):
                return (op == "!=") if r < 0 else None
            return None
        if r is None and op in ("<", "<=", ">", ">="):
            v = self.E.ev(rn)
            cs = set()
            for p in v:
                c = [s for s, m in p if not m]
                at = [(s, m) for s, m in p if m]
                k = 0
                for s, m in p:
                    st = mstr1(m)
                    if st in ("", "1"):
                        k += s
                    elif re.match(r"^#[\d.]+$", st):
                        k += s * float(st[1:])
                    else:
                        if s != 1 or not re.search(r"\.(num\w+|size\(\)|getNum\w+\(\)|size_?)$|num(States|Actions|Obs)", st):
                            return None
                cs.add(k)
            if len(cs) != 1:
                return None
            c = cs.pop()
            if op == "<":
                return True if c >= 0 else None
            if op == "<=":
                return True if c >= -1 else None
            if op == ">":
                return False if c >= -1 else None
            if op == ">=":
                return False if c >= 0 else None
        return None

    # -- steps
    def run(self, fn, b, i, env, ev, fr, depth):
        """outcomes from (b, i): list of (kind, env, events, value)"""
        out = []
        st = [(b, i, env, ev)]
        seen = set()
        while st:
            b, i, env, ev = st.pop()
            key = (b, i, tuple(sorted(env.items(), key=repr)) if False else frozenset(env.items()), ev)
            if key in seen:
                continue
            seen.add(key)
            self.n += 1
            if self.n > 60000 or len(ev) > 60:
                self.over = True
                return out
            blk = fn.blocks[b]
            stop = False
            envs = [(env, ev)]
            for j in range(i, len(blk.el)):
                e = blk.el[j]
                if not isinstance(e, Node):
                    continue
                nxt = []
                for env, ev in envs:
                    for kind, e2, v2, val in self.elem(fn, e, env, ev, fr, depth):
                        if kind == "go":
                            nxt.append((e2, v2))
                        else:
                            out.append((kind, e2, v2, val))
                envs = nxt
                if not envs:
                    stop = True
                    break
                if e.k == "Return":
                    for env, ev in envs:
                        out.append(("ret", env, ev, self.val(e.c[0], env, fr) if e.c else None))
                    stop = True
                    break
            if stop:
                continue
            if b == fn.exit:
                for env, ev in envs:
                    out.append(("ret", env, ev, None))
                continue
            for env, ev in envs:
                for t in self.succ(fn, blk, env, fr):
                    st.append((t, 0, env, ev))
        return out

    def succ(self, fn, blk, env, fr):
        ss = blk.succ
        if blk.tk == "SwitchStmt" and blk.cond is not None:
            v = self.val(blk.cond, env, fr)
            cases, other = [], None
            for t in ss:
                if t is None:
                    continue
                lab = fn.blocks[t].label
                if lab is not None and lab.k == "Case":
                    vs, n = [], lab
                    while n is not None and n.k == "Case":
                        vs.append(n.d.get("cv"))
                        n = next((y for y in n.kids if y.k in ("Case", "Default")), None)
                    cases.append((t, vs))
                else:
                    other = t
            if isinstance(v, int):
                hit = [t for t, vs in cases if v in vs]
                return hit or ([other] if other is not None else [])
            return [t for t, _ in cases] + ([other] if other is not None else [])
        if blk.cond is None or len(ss) != 2:
            return [t for t in ss if t is not None]
        t = self.truth(blk.cond, env, fr)
        return [x for k, x in enumerate(ss) if x is not None and (t is None or t == (k == 0))]

    def setv(self, env, k, v):
        e = dict(env)
        for q in list(e):
            if isinstance(q, tuple) and len(q) > len(k) and q[:len(k)] == k:
                del e[q]
        if v is None:
            e.pop(k, None)
        else:
            e[k] = v
        return e

    def elem(self, fn, e, env, ev, fr, depth):
        if e.k == "Decl":
            for v in e.vars:
                x = self.val(v[3], env, fr) if v[3] is not None else None
                if v[3] is not None and peel(v[3]).k == "Ctor":
                    c = peel(v[3])
                    if c.c and re.search(r"istringstream|stringstream", fn.vars[v[0]]["t"]):
                        y = self.val(c.c[0], env, fr)
                        x = ("ss", y.s, True) if isinstance(y, L) else None
                if "&" in (fn.vars[v[0]]["t"] or "") and v[3] is not None:
                    p = self.place(v[3], env, fr)
                    x = Ref(p) if p is not None else None
                env = self.setv(env, (fr, v[0]), x)
                r = peel(v[3]) if v[3] is not None else None
                if r is not None and (r.k == "New" or r.k == "Ctor" and not re.search(r"stream|string", r.t or "")):
                    ev = ev + (("fresh", (fr, v[0])),)
            return [("go", env, ev, None)]
        if e.k == "Assign":
            p = self.place(e.c[0], env, fr)
            if p is not None:
                v = self.val(e.c[1], env, fr) if e.d.get("op") == "=" else None
                env = self.setv(env, p, v)
                if isinstance(v, Tok):
                    ev = ev + (("store", p, v),)
                if peel(e.c[1]).k == "New":
                    ev = ev + (("fresh", p),)
            return [("go", env, ev, None)]
        if e.k == "Un" and e.d.get("op") in ("++", "--", "post++", "post--"):
            p = self.place(e.c[0], env, fr)
            if p is not None:
                env = self.setv(env, p, None)
            return [("go", env, ev, None)]
        if e.k == "Call":
            return self.call(fn, e, env, ev, fr, depth)
        if e.k == "New" or e.k == "Ctor":
            return [("go", env, ev, None)]
        return [("go", env, ev, None)]

    def ret(self, e, env, ev, v):
        env = self.setv(env, ("n", e.id), v)
        return [("go", env, ev, None)]

    def call(self, fn, e, env, ev, fr, depth):
        nm = last(e.d.get("q"))
        if e is self.get:
            return [("next", env, ev, None)]
        if e.d.get("nr"):
            return [("fail", env, ev, e)]
        o = e.slot("obj")
        op = e.d.get("oper")
        args = [self.val(c, env, fr) for c in e.kids] if op else [self.val(c, env, fr) for c in e.c]
        ov = self.val(o, env, fr) if o is not None else None
        if op in ("==", "!=") and len(args) == 2:
            x, y = args
            if isinstance(y, L):
                x, y = y, x
            if isinstance(x, L) and isinstance(y, str):
                return self.ret(e, env, ev, int((x.s == y) == (op == "==")))
            return self.ret(e, env, ev, None)
        if op == "[]" and len(args) == 2:
            return self.ret(e, env, ev, self.char(args[0], args[1]))
        if op == "=" and len(args) == 2:
            p = self.place(e.kids[0], env, fr)
            if p is not None:
                env = self.setv(env, p, args[1])
                if isinstance(args[1], Tok):
                    ev = ev + (("store", p, args[1]),)
                elif peel(e.kids[1]).k == "Ctor" and not peel(e.kids[1]).c:
                    ev = ev + (("fresh", p),)
            return self.ret(e, env, ev, args[1])
        if op == ">>" and len(args) == 2:
            b = peel(e.kids[0])
            while b.k == "Call" and b.d.get("oper") == ">>":
                b = peel(b.kids[0])
            if b.k == "Var":
                s = env.get((fr, b.d["v"]))
                if isinstance(s, tuple) and s and s[0] == "ss":
                    return self.extract(e, (fr, b.d["v"]), s, env, ev, fr)
            return self.ret(e, env, ev, None)
        if op in ("!",) or nm in ("fail", "operator bool", "operator!", "good", "bad"):
            t = ov if ov is not None else args[0] if args else None
            if isinstance(t, tuple) and t and t[0] == "ss":
                return self.ret(e, env, ev, int(t[2]) if nm in ("operator bool", "good") else int(not t[2]))
            return self.ret(e, env, ev, None)
        if isinstance(ov, L):
            if nm in ("c_str", "data"):
                return self.ret(e, env, ev, ov)
            if nm in ("size", "length"):
                return self.ret(e, env, ev, len(ov.s))
            if nm == "empty":
                return self.ret(e, env, ev, int(not ov.s))
            if nm in ("find", "rfind") and args and isinstance(args[0], (str, int)) and not isinstance(args[0], bool):
                t = args[0] if isinstance(args[0], str) else chr(args[0])
                if nm == "rfind" and len(args) > 1 and args[1] == 0 or False:
                    return self.ret(e, env, ev, Cmp(ov.s.startswith(t)))
                return self.ret(e, env, ev, Cmp(t in ov.s))
            if nm in ("at",) and args:
                return self.ret(e, env, ev, self.char(ov, args[0]))
            if nm in ("compare",) and len(args) == 1 and isinstance(args[0], str):
                return self.ret(e, env, ev, int(ov.s != args[0]))
            if nm in ("compare",) and len(args) == 3 and args[0] == 0 and isinstance(args[2], str) and isinstance(args[1], int):
                return self.ret(e, env, ev, int(ov.s[:args[1]] != args[2]))
            if nm == "substr":
                return self.ret(e, env, ev, None)
        if nm in ("strcmp", "strncmp", "strstr", "strlen") and args:
            x = args[0]
            if nm == "strlen" and isinstance(x, L):
                return self.ret(e, env, ev, len(x.s))
            if len(args) > 1 and isinstance(x, L) and isinstance(args[1], str):
                if nm == "strcmp":
                    return self.ret(e, env, ev, int(x.s != args[1]))
                if nm == "strncmp" and isinstance(args[2], int):
                    return self.ret(e, env, ev, int(x.s[:args[2]] != args[1][:args[2]]))
                if nm == "strstr":
                    return self.ret(e, env, ev, int(args[1] in x.s))
        if nm == "sscanf" and args and isinstance(args[0], L) and len(args) > 1 and isinstance(args[1], str):
            return self.sscanf(e, args, env, ev, fr)
        if nm in ("atoi", "atol", "atof", "strtol", "strtod") and args and isinstance(args[0], L):
            s = args[0].s.lstrip()
            vs = self.toks
            v = None
            if s[:1] in (INT, REAL):
                i = self.line.index(s[:1]) if s[:1] in self.line else 0
                v = self.holes(self.line)[0] if self.holes(self.line) else None
            return self.ret(e, env, ev, v)
        # a helper that is given the line
        gs = [g for g in self.P.resolve(e) if g.blocks and not g.impl]
        if any(isinstance(x, L) for x in args) and len(gs) == 1:
            g = gs[0]
            if self.strips(g):
                x = next(x for x in args if isinstance(x, L))
                return self.ret(e, env, ev, L(x.s.strip(" \t")))
            if depth < 2:
                return self.inline(e, g, args, env, ev, fr, depth)
        if len(gs) == 1 and depth < 2 and not op and len(gs[0].blocks) < 30 and gs[0].file == fn.file and not gs[0].cls:
            return self.inline(e, gs[0], args, env, ev, fr, depth)
        # events
        objp = self.place(o, env, fr) if o is not None else None
        if objp is not None and nm in ("size", "filled", "empty") and not e.c:
            k = env.get(objp + ("#",), 0 if isinstance(objp[0], tuple) and fr[:len(objp[0])] == objp[0] else None)
            return self.ret(e, env, ev, None if k is None else int(not k) if nm == "empty" else k)
        if objp is not None and nm in ("push_back", "emplace_back", "insert"):
            env = self.setv(env, objp + ("#",), 1)
        elif objp is not None and nm in ("clear",) or objp is not None and nm == "resize" and "vector" in (o.t or "") and "std::" not in (o.t or ""):
            env = self.setv(env, objp + ("#",), 0)
        if nm and not op:
            ev = ev + (("call", nm, objp, tuple(x if isinstance(x, (Tok, int, str)) else None for x in args), e),)
        for c, x in zip(e.c, args):
            if isinstance(x, Ref):
                env = self.setv(env, x.p, None)
        if op in ("+=", "++", "--", "-="):
            p = self.place(e.kids[0], env, fr)
            if p is not None:
                env = self.setv(env, p, None)
        return self.ret(e, env, ev, None)

    def inline(self, e, g, args, env, ev, fr, depth):
        nf = fr + (e.id,)
        env2 = dict(env)
        for i, p in enumerate(g.params):
            if i < len(args):
                v = args[i]
                if "&" in (g.vars[p]["t"] or "") and not isinstance(v, (L, str)):
                    q = self.place(e.c[i], env, fr)
                    v = Ref(q) if q is not None else v
                if v is not None:
                    env2[(nf, p)] = v
        res = []
        for kind, e2, v2, val in self.run(g, g.entry, 0, env2, ev, nf, depth + 1):
            e3 = {k: v for k, v in e2.items() if not (isinstance(k, tuple) and k and k[0] == nf)}
            if kind == "ret":
                res.extend(self.ret(e, e3, v2, val))
            else:
                res.append((kind, e3, v2, val))
        return res

    def strips(self, g):
        return any(last(m.d.get("q")) in ("find_first_not_of", "isspace") for m in self.P.calls(g)) and \
            re.search(r"string|char \*", g.rt or "") is not None

    def holes(self, s):
        vs, i = [], 0
        for c in self.line:
            if c in (INT, REAL, TXT):
                t = self.toks[i]
                vs.append(Tok(c, t[2], t[3]))
                i += 1
        return vs

    def hole_at(self, pos):
        return sum(1 for c in self.line[:pos] if c in (INT, REAL, TXT))

    def sscanf(self, e, args, env, ev, fr):
        s, fmt = args[0].s, args[1]
        off = self.line.find(s) if s in self.line else 0
        i, k, cnt, part = 0, 2, 0, False
        pos = 0
        hs = self.holes(self.line)
        for m in re.finditer(r"\s+|%%|%(\*)?(\d+)?(?:hh|h|ll|l|L|z)?(\[\^?\]?[^\]]*\]|[diouxXeEfFgGcsn])|[^%\s]", fmt):
            t = m.group(0)
            if t.isspace():
                while pos < len(s) and s[pos] in " \t\n":
                    pos += 1
                continue
            conv = m.group(3)
            if conv is None:
                c = "%" if t == "%%" else t
                if pos < len(s) and s[pos] == c:
                    pos += 1
                    continue
                break
            if conv != "c" and conv[0] != "[":
                while pos < len(s) and s[pos] in " \t\n":
                    pos += 1
            if pos >= len(s):
                break
            tok = None
            if conv in "diouxX":
                if s[pos] == INT:
                    tok = hs[self.hole_at(off + pos)]
                    pos += 1
                elif s[pos] == REAL:
                    # only the whole part is converted
                    h = hs[self.hole_at(off + pos)]
                    tok = Tok(INT, "whole part of " + h.name)
                    pos += 1
                    part = True
                else:
                    g = re.match(r"[-+]?\d+", s[pos:])
                    if not g:
                        break
                    tok = int(g.group(0))
                    pos += len(g.group(0))
            elif conv in "eEfFgG":
                if s[pos] in (INT, REAL):
                    h = hs[self.hole_at(off + pos)]
                    if h.kind == REAL and re.search(r"%(\*)?(\d+)?[eEfFgG]$", t):
                        p = e.c[k] if k < len(e.c) else None
                        if p is not None and "double" in (p.t or ""):
                            h = Tok(REAL, "misread " + h.name)
                    tok = h
                    pos += 1
                else:
                    g = re.match(r"[-+]?[\d.]+(?:[eE][-+]?\d+)?", s[pos:])
                    if not g:
                        break
                    tok = float(g.group(0)) if g.group(0) != "." else None
                    pos += len(g.group(0))
            elif conv == "s":
                g = re.match(r"\S+", s[pos:])
                tok = g.group(0)
                if any(c in tok for c in (INT, REAL, TXT)):
                    tok = None
                pos += len(g.group(0))
            elif conv == "n":
                k += 1
                continue
            else:
                if conv[0] == "[":
                    # a set of characters: digits stand for numbers
                    neg = conv[1:2] == "^"
                    cs = conv[2:-1] if neg else conv[1:-1]
                    cs = re.sub(r"(.)-(.)", lambda g: "".join(chr(c) for c in range(ord(g.group(1)), ord(g.group(2)) + 1)), cs)
                    p0 = pos
                    while pos < len(s):
                        c = s[pos]
                        isin = any(d in cs for d in "0123456789") if c in (INT, REAL) else c in cs
                        if isin == neg:
                            break
                        pos += 1
                    if pos == p0:
                        break
                else:
                    pos += 1
            if m.group(1):
                continue
            if k < len(args):
                p = args[k]
                if isinstance(p, Ref):
                    env = self.setv(env, p.p, tok)
                    if isinstance(tok, Tok):
                        ev = ev + (("store", p.p, tok),)
            k += 1
            cnt += 1
            if part:
                break
        return self.ret(e, env, ev, cnt)

    def extract(self, e, key, s, env, ev, fr):
        txt, ok = s[1].lstrip(" \t\n"), s[2]
        tgt = self.place(e.kids[1], env, fr)
        k = kind_of(e.kids[1].ct or e.kids[1].t)
        tok = None
        if ok:
            if not txt:
                ok = False
            elif re.search(r"\bchar$", e.kids[1].t or ""):
                tok, txt = ord(txt[0]), txt[1:]
            elif k == TXT:
                g = re.match(r"\S+", txt).group(0)
                tok = L(g)
                txt = txt[len(g):]
            elif txt[0] in (INT, REAL):
                h = self.holes(self.line)
                pos = len(self.line.rstrip()) - len(txt.rstrip())
                hh = h[self.hole_at(pos)]
                if k == INT and hh.kind == REAL:
                    hh = Tok(INT, "whole part of " + hh.name)
                tok, txt = hh, txt[1:]
            else:
                ok = False
        env = self.setv(env, key, ("ss", txt, ok))
        if tgt is not None:
            env = self.setv(env, tgt, tok)
            if isinstance(tok, Tok):
                ev = ev + (("store", tgt, tok),)
        return self.ret(e, env, ev, ("ss", txt, ok))

    # -- one line
    def prelude(self):
        """environments in which the first line is read"""
        self.line, self.toks = "", []
        res = set()
        for kind, env, ev, v in self.run(self.fn, self.fn.entry, 0, {}, (), (), 0):
            if kind == "next":
                res.add(self.keep(env))
        return res

    def keep(self, env):
        """what survives to the next line: constants, and which places hold values read"""
        return frozenset((k, v) for k, v in env.items() if isinstance(k, tuple) and k and k[0] != "n" and isinstance(v, (int, str, Tok)))

    def start(self):
        return self.P.position(self.get)

    def step(self, state, toks):
        """outcomes of reading the line toks in the reader's state"""
        key = (state, toks)
        if key in self.memo:
            return self.memo[key]
        self.line, vs = text(toks)
        self.toks = vs
        env = dict(state)
        buf = self.buffer()
        if buf is not None:
            env[((), buf)] = L(self.line)
        env[("n", self.get.id)] = 1
        b, i = self.start()
        out = []
        for kind, e2, ev, v in self.more(env, b, i, True):
            out.append((kind, self.keep(e2), ev, v))
        self.memo[key] = out
        return out

    def more(self, env, b, i, got):
        """continue behind the call that gets a line, having got one or reached the end"""
        blk = self.fn.blocks[b]
        # the branch on the call's result
        c = peel(blk.cond) if blk.cond is not None else None
        if c is not None and any(x is self.get for x in blk.cond.walk()):
            t, n = got, c
            neg = False
            while n.k == "Un" and n.d.get("op") == "!" or n.k == "Call" and n.d.get("oper") == "!":
                n, neg = peel(n.c[0] if n.c else n.slot("obj")), not neg
            if n.k == "Bin" and n.d["op"] == "==":
                neg = not neg
            k = 0 if (got != neg) else 1
            s = blk.succ[k]
            rest = [x for x in blk.el[i + 1:] if isinstance(x, Node) and x.k == "Call"]
            e2 = dict(env)
            return self.run(self.fn, s, 0, e2, (), (), 0) if s is not None else []
        return self.run(self.fn, b, i + 1, env, (), (), 0)

    def finish(self, state):
        key = (state, None)
        if key not in self.memo:
            self.line, self.toks = "", []
            b, i = self.start()
            out = []
            for kind, e2, ev, v in self.more(dict(state), b, i, False):
                out.append((kind, self.keep(e2), ev, v))
            self.memo[key] = out
        return self.memo[key]

    def buffer(self):
        m = self.get
        for c in m.c:
            x = peel(c)
            if x.k == "Var" and re.search(r"char|string", self.fn.vars[x.d["v"]]["t"]):
                return x.d["v"]
        return None


class Agree(object):
    """the writer's lines run through the reader's transitions, with a monitor that watches what the reader does:
    mon(m, events, line, end) -> (m', [complaints])"""

    def __init__(self, a, w, r, mon=None, m0=None):
        self.a = a
        self.R = Reader(a, r)
        self.seen = {}
        self.ends = {}
        self.bad = {}
        self.over = False
        self.W = None
        if self.R.get is None:
            return
        mon = mon or (lambda m, ev, toks, end: (m, []))
        self.init = set((s, m0) for s in self.R.prelude())

        def say(msgs, toks, n=None):
            for x in msgs:
                self.bad.setdefault((x, toks), n)

        def follow(st, toks):
            s, m = st
            o = self.R.step(s, toks)
            self.seen.setdefault((toks, s), o)
            res = set()
            for k, s2, ev, v in o:
                if k == "fail":
                    say(["the reader can reject the line"], toks, v)
                    continue
                if k == "ret":
                    say(["the reader stops reading at the line"], toks, v if isinstance(v, Node) else None)
                    continue
                m2, msgs = mon(m, ev, toks, False)
                say(msgs, toks)
                res.add((s2, m2))
            return res
        self.W = Lines(a, w, follow, self.init)
        for s, m in self.W.final:
            o = self.R.finish(s)
            self.ends[(s, m)] = o
            for k, s2, ev, v in o:
                if k == "ret":
                    m2, msgs = mon(m, ev, None, True)
                    say(msgs, None)
        self.over = self.W.over or self.R.over

    def report(self, rule, what, fn):
        a = self.a
        if self.W is None or self.over:
            return a.ok(rule, fn.where(), "%s: not read line by line" % what)
        if self.W.grow is not None:
            g = self.W.grow.fn
            a.fail(rule, g.where(self.W.grow), "%s: a line grows with the number of things written, and the reader's lines do not" % what)
        for (x, toks), n in sorted(self.bad.items(), key=lambda y: (y[0][0], shown(y[0][1] or ()))):
            l = "at the end of the file" if toks is None else "line '%s'" % re.sub(r"<\w+>", lambda g: g.group(0), shown(toks))
            a.fail(rule, fn.where(n) if isinstance(n, Node) else fn.where(), "%s: %s (%s)" % (what, x, l), key="%s|%s|%s|%s" % (rule, what, x, l))
        for (toks, s) in self.seen:
            t = shown(toks)
            if t and not t.startswith("#"):
                a.ok(rule, fn.where(), "%s: line '%s'" % (what, t))
        a.ok(rule, fn.where(), "%s: end of file" % what)


def holes(toks, k=None):
    return [t for t in toks or () if t[0] == "v" and (k is None or t[1] == k)]


# ---------------------------------------------------------------- I04
def find_pair(a, cls):
    P = a.P
    w = [g for g in P.funcs.values() if g.blocks and not g.impl and last(g.q) == "writeToFile" and re.search(r"(^|::)%s::" % cls, g.q)]
    r = [g for g in P.funcs.values() if g.blocks and not g.impl and last(g.q) == "readFromFile" and re.search(r"(^|::)%s::" % cls, g.q)]
    return (w[0] if w else None), (r[0] if r else None)


def reaches(P, n, name):
    if last(n.d.get("q")) == name:
        return True
    gs = [g for g in P.resolve(n) if g.blocks and not g.impl]
    return any(P.reaches_call(g, lambda m: last(m.d.get("q")) == name) for g in gs)


def i04(a):
    P, E = a.P, a.E
    w, r = find_pair(a, "MaxPlanesLowerBound")
    a.need("I04.lines", int(w is not None and r is not None), 1, "writer and reader of policy files")
    if not w or not r:
        return

    def isdata(toks):
        return toks is not None and bool(holes(toks, REAL))

    def mon(m, ev, toks, end):
        # m: (plane being read, its entries cleared, its mask up to date)
        msgs = []
        pend, clr, mask = m
        took = False
        for x in ev:
            if x[0] == "fresh":
                if not pend:
                    clr = True
            elif x[0] == "store" and x[1][-1] == "action" and len(x[1]) > 1:
                if pend:
                    msgs.append("a plane is given another action before it has been added to the policy")
                if not x[2].name.endswith("LBPlane.action"):
                    msgs.append("a value that is not the plane's action is read as its action")
                pend, mask = True, False
            elif x[0] == "call":
                nm, pl, args, n = x[1], x[2], x[3], x[4]
                if nm in ("resize", "clear") and pl is not None and pl[-1] == "alpha":
                    clr = True
                elif nm in ("push_back", "set_entry", "emplace_back") and pl is not None and pl[-1] == "alpha":
                    if not pend:
                        msgs.append("an entry is read outside any plane")
                    if not clr:
                        msgs.append("an entry is added to the entries of the plane before it")
                    mask = False
                    ts = [y for y in args if isinstance(y, Tok)]
                    if len(args) == 2 and len(ts) == 2 and ts[0].kind == INT and ts[1].kind == REAL and re.match(r"^\+@LBPlane\.alpha\[", ts[1].name):
                        took = True
                    else:
                        msgs.append("an entry is stored as (%s)" % ", ".join("value" if isinstance(y, Tok) and y.kind == REAL else "%s" % re.sub(r"[+@].*", "value", y.name) if isinstance(y, Tok) and " of " in y.name or isinstance(y, Tok) and y.name.startswith("misread") else "index" if isinstance(y, Tok) else str(y) for y in args))
                        took = True
                elif nm.startswith("mask_") or "mask" in " ".join(y.d.get("n", "") for c in n.c for y in c.walk() if y.k == "Mem"):
                    mask = True
                elif not reaches(P, n, "addLBPlane") and (reaches(P, n, "mask_set_to_one") or reaches(P, n, "mask_set_all")):
                    mask = True
                elif reaches(P, n, "addLBPlane"):
                    if not pend:
                        msgs.append("a plane is added though none was read since the last")
                    if nm == "addLBPlane" and not mask:
                        msgs.append("a plane is added without the support of its entries")
                    pend, clr, mask = False, False, False
        if isdata(toks) and not took and not end:
            msgs.append("an entry of a plane is not stored")
        if end and pend:
            msgs.append("the last plane is not added to the policy")
        if toks is not None and any(t[2].endswith("LBPlane.action") for t in holes(toks, INT)) and not any(x[0] == "store" and x[1][-1] == "action" for x in ev):
            msgs.append("the action of a plane is not stored")
        return (pend, clr, mask), msgs

    A_ = Agree(a, w, r, mon, (False, False, False))
    A_.report("I04.lines", "policy file", r)
    if A_.W is None or A_.over:
        return
    toks = list(A_.W.lines)
    nd = [t for t in toks if isdata(t)]
    a.check(bool(nd) and any(any(h[2].endswith("LBPlane.action") for h in holes(t, INT)) for t in toks), "I04.content", w.where(),
            "the policy file holds actions and entries of the planes", "the policy file does not hold the planes' actions and entries")
    # index and value belong together
    done = set()
    for t in nd:
        hi, hr = holes(t, INT), holes(t, REAL)
        if len(hi) != 1 or len(hr) != 1:
            a.fail("I04.content", w.where(), "an entry line holds %d indices and %d values" % (len(hi), len(hr)))
            continue
        if (hi[0][3], hr[0][3]) in done:
            continue
        done.add((hi[0][3], hr[0][3]))
        ni, nr = A_.W.nodes[hi[0][3]], A_.W.nodes[hr[0][3]]
        v = [m[0] for p in E.ev(nr) for s, m in p if len(m) == 1]
        g = ni.fn
        x = peel(nr)
        good = None
        ds = a.E.resolve(nr) if hasattr(a.E, "resolve") else [x]
        if x.k == "Var":
            defs, entry = E.reaching(g, x.d["v"], P.position(nr), None)
            ds = [peel(d.rhs) for d in defs if d.rhs is not None]
        else:
            ds = [x]
        for y in ds:
            if y.k == "Call" and y.d.get("oper") in ("()", "[]") and len(y.kids) == 2:
                iv, wv = E.ev(y.kids[1]), E.ev(ni)
                good = iv == wv if good is None else good and iv == wv
                fld = peel(y.kids[0])
        a.check(good is not False and re.match(r"^\+@LBPlane\.alpha\[", hr[0][2]) is not None, "I04.content", g.where(nr), "an entry line holds an index and the plane's entry at that index",
                "an entry line holds an index and a value that is not the plane's entry at that index")
    # counts
    for t in toks:
        for lab, want in (("numPlanes", r"^\+@MaxPlanesLowerBound\.planes\.size\(\)$"), ("numEntries", r"^\+@LBPlane\.(mask\.filled\(\)|mask\.size\(\)|mask\.data\.size\(\)|alpha\.size\(\)|alpha\.size_|alpha\.data\.size\(\))$")):
            if lab in shown(t):
                for h in holes(t):
                    good = re.match(want, h[2]) is not None or "|" in h[2]
                    a.check(good, "I04.count", w.where(), "%s is %s" % (lab, h[2]), "%s is written as %s" % (lab, h[2][:60]))
    every_plane(a, w)
    entries(a, A_, nd)
    # the reader leaves the bound ready
    sets = [d for d in field_sets(a, r, "initialized")]
    if any(f["n"] == "initialized" for f in fields_of(P, "MaxPlanesLowerBound")):
        edges = set()
        bad = uncut(a, r, (r.entry, -1), "exit", edges, elem=lambda x: any(x is y for y in sets)) if sets else True
        a.check(bad is None, "I04.ready", r.where(), "reading a policy marks the bound as initialised", "reading a policy can end without the bound being marked as initialised")


def fields_of(P, cls):
    for u, R in P.records.items():
        if re.search(r"(^|::)%s$" % cls, R["q"]):
            return R["fields"]
    return []


def field_sets(a, fn, name):
    P = a.P
    out = []
    for d in [x for x in fn.nodes.values() if x.k == "Assign"]:
        l = peel(d.c[0])
        if l.k == "Mem" and l.d["n"] == name and d.d.get("op") == "=":
            r = peel(d.c[1])
            if r.d.get("v", r.d.get("cv")) in (1, True):
                out.append(d)
    return out


def count(v):
    """(constant, text of the rest) of a value with one alternative"""
    if v is None or len(v) != 1:
        return None
    k, rest = 0.0, []
    for s, m in next(iter(v)):
        st = mstr1(m)
        if st in ("", "1"):
            k += s
        elif re.match(r"^#[\d.]+$", st):
            k += s * float(st[1:])
        else:
            rest.append((s, st))
    return k, tuple(sorted(rest))


def coverage(a, rule, sites, want, what, w, idx=None):
    """the sites together treat every element once: a loop over all of them, or a loop over all but one and a site outside
    for the remaining one"""
    P, E = a.P, a.E
    tot, whole, unknown = (0.0, ()), 0, False
    for n in sites:
        if isinstance(n, Loop):
            L = n
        else:
            lp = [L for L in loops_of(n)]
            if not lp:
                tot = (tot[0] + 1, tot[1])
                continue
            L = loop_info(a, lp[0])
        if L is None or L.kind in ("range", "iter"):
            whole += 1
            continue
        c = count(L.hi)
        lo = count(L.lo)
        if c is None or lo is None:
            unknown = True
            continue
        k = c[0] - lo[0] + (1 if L.incl else 0)
        rest = tuple(sorted(tot[1] + c[1] + tuple((-s, t) for s, t in lo[1])))
        if lo[1] and lo[1] == c[1]:
            rest = tot[1]
        tot = (tot[0] + k, rest)
    if unknown:
        return a.ok(rule, w, "%s (loop not counted)" % what)
    if whole:
        return a.check(whole == 1 and tot == (0.0, ()), rule, w, what, "%s: some are treated twice" % what)
    good = tot[0] == 0 and len(tot[1]) == 1 and tot[1][0][0] == 1 and re.search(want, tot[1][0][1]) is not None
    a.check(good, rule, w, what, "%s: %s%+d are treated" % (what, " ".join(t for s, t in tot[1]), tot[0]))


def groups(P, sites):
    """sites that can follow one another in the same run of the function"""
    gs = []
    for n in sites:
        hit = None
        for g in gs:
            if any(m.fn is n.fn and (P.position(n)[0] in reachable(m.fn, P.position(m)[0]) or P.position(m)[0] in reachable(m.fn, P.position(n)[0])) for m in g):
                g.append(n)
                hit = g
                break
        if hit is None:
            gs.append([n])
    return gs


def reachable(fn, b):
    seen, st = set([b]), [b]
    while st:
        for s in fn.blocks[st.pop()].succ:
            if s is not None and s not in seen:
                seen.add(s)
                st.append(s)
    return seen


def every_plane(a, w):
    P, E = a.P, a.E
    sites = []
    for m in P.calls(w):
        if m.d.get("oper") or not P.reachable(m):
            continue
        for g in P.resolve(m):
            if g.blocks and re.search(r"(^|::)LBPlane::", g.q) and any(re.search(r"stream|FILE", c.t or "") for c in m.c):
                sites.append(m)
                break
    if not sites:
        return a.ok("I04.all", w.where(), "planes written in another function")
    for g in groups(P, sites):
        coverage(a, "I04.all", g, r"planes\.size\(\)$|numPlanes", "every plane of the policy is written once", w.where(g[0]))
        # an iterator advances past each plane written
        for n in g:
            o = peel(n.slot("obj"))
            while o.k == "Un" and o.d.get("op") in ("*",) or o.k == "Call" and o.d.get("oper") in ("*", "->"):
                o = peel(o.kids[0])
            lp = loops_of(n)
            if o.k != "Var" or not lp or "iterator" not in (w.vars[o.d["v"]]["t"] or ""):
                continue
            L = loop_info(a, lp[0])
            if L is not None and L.kind in ("range", "iter"):
                continue
            incs = [x for x in lp[0].walk() if (x.k == "Un" and x.d.get("op") in ("++", "post++") or x.k == "Call" and x.d.get("oper") in ("++", "+="))
                    and peel(x.kids[0]).k == "Var" and peel(x.kids[0]).d["v"] == o.d["v"]]
            ids = set(x.id for x in incs)
            bad = uncut(a, w, P.position(n), P.position(n), set(), elem=lambda x: x.id in ids) if ids else True
            a.check(bad is None, "I04.all", w.where(n), "the next plane is written next", "the same plane can be written again")


def entries(a, A_, nd):
    P = a.P
    sites = {}
    for t in nd:
        for h in holes(t, INT)[:1]:
            n = A_.W.nodes[h[3]]
            sites[n.id] = n
    ss = sorted(sites.values(), key=lambda n: n.id)
    for g in groups(P, ss):
        fn = g[0].fn
        coverage(a, "I04.all", g, r"LBPlane\.alpha\.(size\(\)|size_)$|LBPlane\.(mask|alpha)\.(data\.size\(\)|filled\(\))$|num(States|StateDimensions)", "every entry of a plane is written once", fn.where(g[0]))
        # the one outside is the one the loop leaves out
        out = [n for n in g if not loops_of(n)]
        ins = [n for n in g if loops_of(n)]
        if len(out) == 1 and len(ins) == 1:
            L = loop_info(a, loops_of(ins[0])[0])
            if L is None or L.hi is None:
                continue
            v = a.E.ev(out[0])
            c, lo, hi = count(v), count(L.lo), count(L.hi)
            if None in (c, lo, hi):
                continue
            h2 = (hi[0] + (1 if L.incl else 0), hi[1])
            good = c == h2 or c == (lo[0] - 1, lo[1])
            a.check(good, "I04.all", fn.where(out[0]), "the entry written outside the loop is the one the loop leaves out", "the entry written outside the loop is not the one the loop leaves out")


RULES["I04"] = [i04]


# ---------------------------------------------------------------- I05
def exact(a, rule, w, W, toks):
    """numbers written with enough digits to be read back as they were"""
    P = a.P
    for h in holes(toks, REAL):
        n = W.nodes[h[3]]
        fn = n.fn
        pr = set()
        for m in P.calls(fn):
            nm = last(m.d.get("q"))
            if nm in ("setprecision", "precision") and m.c:
                v = peel(m.c[-1])
                k = v.d.get("v", v.d.get("cv"))
                if not isinstance(k, int) or k >= 17:
                    pr.add(m.id)
        f = next((m for m in n.ancestors() if m.k == "Call" and last(m.d.get("q")) == "fprintf"), None)
        if f is not None:
            x = peel(f.c[1])
            ps = [int(g) for g in re.findall(r"%[^%a-zA-Z]*\.(\d+)[lL]?[eEgG]", x.d["v"])] if x.k == "Str" else [99]
            a.check(bool(ps) and min(ps) >= 16, rule, fn.where(n), "values are written with all their digits", "values are written with too few digits to be read back as they were")
            continue
        p = None
        for m in P.calls(fn):
            if m.d.get("oper") == "<<" and any(y is n for y in m.walk()) and P.position(m):
                q = [y for y in m.kids[1:] if any(z is n for z in y.walk())]
                if q:
                    p = P.position(m)
        bad = uncut(a, fn, (fn.entry, -1), p, set(), elem=lambda x: isinstance(x, Node) and x.id in pr) if p and pr else True if not pr else None
        a.check(bad is None, rule, fn.where(n), "values are written with all their digits", "values are written with too few digits to be read back as they were")


def i05(a):
    P, E = a.P, a.E
    # -- the index of states
    w, r = find_pair(a, "StateIndex")
    a.need("I05.lines", int(w is not None and r is not None), 1, "writer and reader of the state index")
    if w and r:
        def mon(m, ev, toks, end):
            pend, canon = m
            msgs = []
            took = False
            for x in ev:
                if x[0] != "call":
                    continue
                nm, pl, args, n = x[1], x[2], x[3], x[4]
                if nm in ("push_back", "set_entry") and any(isinstance(y, Tok) for y in args):
                    ts = [y for y in args if isinstance(y, Tok)]
                    if len(args) == 2 and len(ts) == 2 and ts[0].kind == INT and ts[0].name.endswith(".index") and ts[1].kind == REAL and ts[1].name.endswith(".value") and " of " not in ts[0].name and not ts[1].name.startswith("misread"):
                        took = True
                    else:
                        took = True
                        msgs.append("an entry is not stored as index and value")
                    pend, canon = True, False
                elif nm == "canonicalize":
                    canon = True
                elif nm in ("clear", "resize") and pl is not None and pl[0] != "this":
                    if pend:
                        msgs.append("entries are dropped before their state is in the index")
                elif reaches(P, n, "getStateId"):
                    if not pend:
                        msgs.append("a state without entries is put in the index")
                    pend = False
                    left[0] = n
            if left[0] is not None and not end:
                # the entries of the state just stored do not go into the next
                i = max(k for k, x in enumerate(ev) if x[0] == "call" and x[4] is left[0])
                if not any(x[0] == "call" and x[1] in ("clear", "resize") or x[0] == "fresh" for x in ev[i + 1:]) and not (i == 0 and last(left[0].d.get("q")) != "getStateId"):
                    msgs.append("the entries of a state stay for the next")
            left[0] = None
            ls = shown(toks or ())
            if toks is not None and holes(toks, REAL) and not took:
                msgs.append("an entry of a state is not stored")
            if toks is not None and not holes(toks, REAL) and holes(toks) and pend:
                msgs.append("the state before is not put in the index")
            if end and pend:
                msgs.append("the last state is not put in the index")
            return (pend, canon), msgs
        left = [None]
        A_ = Agree(a, w, r, mon, (False, False))
        A_.report("I05.lines", "state index", r)
        if A_.W is not None and not A_.over:
            toks = list(A_.W.lines)
            hd = [t for t in toks if holes(t) and not holes(t, REAL)]
            dt = [t for t in toks if holes(t, REAL)]
            a.check(bool(hd) and bool(dt), "I05.content", w.where(), "the index names each state and its entries", "the index does not name the states and their entries")
            for t in dt:
                hs = holes(t)
                good = len(hs) == 2 and hs[0][2].endswith(".index") and hs[1][2].endswith(".value") and hs[0][2][:-6] == hs[1][2][:-6]
                a.check(good, "I05.content", w.where(), "an entry line holds the index and the value of an entry", "an entry line holds %s" % ", ".join(re.sub(r".*\.", "", h[2]) for h in hs))
                exact(a, "I05.exact", w, A_.W, t)
            for t in hd:
                hs = holes(t)
                n = A_.W.nodes[hs[0][3]]
                lp = loops_of(n)
                L = loop_info(a, lp[0]) if lp else None
                a.check(len(hs) == 1 and L is not None and (L.kind in ("range", "iter") or same_var(a, n, L) and L.lo == ZERO and L.up), "I05.content", n.fn.where(n),
                        "states are numbered from 0 in order", "states are not numbered from 0 in order")
                if L is not None and L.kind not in ("range", "iter"):
                    coverage(a, "I05.all", [n], r"StateIndex\.entries\.size\(\)$", "every state of the index is written", n.fn.where(n))
            # the entries are those of the state named
            names = set(h[2] for t in hd for h in holes(t))
            for t in dt:
                ix = re.findall(r"entries\[([^\[\]]*)\]", holes(t)[0][2])
                a.check(not ix or all("+" + i in names for i in ix[:1]), "I05.content", w.where(), "the entries under a number are those of that state", "the entries under a number are those of another state")
    # -- the log of backups
    w, r = find_pair(a, "StateLog")
    a.need("I05.lines", int(w is not None and r is not None), 1, "writer and reader of the backup log")
    if w and r:
        def mon(m, ev, toks, end):
            msgs = []
            if toks is not None and holes(toks):
                k = 0
                for x in ev:
                    if x[0] == "call" and x[1] in ("push_back", "emplace_back") and any(isinstance(y, Tok) for y in x[3]):
                        k += 1
                        if not all(isinstance(y, Tok) and "StateLog.entries[" in y.name and " of " not in y.name for y in x[3]):
                            msgs.append("something else than the number is stored")
                        if x[2] is None or x[2][-1] != "entries":
                            msgs.append("the number is not stored in the log")
                if k != 1:
                    msgs.append("the number is stored %d times" % k)
            return m, msgs
        A_ = Agree(a, w, r, mon, 0)
        A_.report("I05.lines", "backup log", r)
        if A_.W is not None and not A_.over:
            ls = [t for t in A_.W.lines if holes(t)]
            a.check(bool(ls), "I05.content", w.where(), "the log holds the states' numbers", "the log does not hold the states' numbers")
            for t in ls:
                hs = holes(t)
                a.check(len(hs) == 1 and re.match(r"^\+@StateLog\.entries\[[^\]]*\]$", hs[0][2]) is not None, "I05.content", w.where(), "a log line holds the number of one state", "a log line holds %s" % ", ".join(h[2][:50] for h in hs))
                for h in hs[:1]:
                    n = A_.W.nodes[h[3]]
                    lp = loops_of(n)
                    L = loop_info(a, lp[0]) if lp else None
                    if L is None:
                        a.ok("I05.all", w.where(), "log entries written")
                    elif L.kind in ("range", "iter"):
                        a.check(L.up, "I05.all", n.fn.where(n), "every backup is written, in order", "backups are written in reverse order")
                    else:
                        coverage(a, "I05.all", [n], r"StateLog\.entries\.size\(\)$", "every backup is written", n.fn.where(n))
                        a.check(L.up, "I05.all", n.fn.where(n), "backups are written in order", "backups are written in reverse order")
    # -- tables of bound values and action values
    cnt = 0
    for g in sorted(P.funcs.values(), key=lambda g: g.q):
        if not g.blocks or g.impl or not re.search(r"(^|::)StateIndex::", g.q) or last(g.q) in ("writeToFile", "readFromFile"):
            continue
        if not any("getValueAt" in (m.d.get("q") or "") or "getQValue" in (m.d.get("q") or "") for m in P.calls(g)):
            continue
        W = Lines(a, g, lambda s, t: set([s]), [0])
        if W.over:
            continue
        head = " ".join(shown(t).lstrip("# ") for t in sorted((t for t in W.lines if shown(t).startswith("#")), key=lambda t: list(W.lines).index(t)))
        cols = re.findall(r"<(\w+)>", (re.search(r"'((?:<\w+>\s*)+)'", head) or re.match(r"()", "")).group(1) or "")
        for t in [t for t in W.lines if holes(t)]:
            cnt += 1
            hs = holes(t)
            n0 = W.nodes[hs[0][3]]
            want = cols or (["id", "lower", "upper"] if "getValueAt" in " ".join(m.d.get("q") or "" for m in P.calls(g)) else ["id", "action", "lower", "upper"])
            a.check(len(hs) == len(want), "I05.table", g.where(n0), "%d columns as announced" % len(want), "%d columns are written where %d are announced" % (len(hs), len(want)))
            idv = None
            for c, h in zip(want, hs):
                nm = h[2]
                n = W.nodes[h[3]]
                if c in ("id", "action"):
                    lp = loops_of(n)
                    ok = h[1] == INT
                    if c == "id":
                        idv = nm
                    L = next((x for x in (loop_info(a, l) for l in lp) if x is not None and same_var(a, n, x)), None)
                    a.check(ok and (L is None or L.lo == ZERO or count(E.ev(n)) != (0.0, ())), "I05.table", n.fn.where(n), "column %s" % c, "column %s holds something else" % c)
                    if L is not None and L.kind not in ("range", "iter"):
                        coverage(a, "I05.all", [L], r"entries\.size\(\)$" if c == "id" else r".", "every %s is written" % c, n.fn.where(n))
                else:
                    side = "l" if c.startswith("low") else "u"
                    a.check(nm.endswith("." + side) or not re.search(r"\.[lu]$", nm), "I05.table", n.fn.where(n), "column %s holds the %s bound" % (c, c), "column %s holds the other bound" % c)
                    # of the state (and action) in the same line
                    ev = nm
                    ix = re.findall(r"StateIndex\.entries\[([^\[\]]*)\]", ev)
                    if ix and idv:
                        a.check(all("+" + i == idv for i in ix), "I05.table", n.fn.where(n), "the bound is that of the state named", "the bound is that of another state than the one named")
                    if "action" in want:
                        av = hs[want.index("action")][2].lstrip("+")
                        g2 = re.findall(r"iv:[\w.]+", ev)
                        a.check(av in ev or not g2, "I05.table", n.fn.where(n), "the bound is that of the action named", "the bound is that of another action than the one named")
                    exact(a, "I05.exact", g, W, (h,))
    a.need("I05.table", cnt, 2, "tables of bound values")
    order(a)
    ident(a)


def ident(a):
    """the number of a state is its place in the index, and the log takes the number"""
    P, E = a.P, a.E
    cnt = 0
    for g in sorted(P.funcs.values(), key=lambda g: g.q):
        if not g.blocks or g.impl or not re.search(r"(^|::)StateIndex::getStateId$", g.q):
            continue
        push = [m for m in P.calls(g) if last(m.d.get("q")) in ("push_back", "emplace_back") and m.slot("obj") is not None and vstr(E.ev(m.slot("obj"))).endswith("StateIndex.entries")]
        for m in push:
            cnt += 1
            p = P.position(m)
            # numbers taken after the state is in the list count it, numbers taken before do not
            vals_ = []
            for x in list(g.nodes.values()):
                if x.k == "Assign" and x.d.get("op") == "=" and "lookup" in vstr(E.ev(x.c[0])):
                    vals_.append((x, x.c[1]))
                elif x.k == "Return" and x.c:
                    vals_.append((x, x.c[0]))
            for x, r in vals_:
                for alt in E.ev(r):
                    c = count(frozenset([alt]))
                    if c is None or not c[1] or not c[1][0][1].endswith("StateIndex.entries.size()"):
                        continue
                    at = size_at(a, g, r) or x
                    q = P.position(at)
                    if q is None:
                        continue
                    behind = q[0] == p[0] and q[1] > p[1] or q[0] != p[0] and q[0] in reachable(g, p[0])
                    a.check(c[0] == (-1 if behind else 0), "I05.id", g.where(x), "a new state's number is its place in the index", "a new state's number is not its place in the index")
    for g in sorted(P.funcs.values(), key=lambda g: g.q):
        if not g.blocks or g.impl or not re.search(r"(^|::)StateLog::addState$", g.q):
            continue
        for m in P.calls(g):
            if last(m.d.get("q")) == "push_back" and m.c:
                cnt += 1
                v = vstr(E.ev(m.c[0]))
                x = peel(m.c[0])
                a.check("getStateId" in v or "StateIndex." in v or reaches_any(a, m, "getStateId") or numbered(P, g, x), "I05.id", g.where(m), "the log takes the state's number", "the log takes something else than the state's number")
    a.need("I05.id", cnt, 1, "places that number states")


def reaches_any(a, m, name):
    return any(y.k == "Call" and last(y.d.get("q")) == name for y in m.walk())


def numbered(P, g, x):
    """a local that is only ever given a state's number"""
    if x.k != "Var" or x.d["v"] in g.params:
        return False
    src = [i for n in P.all_nodes(g) if n.k == "Decl" for v, nm, t, i in n.vars if v == x.d["v"] and i is not None]
    src += [n.c[1] for n in P.all_nodes(g) if n.k == "Assign" and peel(n.c[0]).k == "Var" and peel(n.c[0]).d["v"] == x.d["v"]]
    return bool(src) and all(peel(i).k == "Call" and last(peel(i).d.get("q")) == "getStateId" for i in src)


def size_at(a, g, r):
    """the place where the size of the list is taken that the value r comes from"""
    x = peel(r)
    for y in r.walk():
        if y.k == "Call" and last(y.d.get("q")) == "size":
            return y
    if x.k == "Var":
        defs, entry = a.E.reaching(g, x.d["v"], a.P.position(r) or a.P.position(x), None)
        for d in defs:
            if d.rhs is not None:
                z = size_at(a, g, d.rhs)
                if z is not None:
                    return z
    return None


def same_var(a, n, L):
    v = a.E.ev(n)
    return len(v) == 1 and count(v) is not None and count(v)[0] == 0 and len(count(v)[1]) == 1 and re.match(r"iv:.*\.%s$" % L.var, count(v)[1][0][1]) is not None


def order(a):
    """the log refers to states by their number in the index, and both are written together"""
    P = a.P
    cnt = 0
    for g in sorted(P.funcs.values(), key=lambda g: g.q):
        if not g.blocks or g.impl:
            continue
        ws = [m for m in P.calls(g) if last(m.d.get("q")) == "writeToFile" and re.search(r"::State(Index|Log)::", m.d.get("q") or "")]
        logs = [m for m in ws if "StateLog" in m.d["q"]]
        if not logs:
            continue
        cnt += 1
        for m in logs:
            p = P.position(m)
            idx = set(x.id for x in ws if "StateIndex" in x.d["q"])
            b1 = uncut(a, g, (g.entry, -1), p, set(), elem=lambda x: isinstance(x, Node) and x.id in idx) if idx else True
            b2 = uncut(a, g, p, "exit", set(), elem=lambda x: isinstance(x, Node) and x.id in idx) if idx else True
            a.check(b1 is None or b2 is None, "I05.together", g.where(m), "the index of states is written with the log that refers to it", "a log can be written without the index of states it refers to")
    # reading: the index is read before the log
    for g in sorted(P.funcs.values(), key=lambda g: g.q):
        if not g.blocks or g.impl:
            continue
        rs = [m for m in P.calls(g) if last(m.d.get("q")) == "readFromFile" and re.search(r"::State(Index|Log)::", m.d.get("q") or "")]
        for m in [m for m in rs if "StateLog" in m.d["q"]]:
            cnt += 1
            idx = set(x.id for x in rs if "StateIndex" in x.d["q"])
            bad = uncut(a, g, (g.entry, -1), P.position(m), set(), elem=lambda x: isinstance(x, Node) and x.id in idx) if idx else True
            a.check(bad is None, "I05.together", g.where(m), "the index of states is read before the log that refers to it", "the log is read before the index of states it refers to")
    a.need("I05.together", cnt, 2, "places that write or read a log and its index")


RULES["I05"] = [i05]


# ---------------------------------------------------------------- I06
KEYRE = re.compile(r"^[A-Za-z_]\w*$")


def strlit(n):
    x = n
    for _ in range(6):
        x = peel(x)
        if x.k == "Str":
            return x.d["v"]
        if x.k in ("Ctor", "Bind", "Temp", "Cast") and x.c:
            x = x.c[0]
            continue
        break
    return None


def own_field(n):
    """the field of this object an expression names (or takes the address of)"""
    x = peel(n)
    while x.k == "Un" and x.d.get("op") in ("&", "*") or x.k == "Call" and last(x.d.get("q")) in ("c_str",) and x.slot("obj") is not None:
        x = peel(x.c[0] if x.k == "Un" else x.slot("obj"))
    if x.k == "Mem" and (not x.kids or peel(x.kids[0]).k == "This"):
        return x.d["n"]
    return None


CONV = {"atoi": INT, "atol": INT, "strtol": INT, "stoi": INT, "stol": INT, "atof": REAL, "strtod": REAL, "stod": REAL}


def flows(a, fn, c, seen, conv=None):
    """(field, conversion) the result of the call c reaches"""
    P = a.P
    out = set()
    x = c
    while x is not None:
        p = x.p
        if p is None:
            break
        if p.k == "Call" and not p.d.get("oper") and x is not p.slot("obj"):
            nm = last(p.d.get("q"))
            if nm in CONV:
                conv = CONV[nm]
            else:
                fs = [own_field(y) for y in p.c if y is not x and not any(z is c for z in y.walk())]
                fs = [f for f in fs if f]
                if fs and len(p.c) > 1:
                    out |= set((f, conv) for f in fs[:1])
        if p.k == "Assign" and p.d.get("op") == "=" and p.c[1] is x or p.k == "Call" and p.d.get("oper") == "=" and p.kids[1] is x:
            l = p.c[0] if p.k == "Assign" else p.kids[0]
            f = own_field(l)
            if f:
                out.add((f, conv))
            elif peel(l).k == "Var" and peel(l).d["v"] not in seen:
                out |= uses(a, fn, peel(l).d["v"], seen | {peel(l).d["v"]}, conv)
        if p.k == "Decl":
            for v in p.vars:
                if v[3] is not None and any(z is c or z is x for z in v[3].walk()) and v[0] not in seen:
                    out |= uses(a, fn, v[0], seen | {v[0]}, conv)
        x = p
    return out


def uses(a, fn, v, seen, conv):
    out = set()
    for n in fn.nodes.values():
        if n.k == "Var" and n.d.get("v") == v:
            out |= flows(a, fn, n, seen, conv)
    return out


def i06(a):
    P, E = a.P, a.E
    w, r = find_pair(a, "LSModelFile")
    a.need("I06.keys", int(w is not None and r is not None), 1, "writer and reader of survey models")
    if not w or not r:
        return
    types = dict((f["n"], f["t"]) for f in fields_of(P, "LSModelFile"))
    # what the reader wants
    want = {}
    for m in P.calls(r):
        if m.d.get("oper") or not P.reachable(m):
            continue
        ks = [strlit(c) for c in m.c]
        ks = [k for k in ks if k and KEYRE.match(k)]
        if len(ks) != 1 or last(m.d.get("q")) in ("fopen", "printf", "fprintf", "strcmp", "strncmp"):
            continue
        if not any(g.blocks and not g.impl for g in P.resolve(m)):
            continue
        fs = flows(a, r, m, frozenset())
        fs |= set((own_field(c), None) for c in m.c if own_field(c))
        fs = set((f, k) for f, k in fs if f in types)
        if fs:
            want.setdefault(ks[0], []).append((fs, m))
    a.need("I06.keys", len(want), 3, "parameters read from a survey model")
    # what the writer writes
    have = {}
    for m in P.calls(w):
        if m.d.get("oper") or not P.reachable(m):
            continue
        if last(m.d.get("q")) == "fprintf":
            f = strlit(m.c[1])
            if f is None:
                continue
            i = 2
            for line in f.split("\n"):
                cs = re.findall(r"%[-+ #0]*\d*(?:\.\d+)?(?:hh|h|ll|l|L|z)?([diouxXeEfFgGcs])", line)
                k = line.split(" ")[0].split("\t")[0]
                if cs and KEYRE.match(k) and i < len(m.c):
                    have.setdefault(k, []).append((own_field(m.c[i]), INT if cs[0] in "diouxX" else REAL if cs[0] in "eEfFgG" else TXT, m, line))
                i += len(cs)
        else:
            ks = [(strlit(c) or "").strip() for c in m.c]
            ks = [k for k in ks if KEYRE.match(k)]
            fs = [own_field(c) for c in m.c]
            fs = [f for f in fs if f in types]
            if len(ks) == 1 and fs:
                have.setdefault(ks[0], []).append((fs[0], None, m, None))
    if not have:
        return a.ok("I06.keys", w.where(), "not written parameter by parameter")
    for k, l in sorted(want.items()):
        for fs, m in l:
            a.check(k in have, "I06.keys", r.where(m), "parameter %s is written" % k, "the reader requires %s, which the writer does not write" % k)
            if k not in have:
                continue
            for f, cv, n, line in have[k]:
                a.check(f is None or f in set(x for x, _ in fs), "I06.field", r.where(m), "parameter %s goes back to %s" % (k, f),
                        "parameter %s holds %s but is read into %s" % (k, f, ", ".join(sorted(x for x, _ in fs))))
                if f in types and cv in (INT, REAL):
                    real = re.search(r"double|float", types[f]) is not None
                    a.check((cv == REAL) == real, "I06.field", w.where(n), "parameter %s is written as what it is" % k, "parameter %s is written as another type than it has" % k)
                if line is not None:
                    a.check(re.match(r"^\w+[ \t]+%[^%]*$", line) is not None, "I06.line", w.where(n), "line of parameter %s: key and value" % k, "the line of parameter %s is not '<key> <value>'" % k)
        for fs, m in l:
            for f, cv in fs:
                if cv is not None and f in types and "vector" not in types[f]:
                    real = re.search(r"double|float", types[f]) is not None
                    a.check(cv == REAL or not real, "I06.field", r.where(m), "parameter %s is converted in full" % k, "parameter %s loses its fraction when read" % k)
    for k, l in sorted(have.items()):
        a.check(k in want, "I06.keys", w.where(l[0][2]), "parameter %s is read" % k, "parameter %s is written but the reader does not know it" % k)
    # two keys never share a field
    byf = {}
    for k, l in want.items():
        for fs, m in l:
            for f, _ in fs:
                byf.setdefault(f, set()).add(k)
    for f, ks in sorted(byf.items()):
        a.check(len(ks) == 1, "I06.field", r.where(), "field %s is read from one parameter" % f, "field %s is read from %s" % (f, " and ".join(sorted(ks))))
    i06_map(a, w, r)
    i06_vec(a, w, r)


def i06_map(a, w, r):
    P, E = a.P, a.E
    g = [x for x in P.funcs.values() if x.blocks and re.search(r"(^|::)LSGrid::writeToFile$", x.q)]
    if not g:
        return
    g = g[0]
    # the separator between parameters and map
    seps = [m for m in P.calls(w) if last(m.d.get("q")) in ("fprintf", "fputs") and any((strlit(c) or "x")[:1] == "-" for c in m.c)]
    gw = [m for m in P.calls(w) if any(x is g for x in P.resolve(m))]
    if gw:
        ids = set(m.id for m in seps)
        bad = uncut(a, w, (w.entry, -1), P.position(gw[0]), set(), elem=lambda x: isinstance(x, Node) and x.id in ids) if ids else True
        a.check(bad is None, "I06.map", w.where(gw[0]), "a separator line precedes the map", "the map is written without the separator the reader looks for")
        for m in gw:
            for i, p in enumerate(g.params):
                if i < len(m.c) and re.search(r"coord|binary", g.vars[p]["n"], re.I):
                    v = peel(m.c[i])
                    a.check(v.d.get("v", v.d.get("cv")) in (0, False), "I06.map", w.where(m), "the map of a model file is written plainly", "the map of a model file is written with marks the reader does not know")
    # characters: the value of a region is 97 below its character, blank is an obstacle
    offs = []
    for fn, what in ((g, "written"), (r, "read")):
        for n in fn.nodes.values():
            if n.k == "Bin" and n.d["op"] in ("+", "-"):
                for i in (0, 1):
                    c = peel(n.c[i])
                    cv = c.d.get("cv", c.d.get("v")) if c.k in ("Lit", "Char") else None
                    if isinstance(cv, int) and cv > 60 and cv < 123 and P.reachable(n):
                        offs.append((fn, n, cv, n.d["op"]))
    ws = set(cv for fn, n, cv, op in offs if fn is g and op == "+")
    rs = set(cv for fn, n, cv, op in offs if fn is r and op == "-")
    if ws and rs:
        a.check(ws == rs and len(ws) == 1, "I06.map", r.where(), "regions are written and read with the same characters", "a region is written %s above its number and read %s above" % (sorted(ws), sorted(rs)))
    # blanks
    for fn in (g, r):
        obst = []
        for n in fn.nodes.values():
            if n.k == "Bin" and n.d["op"] in ("==", "!=") and P.reachable(n):
                ks = [peel(c).d.get("cv", peel(c).d.get("v")) for c in n.c]
                if 100 in ks or 32 in ks:
                    obst.append(n)
        for d in fn.nodes.values():
            rhs = None
            if d.k == "Assign" and d.d.get("op") == "=":
                rhs = d.c[1]
            elif d.k == "Cond" and len(d.kids) == 3:
                continue
            if rhs is None or not P.reachable(d):
                continue
            cv = peel(rhs).d.get("cv", peel(rhs).d.get("v"))
            need = 100 if fn is g else 32
            if cv != (32 if fn is g else 100) or "unsigned" in "" or peel(d.c[0]).k != "Var":
                continue
            fs = P.facts_at(d)
            hit = any(t is True and any(need in [peel(c).d.get("cv", peel(c).d.get("v")) for c in x.c] for x in n.walk() if x.k == "Bin" and x.d["op"] == "==") for n, t in fs)
            a.check(hit or not fs, "I06.map", fn.where(d), "a blank stands for an obstacle", "a blank does not stand for an obstacle")
    # where a row and a column go
    shape(a, g, r)


def shape(a, g, r):
    P, E = a.P, a.E

    def put(fn, name):
        return [m for m in P.calls(fn) if re.search(r"(^|::)LSGrid::%s$" % name, m.d.get("q") or "") and P.reachable(m)]
    W, R = put(g, "getCell"), put(r, "setCell")
    offs_w, offs_r = set(), set()
    for m in W + R:
        fn = m.fn
        pos = next((x for x in m.c[0].walk() if x.k == "Ctor" and len(x.c) == 2), None)
        if pos is None:
            continue
        vx, vy = poly(a, fn, pos.c[0]), poly(a, fn, pos.c[1])
        if not vx or not vy:
            continue
        # y counts from the last row
        loops = loops_of(m)
        lv = set()
        for l in loops:
            L = loop_info(a, l)
            if L is not None and L.var is not None:
                lv.add(".%s" % L.var)
        if m in W:
            lo = [L.lo for L in (loop_info(a, l) for l in loops[:1]) if L is not None and L.lo is not None]
            for v in lo:
                offs_w |= set(skel(a, m, q) for q in polyv(v))
        else:
            inner = loop_info(a, loops[0]) if loops else None
            if inner is not None and inner.var is not None:
                for p in vx:
                    x0 = [t for t in p if len(t) == 1 and t[0].startswith("iv:") and t[0].endswith(".%s" % inner.var)]
                    if len(x0) == 1 and p[x0[0]] == 1:
                        offs_r.add(skel(a, m, {t: c for t, c in p.items() if t != x0[0]}))
        for p in vy:
            iv = [(t, c) for t, c in p.items() if any(s.startswith("iv:") for s in t)]
            size = [(t, c) for t, c in p.items() if t and not any(s.startswith("iv:") for s in t)]
            k = p.get((), 0)
            if len(iv) == 1 and iv[0][1] == -1:
                a.check(k == -1 and len(size) == 1 and size[0][1] == 1, "I06.rows", fn.where(m), "rows are counted from the last row of the map", "a row of the map is not the one the file gives it")
            elif len(iv) == 1 and iv[0][1] == 1:
                L = next((L for L in (loop_info(a, l) for l in loops) if L is not None and not L.up), None)
                a.check(L is not None, "I06.rows", fn.where(m), "rows are counted from the last row of the map", "a row of the map is not the one the file gives it")


    if offs_w and offs_r:
        a.check(offs_w == offs_r, "I06.rows", r.where(), "the first cell of a row has the same column when written and when read", "the first cell of a row has another column when written than when read")
    # which rows are shifted
    par = {}
    for fn in (g, r):
        for n in fn.nodes.values():
            if n.k == "Bin" and n.d["op"] in ("%", "&") and P.reachable(n):
                k = peel(n.c[1])
                if k.d.get("v", k.d.get("cv")) != (2 if n.d["op"] == "%" else 1):
                    continue
                lp = loops_of(n)
                if fn is g and (not lp or len(lp) > 1 or not any(last(m.d.get("q")) in ("fputc", "putc", "fprintf", "fputs") and any(x is n for c in [y for y in m.ancestors() if y.k == "If"] for x in c.kids[0].walk()) for m in P.calls(g))):
                    continue
                for q in poly(a, fn, n.c[0]):
                    par.setdefault(fn.usr, {}).setdefault(skel(a, n, q), n)
    pw, pr = par.get(g.usr, {}), par.get(r.usr, {})
    if pw and pr:
        for k, n in sorted(pr.items(), key=lambda x: x[1].id):
            a.check(k in pw, "I06.rows", r.where(n), "the rows shifted by half a cell are the same when written and when read", "rows are shifted by half a cell when read which are not when written")


def skel(a, n, p):
    """a polynomial of the loop counter and the number of rows, in terms of the row counted from the top"""
    down = set()
    for l in loops_of(n):
        L = loop_info(a, l)
        if L is not None and L.var is not None and not L.up:
            down.add(".%s" % L.var)
    out = {}
    for t, c in p.items():
        k = []
        neg = False
        for x in t:
            if x.startswith("iv:"):
                k.append("Y")
                neg = neg or any(x.endswith(d) for d in down)
            elif x.startswith("/") or x.startswith("#"):
                k.append(x)
            else:
                k.append("H")
        if neg and len(k) == 1:
            for kk, cc in ((("H",), c), (("Y",), -c), ((), -c)):
                out[kk] = out.get(kk, 0) + cc
        else:
            k = tuple(sorted(k))
            out[k] = out.get(k, 0) + c
            if len(t) and k == ("H",) and out[k] != c:
                # alternatives of one size
                out[k] = c
    return frozenset((k, round(c, 6)) for k, c in out.items() if abs(c) > 1e-9)


def polyv(v):
    out = []
    for p in v:
        d = {}
        for s, m in p:
            c, fs = float(s), []
            for x in m:
                if not isinstance(x, str):
                    return []
                if re.match(r"^#-?[\d.e+]+$", x):
                    c *= float(x[1:])
                elif re.match(r"^/#-?[\d.e+]+$", x):
                    c /= float(x[2:])
                else:
                    fs.append(x)
            k = tuple(sorted(fs))
            d[k] = d.get(k, 0) + c
        out.append({k: c for k, c in d.items() if abs(c) > 1e-12})
    return out


def poly(a, fn, n):
    """alternatives of a value as {factors: coefficient}"""
    out = []
    for p in a.E.ev(n):
        d = {}
        for s, m in p:
            c, fs = float(s), []
            for x in (m if isinstance(m, tuple) else (m,)):
                if not isinstance(x, str):
                    return []
                if re.match(r"^#-?[\d.e+]+$", x):
                    c *= float(x[1:])
                elif re.match(r"^/#-?[\d.e+]+$", x):
                    c /= float(x[2:])
                else:
                    fs.append(x)
            # x and 1/x
            for x in list(fs):
                if "/" + x in fs and x in fs:
                    fs.remove(x)
                    fs.remove("/" + x)
            k = tuple(sorted(fs))
            d[k] = d.get(k, 0) + c
        out.append({k: c for k, c in d.items() if abs(c) > 1e-12})
    return out


def i06_vec(a, w, r):
    """lists of numbers: separated by blanks on one line"""
    P = a.P
    for m in P.calls(w):
        if m.d.get("oper"):
            continue
        gs = [x for x in P.resolve(m) if x.blocks and not x.impl and not re.search(r"LSGrid::", x.q)]
        for x in gs:
            for f in P.calls(x):
                if last(f.d.get("q")) == "fprintf" and loops_of(f):
                    s = strlit(f.c[1])
                    a.check(s is not None and re.match(r"^[ \t]*%[^%]*(\d*\.\d+)?l?[fgeE][ \t]*$", s) is not None and (s[0] in " \t" or s[-1] in " \t"), "I06.line", x.where(f),
                            "values of a list are separated by blanks", "values of a list are not separated by blanks")


RULES["I06"] = [i06]

TEXT = {
    "I04.lines": "every line the policy writer can write, run through the reader in every state it can be in: accepted, its values stored where they came from, each plane given its support and added exactly once before the next replaces it, the last one at the end of the file",
    "I04.content": "entry lines hold an index and the plane's entry at that index; actions and entries are written",
    "I04.count": "the announced numbers of planes and entries are those of the policy and of the plane",
    "I04.all": "the writing sites together cover every plane and every entry once",
    "I04.ready": "on every path to its end the reader marks the bound as initialised",
    "I05.lines": "every line the log writers can write, run through the readers in every state: accepted, stored in the place it came from, each state put in the index once with its own entries",
    "I05.content": "index and log lines hold what their readers and headers say, under the number of the state they belong to",
    "I05.exact": "values are written with at least 17 significant digits on every path",
    "I05.all": "the writing loops cover every state, action and logged backup, in order",
    "I05.table": "columns of the tables of bound values are those announced in their headers, of the state and action named in the line",
    "I05.together": "a log is written and read together with the index it refers to, the index read first",
    "I05.id": "a new state's number is its place in the index; the log takes that number",
    "I06.keys": "the parameters the reader requires are the ones the writer writes",
    "I06.field": "a parameter goes back to the field it was written from, with the type it has",
    "I06.line": "parameter lines are key and value; list values are separated by blanks",
    "I06.map": "a separator precedes the map; regions and obstacles use the same characters both ways; no extra marks",
    "I06.rows": "rows, first columns and shifted rows are the same functions of the row number in writer and reader",
}
