"""Program model: syntax trees, CFGs, call graph, dominance-style path queries,
available branch conditions."""
import json
import re
import sys
from collections import defaultdict

sys.setrecursionlimit(20000)

SLOTS = ("obj", "ind", "size", "init", "cvar", "cond", "then", "else", "inc", "range", "begin", "end", "lvar",
         "val", "body")
NORETURN = {"exit", "abort", "_exit", "_Exit", "__assert_fail", "std::terminate", "std::exit", "std::abort", "err",
            "errx", "quick_exit"}


class Node(object):
    __slots__ = ("k", "id", "l", "t", "ct", "c", "p", "d", "fn", "kids", "slots", "vars")

    def __getattr__(self, n):  # raw attributes
        if n in ("__deepcopy__",):
            raise AttributeError(n)
        return self.d.get(n)

    def slot(self, n):
        return self.slots.get(n)

    def walk(self):
        st = [self]
        while st:
            n = st.pop()
            yield n
            st.extend(reversed(n.kids))

    def ancestors(self):
        n = self.p
        while n is not None:
            yield n
            n = n.p

    def __repr__(self):
        return "<%s#%d %s:%d>" % (self.k, self.id, self.fn.q if self.fn else "?", self.l)


class Block(object):
    __slots__ = ("id", "el", "term", "tk", "cond", "succ", "pred", "label", "nr")


class Func(object):
    def __init__(self):
        self.nodes = {}

    def __repr__(self):
        return "<fn %s>" % self.q

    @property
    def short(self):
        return self.q.split("::")[-1]

    def where(self, node=None):
        return "%s:%d" % (self.file, node.l if node is not None and node.l else self.line)


def mknode(d, fn, parent, types):
    n = Node()
    n.k, n.id, n.l, n.d, n.fn, n.p = d["k"], d["i"], d.get("l", 0), d, fn, parent
    t = d.get("t", -1)
    n.t = types[t] if t is not None and t >= 0 else ""
    t = d.get("ct", -1)
    n.ct = types[t] if t is not None and t >= 0 else n.t
    n.kids, n.slots, n.vars, n.c = [], {}, [], []
    if "pt" in d:
        d["ptn"] = [types[x] if x >= 0 else "" for x in d["pt"]]
    if "obj" in d and d["obj"]:
        x = mknode(d["obj"], fn, n, types)
        n.slots["obj"] = x
        n.kids.append(x)
    for s in SLOTS:
        if s == "obj" or s == "body":
            continue
        if isinstance(d.get(s), dict):
            x = mknode(d[s], fn, n, types)
            n.slots[s] = x
            n.kids.append(x)
    for x in d.get("c", ()):
        if x is None:
            continue
        y = mknode(x, fn, n, types)
        n.c.append(y)
        n.kids.append(y)
    for v in d.get("vars", ()):
        ini = v.get("init")
        iy = None
        if ini:
            iy = mknode(ini, fn, n, types)
            n.kids.append(iy)
        n.vars.append((v.get("v"), v["n"], types[v["t"]] if v.get("t", -1) >= 0 else "", iy))
    if isinstance(d.get("body"), dict):
        x = mknode(d["body"], fn, n, types)
        n.slots["body"] = x
        n.kids.append(x)
    for s in ("c", "vars") + SLOTS:
        if s in d and not (s == "size" and not isinstance(d[s], dict)):
            d.pop(s)
    if fn is not None:
        fn.nodes[n.id] = n
    return n


class Program(object):
    def __init__(self, raw, root, repo_rel=True):
        self.funcs = {}
        self.by_q = defaultdict(list)
        self.records = {}
        self.recq = {}
        self.enums = {}
        self.globals = {}
        self.units = [s for s, _ in raw]
        self.root = root
        for src, lines in raw:
            recs = [json.loads(x) for x in lines if not x.startswith('{"agg"') or True]
            types = recs[-1]["names"]
            for r in recs[:-1]:
                self._add(r, types, src)
        self._finish()

    def _rel(self, f):
        if f.startswith(self.root + "/"):
            f = f[len(self.root) + 1:]
        if f.endswith((".y", ".l")) and "/" not in f:
            f = "src/parsers/" + f
        return f

    def _add(self, r, types, src):
        k = r["rec"]
        if k == "enum":
            self.enums[r["q"]] = r
        elif k == "record":
            r["f"] = self._rel(r["f"])
            self.records.setdefault(r["u"], r)
            self.recq.setdefault(r["q"], r)
        elif k == "global":
            r["f"] = self._rel(r["f"])
            r["unit"] = src
            if "init" in r:
                r["init"] = mknode(r["init"], None, None, types)
            key = r["q"]
            if key not in self.globals or ("init" in r and "init" not in self.globals[key]):
                self.globals[key] = r
        elif k == "func":
            key = r["u"]
            f = self._rel(r["f"])
            if r.get("static") and not r.get("cls"):
                key = key + "@" + f
            if key in self.funcs:
                if self.funcs[key].file == f or f.endswith(".h") or r.get("cls"):
                    return
                key = key + "@" + f      # same external name in another program (main, usage)
                if key in self.funcs:
                    return
            fn = Func()
            fn.usr, fn.q, fn.n, fn.file, fn.line = key, r["q"], r["n"], f, r["l"]
            fn.rt = types[r["rt"]] if r["rt"] >= 0 else ""
            fn.impl, fn.nr, fn.tmpl = r.get("impl", False), r.get("nr", False), r.get("tmpl", False)
            fn.params = r["params"]
            fn.cls, fn.clsu = r.get("cls"), r.get("clsu")
            fn.virt, fn.cst, fn.over = r.get("virt", False), r.get("cst", False), r.get("over", [])
            fn.dtor, fn.ctor = r.get("dtor", False), r.get("ctor")
            fn.vars = [dict(n=v["n"], t=types[v["t"]], s=types[v["s"]], p=v.get("p", False), st=v.get("st", False),
                            l=v["l"]) for v in r["vars"]]
            fn.inits = []
            fn.unit = src
            for i in r.get("inits", ()):
                fn.inits.append(dict(m=i.get("m"), b=i.get("b"), w=i.get("w", False), dlg=i.get("dlg"),
                                     e=mknode(i["e"], fn, None, types) if i.get("e") else None))
            fn.body = mknode(r["body"], fn, None, types)
            fn.blocks = {}
            fn.entry = fn.exit = None
            cfg = r.get("cfg")
            if cfg:
                fn.entry, fn.exit = cfg["entry"], cfg["exit"]
                for b in cfg["blocks"]:
                    bb = Block()
                    bb.id = b["b"]
                    bb.el = []
                    for e in b["e"]:
                        if isinstance(e, int):
                            bb.el.append(fn.nodes[e])
                        elif "dv" in e:
                            bb.el.append(("dv", e["dv"]))
                        else:
                            bb.el.append(("init", e["init"]))
                    bb.term = fn.nodes.get(b.get("term"))
                    bb.tk = b.get("tk")
                    bb.cond = fn.nodes.get(b.get("cond"))
                    bb.label = fn.nodes.get(b.get("label"))
                    bb.succ = b["s"]
                    bb.pred = []
                    bb.nr = b.get("nr", False)
                    fn.blocks[bb.id] = bb
            self.funcs[key] = fn
            self.by_q[fn.q].append(fn)

    def _finish(self):
        # class hierarchy
        self.derived = defaultdict(set)
        for u, r in self.records.items():
            for bq, bu in r.get("bases", ()):
                self.derived[bu].add(u)
        self.overriders = defaultdict(set)
        for f in self.funcs.values():
            for b in f.over:
                self.overriders[b].add(f.usr)
        # fix dv elements (single-var synthesised DeclStmts) to the Decl node
        for f in self.funcs.values():
            dmap = {}
            for n in f.body.walk():
                if n.k == "Decl":
                    for v in n.vars:
                        dmap[v[0]] = n
            f.declof = dmap
        self.callers = defaultdict(list)
        self.addr_taken = set()
        self._rescache = {}
        for f in self.funcs.values():
            for n in self.all_nodes(f):
                if n.k in ("Call", "Ctor"):
                    for g in self.resolve(n):
                        self.callers[g.usr].append((f, n))
                elif n.k == "Fn" and n.d.get("fn"):
                    self.addr_taken.add(n.d["fn"])
        self._noreturn()
        for f in self.funcs.values():
            self._prune(f)

    def all_nodes(self, f):
        for i in f.inits:
            if i["e"] is not None:
                for n in i["e"].walk():
                    yield n
        for n in f.body.walk():
            yield n

    def lookup(self, usr, q=None, unit_file=None):
        f = self.funcs.get(usr + "@" + unit_file) if usr and unit_file else None
        if f is None:
            f = self.funcs.get(usr)
        if f is None and q and usr.startswith("c:@F@"):
            c = [x for x in self.by_q.get(q, ()) if x.cls is None]
            if len(c) == 1:
                f = c[0]
        return f

    def overs(self, usr):
        res, st = set(), [usr]
        while st:
            u = st.pop()
            for v in self.overriders.get(u, ()):
                if v not in res:
                    res.add(v)
                    st.append(v)
        return res

    def resolve(self, n):
        """possible repo callees of a Call/Ctor node (class-hierarchy analysis)"""
        u = n.d.get("fn")
        if not u:
            return ()
        key = (u, n.d.get("virt"), n.fn.file if n.fn else None, n.fn.unit if n.fn else None)
        r = self._rescache.get(key)
        if r is not None:
            return r
        res = []
        f = self.lookup(u, n.d.get("q"), n.fn.file if n.fn else None)
        if f:
            res.append(f)
        if n.d.get("virt"):
            for v in self.overs(u):
                if v in self.funcs and self.funcs[v] not in res:
                    res.append(self.funcs[v])
        self._rescache[key] = res
        return res

    # ---- no-return inference and CFG pruning
    def call_noreturn(self, n):
        if n.k != "Call":
            return False
        if n.d.get("nr") or n.d.get("q") in NORETURN:
            return True
        r = self.resolve(n)
        return bool(r) and all(g.usr in self.noret for g in r)

    def _noreturn(self):
        self.noret = set(f.usr for f in self.funcs.values() if f.nr)
        changed = True
        while changed:
            changed = False
            for f in self.funcs.values():
                if f.usr in self.noret or not f.blocks:
                    continue
                seen, st = {f.entry}, [f.entry]
                while st:
                    b = f.blocks[st.pop()]
                    if any(isinstance(e, Node) and self.call_noreturn(e) for e in b.el):
                        continue
                    for s in b.succ:
                        if s is not None and s not in seen:
                            seen.add(s)
                            st.append(s)
                if f.exit not in seen:
                    self.noret.add(f.usr)
                    changed = True

    def _prune(self, f):
        for b in f.blocks.values():
            for i, e in enumerate(b.el):
                if isinstance(e, Node) and self.call_noreturn(e):
                    b.el = b.el[:i + 1]
                    b.succ = []
                    b.cond = None
                    b.term = None
                    b.nr = True
                    break
            else:
                # a block clang knows not to return goes to exit: keep it that way only for real returns
                if b.nr and not any(isinstance(e, Node) and e.k == "Return" for e in b.el):
                    pass
        # constant branch conditions
        for b in f.blocks.values():
            if b.cond is not None and len(b.succ) == 2 and b.tk != "SwitchStmt":
                cv = b.cond.d.get("cv")
                if b.cond.k == "Bool":
                    cv = int(b.cond.d["v"])
                elif b.cond.k == "Lit":
                    cv = b.cond.d["v"]
                if cv is not None:
                    b.succ = [b.succ[0], None] if cv else [None, b.succ[1]]
        seen, st = {f.entry} if f.blocks else set(), [f.entry] if f.blocks else []
        while st:
            b = st.pop()
            for s in f.blocks[b].succ:
                if s is not None and s not in seen:
                    seen.add(s)
                    st.append(s)
        f.reach = seen
        for b in f.blocks.values():
            b.pred = []
        for b in f.blocks.values():
            if b.id in seen:
                for i, s in enumerate(b.succ):
                    if s is not None:
                        f.blocks[s].pred.append((b.id, i))
        # a method call appears twice: where its callee expression is evaluated and where the call happens; keep the call
        occ = defaultdict(list)
        for b in f.blocks.values():
            for i, e in enumerate(b.el):
                if isinstance(e, Node) and e.k == "Call":
                    occ[e.id].append((-b.id, i))
        for o in occ.values():
            for b, i in sorted(o)[:-1]:
                f.blocks[-b].el[i] = ("callee", None)
        f.pos = {}
        for b in f.blocks.values():
            for i, e in enumerate(b.el):
                if isinstance(e, Node):
                    f.pos.setdefault(e.id, (b.id, i))
                elif e[0] == "dv":
                    pass
        f.initpos = {}
        for b in f.blocks.values():
            for i, e in enumerate(b.el):
                if isinstance(e, tuple) and e[0] == "init":
                    f.initpos.setdefault(e[1], (b.id, i))

    # ---- positions
    def position(self, n):
        """(block, index) at which the expression is evaluated"""
        f = n.fn
        m = n
        while m is not None:
            if m.id in f.pos:
                return f.pos[m.id]
            # a multi-declaration statement
            if m.k == "Decl":
                for v in m.vars:
                    p = self.dvpos(f, v[0])
                    if p:
                        return p
            p = m.p
            m = p
        # constructor initialisers
        r = n
        while r.p is not None:
            r = r.p
        for i in f.inits:
            if i["e"] is r and i["m"] in f.initpos:
                return f.initpos[i["m"]]
        # structured statements: first element inside
        for x in n.walk():
            if x.id in f.pos:
                return f.pos[x.id]
        return None

    def dvpos(self, f, v):
        d = getattr(f, "_dv", None)
        if d is None:
            d = {}
            for b in f.blocks.values():
                for i, e in enumerate(b.el):
                    if isinstance(e, tuple) and e[0] == "dv":
                        d[e[1]] = (b.id, i)
            f._dv = d
        return d.get(v)

    def reachable(self, n):
        p = self.position(n)
        return p is not None and p[0] in n.fn.reach

    # ---- helpers over syntax
    def calls(self, f, pred=None):
        for n in self.all_nodes(f):
            if n.k == "Call" and (pred is None or pred(n)):
                yield n

    def find(self, q):
        return self.by_q.get(q, [])

    def subclasses(self, q):
        """all records deriving (transitively) from q, q included"""
        r = self.recq.get(q)
        if not r:
            return []
        res, st = [], [r["u"]]
        while st:
            u = st.pop()
            if self.records[u] not in res:
                res.append(self.records[u])
                st.extend(self.derived.get(u, ()))
        return res

    # ---- path queries -------------------------------------------------
    def hits_after(self, fn, pos, pred, stop=None):
        """True if every path from just after pos to the function's exit passes an element satisfying pred
        (paths that end in a no-return call are ignored)"""
        b0, i0 = pos
        seen = set()
        st = [(b0, i0 + 1)]
        while st:
            b, i = st.pop()
            blk = fn.blocks[b]
            hit = False
            for j in range(i, len(blk.el)):
                e = blk.el[j]
                if isinstance(e, Node) and pred(e):
                    hit = True
                    break
            if hit:
                continue
            if b == fn.exit:
                return False
            for s in blk.succ:
                if s is not None and s not in seen:
                    seen.add(s)
                    st.append((s, 0))
        return True

    def hits_before(self, fn, pos, pred):
        """True if every path from entry to pos passes an element satisfying pred before pos"""
        b0, i0 = pos
        seen = set()
        st = [(b0, i0)]
        while st:
            b, i = st.pop()
            blk = fn.blocks[b]
            hit = False
            for j in range(min(i, len(blk.el)) - 1, -1, -1):
                e = blk.el[j]
                if isinstance(e, Node) and pred(e):
                    hit = True
                    break
            if hit:
                continue
            if b == fn.entry:
                return False
            for p, _ in blk.pred:
                if p not in seen:
                    seen.add(p)
                    st.append((p, 10 ** 9))
        return True

    def can_reach(self, fn, pos, pred, avoid=None):
        """some element satisfying pred reachable from just after pos without passing avoid; returns it or None"""
        b0, i0 = pos
        seen = set()
        st = [(b0, i0 + 1)]
        while st:
            b, i = st.pop()
            blk = fn.blocks[b]
            stop = False
            for j in range(i, len(blk.el)):
                e = blk.el[j]
                if isinstance(e, Node):
                    if avoid and avoid(e):
                        stop = True
                        break
                    if pred(e):
                        return e
            if stop:
                continue
            for s in blk.succ:
                if s is not None and s not in seen:
                    seen.add(s)
                    st.append((s, 0))
        return None

    def always(self, fn, pred, _memo=None, _depth=0):
        """every path from entry to exit of fn passes pred (directly or in a callee that always does)"""
        key = (fn.usr, id(pred))
        memo = self.__dict__.setdefault("_always", {})
        if key in memo:
            return memo[key][0]
        memo[key] = (False, pred)
        p2 = self.lift(pred)
        ok = self.hits_after(fn, (fn.entry, -1), p2) if fn.blocks else False
        memo[key] = (ok, pred)
        return ok

    def lift(self, pred):
        """element predicate: pred itself, or a call to a function in which pred always happens"""
        def q(e):
            if pred(e):
                return True
            if e.k in ("Call", "Ctor"):
                r = self.resolve(e)
                if r and all(self.always(g, pred) for g in r):
                    return True
            return False
        cache = self.__dict__.setdefault("_lift", {})
        c = cache.get(id(pred))
        if c is None:
            cache[id(pred)] = c = (q, pred)
        return c[0]

    def reaches_call(self, fn, pred, _seen=None):
        """some call site satisfying pred is reachable from fn through the call graph"""
        seen, st = {fn.usr}, [fn]
        while st:
            f = st.pop()
            for n in self.all_nodes(f):
                if n.k in ("Call", "Ctor", "Assign", "Delete", "New", "Un"):
                    if pred(n):
                        return n
                if n.k in ("Call", "Ctor"):
                    for g in self.resolve(n):
                        if g.usr not in seen:
                            seen.add(g.usr)
                            st.append(g)
        return None

    def closure(self, fns):
        seen, st = {}, list(fns)
        for f in st:
            seen[f.usr] = f
        while st:
            f = st.pop()
            for n in self.all_nodes(f):
                if n.k in ("Call", "Ctor"):
                    for g in self.resolve(n):
                        if g.usr not in seen:
                            seen[g.usr] = g
                            st.append(g)
        return seen

    # ---- branch facts ---------------------------------------------------
    def branch_atoms(self, fn, b, truth):
        """conditions known after leaving block b by its true/false edge: list of (node, truth)"""
        blk = fn.blocks[b]
        c = blk.cond
        if c is None:
            return []
        if c.k == "Bin" and c.d["op"] in ("&&", "||"):
            # direct or joined?
            x = c
            while x.k == "Bin" and x.d["op"] in ("&&", "||"):
                short = None
                for q in fn.blocks.values():
                    if q.term is x:
                        short = q
                if short is None:
                    break
                # the short-circuit edge
                sc = short.succ[1] if x.d["op"] == "&&" else short.succ[0]
                if sc == b:
                    break  # joined: value computed here
                x = x.c[1]
            else:
                return self.decompose(fn, x, truth)
            return self.decompose(fn, x, truth)
        return self.decompose(fn, c, truth)

    def decompose(self, fn, c, truth):
        if c.k == "Un" and c.d["op"] == "!":
            return self.decompose(fn, c.c[0], not truth)
        if c.k == "Bin" and c.d["op"] == "&&":
            if truth:
                return self.decompose(fn, c.c[0], True) + self.decompose(fn, c.c[1], True)
            return [(c, False)]
        if c.k == "Bin" and c.d["op"] == "||":
            if not truth:
                return self.decompose(fn, c.c[0], False) + self.decompose(fn, c.c[1], False)
            return [(c, True)]
        return [(c, truth)]

    def facts_in(self, fn):
        """forward must-analysis of branch conditions; kill on redefinition of a local the condition mentions.
        -> dict block -> frozenset of (node id, truth) at block entry"""
        r = getattr(fn, "_facts", None)
        if r is not None:
            return r
        deps = {}
        TOP = None
        IN = {b: TOP for b in fn.reach}
        if not fn.blocks:
            fn._facts = {}
            return fn._facts
        IN[fn.entry] = frozenset()
        defs_at = fn_defs(self, fn).at
        gen = {}
        for b in fn.reach:
            blk = fn.blocks[b]
            if len(blk.succ) == 2 and blk.cond is not None and blk.tk != "SwitchStmt":
                for i in (0, 1):
                    a = [(n.id, t) for n, t in self.branch_atoms(fn, b, i == 0)]
                    gen[(b, i)] = frozenset(a)
                    for nid, _ in a:
                        if nid not in deps:
                            deps[nid] = frozenset(x.d["v"] for x in fn.nodes[nid].walk() if x.k == "Var")
        # switch edges: fact ("case", ...)
        sw = {}
        for b in fn.reach:
            blk = fn.blocks[b]
            if blk.tk == "SwitchStmt" and blk.cond is not None:
                for i, s in enumerate(blk.succ):
                    if s is None:
                        continue
                    lab = fn.blocks[s].label
                    if lab is not None and lab.k == "Case":
                        sw[(b, i)] = frozenset([(blk.cond.id, ("case", lab.d.get("cv")))])
                        deps.setdefault(blk.cond.id, frozenset(x.d["v"] for x in blk.cond.walk() if x.k == "Var"))
        wl = [fn.entry]
        out_kill = {}
        while wl:
            b = wl.pop()
            st = IN[b]
            if st is TOP:
                continue
            killed = set()
            for i in range(len(fn.blocks[b].el)):
                for d in defs_at.get((b, i), ()):
                    killed.add(d.var)
            o = frozenset(x for x in st if not (deps.get(x[0], frozenset()) & killed))
            # a condition evaluated in this block after the redefinition stays
            for i, s in enumerate(fn.blocks[b].succ):
                if s is None:
                    continue
                e = o | gen.get((b, i), frozenset()) | sw.get((b, i), frozenset())
                # edge contradiction: drop opposite truths
                cur = IN[s]
                new = e if cur is TOP else cur & e
                if cur is TOP or new != cur:
                    IN[s] = new
                    wl.append(s)
        fn._facts = {b: (v if v is not None else frozenset()) for b, v in IN.items()}
        fn._fdeps = deps
        return fn._facts

    def facts_at(self, node):
        """list of (cond node, truth) known at the node, in its function"""
        fn = node.fn
        p = self.position(node)
        if p is None or p[0] not in fn.reach:
            return []
        F = self.facts_in(fn)[p[0]]
        killed = set()
        defs_at = fn_defs(self, fn).at
        for i in range(p[1]):
            for d in defs_at.get((p[0], i), ()):
                killed.add(d.var)
        res = [(fn.nodes[i], t) for i, t in F if not (fn._fdeps.get(i, frozenset()) & killed)]
        # conditional operator arms and && / || right operands are separate blocks in the CFG: covered
        return sorted(res, key=lambda x: (x[0].id, str(x[1])))


class Def(object):
    __slots__ = ("var", "kind", "node", "rhs", "pos", "field", "strong", "idx", "call", "argi")

    def __repr__(self):
        return "<Def v%s %s %s@%s>" % (self.var, self.field or "", self.kind, self.pos)


class Defs(object):
    pass


OUT_OPS = ("=", "+=", "-=", "*=", "/=", "%=", "|=", "&=", "^=", "<<=", ">>=")


def root_place(n):
    """strip selectors: returns (root node, selector list) of an lvalue expression"""
    sel = []
    while True:
        if n.k == "Mem":
            sel.append("." + n.d["n"])
            n = n.c[0]
        elif n.k == "Idx":
            sel.append("[]")
            n = n.c[0]
        elif n.k == "Call" and n.d.get("oper") in ("[]", "()") and n.slot("obj") is not None:
            sel.append("[]")
            n = n.slot("obj")
        elif n.k == "Call" and n.d.get("oper") in ("*", "->") and n.slot("obj") is not None and not n.c:
            sel.append("*")
            n = n.slot("obj")
        elif n.k == "Un" and n.d["op"] == "*":
            sel.append("*")
            n = n.c[0]
        elif n.k == "Un" and n.d["op"] == "&":
            n = n.c[0]
        elif n.k == "Cast":
            n = n.c[0]
        elif n.k == "Call" and n.slot("obj") is not None and (n.d.get("q") or "").split("::")[-1] in ("at", "front", "back", "top"):
            sel.append("[]")
            n = n.slot("obj")
        else:
            return n, list(reversed(sel))


def is_ref_type(t):
    return t.endswith("&")


def is_ptr_type(t):
    return t.endswith("*") or t.endswith("*const")


MUTATORS = {"push_back", "push_front", "insert", "push", "resize", "clear", "erase", "pop_back", "assign", "swap",
            "emplace_back", "emplace", "pop", "pop_front", "reserve", "append"}


def fn_defs(P, fn):
    r = getattr(fn, "_defs", None)
    if r is not None:
        return r
    D = Defs()
    D.all = []
    D.at = defaultdict(list)
    D.byvar = defaultdict(list)

    def add(var, kind, node, rhs=None, field=None, strong=True, call=None, argi=None):
        d = Def()
        d.var, d.kind, d.node, d.rhs, d.field, d.strong, d.call, d.argi = var, kind, node, rhs, field, strong, call, argi
        pos = P.position(node)
        if node.k == "Decl":
            pp = P.dvpos(fn, var) or fn.pos.get(node.id)
            pos = pp or pos
        d.pos = pos
        d.idx = len(D.all)
        D.all.append(d)
        D.byvar[var].append(d)
        if pos is not None:
            D.at[pos].append(d)

    for n in P.all_nodes(fn):
        if n.k == "Decl":
            for v, nm, t, ini in n.vars:
                if v is not None:
                    add(v, "decl" if ini is None else "init", n, ini)
        elif n.k == "Assign" or (n.k == "Call" and n.d.get("oper") in OUT_OPS):
            if n.k == "Assign":
                lhs, rhs, op = n.c[0], n.c[1], n.d["op"]
            else:
                op = n.d["oper"]
                if n.slot("obj") is not None:
                    lhs, rhs = n.slot("obj"), n.c[0] if n.c else None
                else:
                    lhs, rhs = n.c[0], n.c[1] if len(n.c) > 1 else None
            rt, sel = root_place(lhs)
            if rt.k == "Var":
                vt = fn.vars[rt.d["v"]]["t"]
                if not sel:
                    add(rt.d["v"], op, n, rhs)
                else:
                    ptrish = is_ptr_type(vt) or (is_ref_type(vt))
                    if sel[0] == "*" and len(sel) == 1 and is_ptr_type(vt):
                        add(rt.d["v"], "deref" + op, n, rhs, "*", strong=True)
                    elif not (is_ptr_type(vt) and sel[0] != "*" and not vt.startswith("double *") and not vt.startswith("int *")):
                        add(rt.d["v"], "elt" + op, n, rhs, "".join(s for s in sel), strong=False)
                    else:
                        add(rt.d["v"], "elt" + op, n, rhs, "".join(s for s in sel), strong=False)
        elif n.k == "Un" and n.d["op"] in ("++", "--", "post++", "post--"):
            rt, sel = root_place(n.c[0])
            if rt.k == "Var" and not sel:
                add(rt.d["v"], n.d["op"].replace("post", ""), n)
        elif n.k == "Call":
            if n.d.get("oper") in ("++", "--") :
                o = n.slot("obj") or (n.c[0] if n.c else None)
                if o is not None:
                    rt, sel = root_place(o)
                    if rt.k == "Var" and not sel:
                        add(rt.d["v"], n.d["oper"], n)
                continue
            o = n.slot("obj")
            nm = (n.d.get("q") or "").split("::")[-1]
            if o is not None and not n.d.get("cst") and nm in MUTATORS:
                rt, sel = root_place(o)
                if rt.k == "Var":
                    if nm in ("push_back", "push_front", "push", "insert", "emplace_back", "append"):
                        add(rt.d["v"], "elt=", n, n.c[-1] if n.c else None, "".join(sel) + "[]", strong=False)
                    elif nm == "clear" and not sel:
                        add(rt.d["v"], "decl", n)
            pts = n.d.get("pt") or []
            # stream extraction
            if n.d.get("oper") == ">>":
                tgt = n.c[-1]
                rt, sel = root_place(tgt)
                if rt.k == "Var":
                    add(rt.d["v"], "call", n, call=n, argi=len(n.c) - 1, field="".join(sel) or None, strong=not sel)
                continue
            for i, a in enumerate(n.c):
                byref = False
                ptname = None
                if i < len(pts):
                    ptname = P_type(P, fn, n, i)
                if ptname is not None and ptname.endswith("&") and not ptname.startswith("const ") and not ptname.endswith("&&"):
                    byref = True
                x = a
                addr = x.k == "Un" and x.d["op"] == "&"
                if addr and not (ptname or "").startswith("const "):
                    byref = True
                if byref:
                    rt, sel = root_place(a)
                    if rt.k == "Var":
                        vt = fn.vars[rt.d["v"]]["t"]
                        if not sel:
                            add(rt.d["v"], "call", n, call=n, argi=i)
                        else:
                            add(rt.d["v"], "call", n, call=n, argi=i, field="".join(sel), strong=False)
                elif x.k == "Var" and ptname and ptname.endswith("*") and not ptname.startswith("const "):
                    # pointer variable passed on: its pointee may be written
                    add(x.d["v"], "ptrcall", n, call=n, argi=i, field="*", strong=False)
                elif x.k == "Var" and fn.vars[x.d["v"]]["t"].endswith("]"):
                    add(x.d["v"], "ptrcall", n, call=n, argi=i, field="[]", strong=False)
    fn._defs = D
    return D


def P_type(P, fn, n, i):
    """canonical type of parameter i of the callee"""
    pts = n.d.get("ptn")
    return pts[i] if pts and i < len(pts) else None
