"""M09: what each reader leaves in the model: every table, taken from the right source, in the right orientation."""
from rules.common import *
from rules.models2 import unhash
import vals

RULES = {}

FIELDS = {"R", "T", "Ttr", "O", "initialBelief", "initialState", "discount", "numStates", "numActions", "numObservations", "isTerminalState"}


class Abort(Exception):
    pass


class St(object):
    """contents: place -> set of (source, transposed, negated, tag); done: model fields set on every path so far;
    flags: (local bool, value) -> fields set whenever it has that value; cost: what is known about the kind of values;
    pend: matrices whose elements are being negated one by one"""
    __slots__ = ("con", "done", "flags", "cost", "pend")

    def __init__(self):
        self.con, self.done, self.flags, self.cost, self.pend = {}, frozenset(), {}, "?", frozenset()

    def copy(self):
        s = St()
        s.con, s.done, s.flags, s.cost, s.pend = dict(self.con), self.done, dict(self.flags), self.cost, self.pend
        return s

    def key(self):
        return (tuple(sorted((repr(k), tuple(sorted(map(repr, v)))) for k, v in self.con.items())), self.done, tuple(sorted((k, tuple(sorted(v))) for k, v in self.flags.items())), self.cost, self.pend)


def join(x, y):
    if x is None:
        return y
    if y is None:
        return x
    s = St()
    for k in set(x.con) | set(y.con):
        s.con[k] = x.con.get(k, default(x, k)) | y.con.get(k, default(y, k))
    s.done = x.done & y.done
    for k in set(x.flags) | set(y.flags):
        # a flag that may have no value yet promises nothing
        s.flags[k] = x.flags.get(k, frozenset()) & y.flags.get(k, frozenset())
    s.cost = x.cost if x.cost == y.cost else "?"
    s.pend = x.pend | y.pend
    return s


ALL = frozenset(FIELDS)


def default(st, k):
    """what a place holds that has not been written"""
    root, ix = k
    if ix is not None and (root, "*") in st.con:
        return st.con[(root, "*")]
    if root[0] == "g":
        return frozenset([("g:%s%s" % (root[1], "[%s]" % ix if ix is not None else ""), False, False, st.cost if root[1] == "Q" else "")])
    return frozenset([("nothing", False, False, "")])


class Read(object):
    def __init__(self, a, entry):
        self.a, self.P, self.E, self.entry = a, a.P, a.E, entry
        self.bad = []
        self.n = 0
        self.depth = 0

    # -- places
    def place(self, fn, n, bind, ctx):
        n = strip(n)
        while n.k in ("Paren", "Cast") or n.k == "Un" and n.d["op"] in ("*", "&"):
            n = strip(n.c[0])
        if n.k == "Var":
            v = n.d["v"]
            if v in bind:
                return bind[v]
            if fn.vars[v]["t"].rstrip().endswith("&") or fn.vars[v]["t"].rstrip().endswith("*"):
                # an alias
                if fn.vars[v]["t"].rstrip().endswith("&"):
                    ini = [x[3] for y in self.P.all_nodes(fn) if y.k == "Decl" for x in y.vars if x[0] == v and x[3] is not None]
                    return self.place(fn, ini[0], bind, ctx) if len(ini) == 1 else None
                ds, entry = self.E.reaching(fn, v, self.P.position(n))
                inits = [d for d in ds if d.rhs is not None]
                if not entry and len(inits) == 1 == len(ds):
                    return self.place(fn, inits[0].rhs, bind, ctx)
                return None
            return (("v", fn.usr, v), None)
        if n.k == "Global":
            return (("g", n.d["q"].split("::")[-1]), None)
        if n.k == "Mem":
            q = n.d["q"].split("::")
            if len(q) > 1 and q[-2] in ("CassandraModel", "MDP", "Pomdp", "GenericDiscreteMDP") and q[-1] in FIELDS:
                return (("f", q[-1]), None)
            return None
        base = ix = None
        if n.k == "Idx":
            base, ix = n.c
        elif n.k == "Call" and n.d.get("oper") == "[]":
            o = n.slot("obj")
            base, ix = (o, n.c[0]) if o is not None else (n.c[0], n.c[1])
        elif n.k == "Call" and n.d.get("q", "").endswith("::at") and n.slot("obj") is not None:
            base, ix = n.slot("obj"), n.c[0]
        if base is not None:
            p = self.place(fn, base, bind, ctx)
            if p is None or p[1] is not None:
                return None
            return (p[0], vstr(self.E.ev(ix, ctx)))
        return None

    def get(self, st, p):
        return st.con.get(p, default(st, p)) if p is not None else frozenset([("?", False, False, "")])

    def put(self, st, p, c):
        if p is None:
            return
        st.con[p] = frozenset(c)

    # -- running a function
    def run(self, fn, bind, ctx, st):
        if self.depth > 5:
            return st
        self.depth += 1
        P, E, a = self.P, self.E, self.a
        dead = good_edges(a, fn, lambda r: False, ctx)
        # loops over a whole range: what holds after every round holds after the loop
        whole = {}
        inits = dict((v[0], v[3]) for n in P.all_nodes(fn) if n.k == "Decl" for v in n.vars if v[3] is not None)
        for n in P.all_nodes(fn):
            if n.k in ("For", "While", "ForRange", "Do"):
                L = loop_info(a, n, ctx)
                heads = [b for b in fn.reach if fn.blocks[b].term is n and fn.blocks[b].cond is not None]
                for h in heads:
                    full = L is not None and (L.kind == "range" or L.kind == "count" and L.lo is not None and vstr(L.lo) == "0" and L.hi is not None and
                                              re.match(r"\+[^ ]*([nN]um(States|Actions)|\.size\(\))$", vstr(L.hi)))
                    if full:
                        seen, todo = set(), [fn.blocks[h].succ[0]]
                        while todo:
                            y = todo.pop()
                            if y is None or y in seen or y == h:
                                continue
                            seen.add(y)
                            todo += fn.blocks[y].succ
                        whole[h] = (n, seen, L)
        ins = {fn.entry: st}
        back = {}
        outs = {}
        work = [fn.entry]
        guard = 0
        exit_st = None
        while work:
            guard += 1
            if guard > 20000:
                raise Abort("no fixpoint in %s" % fn.q)
            b = work.pop(0)
            s = ins[b].copy()
            blk = fn.blocks[b]
            stop = False
            for e in blk.el:
                if isinstance(e, Node):
                    if e.k == "Call" and P.call_noreturn(e):
                        stop = True
                        break
                    self.step(fn, e, bind, ctx, s)
                for v in [y[0] for y in e.vars] if isinstance(e, Node) and e.k == "Decl" else [e[1]] if isinstance(e, tuple) and e[0] == "dv" else []:
                    if inits.get(v) is not None and re.match(r"(const )?bool$", fn.vars[v]["t"]):
                        self.flag(fn, v, inits[v], s)
                    elif inits.get(v) is not None and re.search(r"matrix|vector", fn.vars[v]["t"]) and not re.search(r"[&*]", fn.vars[v]["t"]):
                        i = strip(inits[v])
                        if i.k == "Ctor" and len(i.c) == 1:
                            i = strip(i.c[0])
                        q = self.place(fn, i, bind, ctx)
                        if q is not None:
                            self.put(s, (("v", fn.usr, v), None), self.get(s, q))
            if stop or b == fn.exit:
                if b == fn.exit:
                    exit_st = s
                continue
            changed = b not in outs or outs[b].key() != s.key()
            outs[b] = s
            for k, t in enumerate(blk.succ):
                if t is None or (b, k) in dead:
                    continue
                o = s
                if blk.cond is not None and len(blk.succ) == 2:
                    o = s.copy()
                    if b in whole and k == 1:
                        # left after the last round
                        lat = None
                        for q in whole[b][1]:
                            if b in fn.blocks[q].succ and q in outs:
                                lat = join(lat, outs[q])
                        if lat is None:
                            continue
                        o = lat.copy()
                        self.leave(o, whole[b][2])
                    for n, tr in P.branch_atoms(fn, b, k == 0):
                        self.assume(fn, n, tr, bind, ctx, o)
                elif blk.tk == "SwitchStmt":
                    pass
                new = join(ins.get(t), o) if t in ins else o
                if t not in ins or new.key() != ins[t].key() or t in whole and changed:
                    ins[t] = new
                    if t not in work:
                        work.append(t)
        self.depth -= 1
        return exit_st

    def leave(self, s, L):
        for p in s.pend:
            s.con[p] = frozenset((x[0], x[1], not x[2], x[3]) for x in self.get(s, p))
        s.pend = frozenset()

    def assume(self, fn, n, tr, bind, ctx, s):
        if isinstance(tr, tuple):
            return
        x = strip(n)
        if x.k == "Var":
            s.done |= s.flags.get((x.d["v"], tr), frozenset())
        alts = dnf(self.a, n, tr, ctx)
        for r in alts if len(alts) == 1 else []:
            for q in r:
                if isinstance(q[1], frozenset):
                    t = vstr(q[1])
                    if q[0] in ("==", "!=") and "gProblemType" in t and "MDP" in t:
                        pom = "POMDP_problem" in t
                        s.done |= {"kind POMDP" if (q[0] == "==") == pom else "kind MDP"}
                    if q[0] in (">=", ">") and re.match(r"\+g:gInitialState( \+1)?$", t):
                        s.done |= {"start known"}
                if q[0] in ("==", "!=") and isinstance(q[1], frozenset):
                    t = vstr(q[1])
                    if "gValueType" in t:
                        cost = "COST" in t
                        rew = "REWARD" in t
                        if q[0] in ("==", "!=") and (cost or rew):
                            k = "c" if (q[0] == "==") == cost else "r"
                            s.cost = k
                            for p, c in list(s.con.items()):
                                s.con[p] = frozenset((y[0], y[1], y[2], k if y[0].startswith("g:Q") else y[3]) for y in c)

    def mark(self, s, f):
        s.done |= {f}

    def step(self, fn, e, bind, ctx, s):
        P, E = self.P, self.E
        if e.k == "Un" and e.d["op"] in ("post++", "++"):
            x = strip(e.c[0])
            if x.k == "Var":
                self.fold(s, vstr(E.ev(x, ctx)))
            return
        lhs = rhs = None
        if e.k == "Assign":
            lhs, rhs, op = e.c[0], e.c[1], e.d["op"]
        elif e.k == "Call" and e.d.get("oper") in ("=", "*="):
            o = e.slot("obj")
            xs = ([o] if o is not None else []) + list(e.c)
            if len(xs) == 2:
                lhs, rhs, op = xs[0], xs[1], e.d["oper"]
        if lhs is not None:
            l = strip(lhs)
            if l.k == "Var" and re.match(r"(const )?bool$", fn.vars[l.d["v"]]["t"]) and op == "=":
                self.flag(fn, l.d["v"], rhs, s)
                return
            p = self.place(fn, lhs, bind, ctx)
            el = self.element(fn, lhs, bind, ctx)
            if el is not None:
                r = strip(rhs)
                neg = op == "=" and r.k == "Un" and r.d["op"] == "-" and vstr(E.ev(r.c[0], ctx)) == vstr(E.ev(lhs, ctx)) or op == "*=" and vstr(E.ev(rhs, ctx)) == "-1"
                neg = neg or op == "=" and r.k == "Bin" and r.d["op"] == "*" and sorted(vstr(E.ev(y, ctx)) for y in r.c)[0:2] == sorted(["-1", vstr(E.ev(lhs, ctx))])
                if neg:
                    s.pend |= {el}
                else:
                    self.put(s, el, [("changed element by element", False, False, "")])
                return
            if p is not None and p[0][0] == "f":
                t = unhash(vstr(E.ev(rhs, ctx)))
                self.n += 1
                self.put(s, p, [(t, False, False, "")])
                self.mark(s, p[0][1])
            elif p is not None and isinstance(p, tuple) and op == "=":
                q = self.place(fn, rhs, bind, ctx)
                if q is not None and ("matrix" in (lhs.t or "") or "vector" in (lhs.t or "")):
                    self.put(s, p, self.get(s, q))
            return
        if e.k not in ("Call", "Ctor"):
            return
        q = e.d.get("q") or ""
        nm = q.split("::")[-1]
        args = list(e.c)
        o = e.slot("obj")
        if nm in ("sscanf", "fscanf"):
            for x in args[2:]:
                y = strip(x)
                if y.k == "Un" and y.d["op"] == "&":
                    p = self.place(fn, y.c[0], bind, ctx)
                    if p is not None and p[0][0] == "f":
                        self.n += 1
                        fm = re.match(r'\+"\s*(\w+)\s*:', unhash(vstr(E.ev(args[1], ctx))))
                        self.put(s, p, [("line " + (fm.group(1) if fm else "?"), False, False, "")])
                        self.mark(s, p[0][1])
            return
        if q == "sla::copy":
            d, r = self.place(fn, args[0], bind, ctx), self.place(fn, args[1], bind, ctx)
            self.n += 1
            c = self.get(s, r)
            if r is None:
                c = frozenset([(unhash(vstr(E.ev(args[1], ctx))), False, False, "")])
            elif r[0][0] == "v" and "dvector" in (args[1].t or ""):
                c = frozenset([(unhash(vstr(E.ev(args[1], ctx))), False, False, "")])
            if len(args) > 2 and d is not None and d[0][0] == "f":
                pass
            if d is not None:
                self.put(s, d, c)
                if d[0][0] == "f":
                    f = d[0][1]
                    if f in ("T", "Ttr", "O") and "size " + f not in s.done:
                        self.bad.append((fn.where(e), "a table of %s is filled before there is room for it" % f, "size " + f))
                    if d[1] is not None and not self.covered(fn, e, d[1], ctx):
                        self.bad.append((fn.where(e), "%s is not filled for every action" % f, "every " + f))
                    if r is not None and "dvector" in (args[1].t or ""):
                        self.dense(fn, r, ctx, f)
                    self.mark(s, f)
            return
        if q == "sla::kmatrix_transpose_in_place":
            p = self.place(fn, args[0], bind, ctx)
            self.put(s, p, [(x[0], not x[1], x[2], x[3]) for x in self.get(s, p)])
            return
        if q == "sla::kmatrix_set_entry":
            p = self.place(fn, args[0], bind, ctx)
            if p is not None:
                w = (p[0], "*" if p[1] is not None else None)
                ls = self.lines(e)
                self.put(s, w, set(x for x in self.get(s, w) if x[0] != "nothing") | set(("lines " + y, False, False, "") for y in ls))
            return
        if o is not None and nm in ("resize", "clear", "push_back", "operator()", "assign", "swap"):
            p = self.place(fn, o, bind, ctx)
            if p is not None and p[0][0] == "f" and p[1] is None:
                f = p[0][1]
                if nm in ("resize", "push_back") and f in ("initialBelief", "initialState"):
                    self.mark(s, f)
                if nm == "push_back" and f == "initialState":
                    self.n += 1
                    self.put(s, p, [(unhash(vstr(E.ev(args[1], ctx))), False, False, "")])
                if nm == "clear":
                    s.done -= {f}
                if nm == "resize" and f in ("T", "Ttr", "O"):
                    t = vstr(E.ev(args[0], ctx))
                    if re.match(r"\+[^ ]*[nN]umActions$", t):
                        s.done |= {"size " + f}
                    else:
                        self.bad.append((fn.where(e), "%s is given room for %s actions" % (f, t), "size " + f))
            elif p is not None and nm == "clear":
                self.put(s, p, [("nothing", False, False, "")])
            return
        if nm == "checkForTerminalStates":
            for f in ("T", "R"):
                if f not in s.done:
                    self.bad.append((fn.where(e), "terminal states are looked for before %s is there" % ("transitions" if f == "T" else "rewards"), "terminal early " + f))
            self.mark(s, "isTerminalState")
            return
        rs = [g for g in P.resolve(e) if g.blocks]
        if len(rs) == 1 and not E.recursive(rs[0], ctx, e):
            g = rs[0]
            nb = {}
            inter = False
            for i, v in enumerate(g.params):
                if i < len(args):
                    t = g.vars[v]["t"]
                    if re.search(r"CassandraModel|Pomdp\b|GenericDiscreteMDP", t):
                        inter = True
                    elif re.search(r"matrix|vector|_Row|Matrix", t):
                        p = self.place(fn, args[i], bind, ctx)
                        if p is not None:
                            nb[v] = p
                            inter = True
            if inter and self.relevant(g):
                out = self.run(g, nb, vals.Ctx(e, fn, ctx), s.copy())
                if out is not None:
                    s.con, s.done, s.cost, s.pend = out.con, out.done, out.cost, out.pend

    def relevant(self, g, seen=None):
        seen = seen if seen is not None else set()
        if g.usr in seen or len(seen) > 60:
            return False
        seen.add(g.usr)
        for n in self.P.all_nodes(g):
            if n.k == "Mem" and n.d["q"].split("::")[-1] in FIELDS and "parsers/" in g.file:
                return True
            if n.k == "Call" and (n.d.get("q") or "").startswith("sla::") and not g.q.startswith("sla::"):
                return True
            if n.k == "Call" and "parsers/" in g.file and any(self.relevant(h, seen) for h in self.P.resolve(n) if h.blocks):
                return True
        return False

    def flag(self, fn, v, rhs, s):
        t = vstr(self.E.ev(rhs))
        s.flags[(v, True)] = ALL if t == "0" else s.done
        s.flags[(v, False)] = ALL if t == "+1" else s.done

    def fold(self, s, iv):
        """the loop variable moves on: what was done for one index is part of the whole"""
        for p in list(s.con):
            if p[1] is not None and p[1] != "*" and p[1] == iv:
                c = s.con.pop(p)
                if p[0][0] == "f":
                    w = (p[0], "*")
                    s.con[w] = frozenset((x[0].replace("[%s]" % iv, "[#]"), x[1], x[2], x[3]) for x in c) | s.con.get(w, frozenset())

    def element(self, fn, lhs, bind, ctx):
        """X for X.data[i].value"""
        l = strip(lhs)
        if l.k == "Mem" and l.d["q"].endswith("_entry::value"):
            b = strip(l.c[0]) if l.c else None
            if b is not None and b.k == "Var":
                # for (auto &e : X.data)
                for L in loops_of(lhs):
                    if L.k == "ForRange" and loop_info(self.a, L).var == b.d["v"]:
                        r = strip(L.slot("range"))
                        if r.k == "Decl":
                            r = strip(r.vars[0][3])
                        if r.k == "Mem" and r.d["q"].endswith("::data"):
                            return self.place(fn, r.c[0], bind, ctx)
                return None
            if b is not None and b.k == "Call" and b.d.get("oper") == "[]":
                o = strip(b.slot("obj") or b.c[0])
                if o.k == "Mem" and o.d["q"].endswith("::data"):
                    return self.place(fn, o.c[0], bind, ctx)
        return None

    def covered(self, fn, e, ix, ctx):
        """the index is the variable of a loop over all actions"""
        for L in loops_of(e):
            li = loop_info(self.a, L, ctx)
            if li is not None and li.kind == "count" and li.lo is not None and vstr(li.lo) == "0" and re.match(r"\+[^ ]*[nN]umActions$", vstr(li.hi)) and \
                    ix.startswith("+iv:%s." % fn.vars[li.var]["n"]):
                return True
        # a helper filling one table: judged where it is called
        return ctx is not None and not ix.startswith("+iv:") or bool(re.match(r"\+iv:", ix)) and ctx is not None and not any(
            loop_info(self.a, L, ctx) for L in loops_of(e)) and self.covered(ctx.fn, ctx.call, ix, ctx.up)

    def dense(self, fn, r, ctx, f):
        """an array filled element by element: every element"""
        ok = False
        for n, lhs, op, rhs in assigns(self.P, fn):
            l = strip(lhs)
            if l.k == "Call" and l.d.get("oper") in ("()", "[]") and l.slot("obj") is not None and self.place(fn, l.slot("obj"), {}, ctx) == r and op == "=":
                for L in loops_of(n):
                    li = loop_info(self.a, L, ctx)
                    if li is not None and strip(l.c[0]).k == "Var" and strip(l.c[0]).d["v"] == li.var and li.lo is not None and vstr(li.lo) == "0" and re.match(r"\+[^ ]*[nN]umStates$", vstr(li.hi)):
                        ok = vstr(self.E.ev(l.c[0], ctx)) in ["+" + y for y in re.findall(r"\[(iv:\w+\.\d+)\]$", vstr(self.E.ev(rhs, ctx)))]
        if not ok:
            self.bad.append((fn.file, "%s is not taken state by state from what was read" % NAMES[f], "dense " + f))

    def lines(self, e):
        """the statements of the file whose values are entered here"""
        def said(rs):
            return set(m.group(1) for x in rs if isinstance(x[1], frozenset) and x[0] in ("==", "F") for m in [re.search(r'strncmp\([^"]*"(\w+):"', unhash(vstr(x[1])))] if m)
        cand = set()
        guarded(self.a, e, lambda rs: bool(cand.update(said(rs))), depth=2, plain=True)
        return set(y for y in cand if guarded(self.a, e, lambda rs: y in said(rs), depth=2, plain=True)) or {"?"}


def m09(a):
    P, E = a.P, a.E
    n = 0
    for fn in P.funcs.values():
        m = re.match(r"zmdp::(\w+Parser)::read(Pomdp|GenericDiscreteMDP)FromFile$", fn.q)
        if not m or not fn.blocks:
            continue
        R = Read(a, fn)
        pomdp = m.group(2) == "Pomdp"
        st = R.run(fn, {}, None, St())
        n += 1
        w = "%s:%s" % (fn.file, fn.line)
        who = "%s reading %s" % (m.group(1), "a POMDP" if pomdp else "an MDP")
        a.check(st is not None, "M09.returns", w, "a model can be read", "%s never returns a model" % who)
        if st is None:
            continue
        need = ["R", "T", "Ttr", "discount", "numStates", "numActions", "numObservations", "isTerminalState"] + (["O", "initialBelief"] if pomdp else ["initialState"])
        for f in need:
            a.check(f in st.done, "M09.filled", w, "%s: %s filled in on every path" % (who, NAMES[f]), "%s can return a model without %s" % (who, NAMES[f]), key="M09.filled %s %s" % (who, f))
        texts = {}
        for (root, ix), c in st.con.items():
            if root[0] == "f":
                texts.setdefault(root[1], set()).update(x for x in c if x[0] != "nothing")
        glob = False
        for f in need:
            got = texts.get(f, set())
            glob = glob or any("g:" in x[0] for x in got)
            if not got and f in ("isTerminalState", "initialBelief"):
                continue
            ok, what = source(f, got, pomdp)
            if f in st.done or got:
                a.check(ok, "M09.source", w, "%s: %s taken from what the file says" % (who, NAMES[f]), "%s fills %s from %s" % (who, NAMES[f], what), key="M09.source %s %s" % (who, f))
        if glob:
            k = "kind POMDP" if pomdp else "kind MDP"
            a.check(k in st.done, "M09.kind", w, "%s: a model of the other kind is refused" % who, "%s takes a model of the other kind, whose tables are missing" % who, key="M09.kind %s" % who)
            if not pomdp and any("gInitialState" in x[0] for x in texts.get("initialState", ())):
                a.check("start known" in st.done, "M09.kind", w, "%s: a model without a start state is refused" % who, "%s takes a model without a start state" % who, key="M09.start %s" % who)
        seen = set()
        for wh, msg, key in R.bad:
            if (wh, key) not in seen:
                seen.add((wh, key))
                a.fail("M09.order", wh, "%s: %s" % (who, msg), key="M09.order %s %s" % (who, key))
        a.ok("M09.order", w, "%s: %d steps, tables filled for every action, terminal states last" % (who, R.n))
    a.need("M09", n, 2, "readers")


NAMES = {"R": "the rewards", "T": "the transitions", "Ttr": "the transposed transitions", "O": "the observations", "initialBelief": "the initial distribution", "initialState": "the start state",
         "discount": "the discount", "numStates": "the number of states", "numActions": "the number of actions", "numObservations": "the number of observations", "isTerminalState": "the terminal marks"}
SCALAR = {"discount": ("+g:gDiscount", "line discount"), "numStates": ("+g:gNumStates", "line states"), "numActions": ("+g:gNumActions", "line actions"),
          "numObservations": ("+g:gNumObservations", "line observations")}
TABLE = {"T": ("g:P[#]", "lines T", False), "Ttr": ("g:P[#]", "lines T", True), "O": ("g:R[#]", "lines O", False)}


def source(f, got, pomdp):
    what = " or ".join(sorted("%s%s%s%s" % (x[0], " transposed" if x[1] else "", " negated" if x[2] else "", {"c": " for costs", "r": " for rewards"}.get(x[3], "")) for x in got))[:200] or "nothing"
    if f in SCALAR:
        want = set((SCALAR[f][0],)), set((SCALAR[f][1],))
        if f == "numObservations" and not pomdp:
            want = ({"-1"},)
        return set(x[0] for x in got) in want, what
    if f in TABLE:
        g, l, tr = TABLE[f]
        return got in ({(g, tr, False, "")}, {(l, tr, False, "")}), what
    if f == "R":
        return got in ({("g:Q", True, False, "r"), ("g:Q", True, True, "c")}, {("lines R", False, False, "")}), what
    if f == "initialBelief":
        return all(re.match(r"\+g:gInitialBelief\[iv:\w+\.\d+\]$", x[0]) for x in got), what
    if f == "initialState":
        return all(x[0] == "+g:gInitialState" or re.match(r'\+out:sscanf\.\d\(.*"start:', x[0]) for x in got) and bool(got), what
    return True, what


RULES["M09"] = [m09]
TEXT = {
    "M09.returns": "each reader returns a model for each kind of file",
    "M09.filled": "every field of the model is set on every path on which the reader returns (flags set only after a field is read count)",
    "M09.source": "every table is taken from its own statements, in its own orientation, costs negated exactly once",
    "M09.kind": "a file of the other kind, or without a start state where one is needed, is refused",
    "M09.order": "tables are sized before and filled for every action; terminal states are looked for once rewards and transitions are there",
}
