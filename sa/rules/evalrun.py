"""E01: simulated trials: the protocol between simulator and policy, the discounted sum, the cached replay."""
from rules.common import *
from rules.models2 import unhash, canon, must_set
import vals

RULES = {}
LIMIT = "evaluationMaxStepsPerTrial"


class St(object):
    """one abstract moment of a trial"""
    F = ("rs", "re", "stepped", "ch", "ad", "mv", "lg", "cn", "term", "b1", "g", "b2", "im", "rw", "kind")
    __slots__ = F + ("env", "rets")

    def __init__(self):
        self.rs = self.re = self.stepped = self.b1 = self.g = self.rw = False
        self.ch = self.ad = self.mv = self.lg = self.cn = 0
        self.term = self.b2 = self.im = "?"
        self.kind = ""
        self.env, self.rets = {}, {}

    def copy(self):
        s = St()
        for f in self.F:
            setattr(s, f, getattr(self, f))
        s.env, s.rets = dict(self.env), dict(self.rets)
        return s

    def key(self):
        return tuple(getattr(self, f) for f in self.F) + (tuple(sorted(self.env.items(), key=repr)), tuple(sorted(self.rets.items(), key=repr)))

    def fresh(self):
        """a new trial"""
        self.rs = self.re = self.stepped = self.b1 = self.g = self.rw = False
        self.ch = self.ad = self.mv = self.lg = self.cn = 0
        self.term = "?"
        self.env = dict((k, v) for k, v in self.env.items() if v[0] == 0)


def nm(n):
    return (n.d.get("q") or "").split("::")[-1]


class Run(object):
    def __init__(self, a):
        self.a, self.P, self.E = a, a.P, a.E
        self.bad = {}
        self.sites = {}
        self.rel, self.lv = {}, {}
        self.depth = 0
        # fields that hold the limit
        self.lim = set()
        for fn in self.P.funcs.values():
            for n, lhs, op, rhs in assigns(self.P, fn):
                l = strip(lhs)
                if l.k == "Mem" and op == "=" and rhs is not None and '"%s"' % LIMIT in vstr(self.E.ev(rhs)):
                    self.lim.add(l.d["q"])

    def viol(self, rule, n, msg):
        self.bad.setdefault((rule, n.fn.where(n), short(n.fn.q)), msg)

    def site(self, rule, n):
        self.sites.setdefault((rule, n.fn.where(n)), 0)

    # -- which functions take part
    def event(self, n):
        k = None
        if n.k == "Call":
            m = nm(n)
            if m == "chooseAction":
                k = "CH"
            elif m == "performAction" and "MDPSim" in n.d["q"]:
                k = "PF"
            elif m == "chooseFromDistribution":
                k = "PC"
            elif m == "advanceToNextState":
                k = "AD"
            elif m == "setToInitialState":
                k = "RE"
            elif m == "restart" and "MDPSim" in n.d["q"]:
                k = "RS"
            elif m in ("push_back", "emplace_back"):
                o = n.slot("obj")
                if o is not None and "Log" in ((o.ct or "") + (o.t or "")):
                    k = "LG"
            elif n.d.get("oper") == "=":
                o = n.slot("obj")
                l = strip(o if o is not None else n.c[0])
                if l.k == "Mem" and l.d["n"] == "currentState":
                    k = "CP"
        elif n.k == "Assign":
            l, r = strip(n.c[0]), strip(n.c[1])
            if l.k == "Mem" and l.d["n"] == "currentState":
                k = "CP"
            elif l.k == "Mem" and l.d["n"] == "userInt" and "Edge" in l.d["q"] and vstr(self.E.ev(r)) != "-1":
                k = "CN"
            elif l.k == "Var" and re.search(r"MDPNode \*$", l.t or ""):
                if self.ends(r, "nextState"):
                    k = "MV"
                elif self.ends(r, "root"):
                    k = "RS"
            elif self.isreward(l, r):
                k = "RW"
        elif n.k == "Un" and n.d["op"] in ("++", "post++"):
            l = strip(n.c[0])
            if l.k == "Mem" and l.d["n"] == "userInt" and "Edge" in l.d["q"]:
                k = "CN"
        return k

    def ends(self, r, name):
        if r.k == "Mem":
            return r.d["n"] == name
        if r.k == "Call" and nm(r) == "getRootNode":
            return name == "root"
        if r.k == "Var" and r.d["v"] not in r.fn.params:
            ds, entry = self.E.reaching(r.fn, r.d["v"], self.P.position(r))
            return bool(ds) and not entry and all(d.rhs is not None and self.ends(strip(d.rhs), name) for d in ds)
        return False

    def isreward(self, l, r):
        while r.k == "Var" and r.fn is not None and r.d["v"] not in r.fn.params:
            ds, entry = self.E.reaching(r.fn, r.d["v"], self.P.position(r))
            if entry or len(ds) != 1 or ds[0].rhs is None:
                break
            r = strip(ds[0].rhs)
        return l.k == "Call" and l.d.get("oper") in ("()", "[]") and r.k == "Mem" and r.d["n"] == "rewardSoFar" and "MDPSim" in r.d["q"]

    def relevant(self, g, seen=None):
        if g.usr in self.rel:
            return self.rel[g.usr]
        self.rel[g.usr] = False
        r = False
        if g.blocks and "MDPSim" not in (g.cls or "") and not (g.cls or "").endswith("Exec") and "Bound" not in (g.cls or "") and "MatrixUtils" not in g.q:
            for n in self.P.all_nodes(g):
                if self.event(n) is not None or n.k == "Call" and any(self.relevant(h) for h in self.P.resolve(n) if h.blocks):
                    r = True
                    break
        self.rel[g.usr] = r
        return r

    # -- linear forms over (steps done in this trial, limit)
    def lin(self, n, s, cx):
        n = strip(n)
        cv = n.d.get("cv")
        if n.k == "Lit":
            try:
                return (0, 0, int(cv if cv is not None else n.d["v"]))
            except (TypeError, ValueError):
                return None
        if n.k == "Mem" and n.d["q"] in self.lim:
            return (0, 1, 0)
        if n.k == "Var":
            return s.env.get((cx, n.d["v"]))
        if n.k == "Un" and n.d["op"] in ("++", "--", "post++", "post--"):
            # the element itself has been passed already
            v = self.lin(n.c[0], s, cx)
            if v is None:
                return None
            return (v[0], v[1], v[2] - (1 if n.d["op"] == "post++" else -1 if n.d["op"] == "post--" else 0))
        if n.k == "Un" and n.d["op"] == "-":
            v = self.lin(n.c[0], s, cx)
            return (-v[0], -v[1], -v[2]) if v else None
        if n.k == "Bin" and n.d["op"] in ("+", "-"):
            x, y = self.lin(n.c[0], s, cx), self.lin(n.c[1], s, cx)
            if x is None or y is None:
                return None
            q = 1 if n.d["op"] == "+" else -1
            return (x[0] + q * y[0], x[1] + q * y[1], x[2] + q * y[2])
        return None

    def setvar(self, s, cx, v, n, rhs):
        t = n.fn.vars[v]["t"].replace("const ", "")
        if t not in ("int", "unsigned int", "long", "size_t", "unsigned long"):
            return
        x = self.lin(rhs, s, cx)
        if x is not None and x[0] == 0 and x[1] == 0 and s.stepped:
            x = None
        elif x is not None and x[0] == 0 and not s.stepped:
            # nothing done yet: follow the steps from here
            if x[1] == 0 and self.counts(n.fn, v, "++"):
                x = (1, 0, x[2])
            elif x[1] == 1 and self.counts(n.fn, v, "--"):
                x = (-1, 1, x[2])
        if x is None:
            s.env.pop((cx, v), None)
        else:
            s.env[(cx, v)] = x

    def counts(self, fn, v, op):
        for n in self.P.all_nodes(fn):
            if n.k == "Un" and n.d["op"].replace("post", "") == op and strip(n.c[0]).k == "Var" and strip(n.c[0]).d["v"] == v:
                return True
            if n.k == "Assign" and n.d["op"] == op[0] + "=" and strip(n.c[0]).k == "Var" and strip(n.c[0]).d["v"] == v:
                return True
        return False

    def bump(self, s, cx, v, k):
        x = s.env.get((cx, v))
        if x is not None:
            x = (x[0], x[1], x[2] + k)
            if abs(x[2]) > 3:
                del s.env[(cx, v)]
            else:
                s.env[(cx, v)] = x

    # -- conditions; -> list of states
    def assume(self, n, tr, s, cx, depth=0):
        n = strip(n)
        if isinstance(tr, tuple) or depth > 6:
            return [s]
        if n.k == "Un" and n.d["op"] == "!":
            return self.assume(n.c[0], not tr, s, cx, depth)
        if n.k == "Bin" and n.d["op"] in ("&&", "||"):
            if (n.d["op"] == "&&") == tr:
                out = []
                for t in self.assume(n.c[0], tr, s, cx, depth + 1):
                    out += self.assume(n.c[1], tr, t, cx, depth + 1)
                return out
            out = self.assume(n.c[0], tr, s.copy(), cx, depth + 1)
            for t in self.assume(n.c[0], not tr, s.copy(), cx, depth + 1):
                out += self.assume(n.c[1], tr, t, cx, depth + 1)
            return out
        if n.k in ("Bool", "Lit"):
            v = n.d.get("cv", n.d.get("v"))
            return [s] if v is None or bool(int(v)) == tr else []
        if n.k == "Bin" and n.d["op"] in ("<", "<=", ">", ">=", "==", "!="):
            x, y = self.lin(n.c[0], s, cx), self.lin(n.c[1], s, cx)
            if x is None or y is None:
                for p, q in ((n.c[0], n.c[1]), (n.c[1], n.c[0])):
                    if strip(q).k in ("Bool", "Lit") and re.match("bool", strip(p).t or "") and n.d["op"] in ("==", "!="):
                        return self.assume(p, (tr == (n.d["op"] == "==")) == bool(int(strip(q).d.get("cv", strip(q).d.get("v")))), s, cx, depth + 1)
                return [s]
            e = (x[0] - y[0], x[1] - y[1], x[2] - y[2])
            op = n.d["op"]
            if op in ("<", "<="):
                e = (-e[0], -e[1], -e[2])
                op = {"<": ">", "<=": ">="}[op]
            return self.know(e, op, tr, s)
        if n.k == "Mem":
            if n.d["n"] == "assumeIdenticalModels":
                want = "T" if tr else "F"
                if s.im not in ("?", want):
                    return []
                s.im = want
            if n.d["n"] == "terminated" and "MDPSim" in n.d["q"]:
                return self.terminal(s, tr)
            if n.d["n"] == "isTerminal":
                # of the state just reached?
                b = strip(n.c[0])
                if s.mv == 1 and b.k == "Var" or b.k == "Mem" and b.d["n"] == "nextState":
                    return self.terminal(s, tr)
            return [s]
        if n.k == "Call":
            if nm(n) == "getIsTerminalState":
                return self.terminal(s, tr)
            r = s.rets.get((cx, n.id))
            if r is not None and r != tr:
                return []
            return [s]
        if n.k == "Var" and re.match(r"(const )?(bool|int)$", n.fn.vars[n.d["v"]]["t"]):
            r = s.rets.get((cx, "v", n.d["v"]))
            if r is not None and r != tr:
                return []
            if r is None and n.d["v"] not in n.fn.params:
                ds, entry = self.E.reaching(n.fn, n.d["v"], self.P.position(n))
                if not entry and len(ds) == 1 and ds[0].rhs is not None and ds[0].kind in ("init", "=") and re.search("bool", n.fn.vars[n.d["v"]]["t"]):
                    return self.assume(ds[0].rhs, tr, s, cx, depth + 1)
            x = self.lin(n, s, cx)
            if x is not None:
                return self.know(x, "!=", tr, s)
        return [s]

    def terminal(self, s, tr):
        want = "T" if tr else "F"
        if s.stepped:
            if s.term not in ("?", want):
                return []
            s.term = want
        return [s]

    def know(self, e, op, tr, s):
        """e op 0 has truth tr"""
        p, m, d = e
        if p == 0 and m == 0:
            r = {">": d > 0, ">=": d >= 0, "==": d == 0, "!=": d != 0}[op]
            return [s] if r == tr else []
        if p == 0 and m in (1, -1):
            # the limit against a constant: it is never negative
            d *= m
            if op in ("==", "!="):
                if d == 0:
                    z = (op == "==") == tr
                    return self.zero(s, z)
                return [s]
            # m*limit + d' > 0
            k = -d if m == 1 else d          # limit op' k
            if m == 1:
                lo = k + 1 if op == ">" else k      # limit >= lo
                if lo == 1:
                    return self.zero(s, not tr)
            else:
                hi = d * -1 if False else (-(-d))
                hi = (-e[2] * -1) - (1 if op == ">" else 0)   # limit <= hi
                if hi == 0:
                    return self.zero(s, tr)
            return [s]
        if (p, m) in ((1, -1), (-1, 1)):
            if op in ("==", "!="):
                if d == 0:
                    return self.bound(s, (op == "==") == tr)
                return [s]
            k = d - 1 if op == ">" else d
            if p == 1:
                # steps - limit + k >= 0
                if k == 0:
                    return self.bound(s, tr)
            else:
                # limit - steps + k >= 0, i.e. not (steps - limit - k - 1 >= 0)
                if k == -1:
                    return self.bound(s, not tr)
        return [s]

    def zero(self, s, z):
        want = "F" if z else "T"
        if s.b2 not in ("?", want):
            return []
        s.b2 = want
        return [s]

    def bound(self, s, reached):
        if reached:
            if s.g:
                return []
            s.b1 = True
        else:
            if s.b1:
                return []
            s.g = True
        return [s]

    # -- events
    def end(self, s, n, what):
        if not s.stepped:
            return
        if not (s.term == "T" or s.b1 and s.b2 == "T"):
            self.viol("E01.end", n, "%s a trial can end here although neither a terminal state nor the step limit was reached" % what)
        if s.kind == "C":
            if s.lg != 1:
                self.viol("E01.record", n, "%s the last step of a trial is recorded %s" % (what, "more than once" if s.lg else "not at all"))
            if s.cn != 1:
                self.viol("E01.record", n, "%s the outcome of the last step is counted %s" % (what, "more than once" if s.cn else "not at all"))

    def apply(self, k, n, s):
        if k in ("RS", "RE"):
            self.site("E01.start", n)
            if s.stepped or s.rw:
                self.end(s, n, "before the next trial starts:")
                if s.kind == "S" and not s.rw:
                    self.viol("E01.record", n, "the next trial starts although the reward of the last one was not recorded")
                s.fresh()
            if k == "RS":
                s.rs = True
            else:
                s.re = True
            return
        if k == "CH":
            self.site("E01.ask", n)
            if not (s.rs and s.re):
                self.viol("E01.start", n, "the policy is asked before %s been set back to the initial state" % ("policy and simulator have" if not s.rs and not s.re else "the simulator has" if not s.rs else "it has"))
            if s.ch:
                self.viol("E01.ask", n, "the policy is asked twice for one step")
            if s.stepped and not s.ad:
                self.viol("E01.told", n, "the policy is asked before it was told what happened in the last step")
            s.ch = 1
            return
        if k in ("PF", "PC"):
            self.site("E01.step", n)
            if not (s.rs and s.re):
                self.viol("E01.start", n, "a step is simulated before simulator and policy were both set back to the initial state")
            if k == "PF":
                s.kind = "S"
            else:
                s.kind = "C"
            if s.rw:
                self.viol("E01.record", n, "the reward is recorded before the last step of the trial")
            if not s.ch and not (k == "PC" and s.im == "T"):
                self.viol("E01.ask", n, "a step is simulated without asking the policy")
            if s.stepped:
                if s.term != "F":
                    self.viol("E01.end", n, "another step is simulated although the last one may have reached a terminal state")
                if not (s.g or s.b2 == "F"):
                    self.viol("E01.end", n, "another step is simulated without comparing the number of steps done with the limit")
                if s.ad != 1:
                    self.viol("E01.told", n, "the policy is not told what happened in the last step")
                if s.kind == "C":
                    if s.mv != 1:
                        self.viol("E01.step", n, "the simulated state is not moved once per step")
                    if s.lg != 1:
                        self.viol("E01.record", n, "a step is recorded %s" % ("more than once" if s.lg else "not at all"))
                    if s.cn != 1:
                        self.viol("E01.record", n, "the outcome of a step is counted %s" % ("more than once" if s.cn else "not at all"))
            elif not (s.g or s.b2 == "F") and s.b1 and s.b2 == "T":
                self.viol("E01.end", n, "a step is simulated although the limit is reached")
            s.stepped = True
            s.ch = s.ad = s.mv = s.lg = s.cn = 0
            s.term = "?"
            s.b1 = s.g = False
            for q, v in list(s.env.items()):
                if v[0]:
                    w = (v[0], v[1], v[2] - v[0])
                    if abs(w[2]) > 3:
                        del s.env[q]
                    else:
                        s.env[q] = w
            return
        if k in ("AD", "CP"):
            self.site("E01.told", n)
            if not s.stepped:
                self.viol("E01.told", n, "the policy is told of a step before one was simulated")
            elif s.ad:
                self.viol("E01.told", n, "the policy is told of the same step twice")
            if k == "CP":
                if s.im != "T":
                    self.viol("E01.told", n, "the simulator's state is given to the policy although their models may differ")
                r = strip(n.c[-1])
                ok = r.k == "Mem" and (r.d["n"] == "state" and "MDPSim" in r.d["q"] or r.d["n"] == "s" and (
                    s.mv == 1 and strip(r.c[0]).k == "Var" or strip(r.c[0]).k == "Mem" and strip(r.c[0]).d["n"] == "nextState"))
                if not ok:
                    self.viol("E01.told", n, "the state given to the policy is not the one just reached")
            s.ad = min(s.ad + 1, 2)
            return
        if k == "MV":
            if not s.stepped or s.mv:
                self.viol("E01.step", n, "the simulated state moves more than once per step")
            s.mv = min(s.mv + 1, 2)
            return
        if k == "LG":
            self.site("E01.record", n)
            if s.mv:
                self.viol("E01.record", n, "the step is recorded with the state it led to")
            s.lg = min(s.lg + 1, 2)
            return
        if k == "CN":
            if s.stepped:
                self.site("E01.record", n)
                s.cn = min(s.cn + 1, 2)
            return
        if k == "RW":
            self.site("E01.record", n)
            if not s.rs:
                self.viol("E01.record", n, "a reward is recorded without a trial")
            self.end(s, n, "when its reward is recorded:")
            s.rw = True

    def live(self, fn):
        """variables whose value may still be used, at the entry of each block"""
        if fn.usr in self.lv:
            return self.lv[fn.usr]
        gen, kill = {}, {}
        for b in fn.reach:
            g, k = set(), set()
            els = [e for e in fn.blocks[b].el if isinstance(e, Node)]
            if fn.blocks[b].cond is not None:
                els.append(fn.blocks[b].cond)
            for e in reversed(els):
                if e.k == "Decl":
                    for v in e.vars:
                        g.discard(v[0])
                        k.add(v[0])
                elif e.k == "Assign" and e.d["op"] == "=" and strip(e.c[0]).k == "Var":
                    g.discard(strip(e.c[0]).d["v"])
                    k.add(strip(e.c[0]).d["v"])
                    g |= set(y.d["v"] for y in e.c[1].walk() if y.k == "Var")
                    continue
                elif e.k == "Var" and e.p is not None and e.p.k == "Assign" and e.p.d["op"] == "=" and e.p.c[0] is e:
                    continue
                for y in e.walk():
                    if y.k == "Var":
                        g.add(y.d["v"])
                if e.k == "Decl":
                    for v in e.vars:
                        g.discard(v[0])
                        if v[3] is not None:
                            g |= set(y.d["v"] for y in v[3].walk() if y.k == "Var")
            gen[b], kill[b] = g, k
        live = dict((b, set(gen[b])) for b in fn.reach)
        ch = True
        while ch:
            ch = False
            for b in fn.reach:
                o = set()
                for t in fn.blocks[b].succ:
                    if t is not None and t in live:
                        o |= live[t]
                n = gen[b] | (o - kill[b])
                if n != live[b]:
                    live[b] = n
                    ch = True
        self.lv[fn.usr] = live
        return live

    # -- running
    def run(self, fn, cx, states):
        """states: list; -> list of exit states"""
        P = self.P
        if self.depth > 6:
            return states
        self.depth += 1
        ins = {fn.entry: dict((s.key(), s) for s in states)}
        done = {}
        out = {}
        work = [fn.entry]
        n = 0
        while work:
            b = work.pop(0)
            todo = [s for k, s in ins[b].items() if k not in done.setdefault(b, set())]
            done[b].update(s.key() for s in todo)
            n += len(todo)
            if n > 60000:
                raise BrokenAnalysis("E01: too many cases in %s" % fn.q)
            blk = fn.blocks[b]
            cur = [s.copy() for s in todo]
            dead = False
            for e in blk.el:
                if isinstance(e, Node):
                    if e.k == "Call" and P.call_noreturn(e):
                        dead = True
                        break
                    cur = self.step(fn, e, cx, cur)
                    for v in e.vars if e.k == "Decl" else ():
                        if v[3] is not None:
                            for s in cur:
                                self.init(fn, cx, v[0], e, v[3], s)
                elif isinstance(e, tuple) and e[0] == "dv":
                    for d in P.all_nodes(fn):
                        if d.k == "Decl":
                            for v in d.vars:
                                if v[0] == e[1] and v[3] is not None:
                                    for s in cur:
                                        self.init(fn, cx, v[0], d, v[3], s)
            if dead:
                continue
            if b == fn.exit:
                for s in cur:
                    out[s.key()] = s
                continue
            for i, t in enumerate(blk.succ):
                if t is None:
                    continue
                nxt = [s.copy() for s in cur]
                if blk.cond is not None and len(blk.succ) == 2:
                    for c, tr in P.branch_atoms(fn, b, i == 0):
                        nn = []
                        for s in nxt:
                            nn += self.assume(c, tr, s, cx)
                        nxt = nn
                d = ins.setdefault(t, {})
                new = False
                lv = self.live(fn).get(t, ())
                for s in nxt:
                    for q in [q for q in s.env if q[0] == cx and q[1] not in lv]:
                        del s.env[q]
                    for q in [q for q in s.rets if q[0] == cx and (q[1] == "v" and q[2] not in lv)]:
                        del s.rets[q]
                    k = s.key()
                    if k not in d:
                        d[k] = s
                        new = True
                if new and t not in work:
                    work.append(t)
        self.depth -= 1
        return list(out.values())

    def init(self, fn, cx, v, n, rhs, s):
        r = strip(rhs)
        s.rets.pop((cx, "v", v), None)
        if r.k == "Call" and (cx, r.id) in s.rets:
            s.rets[(cx, "v", v)] = s.rets[(cx, r.id)]
        if re.search(r"MDPNode \*$", fn.vars[v]["t"]) and self.ends(r, "root"):
            self.apply("RS", n, s)
        self.setvar(s, cx, v, n, rhs)

    def step(self, fn, e, cx, cur):
        k = self.event(e)
        if k is not None:
            for s in cur:
                self.apply(k, e, s)
        if e.k == "Un" and e.d["op"] in ("++", "--", "post++", "post--"):
            x = strip(e.c[0])
            if x.k == "Var":
                for s in cur:
                    self.bump(s, cx, x.d["v"], 1 if "++" in e.d["op"] else -1)
        elif e.k == "Assign":
            x = strip(e.c[0])
            if x.k == "Var":
                v = x.d["v"]
                for s in cur:
                    if e.d["op"] == "=":
                        s.rets.pop((cx, "v", v), None)
                        r = strip(e.c[1])
                        if r.k == "Call" and (cx, r.id) in s.rets:
                            s.rets[(cx, "v", v)] = s.rets[(cx, r.id)]
                        self.setvar(s, cx, v, e, e.c[1])
                    elif e.d["op"] in ("+=", "-="):
                        y = self.lin(e.c[1], s, cx)
                        if y is not None and y[0] == y[1] == 0:
                            self.bump(s, cx, v, y[2] if e.d["op"] == "+=" else -y[2])
                        else:
                            s.env.pop((cx, v), None)
                    else:
                        s.env.pop((cx, v), None)
        elif e.k == "Return" and e.c and re.match("(const )?bool$", fn.rt or ""):
            out = []
            for s in cur:
                for tr in (True, False):
                    for t in self.assume(e.c[0], tr, s.copy(), cx):
                        t.rets[(cx, "ret")] = tr
                        out.append(t)
            return out
        elif e.k == "Call" and k is None:
            gs = [g for g in self.P.resolve(e) if g.blocks and self.relevant(g)]
            if len(gs) == 1 and len(cx) < 6:
                g = gs[0]
                nx = cx + (e.id,)
                for s in cur:
                    for i, v in enumerate(g.params):
                        if i < len(e.c):
                            x = self.lin(e.c[i], s, cx)
                            if x is not None:
                                s.env[(nx, v)] = x
                out = []
                for t in self.run(g, nx, cur):
                    r = t.rets.pop((nx, "ret"), None)
                    t.env = dict((q, w) for q, w in t.env.items() if q[0] != nx)
                    t.rets = dict((q, w) for q, w in t.rets.items() if q[0] != nx)
                    t.rets.pop((cx, e.id), None)
                    if r is not None:
                        t.rets[(cx, e.id)] = r
                    out.append(t)
                return out
        return cur


def roots(a):
    P = a.P
    return [fn for fn in P.find("zmdp::PolicyEvaluator::getRewardSamples")]


def protocol(a):
    R = Run(a)
    n = 0
    for fn in roots(a):
        outs = R.run(fn, (), [St()])
        last = [y for y in P_last(a, fn)]
        for s in outs:
            R.end(s, last[0] if last else fn.body, "at the end:")
            if s.kind == "S" and s.stepped and not s.rw:
                R.viol("E01.record", fn.body, "the reward of the last trial is not recorded")
    for (r, w), _ in sorted(R.sites.items()):
        b = [(k, m) for k, m in R.bad.items() if k[0] == r and k[1] == w]
        if b:
            for k, m in b:
                a.fail(r, w, "%s: %s" % (k[2], m), key="%s %s %s" % (r, k[2], m[:60]))
        else:
            a.ok(r, w, TEXT[r])
        n += 1
    for k, m in sorted(R.bad.items()):
        if (k[0], k[1]) not in R.sites:
            a.fail(k[0], k[1], "%s: %s" % (k[2], m), key="%s %s %s" % (k[0], k[2], m[:60]))
    a.need("E01", n, 8, "events of simulated trials")


def P_last(a, fn):
    r = [y for y in a.P.all_nodes(fn) if y.line]
    r.sort(key=lambda y: -y.line)
    return r[:1]


# ---------------------------------------------------------------- values
class Names(object):
    """expressions by what they denote: locals with one reaching definition are replaced by it"""

    def __init__(self, a):
        self.a, self.P, self.E = a, a.P, a.E
        self.memo = {}

    def __call__(self, n, d=0):
        k = (n.fn.usr if n.fn is not None else None, n.id)
        if k not in self.memo:
            self.memo[k] = "?"
            self.memo[k] = self.of(n, d)
        return self.memo[k]

    def of(self, n, d):
        n = strip(n)
        if d > 30:
            return "?"
        if n.k == "Un" and n.d["op"] in ("*", "&"):
            return self(n.c[0], d + 1)
        if n.k == "This":
            return "@"
        if n.k == "Mem":
            b = self(n.c[0], d + 1) if n.c else "@"
            return "%s.%s" % (b, n.d["n"])
        if n.k == "Idx":
            return "%s[%s]" % (self(n.c[0], d + 1), self(n.c[1], d + 1))
        if n.k == "Call":
            o = n.slot("obj")
            m = nm(n)
            if n.d.get("oper") in ("[]", "()") or m == "at":
                x = ([o] if o is not None else []) + list(n.c)
                if len(x) == 2:
                    return "%s[%s]" % (self(x[0], d + 1), self(x[1], d + 1))
            if n.d.get("oper") in ("*", "->") and (o is not None or n.c):
                return self(o if o is not None else n.c[0], d + 1)
            if m == "getQ" and len(n.c) == 2:
                return "%s.Q[%s]" % (self(n.c[0], d + 1), self(n.c[1], d + 1))
            if m == "getDiscount":
                return "discount"
            if m == "back" and o is not None:
                return "%s.back#%s" % (self(o, d + 1), n.id)
            return "%s#%s" % (m, n.id)
        if n.k in ("Ctor", "Temp") and len(n.c) == 1:
            return self(n.c[0], d + 1)
        if n.k in ("Lit", "Bool"):
            return str(n.d.get("cv", n.d.get("v")))
        if n.k == "Bin":
            return "(%s%s%s)" % (self(n.c[0], d + 1), n.d["op"], self(n.c[1], d + 1))
        if n.k == "Un":
            return "%s(%s)" % (n.d["op"], self(n.c[0], d + 1))
        if n.k == "Var":
            v, fn = n.d["v"], n.fn
            if fn.vars[v]["p"]:
                cs = self.P.callers.get(fn.usr, ())
                i = fn.params.index(v)
                if not fn_defs(self.P, fn).byvar.get(v) and len(cs) == 1 and i < len(cs[0][1].c) and d < 20:
                    return self(cs[0][1].c[i], d + 1)
                return "%s/%s" % (fn.vars[v]["n"], v)
            pos = self.P.position(n)
            ds, entry = self.E.reaching(fn, v, pos) if pos is not None else ((), True)
            ds = [x for x in ds if x.field is None]
            if not entry and len(ds) == 1 and ds[0].rhs is not None and ds[0].kind in ("init", "=") and ds[0].node.id != n.id:
                return self(ds[0].rhs, d + 1)
            return "%s{%s}" % (fn.vars[v]["n"], ",".join(sorted(str(x.node.id) for x in ds)))
        return "%s#%s" % (n.k, n.id)

    def alts(self, n, depth=0):
        """all definitions of a local, one level"""
        n = strip(n)
        if n.k == "Cond":
            return [y for x in n.kids[1:] for y in self.alts(x, depth + 1)]
        if n.k == "Var" and not n.fn.vars[n.d["v"]]["p"] and depth < 6:
            ds, entry = self.E.reaching(n.fn, n.d["v"], self.P.position(n))
            ds = [x for x in ds if x.field is None]
            if ds and all(x.rhs is not None and x.kind in ("init", "=") for x in ds):
                return [y for x in ds for y in self.alts(x.rhs, depth + 1)]
        return [n]


def entry_fields(P, n):
    """field -> expression of a log entry that is being recorded"""
    while n.k in ("Temp", "Cast", "Paren") or n.k == "Ctor" and len(n.c) == 1 and strip(n.c[0]).k in ("Ctor", "InitList"):
        n = n.c[0]
    n = strip(n)
    if n.k == "Ctor" or n.k == "Call":
        for g in P.resolve(n):
            r = {}
            for i in g.inits:
                e = strip(i["e"]) if i["e"] is not None else None
                if i.get("m") and e is not None and e.k == "Var" and e.d["v"] in g.params:
                    j = g.params.index(e.d["v"])
                    if j < len(n.c):
                        r[i["m"].split("::")[-1]] = n.c[j]
            if r:
                return r
    if n.k == "InitList":
        for q, r in P.records.items():
            if (n.t or "").replace("struct ", "").split("::")[-1] == q.split("::")[-1] and len(r["fields"]) == len(n.c):
                return dict((f["n"] if isinstance(f, dict) else str(f).split("::")[-1], c) for f, c in zip(r["fields"], n.c))
    return {}


def same_step(a):
    """all parts of a step speak of the same state, action and outcome"""
    P, N = a.P, Names(a)
    R = Run(a)
    seen = 0
    ev = {}
    for fn in P.funcs.values():
        if not fn.blocks or not R.relevant(fn):
            continue
        for n in P.all_nodes(fn):
            k = R.event(n)
            if k:
                ev.setdefault(k, []).append(n)
    where = lambda n: n.fn.where(n)
    acts = {}
    # the cached variant
    for n in ev.get("PC", ()):
        seen += 1
        t = N(n.c[0])
        m = re.match(r"(.*)\.Q\[(.*)\]\.opv$", t)
        a.check(bool(m), "E01.same", where(n), "the outcome is drawn from the probabilities of the simulated state and chosen action",
                "%s draws the outcome from %s" % (short(n.fn.q), t), key="E01.same draw")
        if not m:
            continue
        cur, act = m.groups()
        out = "chooseFromDistribution#%s" % n.id
        edge = "%s.Q[%s].outcomes[%s]" % (cur, act, out)
        acts[n.id] = act
        for y in ev.get("MV", ()):
            t = N(y.c[1])
            a.check(t == edge + ".nextState", "E01.same", where(y), "the simulated state moves to the successor of the drawn outcome",
                    "%s moves to another state than the successor of the drawn outcome" % short(y.fn.q), key="E01.same move")
        for y in ev.get("CN", ()):
            l = strip(y.c[0])
            t = N(l)
            if t.endswith(".userInt"):
                a.check(t == edge + ".userInt", "E01.same", where(y), "the drawn outcome is the one counted", "%s counts another outcome than the one drawn" % short(y.fn.q), key="E01.same count")
                if y.k == "Assign":
                    one = y.d["op"] == "+=" and N(y.c[1]) == "1" or y.d["op"] == "=" and (N(y.c[1]) in ("1", "(%s+1)" % (edge + ".userInt")))
                    a.check(one, "E01.same", where(y), "counted once", "%s does not count the outcome by one" % short(y.fn.q), key="E01.same count1")
                    if y.d["op"] == "=" and N(y.c[1]) == "1":
                        fresh = guarded(a, y, TR_eq(edge_rx=r"userInt", k=-1))
                        a.check(fresh, "E01.same", where(y), "counting starts anew only for an outcome not seen yet",
                                "%s can restart the count of an outcome seen before" % short(y.fn.q), key="E01.same restart")
                elif y.k == "Un":
                    a.check(guarded(a, y, TR_ne(r"userInt", -1)), "E01.same", where(y), "an outcome not seen yet starts at one",
                            "%s counts up from the mark of an outcome not seen yet" % short(y.fn.q), key="E01.same mark")
        for y in ev.get("LG", ()):
            f = entry_fields(P, y.c[0])
            got = dict((q, N(v)) for q, v in f.items())
            want = {"cn": cur, "a": act, "o": out}
            for q, v in want.items():
                if q in got:
                    a.check(got[q] == v, "E01.same", where(y), "the log keeps the state the action was taken in, the action and the outcome",
                            "%s logs something else as the step's %s" % (short(y.fn.q), {"cn": "state", "a": "action", "o": "outcome"}[q]), key="E01.same log %s" % q)
        for y in ev.get("AD", ()):
            if len(y.c) == 2 and N(y.c[0]) == act:
                a.ok("E01.same", where(y), "the policy is told the action taken")
                a.check(N(y.c[1]) == out, "E01.same", where(y), "the policy is told the outcome drawn", "%s tells the policy another outcome than the one drawn" % short(y.fn.q), key="E01.same told o")
        # where the action comes from
        for z in actions(N, n.c[0], act):
            ok = z.k == "Call" and nm(z) == "chooseAction" or N(z) == cur + ".userInt"
            a.check(ok, "E01.same", where(z), "the action is the policy's choice, or the one remembered for this very state",
                    "%s simulates an action the policy did not choose" % short(z.fn.q), key="E01.same choice")
        for y in ev.get("PC", ())[:1]:
            for fn in P.funcs.values():
                if fn.blocks and R.relevant(fn):
                    for w, l, op, r in assigns(P, fn):
                        l = strip(l)
                        if l.k == "Mem" and l.d["n"] == "userInt" and "Node" in l.d["q"]:
                            t = N(l)
                            ok = t == cur + ".userInt" and all(z.k == "Call" and nm(z) == "chooseAction" for z in N.alts(r))
                            a.check(ok, "E01.same", where(w), "the choice is remembered with the state it was made in",
                                    "%s remembers a choice with a state it was not made in" % short(fn.q), key="E01.same remember")
    for n in ev.get("PF", ()):
        seen += 1
        acts[n.id] = N(n.c[0])
        for z in N.alts(n.c[0]):
            a.check(z.k == "Call" and nm(z) == "chooseAction", "E01.same", where(n), "the action simulated is the policy's choice",
                    "%s simulates an action the policy did not choose" % short(n.fn.q), key="E01.same simchoice")
    for y in ev.get("AD", ()):
        if len(y.c) != 2:
            continue
        t, o = N(y.c[0]), N(y.c[1])
        a.check(t in acts.values(), "E01.same", where(y), "the policy is told the action taken", "%s tells the policy another action than the one simulated" % short(y.fn.q), key="E01.same told a")
        a.check(o.endswith(".lastOutcomeIndex") or o.startswith("chooseFromDistribution#"), "E01.same", where(y), "the policy is told the outcome drawn",
                "%s tells the policy another outcome than the one drawn" % short(y.fn.q), key="E01.same told o2")
    a.need("E01.same", seen, 1, "simulated steps")


def actions(N, arg, act):
    """expressions the chosen action may come from"""
    x = strip(arg)
    while x is not None:
        if x.k == "Mem":
            x = strip(x.c[0])
        elif x.k == "Un" and x.d["op"] in ("*", "&"):
            x = strip(x.c[0])
        elif x.k == "Var":
            y = N.alts(x)
            if len(y) != 1 or y[0] is x:
                return []
            x = y[0]
        elif x.k == "Call" and nm(x) == "getQ":
            return N.alts(x.c[1])
        elif x.k in ("Idx",):
            return N.alts(x.c[1])
        else:
            return []
    return []


def TR_eq(edge_rx, k):
    def p(rs):
        for q in rs:
            op, t = q[0], vstr(q[1])
            if op == "==" and edge_rx in t:
                return True
        return False
    return p


def TR_ne(rx_, k):
    def p(rs):
        for q in rs:
            op, t = q[0], vstr(q[1])
            if op in ("!=", "T", ">", ">=") and rx_ in t:
                return True
        return False
    return p


# ---------------------------------------------------------------- the simulator's own step
class Sim(Run):
    """performAction: reward of the old state at the old time, one move, one tick, the end noticed"""

    def event(self, n):
        def f(x, name):
            x = strip(x)
            return x.k == "Mem" and x.d["n"] == name and "MDPSim" in x.d["q"]
        if n.k == "Call":
            o = n.slot("obj")
            m = nm(n)
            if n.d.get("oper") == "=":
                x = o if o is not None else n.c[0]
                if f(x, "state"):
                    return "ST"
            if m in ("getReward", "getOutcomeProbVector", "getNextState"):
                if any(f(c, "state") for c in (n.c[1:] if m != "getReward" else n.c)):
                    return "RD"
                return None
            if m == "getIsTerminalState":
                return "TQ"
            if m == "pow" and any(f(c, "elapsedTime") for c in n.c):
                return "PW"
        elif n.k == "Assign":
            if f(n.c[0], "state"):
                return "ST"
            if f(n.c[0], "elapsedTime"):
                return "TM"
            if f(n.c[0], "rewardSoFar"):
                return "RW"
            if f(n.c[0], "terminated"):
                return "TV"
            if f(n.c[0], "lastOutcomeIndex"):
                return "LO"
        elif n.k == "Un" and n.d["op"] in ("++", "post++", "--", "post--") and f(n.c[0], "elapsedTime"):
            return "TM"
        return None

    def relevant(self, g, seen=None):
        return "MDPSim" in (g.cls or "") and any(self.event(n) for n in self.P.all_nodes(g))

    def assume(self, n, tr, s, cx, depth=0):
        n = strip(n)
        if n.k == "Un" and n.d["op"] == "!":
            return self.assume(n.c[0], not tr, s, cx, depth)
        if n.k == "Call" and nm(n) == "getIsTerminalState":
            want = "T" if tr else "F"
            if s.b2 not in ("?", want):
                return []
            s.b2 = want
            return [s]
        if n.k == "Mem" and n.d["n"] == "terminated" and s.term != "?":
            return [s] if s.term == ("T" if tr else "F") else []
        if n.k == "Mem" and n.d["n"] == "terminated":
            s.term = "T" if tr else "F"
            return [s]
        return Run.assume(self, n, tr, s, cx, depth)

    def step(self, fn, e, cx, cur):
        k = self.event(e)
        if k == "TV":
            r = strip(e.c[1])
            out = []
            for s in cur:
                self.site("E01.sim", e)
                for tr in (True, False):
                    for t in self.assume(r, tr, s.copy(), cx):
                        t.term = "T" if tr else "F"
                        out.append(t)
            return out
        if k is None and e.k == "Assign" and strip(e.c[0]).k == "Var" and re.search("bool", fn.vars[strip(e.c[0]).d["v"]]["t"]):
            pass
        return Run.step(self, fn, e, cx, cur)

    def setvar(self, s, cx, v, n, rhs):
        pass

    def apply(self, k, n, s):
        # mv: state stored, cn: ticks, rw: reward added, lg: outcome stored
        self.site("E01.sim", n)
        if k == "RD":
            if s.mv:
                self.viol("E01.sim", n, "the model is asked about the new state instead of the one the action was taken in")
        elif k == "PW":
            if s.cn:
                self.viol("E01.sim", n, "the discount is taken after the clock has moved on")
        elif k == "ST":
            s.mv = min(s.mv + 1, 2)
        elif k == "TM":
            ok = n.k == "Un" and "++" in n.d["op"] or n.k == "Assign" and n.d["op"] == "+=" and vstr(self.E.ev(n.c[1])) == "+1" or \
                n.k == "Assign" and n.d["op"] == "=" and re.match(r"\+1 \+@MDPSim.elapsedTime$|\+@MDPSim.elapsedTime \+1$", vstr(self.E.ev(n.c[1])))
            if not ok:
                self.viol("E01.sim", n, "the number of steps done does not go up by one")
            s.cn = min(s.cn + 1, 2)
        elif k == "RW":
            if s.cn and not any(y.k == "Var" for y in n.c[1].walk()):
                pass
            s.ad = min(s.ad + 1, 2)
        elif k == "LO":
            s.lg = min(s.lg + 1, 2)
        elif k == "TQ":
            x = strip(n.c[0])
            if x.k == "Mem" and x.d["n"] == "state" and not s.mv:
                self.viol("E01.sim", n, "the end is looked for in the old state")
            s.stepped = True


def P_text(a, fn, n):
    return canon(a, fn, a.E.ev(n))


def simulator(a):
    P, E = a.P, a.E
    R = Sim(a)
    n = 0
    for fn in P.find("zmdp::MDPSim::performAction"):
        s0 = St()
        s0.term = "F"
        for s in R.run(fn, (), [s0]):
            w = fn.body
            if s.ad != 1:
                R.viol("E01.sim", w, "the reward of a step is added %s" % ("more than once" if s.ad else "not at all"))
            if s.mv != 1:
                R.viol("E01.sim", w, "the state is stored %s in one step" % ("more than once" if s.mv else "not at all"))
            if s.cn != 1:
                R.viol("E01.sim", w, "the clock moves %s in one step" % ("more than once" if s.cn else "not at all"))
            if s.lg != 1:
                R.viol("E01.sim", w, "the outcome drawn is stored %s in one step" % ("more than once" if s.lg else "not at all"))
            if s.b2 == "?" and s.term != "?" or s.b2 in ("T", "F") and s.term != s.b2:
                R.viol("E01.sim", w, "the end of the trial does not follow the new state being terminal")
    emit(a, R)
    for fn in P.funcs.values():
        if not fn.blocks:
            continue
        for x, lhs, op, rhs in assigns(P, fn):
            l = strip(lhs)
            if l.k != "Mem" or "MDPSim" not in (l.d.get("q") or "") or not P.reachable(x):
                continue
            if l.d["n"] == "rewardSoFar":
                n += 1
                if op == "=" and rhs is not None and vstr(E.ev(rhs)) == "0":
                    a.ok("E01.discount", fn.where(x), "starts at zero")
                    continue
                got = canon(a, fn, E.ev(rhs)) if rhs is not None else set()
                self_ = "+@rewardSoFar"
                want = set(norm_(y) for y in ("+@model.getReward(+@state,+P0)*pow(+@model.discount,+@elapsedTime)", "+@getModel().getReward(+@state,+P0)*pow(+@model.discount,+@elapsedTime)"))
                if op == "=":
                    got = set(re.sub(r"\s*\+@rewardSoFar\s*", "", y) if "+@rewardSoFar" in y else "!" + y for y in got)
                ok = op in ("+=", "=") and bool(got) and got <= want
                a.check(ok, "E01.discount", fn.where(x), "the sum grows by discount^(steps done) times the reward of the state and action",
                        "%s adds %s" % (short(fn.q), " | ".join(sorted(got))[:200]), key="E01.discount " + fn.q)
    for fn in P.find("zmdp::MDPSim::restart"):
        for f, want in (("elapsedTime", ["0"]), ("rewardSoFar", ["0"]), ("terminated", ["0"]), ("state", ["+@model.getInitialState()", "+@model.initialState", "+@getModel().getInitialState()"])):
            sets = [(x, l, r) for x, l, op, r in assigns(P, fn) if strip(l).k == "Mem" and strip(l).d["n"] == f and op == "="]
            if f == "state":
                for x in P.all_nodes(fn):
                    if x.k == "Call" and x.d.get("oper") == "=":
                        o = x.slot("obj")
                        xs = ([o] if o is not None else []) + list(x.c)
                        if strip(xs[0]).k == "Mem" and strip(xs[0]).d["n"] == f and all(x is not y for y, _, _ in sets):
                            sets.append((x, xs[0], xs[1]))
            if sets:
                must_set(a, fn, sets, want, "E01.restart", "puts %s back" % {"elapsedTime": "the clock", "rewardSoFar": "the reward", "terminated": "the end mark", "state": "the state"}[f])
            else:
                a.check(helper_sets(a, fn, f), "E01.restart", "%s:%s" % (fn.file, fn.line), "restart puts back %s" % f, "MDPSim::restart leaves %s as the last trial ended" % f, key="E01.restart " + f)
            n += 1
    a.need("E01.discount", n, 4, "parts of the simulator")


def norm_(s):
    from rules.models2 import norm
    return norm(s)


def helper_sets(a, fn, f):
    for x in a.P.all_nodes(fn):
        if x.k == "Call":
            for g in a.P.resolve(x):
                for y, l, op, r in assigns(a.P, g) if g.blocks else ():
                    if strip(l).k == "Mem" and strip(l).d["n"] == f and op == "=":
                        return True
    return False


def emit(a, R):
    n = 0
    for (r, w), _ in sorted(R.sites.items()):
        b = [(k, m) for k, m in R.bad.items() if k[0] == r and k[1] == w]
        if b:
            for k, m in b:
                a.fail(r, w, "%s: %s" % (k[2], m), key="%s %s %s" % (r, k[2], m[:60]))
        else:
            a.ok(r, w, TEXT[r])
        n += 1
    for k, m in sorted(R.bad.items()):
        if (k[0], k[1]) not in R.sites:
            a.fail(k[0], k[1], "%s: %s" % (k[2], m), key="%s %s %s" % (k[0], k[2], m[:60]))
    return n


# ---------------------------------------------------------------- the cached replay
def poly(N, n, var, a):
    """expression -> {sorted atoms: coefficient}, the accumulator being SELF; None when not a polynomial"""
    n = strip(n)
    if n.k == "Var" and n.d["v"] == var:
        return {("SELF",): 1}
    if n.k == "Bin" and n.d["op"] in ("+", "-", "*"):
        x, y = poly(N, n.c[0], var, a), poly(N, n.c[1], var, a)
        if x is None or y is None:
            return None
        r = {}
        if n.d["op"] == "*":
            for p, c in x.items():
                for q, e in y.items():
                    k = tuple(sorted(p + q))
                    r[k] = r.get(k, 0) + c * e
            return r
        for p, c in x.items():
            r[p] = r.get(p, 0) + c
        for p, c in y.items():
            r[p] = r.get(p, 0) + (c if n.d["op"] == "+" else -c)
        return r
    if n.k == "Lit":
        try:
            return {(): float(n.d.get("cv", n.d.get("v")))}
        except (TypeError, ValueError):
            return None
    if n.k == "Var" and n.fn is not None and not n.fn.vars[n.d["v"]]["p"]:
        ds, entry = a.E.reaching(n.fn, n.d["v"], a.P.position(n))
        ds = [x for x in ds if x.field is None]
        if not entry and len(ds) == 1 and ds[0].rhs is not None and ds[0].kind in ("init", "="):
            return poly(N, ds[0].rhs, var, a)
    return {(N(n),): 1}


def replay(a):
    P, E, N = a.P, a.E, Names(a)
    k = 0
    for fn in P.funcs.values():
        if not fn.blocks or "PolicyEvaluator" not in fn.q:
            continue
        D = fn_defs(P, fn)
        for v, ds in list(D.byvar.items()):
            if fn.vars[v]["t"] != "double":
                continue
            ups = [d for d in ds if d.kind in ("=", "+=", "*=") and d.rhs is not None and any(".immediateReward" in N(y) for y in d.rhs.walk() if y.k in ("Mem", "Var"))]
            if not ups:
                continue
            k += 1
            w = fn.where(ups[0].node)
            a.check(len(ups) == 1 and len([d for d in ds if d.rhs is not None and vstr(E.ev(d.rhs)) != "0"]) == 1, "E01.replay", w, "one update per step", "%s updates the reward of a logged trial in several places" % short(fn.q), key="E01.replay ups")
            u = ups[0]
            p = poly(N, u.rhs, v, a)
            if u.kind == "+=" and p is not None:
                p[("SELF",)] = p.get(("SELF",), 0) + 1
            ok, e = False, None
            if p is not None:
                p = dict((q, c) for q, c in p.items() if c)
                one = [q for q in p if len(q) == 1 and q[0].endswith(".immediateReward")]
                rest = [q for q in p if len(q) == 3 and "SELF" in q]
                if len(one) == 1 and len(rest) == 1 and len(p) == 2 and p[one[0]] == p[rest[0]] == 1:
                    q = [x for x in rest[0] if x != "SELF"]
                    wt = [x for x in q if x.endswith(".userDouble")]
                    dc = [x for x in q if re.search(r"(^|\.)(discount)$", x)]
                    m = re.match(r"(.*)\.cn\.Q\[(.*)\.a\]\.immediateReward$", one[0][0])
                    if wt and dc and m and m.group(1) == m.group(2):
                        e = m.group(1)
                        ok = wt[0] == "%s.cn.Q[%s.a].outcomes[%s.o].userDouble" % (e, e, e)
            a.check(ok, "E01.replay", w, "reward of a logged trial = reward of the step + weight of its outcome * discount * reward of the rest",
                    "%s combines the logged steps differently: %s" % (short(fn.q), sorted(p.items()) if p else "not a sum of products"), key="E01.replay form")
            # backwards over all steps, from zero
            ls = loops_of(u.node)
            L = loop_info(a, ls[0]) if ls else None
            if L is None:
                a.fail("E01.replay", w, "%s: the loop over the logged steps has no counted range" % short(fn.q), key="E01.replay loop")
                continue
            rev = L.kind == "iter" and "reverse_iterator" in fn.vars[L.var]["t"]
            dn = L.kind == "count" and not L.up and L.lo == ZERO and re.search(r"size\(", unhash(vstr(L.hi))) is not None and not re.search(r"[-+]\s*\d", re.sub(r"\([^()]*\)|\[[^\[\]]*\]", "", unhash(vstr(L.hi))))
            a.check(rev or dn, "E01.replay", fn.where(ls[0]), "the log is gone through from the last step to the first",
                    "%s goes through the log from %s to %s %s" % (short(fn.q), vstr(L.lo) if L.lo else "?", vstr(L.hi)[:80] if L.hi else "?", "upwards" if L.up else ""), key="E01.replay order")
            body = set(y.id for y in ls[1].walk()) if len(ls) > 1 else set(y.id for y in fn.body.walk())
            inner = set(y.id for y in ls[0].walk())
            z = [d for d in ds if d.rhs is not None and vstr(E.ev(d.rhs)) == "0" and d.node.id in body and d.node.id not in inner]
            a.check(bool(z), "E01.replay", w, "starts at zero for every trial", "%s carries the reward of one trial into the next" % short(fn.q), key="E01.replay reset")
    # the weights
    for fn in P.funcs.values():
        if not fn.blocks or "PolicyEvaluator" not in fn.q:
            continue
        for x, lhs, op, rhs in assigns(P, fn):
            l = strip(lhs)
            if l.k != "Mem" or "CMDPEdge" not in (l.d.get("q") or "") or op != "=":
                continue
            t = unhash(vstr(E.ev(l)))
            if l.d["n"] == "userDouble":
                k += 1
                m = re.match(r"\+(.*)\.outcomes\[([^\[\]]*)\]\.userDouble$", t)
                for p in E.ev(rhs):
                    got = unhash(pstr(p))
                    if got == "+1":
                        continue
                    ok = False
                    if m:
                        b, o = m.groups()
                        q = re.match(r"^\+(.*)$", got)
                        fs = sorted(split_top(q.group(1))) if q else []
                        tot = [f for f in fs if f.startswith(b + ".outcomes[") and f.endswith(".userInt") and f != "%s.outcomes[%s].userInt" % (b, o)]
                        oth = sorted(f for f in fs if f not in tot)
                        ok = len(tot) == 1 and oth == sorted(["/%s.outcomes[%s].userInt" % (b, o), "%s.opv[%s]" % (b, o)])
                    a.check(ok, "E01.weight", fn.where(x), "weight of an outcome = probability / (count / total count)",
                            "%s weighs an outcome with %s" % (short(fn.q), got[:200]), key="E01.weight value")
                    full_ = guarded(a, x, lambda rs: any(r[0] == "==" and "opv[" in vstr(r[1]) for r in rs)) if ok else True
                    a.check(full_, "E01.weight", fn.where(x), "only when all outcomes with positive probability were seen",
                            "%s reweighs although some outcomes were never drawn" % short(fn.q), key="E01.weight guard")
            elif l.d["n"] == "userInt" and vstr(E.ev(rhs)) == "-1":
                k += 1
                ls = loops_of(x)
                a.check(len(ls) >= 3, "E01.weight", fn.where(x), "counts of earlier batches are cleared for every state, action and outcome",
                        "%s clears the counts of only some outcomes" % short(fn.q), key="E01.weight clear")
                for y in ls:
                    from rules.bounds import full_range
                    full_range(a, "E01.weight", fn.where(y), "the clearing loop", loop_info(a, y))
    # sums behind the weights cover every outcome that was drawn
    for fn in P.funcs.values():
        if not fn.blocks or "PolicyEvaluator" not in fn.q:
            continue
        for x in P.all_nodes(fn):
            if x.k == "Assign" and x.d["op"] == "+=" and strip(x.c[0]).k == "Var":
                t = unhash(vstr(E.ev(x.c[1])))
                if re.search(r"\.(opv\[[^\[\]]*\]|userInt)$", t) and "outcomes[" in t or re.search(r"\.opv\[[^\[\]]*\]$", t):
                    k += 1
                    from rules.bounds import full_range
                    ls = loops_of(x)
                    if ls:
                        full_range(a, "E01.weight", fn.where(ls[0]), "the sum over the outcomes", loop_info(a, ls[0]))
                    seen = guarded(a, x, TR_ne("userInt", -1))
                    a.check(seen, "E01.weight", fn.where(x), "only outcomes that were drawn", "%s sums over outcomes that were never drawn" % short(fn.q), key="E01.weight seen")
                    v = strip(x.c[0]).d["v"]
                    body = set(y.id for y in ls[1].walk()) if len(ls) > 1 else set()
                    z = [d for d in fn_defs(P, fn).byvar.get(v, ()) if d.rhs is not None and vstr(E.ev(d.rhs)) == "0" and d.node.id in body]
                    a.check(bool(z), "E01.weight", fn.where(x), "from zero for each state and action", "%s does not restart the sum for each state and action" % short(fn.q), key="E01.weight reset")
    # every trial reported
    for fn in P.funcs.values():
        if not fn.blocks or "PolicyEvaluator" not in fn.q:
            continue
        rs = [x for x in P.all_nodes(fn) if x.k == "Call" and nm(x) == "resize" and x.c and strip(x.slot("obj")).k == "Var" and strip(x.slot("obj")).d["v"] in fn.params]
        for x in rs:
            v = strip(x.slot("obj")).d["v"]
            size = E.ev(x.c[0])
            for y, l, op, r in assigns(P, fn):
                l = strip(l)
                if l.k == "Call" and l.d.get("oper") in ("()", "[]"):
                    o = l.slot("obj")
                    xs = ([o] if o is not None else []) + list(l.c)
                    if strip(xs[0]).k == "Var" and strip(xs[0]).d["v"] == v:
                        k += 1
                        i = strip(xs[1])
                        ls = [q for q in loops_of(y) if loop_info(a, q) is not None and i.k == "Var" and loop_info(a, q).var == i.d["v"]]
                        ok = bool(ls) and loop_info(a, ls[0]).lo == ZERO and vstr(loop_info(a, ls[0]).hi) == vstr(size)
                        a.check(ok, "E01.trials", fn.where(y), "one entry per trial", "%s does not fill every entry of the rewards it announces" % short(fn.q), key="E01.trials " + fn.q)
    a.need("E01.replay", k, 3, "parts of the replay and the reward list")


def split_top(s):
    out, d, cur = [], 0, ""
    for ch in s:
        d += {"(": 1, "[": 1, "{": 1, ")": -1, "]": -1, "}": -1}.get(ch, 0)
        if ch == "*" and d == 0:
            out.append(cur)
            cur = ""
        else:
            cur += ch
    return out + [cur]


TEXT = {
    "E01.start": "a trial starts with simulator and policy both set back to the initial state",
    "E01.ask": "the policy is asked exactly once per step (a remembered answer for the same state of the same model counts)",
    "E01.told": "the policy is told exactly once what happened in each step, with the action taken and the outcome drawn",
    "E01.step": "one action is simulated per step",
    "E01.end": "a trial ends exactly at a terminal state or after the configured number of steps (0 = no limit)",
    "E01.same": "all parts of a step speak of the same state, action and outcome",
    "E01.sim": "a simulated step asks about the state it was taken in, adds one reward, moves and ticks once, and notices a terminal state",
    "E01.discount": "the sum grows by discount^(steps done before) times the reward of the state and action, from zero",
    "E01.restart": "a restart puts clock, reward, end mark and state back",
    "E01.replay": "logged trials are summed from the last step backwards with the discount and the outcome weights",
    "E01.weight": "outcome weights are probability over observed frequency, counted anew for every batch",
    "E01.trials": "every trial has its entry in the reported rewards",
    "E01.record": "every trial's reward is recorded once, after its last step; every step is logged and counted once",
}
RULES["E01"] = [protocol, same_step, simulator, replay]
