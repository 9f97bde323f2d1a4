"""E02: queries do not write solver state -- interprocedural write-effect (purity) analysis."""
from rules.common import *
from flow import last
from core import OUT_OPS, fn_defs, root_place, is_ref_type, is_ptr_type

RULES = {}
TEXT = {}

# members of library containers that can be called on a non-const object without changing it
READS = set("begin end rbegin rend cbegin cend find at front back top data count size empty lower_bound upper_bound "
            "equal_range c_str get str good fail eof length capacity max_size bucket_count hash_function operator* operator-> "
            "operator[] operator() operator bool operator== operator!= first second".split())
# library algorithms that write through the iterators or references handed to them
WRITES = set("sort stable_sort partial_sort nth_element remove remove_if unique reverse rotate fill fill_n copy copy_if "
             "copy_backward move transform swap iter_swap random_shuffle shuffle replace replace_if generate partition "
             "stable_partition make_heap push_heap pop_heap sort_heap merge memcpy memset memmove strcpy getline exchange".split())
MAPPY = re.compile(r"\b(map|unordered_map|hash_map|multimap)\s*<|MDPHash|__gnu_cxx::hash_map")
DEEP = 6


class Effects(object):
    """what each function may write, as access paths rooted at its parameters, this, globals or unknown objects"""

    def __init__(self, a):
        self.a, self.P = a, a.P
        self.memo = {}
        self.org = {}
        self.visited = {}
        self.nwrites = 0

    # an access path: (root, (field, ...)); root one of ("this",) ("param", i) ("global", q) ("fresh",) ("local", v)
    # ("obj", type) for an object reached through a call result or another untracked pointer
    def paths(self, n, depth=0):
        """objects the lvalue (or pointer) expression n may denote"""
        P = self.P
        if n is None or depth > 12:
            return {(("obj", "?"), ())}
        k = n.k
        if k == "Mem":
            q = n.d.get("q") or ("?::" + (n.d.get("n") or "?"))
            b = n.c[0] if n.c else None
            if b is None:
                return {(("this",), (q,))}
            return {(r, (f + (q,))[-DEEP:]) for r, f in self.paths(b, depth + 1)}
        if k == "This":
            return {(("this",), ())}
        if k == "Global":
            return {(("global", n.d["q"]), ())}
        if k in ("Idx", "Paren", "Cast", "Temp", "Bind", "Clean", "Un") and n.c:
            if k == "Un" and n.d.get("op") not in ("*", "&", "++", "--", "post++", "post--", "+", "-"):
                return {(("fresh",), ())}
            return self.paths(n.c[0], depth + 1)
        if k == "Cond":
            r = set()
            for c in n.kids[1:]:
                r |= self.paths(c, depth + 1)
            return r
        if k == "Assign":
            return self.paths(n.c[0], depth + 1)
        if k == "Bin":
            if n.d.get("op") in ("+", "-", ","):
                r = set()
                for c in n.c:
                    r |= self.paths(c, depth + 1)
                return {x for x in r if x[0] != ("fresh",)} or {(("fresh",), ())}
            return {(("fresh",), ())}
        if k == "Var":
            return self.var(n.fn, n.d["v"], depth)
        if k in ("New", "Lit", "Str", "Null", "InitList", "SizeOf", "Enum", "Fn", "Lambda"):
            return {(("fresh",), ())}
        if k == "Ctor":
            if len(n.c) == 1:          # copy of an iterator or smart pointer: what it points at
                return self.paths(n.c[0], depth + 1)
            return {(("fresh",), ())}
        if k == "Call":
            o = n.slot("obj")
            nm = last(n.d.get("q") or "")
            if o is not None and not P.resolve(n):
                return self.paths(o, depth + 1)       # element or iterator of a library object
            if n.d.get("oper") and n.c and not P.resolve(n):
                return self.paths(n.c[0], depth + 1)
            if nm in ("find", "remove", "remove_if", "lower_bound", "upper_bound", "min_element", "max_element", "unique", "next", "prev") and n.c and not P.resolve(n):
                return self.paths(n.c[0], depth + 1)
            r = set()
            for g in P.resolve(n):
                r |= self.ret(n, g, depth)
            if r:
                return r
            return {(("obj", n.t or "?"), ())}
        return {(("obj", n.t or "?"), ())}

    def var(self, fn, v, depth):
        P = self.P
        key = (fn.usr, v)
        if key in self.org:
            return self.org[key]
        d = fn.vars[v]
        t = d["t"]
        out = set()
        if v in fn.params:
            i = fn.params.index(v)
            if is_ref_type(t) or is_ptr_type(t):
                out.add((("param", i), ()))
            elif self.pointerish(t):
                out.add((("param", i), ()))
        self.org[key] = out or {(("local", v), ())}
        if v in fn.params and not out:
            return self.org[key]
        if not (is_ref_type(t) or is_ptr_type(t) or self.pointerish(t)):
            return self.org[key]
        ds = fn_defs(P, fn).byvar.get(v, ())
        for x in ds:
            if (x.kind == "init" or x.kind == "=" and not is_ref_type(t)) and x.rhs is not None:
                out |= self.paths(x.rhs, depth + 1)
        for n in P.all_nodes(fn):         # range-for variables
            if n.k == "ForRange":
                lv, rg = n.slot("lvar"), n.slot("range")
                if lv is not None and any(w[0] == v for w in lv.vars or ()):
                    for w in (rg.vars or ()) if rg is not None else ():
                        if w[3] is not None:
                            out |= self.paths(w[3], depth + 1)
        out = {x for x in out if x[0] != ("fresh",)} or ({(("fresh",), ())} if out else {(("obj", t), ())})
        if len(out) > 24:
            out = {(("obj", t), ())}
        self.org[key] = out
        return out

    def pointerish(self, t):
        return bool(re.search(r"iterator|_ptr<|_Node_|__normal_iterator", t))

    def ret(self, call, g, depth):
        """objects returned by callee g, seen from the call"""
        key = ("ret", g.usr)
        if key in self.org:
            base = self.org[key]
        else:
            self.org[key] = set()
            base = set()
            rt = g.rt or ""
            if is_ref_type(rt) or is_ptr_type(rt) or self.pointerish(rt):
                for n in self.P.all_nodes(g):
                    if n.k == "Return" and n.c:
                        base |= self.paths(n.c[0], depth + 1)
                base = {((("obj", rt), f) if r[0] in ("local", "obj") else (r, f)) for r, f in base}
                if not base:
                    base = {(("obj", rt), ())}
                if all(r == ("fresh",) for r, f in base):
                    base = {(("fresh",), ())}
            else:
                base = {(("fresh",), ())}
            self.org[key] = base
        return self.subst(call, base, depth)

    def subst(self, call, paths, depth=0):
        out = set()
        for r, f in paths:
            if r == ("this",):
                o = call.slot("obj")
                if o is None:
                    bs = {(("fresh",), ())} if call.k == "Ctor" else {(("this",), ())}
                else:
                    bs = self.paths(o, depth + 1)
                out |= {(b, (g + f)[-DEEP:]) for b, g in bs}
            elif r[0] == "param":
                i = r[1]
                c = self.arg(call, i)
                if c is None:
                    continue
                out |= {(b, (g + f)[-DEEP:]) for b, g in self.paths(c, depth + 1)}
            else:
                out.add((r, f))
        return out

    def arg(self, call, i):
        c = call.c
        if call.d.get("oper") and call.slot("obj") is None and call.k == "Call":
            pass
        return c[i] if i < len(c) else None

    # ---- direct writes of a function: (lvalue node, node)
    def direct(self, fn):
        P = self.P
        for n in P.all_nodes(fn):
            if n.k == "Assign":
                yield n.c[0], n, "assigns"
            elif n.k == "Un" and n.d.get("op") in ("++", "--", "post++", "post--"):
                yield n.c[0], n, "changes"
            elif n.k == "Delete":
                yield n.c[0], n, "destroys"
            elif n.k == "Call":
                res = P.resolve(n)
                op = n.d.get("oper")
                nm = last(n.d.get("q") or "")
                o = n.slot("obj")
                if res:
                    continue
                if op in OUT_OPS and not (op == "<<="):
                    yield (o if o is not None else n.c[0]), n, "assigns"
                elif op in ("++", "--"):
                    t = o if o is not None else n.c[0]
                    if not self.iterlike(t):
                        yield t, n, "changes"
                elif op == ">>" and len(n.c) >= 1:
                    yield n.c[-1], n, "reads into"
                elif o is not None and not n.d.get("cst"):
                    if op == "[]" and MAPPY.search((o.t or "") + (o.ct or "")):
                        yield o, n, "inserts into"
                    elif op or nm in READS or nm.startswith("operator"):
                        pass
                    elif not self.iterlike(o):
                        yield o, n, "changes"
                elif o is None and nm in WRITES:
                    for c in n.c:
                        yield c, n, "changes"

    def iterlike(self, n):
        """an iterator or pointer variable: stepping it changes no container"""
        n = strip(n)
        t = (n.t or "") + " " + (n.ct or "")
        return n.k == "Var" and bool(re.search(r"iterator|\*$", t)) or n.k == "Var" and self.pointerish(t)

    def scalar(self, lv):
        """the variable itself is overwritten, not what it points to"""
        n = lv
        while n.k in ("Paren",) and n.c:
            n = n.c[0]
        if n.k == "Var":
            t = n.fn.vars[n.d["v"]]["t"]
            return not is_ref_type(t)
        return False

    def cond(self, n):
        """parameters of the function that must be true for n to run"""
        out = set()
        for f in self.P.facts_at(n):
            x = f[0] if isinstance(f, tuple) else f
            if not isinstance(f, tuple) or len(f) < 2 or f[1] is not True:
                continue
            x = strip(x)
            k = 0
            while x.k == "Var" and x.d["v"] not in n.fn.params and k < 4:
                ds = [d for d in fn_defs(self.P, n.fn).byvar.get(x.d["v"], ())]
                if len(ds) != 1 or ds[0].rhs is None:
                    break
                x = strip(ds[0].rhs)
                k += 1
            if x.k == "Var" and x.d["v"] in n.fn.params:
                out.add(n.fn.params.index(x.d["v"]))
        return frozenset(out)

    def of(self, fn):
        """effects of fn: {(path, params that must be true, write site)}"""
        if fn.usr in self.memo:
            return self.memo[fn.usr]
        self.memo[fn.usr] = set()
        self.visited[fn.usr] = fn
        stack = self.__dict__.setdefault("_st", [])
        stack.append(fn.usr)
        out = self._of(fn)
        self.memo[fn.usr] = out
        stack.pop()
        return out

    def _of(self, fn):
        P = self.P
        out = set()
        if fn.impl:
            return out
        for lv, n, how in self.direct(fn):
            if not P.reachable(n):
                continue
            self.nwrites += 1
            if self.scalar(lv) and how != "destroys":
                if how != "changes" or n.k == "Un":
                    continue
            for r, f in self.paths(lv):
                if r[0] in ("local", "fresh"):
                    continue
                out.add((r, f, self.cond(n), (fn.usr, n.id, how)))
        for n in P.all_nodes(fn):
            if n.k not in ("Call", "Ctor"):
                continue
            res = P.resolve(n)
            if not res or not P.reachable(n):
                continue
            cn = self.cond(n)
            for g in res:
                for r, f, c, s in self.of(g):
                    skip = False
                    nc = set(cn)
                    for i in c:
                        x = self.arg(n, i)
                        if x is None:
                            continue
                        v = self.a.E.ev(x)
                        if v and all(pstr(p) in ("0", "+0", "false") for p in v):
                            skip = True
                        y = strip(x)
                        if y.k == "Var" and y.d["v"] in fn.params:
                            nc.add(fn.params.index(y.d["v"]))
                    if skip:
                        continue
                    for r2, f2 in self.subst(n, {(r, f)}):
                        if r2[0] in ("local", "fresh"):
                            continue
                        out.add((r2, f2, frozenset(nc), s))
        return out


# ------------------------------------------------------------------ E02
OWNED = re.compile(r"src/(bounds|pomdpBounds|search)/")


def protected(a):
    """classes holding what a solver has computed: bounds, planes and points, the search graph, the searches themselves"""
    P = a.P
    if not hasattr(a, "_prot"):
        a._prot = {}
        a._ftype = {}
        for r in P.records.values():
            if OWNED.search("src/" + r["f"].split("src/")[-1]) and not re.search(r"/test[A-Z]", r["f"]):
                a._prot[r["q"]] = r
            for f in r["fields"]:
                q = f.get("q") or r["q"] + "::" + f["n"]
                a._ftype[q] = f.get("t") or ""
    return a._prot


def victim(a, root, chain):
    """the solver field or object an access path writes to, None if it is none of the solver's"""
    prot = protected(a)
    i = len(chain) - 1
    while i >= 0:
        cls = chain[i].rsplit("::", 1)[0]
        if cls in prot:
            if scratch(a, chain[i]):
                return None
            return chain[i].split("zmdp::")[-1]
        if i == 0:
            break
        t = a._ftype.get(chain[i - 1], "")
        if is_ptr_type(t) or is_ref_type(t):
            return None
        i -= 1
    if root[0] == "obj":
        base = re.sub(r"\b(const|struct|class)\b|[*&]", "", root[1]).strip()
        for q in prot:
            if base in (q, q.split("::")[-1]) and not chain:
                return base
    return None


def scratch(a, q):
    """a field that only one function uses (constructors aside): its working space, not the object's state"""
    P = a.P
    if not hasattr(a, "_users"):
        a._users = {}
        for fn in P.funcs.values():
            if fn.impl or fn.short == (fn.cls or "").split("::")[-1]:
                continue
            for n in P.all_nodes(fn):
                if n.k == "Mem" and n.d.get("q"):
                    a._users.setdefault(n.d["q"], set()).add(fn.usr)
    return len(a._users.get(q, ())) <= 1


def queries(a):
    """functions that answer a question about the solver: (function, what is asked)"""
    P = a.P
    out = {}

    def add(cls, names, what):
        for r in P.records.values():
            if r["q"].split("::")[-1] != cls:
                continue
            subs = {r["q"]} | {s if isinstance(s, str) else s["q"] for s in P.subclasses(r["q"])}
            for fn in P.funcs.values():
                if fn.cls in subs and fn.short in names and not fn.impl:
                    out[fn.usr] = (fn, what)

    add("BoundPairCore", ("chooseAction", "getValueAt", "getQValue", "getNodeOrNull"), "asking for bounds or an action")
    add("AbstractBound", ("getValue", "getStorage", "chooseAction"), "asking a bound for a value, an action or its storage")
    add("Solver", ("chooseAction", "getValueAt"), "asking the solver for its bounds or an action")
    add("MDPExecCore", ("chooseAction", "setToInitialState", "advanceToNextState"), "executing the policy")
    add("PolicyEvaluator", ("getRewardSamples",), "evaluating the policy")
    add("StateIndex", ("writeBoundValuesToFile", "writeQValuesToFile", "writeToFile"), "writing bounds of indexed states")
    add("StateLog", ("writeToFile",), "writing the backup log")
    add("MaxPlanesLowerBound", ("writeToFile",), "writing the policy")
    return out


def site(a, s):
    g = a.P.funcs[s[0]]
    n = g.nodes[s[1]]
    return g, n, s[2]


def e02_pure(a):
    qs = queries(a)
    a.need("E02.pure", len(qs), 12, "functions answering questions about bounds, actions, storage or policies")
    ef = Effects(a)
    a._ef = ef
    for fn, what in qs.values():
        bad = {}
        for r, f, c, s in ef.of(fn):
            v = victim(a, r, f)
            if v:
                bad.setdefault((v, s[0]), s)
        for (v, u), s in sorted(bad.items()):
            g, n, how = site(a, s)
            a.fail("E02.pure", g.where(n),
                   "%s leads to %s, which %s %s" % (fn.q.replace("zmdp::", ""), g.q.replace("zmdp::", ""), how, v),
                   key="E02.pure|%s|%s|%s" % (fn.q, g.q, v))
        if not bad:
            a.ok("E02.pure", fn.where(), "%s: %s" % (fn.q, what))


def e02_model(a):
    """asking the model for states, outcomes or rewards leaves the model as it is; a cache may fill itself"""
    P = a.P
    ef = getattr(a, "_ef", None) or Effects(a)
    ask = ("getInitialState", "getIsTerminalState", "getOutcomeProbVector", "getNextState", "getReward")
    seen = 0
    base = [r for r in P.records.values() if r["q"].split("::")[-1] == "MDP"]
    subs = {s["q"] for r in base for s in P.subclasses(r["q"])} | {r["q"] for r in base}
    for fn in list(P.funcs.values()):
        if fn.impl or fn.cls not in subs or fn.short not in ask:
            continue
        if any("MDP *" in (f.get("t") or "") for r in P.records.values() if r["q"] == fn.cls for f in r["fields"]):
            continue                        # keeps answers of another model
        seen += 1
        bad = {}
        for r, f, c, s in ef.of(fn):
            if r == ("this",) and f and not scratch(a, f[0]):
                bad.setdefault((f[0].split("zmdp::")[-1], s[0]), s)
            elif victim(a, r, f):
                bad.setdefault((victim(a, r, f), s[0]), s)
        for (v, u), s in sorted(bad.items()):
            g, n, how = site(a, s)
            a.fail("E02.model", g.where(n), "%s leads to %s, which %s %s" % (fn.q.replace("zmdp::", ""), g.q.replace("zmdp::", ""), how, v),
                   key="E02.model|%s|%s|%s" % (fn.q, g.q, v))
        if not bad:
            a.ok("E02.model", fn.where(), fn.q)
    a.need("E02.model", seen, 8, "model queries")


def e02_report(a):
    """between two planning steps of a run, only the planning step changes the solver"""
    P = a.P
    ef = getattr(a, "_ef", None) or Effects(a)
    plan = lambda n: n.k == "Call" and last(n.d.get("q") or "") == "planFixedTime"
    seen = 0
    for fn in list(P.funcs.values()):
        if fn.impl:
            continue
        for n in P.all_nodes(fn):
            if not plan(n):
                continue
            loops = [x for x in n.ancestors() if x.k in ("For", "While", "Do")]
            if not loops:
                continue
            seen += 1
            bad = {}
            k = 0
            for m in loops[-1].walk():
                if m.k not in ("Call", "Ctor") or plan(m):
                    continue
                res = P.resolve(m)
                if not res or not P.reachable(m):
                    continue
                k += 1
                for g in res:
                    if P.reaches_call(g, plan) or g.short == "getRootNode":
                        continue        # the root is looked up, and was created when planning began
                    for r, f, c, s in ef.of(g):
                        if any(ef.arg(m, i) is not None and all(pstr(p) in ("0", "+0", "false") for p in a.E.ev(ef.arg(m, i))) for i in c):
                            continue
                        v = victim(a, r, f)
                        if v:
                            bad.setdefault((g.q, v), (m, s))
            for (gq, v), (m, s) in sorted(bad.items()):
                g, x, how = site(a, s)
                a.fail("E02.report", fn.where(m),
                       "%s is called between two planning steps and leads to %s, which %s %s" % (gq.replace("zmdp::", ""), g.q.replace("zmdp::", ""), how, v),
                       key="E02.report|%s|%s|%s" % (fn.q, gq, v))
            if not bad:
                a.ok("E02.report", fn.where(n), "%s: %d calls between planning steps" % (fn.q, k))
    a.need("E02.report", seen, 1, "planning loops")


RULES["E02"] = [e02_pure, e02_model, e02_report]
TEXT["E02.pure"] = "no assignment, container change, map insertion or destruction reachable from a query (bounds, action values, recommended action, storage, policy execution and evaluation, writing indexed states or the policy) has a target that is a field of a solver, bound, plane, point or search-node class; targets are access paths followed through parameters, references, pointers and returned objects"
TEXT["E02.report"] = "in every loop that plans step by step, no call other than the planning step can write a field of those classes (looking up the root node aside); a call that does so only when a parameter is true passes false"
TEXT["E02.model"] = "no write reachable from a model's queries (initial state, terminal test, outcomes, next state, reward) targets a field of the model; a model that keeps answers of another one may fill its own tables"
