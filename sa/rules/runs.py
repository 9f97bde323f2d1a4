"""I03, I07, E03, E04: how runs begin, end and are measured: interrupts, the policy backup, randomness, time."""
from rules.common import *
from flow import last
import vals

RULES = {}



def num(p):
    """the polynomial as an integer, if it is one"""
    s = pstr(p).replace("#", "").replace(" ", "")
    return int(s) if re.match(r"^[+-]?\d+$", s) else None


# ------------------------------------------------------------------ I03
SAFE = set("write _exit _Exit signal sigaction sigemptyset sigfillset sigaddset sigdelset kill raise abort alarm sigprocmask "
           "pthread_sigmask __errno_location strlen strcpy strcat memcpy memset memmove memcmp strcmp fsync fdatasync close "
           "read poll select clock_gettime time getpid".split())
FLAGT = re.compile(r"^(const )?volatile (std::)?(sig_atomic_t|int|bool|char|unsigned char|_Bool)\b|^(std::)?atomic<|sig_atomic_t|^(std::)?atomic_(bool|int|flag)")
NORESET = 0x80000000


def fnref(n):
    n = strip(n)
    while n.k in ("Un", "Cast", "Paren") and n.c:
        n = strip(n.c[0])
    return n if n.k == "Fn" else None


def installs(a):
    """places that name a repository function as a signal handler: (fn, node, handler, signal numbers or None)"""
    if hasattr(a, "_installs"):
        return a._installs
    P, E = a.P, a.E
    out = []
    sig = lambda n: n.k == "Call" and "::" not in (n.d.get("q") or "") and last(n.d["q"]) in ("sigaction", "signal", "sigset", "bsd_signal")

    def nums(v):
        r = set()
        for p in v:
            s = num(p)
            if s is not None:
                r.add(s)
        return r

    for fn in list(P.funcs.values()):
        if fn.impl:
            continue
        for n in P.all_nodes(fn):
            if n.k == "Call":
                for i, c in enumerate(n.c):
                    r = fnref(c)
                    if r is None:
                        continue
                    h = P.funcs.get(r.d.get("fn"))
                    if h is None or not h.params:
                        continue
                    direct = sig(n)
                    if direct or any(P.reaches_call(g, sig) for g in P.resolve(n)):
                        ns = set()
                        for j, x in enumerate(n.c):
                            if j != i:
                                ns |= nums(E.ev(x))
                        out.append((fn, n, h, ns))
            elif n.k == "Assign":
                l = strip(n.c[0])
                r = fnref(n.c[1])
                if r is not None and l.k == "Mem" and (l.d.get("n") or "") in ("sa_handler", "sa_sigaction", "__sigaction_handler"):
                    h = P.funcs.get(r.d.get("fn"))
                    if h is None:
                        continue
                    ns = set()
                    for m in P.all_nodes(fn):
                        if sig(m) and m.c:
                            ns |= nums(E.ev(m.c[0]))
                            out.append((fn, m, h, ns))
    a._installs = out
    return out


def flags(a):
    P = a.P
    if hasattr(a, "_flags"):
        return a._flags
    out = {}
    for fn, n, h, ns in installs(a):
        for g in P.closure([h]).values():
            for m in P.all_nodes(g):
                if m.k in ("Assign", "Un") or m.k == "Call" and m.d.get("oper") == "=" or m.k == "Call" and last(m.d.get("q")) == "store":
                    if m.k == "Un" and m.d.get("op") not in ("++", "--", "p++", "post++", "pre++"):
                        continue
                    t = m.slot("obj") if m.k == "Call" and m.slot("obj") is not None else m.c[0]
                    t = strip(t)
                    if t.k == "Global" and "errno" not in t.d["q"]:
                        out.setdefault(t.d["q"], []).append((h, g, m))
    a._flags = out
    return out


def i03_handler(a):
    P, E = a.P, a.E
    hs = {}
    for fn, n, h, ns in installs(a):
        hs.setdefault(h.usr, (h, set()))[1].update(ns)
    a.need("I03.handler", len(hs), 1, "signal handlers")
    fl = flags(a)
    for h, ns in hs.values():
        for g in P.closure([h]).values():
            if g is not h and g.impl:
                continue
            for m in P.all_nodes(g):
                if not P.reachable(m):
                    continue
                if m.k == "Call" or m.k == "Ctor":
                    r = P.resolve(m)
                    q = m.d.get("q") or ""
                    if r:
                        continue
                    if m.k == "Ctor" and (m.d.get("deflt") or not m.c) and not re.search(r"std::|basic_", m.t or ""):
                        continue
                    ok = last(q) in SAFE and "::" not in q or "atomic" in q
                    a.check(ok, "I03.handler", g.where(m), "%s calls %s" % (short(g.q), q),
                            "%s runs as a signal handler and calls %s, which is not safe there" % (short(h.q), short(q)))
                elif m.k in ("New", "Delete", "Throw"):
                    a.fail("I03.handler", g.where(m), "%s runs as a signal handler and uses the heap or throws" % short(h.q))
                elif m.k == "Assign":
                    t = strip(m.c[0])
                    if t.k == "Global":
                        ty = (P.globals.get(t.d["q"]) or {}).get("t") or t.t or ""
                        a.check(bool(FLAGT.search(ty)), "I03.handler", g.where(m), "%s : %s" % (t.d["q"], ty),
                                "a signal handler stores to %s of type %s, which is not a volatile flag" % (t.d["q"], ty))
                    elif t.k == "Mem" and strip(t.c[0]).k in ("Global",) if t.c else False:
                        a.fail("I03.handler", g.where(m), "a signal handler stores to program data")
        # the request is recorded on every path
        mine = [q for q, l in fl.items() if any(x[0] is h for x in l)]

        def sets(e, mine=mine):
            if e.k == "Assign" and strip(e.c[0]).k == "Global" and strip(e.c[0]).d["q"] in mine:
                v = E.ev(e.c[1])
                return e.d.get("op", "=") == "=" and bool(v) and all(num(p) for p in v)
            if e.k == "Call" and (e.d.get("oper") == "=" or last(e.d.get("q")) == "store"):
                o = strip(e.slot("obj") if e.slot("obj") is not None else e.c[0])
                if o.k == "Global" and o.d["q"] in mine:
                    v = E.ev(e.c[-1] if e.slot("obj") is not None or len(e.c) > 1 else e.c[0])
                    return all(num(p) for p in v)
            return False
        if 2 in ns:
            a.check(P.always(h, sets), "I03.handler", h.where(), "%s records the request on every path" % short(h.q),
                    "%s can return without recording that the run is to end" % short(h.q))
    # nothing but the handler stores to the flag
    for q in fl:
        hc = set()
        for h, _ in hs.values():
            hc |= set(P.closure([h]))
        for fn in P.funcs.values():
            if fn.usr in hc:
                continue
            for m in P.all_nodes(fn):
                t = None
                if m.k == "Assign":
                    t = strip(m.c[0])
                elif m.k == "Call" and (m.d.get("oper") == "=" or last(m.d.get("q")) in ("store", "exchange", "clear")):
                    o = m.slot("obj") if m.slot("obj") is not None else m.c[0] if m.c else None
                    t = strip(o) if o is not None else None
                if t is not None and t.k == "Global" and t.d["q"] == q:
                    # before the handler is installed a reset loses nothing
                    after = [1 for f2, n2, h2, ns2 in installs(a) if f2 is not fn or uncut(a, fn, P.position(n2), P.position(m), ())]
                    if after:
                        a.fail("I03.handler", fn.where(m), "%s overwrites the request the signal handler recorded" % short(fn.q))


def is_step(n):
    return n.k == "Call" and last(n.d.get("q")) == "planFixedTime"


def solve_root(a):
    """functions that install the handler for an interrupt (lifted to the caller that also runs the solver)"""
    P = a.P
    out = []
    for fn, n, h, ns in installs(a):
        if 2 not in ns:
            continue
        cur, site = fn, n
        seen = set()
        st = [(fn, n)]
        while st:
            f, m = st.pop()
            if f.usr in seen:
                continue
            seen.add(f.usr)
            if P.reaches_call(f, is_step):
                out.append((f, m))
            else:
                st.extend((c, x) for c, x in P.callers.get(f.usr, ()))
    return out


def steps_in(a, fn):
    P = a.P
    for n in P.calls(fn):
        if not P.reachable(n):
            continue
        if is_step(n):
            yield n
        elif any(P.reaches_call(g, is_step) for g in P.resolve(n) if not g.impl):
            yield n


def i03_loop(a):
    P, E = a.P, a.E
    roots = solve_root(a)
    if not roots:
        a.fail("I03.install", "src/main/zmdp.cc", "no command that runs the solver installs a handler for the interrupt signal")
    fl = set(flags(a))
    def isflag(v):
        for p in v:
            ms = [m for m in p]
            if not any("g:" + q in vals.pstr(p) for q in fl):
                return False
        return bool(v)

    def off(rs):
        for r in rs:
            if r[0] in ("F",) and isinstance(r[1], frozenset) and isflag(r[1]):
                return True
            if r[0] == "==" and isinstance(r[1], frozenset) and isflag(r[1]) and all(re.match(r"^\+?g:", pstr(p)) for p in r[1]):
                return True
        return False

    def reads(e):
        hit = any(y.k == "Global" and y.d["q"] in fl and not (y.p is not None and y.p.k == "Assign" and y.p.c[0] is y) for y in e.walk())
        if hit:
            return True
        return any(c.k == "Call" and any(any(y.k == "Global" and y.d["q"] in fl for y in P.all_nodes(g)) for g in P.resolve(c) if not g.impl)
                   for c in e.walk())
    todo = [f for f, m in roots]
    seen = set()
    while todo:
        fn = todo.pop()
        if fn.usr in seen:
            continue
        seen.add(fn.usr)
        es = good_edges(a, fn, off)
        sts = list(steps_in(a, fn))
        for s in sts:
            if not is_step(s):
                # a step inside a helper: its own loop is checked there
                todo.extend(g for g in P.resolve(s) if not g.impl and P.reaches_call(g, is_step) and not last(g.q) == "planFixedTime")
            for t in sts:
                bad = uncut(a, fn, P.position(s), P.position(t), es) or uncut(a, fn, P.position(s), P.position(t), (), reads)
                a.check(not bad, "I03.loop", fn.where(s), "between two calls of the solver %s looks for an interrupt" % short(fn.q),
                        "%s can go on solving without looking whether the user asked it to stop" % short(fn.q))
    for fn, site in roots:
        def inst(e):
            if e is site:
                return True
            if e.k == "Call" and any(n is e for f, n, h, ns in installs(a) if 2 in ns):
                return True
            return False
        for s in steps_in(a, fn):
            a.check(not uncut(a, fn, (fn.entry, -1), P.position(s), (), P.lift(inst)), "I03.install", fn.where(s), "the handler is in place before the solver runs",
                    "%s can run the solver before the interrupt handler is installed" % short(fn.q))
    for f, n, h, ns in installs(a):
        a.check(bool(ns & {2}), "I03.install", f.where(n), "%s is installed for signals %s" % (short(h.q), sorted(ns)),
                "%s is installed, but not for the interrupt signal" % short(h.q))
        for g in [f] + [g for g in P.resolve(n) if not g.impl]:
            for m in P.all_nodes(g):
                if m.k == "Assign" and strip(m.c[0]).k == "Mem" and strip(m.c[0]).d.get("n") == "sa_flags":
                    v = E.ev(m.c[1])
                    cv = [y.d["cv"] for y in m.c[1].walk() if isinstance(y.d.get("cv"), int)] + [y.d["v"] for y in m.c[1].walk() if y.k == "Lit" and isinstance(y.d.get("v"), int)]
                    bad = [p for p in v if num(p) is not None and num(p) & NORESET] or [c for c in cv if c & NORESET]
                    a.check(not bad, "I03.install", g.where(m), "the handler stays installed", "the interrupt handler is removed after the first signal")
        for m in calls_in(P, f, r"^(signal|sigaction)$"):
            if m is not n and m.c and any(num(p) == 2 for p in E.ev(m.c[0])) and (f, m) not in [(x, y) for x, y, _, _ in installs(a)]:
                a.fail("I03.install", f.where(m), "%s changes what happens on an interrupt" % short(f.q))
        # the helper really installs what it is given
        for g in P.resolve(n):
            if g.impl:
                continue
            sig = lambda e: e.k == "Call" and last(e.d.get("q")) in ("sigaction", "signal") and "::" not in e.d["q"]
            a.check(P.always(g, sig), "I03.install", g.where(), "%s installs the handler on every path" % short(g.q),
                    "%s can return without installing the handler" % short(g.q))
            pv = [i for i, c in enumerate(n.c) if fnref(c) is not None]
            sv = [i for i, c in enumerate(n.c) if fnref(c) is None]
            for m in P.all_nodes(g):
                if sig(m):
                    c0 = strip(m.c[0])
                    ok = c0.k == "Var" and c0.d["v"] in [g.params[i] for i in sv] or all(num(p) == 2 for p in E.ev(m.c[0]))
                    a.check(bool(ok), "I03.install", g.where(m), "the handler is set for the signal asked for", "%s sets a handler for another signal than the one asked for" % short(g.q))
                if m.k == "Assign" and strip(m.c[0]).k == "Mem" and strip(m.c[0]).d.get("n") in ("sa_handler", "__sigaction_handler") and strip(m.c[0]).p is m:
                    x = strip(m.c[1])
                    a.check(x.k == "Var" and x.d["v"] in [g.params[i] for i in pv] or x.k == "Fn", "I03.install", g.where(m), "the handler given is the one set",
                            "%s sets another handler than the one it was given" % short(g.q))


def is_named(a, n, name, depth=3):
    """the expression is the field `name` of some object (possibly through single-definition locals and parameters)"""
    n = strip(n)
    while n.k == "Cast" and n.c:
        n = strip(n.c[0])
    if n.k == "Mem":
        return n.d.get("n") == name
    if n.k in ("Ctor",) and n.c:
        return is_named(a, n.c[0], name, depth)
    if n.k == "Call" and last(n.d.get("q")) in ("c_str", "data", "str") and n.slot("obj") is not None:
        return is_named(a, n.slot("obj"), name, depth)
    if n.k == "Var" and depth > 0:
        fn = n.fn
        v = n.d["v"]
        if v in fn.params:
            cs = a.P.callers.get(fn.usr, ())
            i = fn.params.index(v)
            return bool(cs) and all(i < len(m.c) and is_named(a, m.c[i], name, depth - 1) for c, m in cs)
        ds = [d for d in a.P.all_nodes(fn) if d.k == "Decl" for x in d.vars if x[0] == v and x[3] is not None]
        ini = [x[3] for d in ds for x in d.vars if x[0] == v]
        asg = [m for m in a.P.all_nodes(fn) if m.k == "Assign" and strip(m.c[0]).k == "Var" and strip(m.c[0]).d["v"] == v]
        return len(ini) == 1 and not asg and is_named(a, ini[0], name, depth - 1)
    return False


def null_edges(a, fn, name):
    """edges on which the file name `name` is known to be absent"""
    P = a.P
    out = set()
    for b, i, ats in branches(a, fn):
        for n, t in ats:
            n = strip(n)
            while n.k == "Un" and n.d.get("op") == "!":
                n, t = strip(n.c[0]), not t if isinstance(t, bool) else t
            if n.k == "Bin" and n.d["op"] in ("==", "!=") and isinstance(t, bool):
                l, r = strip(n.c[0]), strip(n.c[1])
                nul = lambda x: x.k == "Null" or x.d.get("cv") == 0 or x.k == "Lit" and x.d.get("v") == 0
                if nul(l):
                    l, r = r, l
                if nul(r) and is_named(a, l, name) and (n.d["op"] == "==") == t:
                    out.add((b, i))
            elif t is False and is_named(a, n, name):
                out.add((b, i))
    return out


def ends_ok(n):
    """a call that ends the program claiming success"""
    return n.k == "Call" and last(n.d.get("q")) in ("exit", "_exit", "_Exit", "quick_exit") and "::" not in n.d["q"]


def does(a, fn, pred, name, memo=None):
    """every path through fn on which the file name is present passes pred"""
    memo = {} if memo is None else memo
    if fn.usr in memo:
        return memo[fn.usr]
    memo[fn.usr] = False
    r = uncut(a, fn, (fn.entry, -1), "exit", null_edges(a, fn, name), doer(a, pred, name, memo)) is None
    memo[fn.usr] = r
    return r


def doer(a, pred, name, memo):
    def q(e):
        if pred(e):
            return True
        if e.k == "Call":
            r = [g for g in a.P.resolve(e)]
            return bool(r) and all(not g.impl and g.blocks and does(a, g, pred, name, memo) for g in r)
        return False
    return q


def i03_policy(a):
    P, E = a.P, a.E
    name = "policyOutputFile"
    wp = lambda e: e.k == "Call" and last(e.d.get("q")) == "writePolicy" and e.c and is_named(a, e.c[0], name)
    fin = lambda e: e.k == "Call" and last(e.d.get("q")) == "finishLogging"
    for fn, site in solve_root(a):
        for s in steps_in(a, fn):
            pos = P.position(s)
            for pred, what, key in ((wp, "writing the requested policy file", name), (fin, "finishing the logs", None)):
                memo = {}
                es = null_edges(a, fn, key) if key else set()
                el = doer(a, pred, key or "\0", memo)
                bad = uncut(a, fn, pos, "exit", es, el) is not None
                a.check(not bad, "I03.policy", fn.where(s), "no end of %s without %s" % (short(fn.q), what), "%s can end without %s" % (short(fn.q), what))
                for x in P.calls(fn):
                    if ends_ok(x) and P.reachable(x):
                        v = E.ev(x.c[0]) if x.c else None
                        if v and all(num(p) for p in v):
                            continue
                        if uncut(a, fn, pos, P.position(x), es, el) is not None:
                            a.fail("I03.policy", fn.where(x), "%s can end the program without %s" % (short(fn.q), what))
    # writePolicy writes the lower bound under the name it is given
    n = 0
    for fn in P.funcs.values():
        if last(fn.q) == "writePolicy" and not fn.impl and fn.blocks:
            n += 1
            w = lambda e: e.k == "Call" and last(e.d.get("q")) == "writeToFile" and e.c and strip_name(a, e.c[0], fn)
            a.check(uncut(a, fn, (fn.entry, -1), "exit", set(), P.lift(w)) is None, "I03.policy", fn.where(), "%s always writes the file it is asked for" % short(fn.q),
                    "%s can return without writing the policy file" % short(fn.q))
    a.need("I03.policy", n, 1, "functions that write a policy")


def strip_name(a, n, fn):
    """the expression is the (file name) parameter of fn"""
    n = strip(n)
    while n.k in ("Cast", "Ctor") and n.c:
        n = strip(n.c[0])
    if n.k == "Call" and last(n.d.get("q")) in ("c_str", "data") and n.slot("obj") is not None:
        return strip_name(a, n.slot("obj"), fn)
    if n.k == "Var" and n.d["v"] in n.fn.params:
        if n.fn is fn:
            return n.d["v"] == fn.params[0]
        cs = [(c, m) for c, m in a.P.callers.get(n.fn.usr, ()) if c is fn]
        i = n.fn.params.index(n.d["v"])
        return bool(cs) and all(strip_name(a, m.c[i], fn) for c, m in cs)
    if n.k == "Var":
        ini = [x[3] for d in a.P.all_nodes(n.fn) if d.k == "Decl" for x in d.vars if x[0] == n.d["v"] and x[3] is not None]
        return len(ini) == 1 and strip_name(a, ini[0], fn)
    return False


RULES["I03"] = [i03_handler, i03_loop, i03_policy]


# ------------------------------------------------------------------ I07
def text(a, n, depth=6):
    """what a file name expression is made of: strings, variables, fields"""
    n = strip(n)
    while n.k == "Cast" and n.c:
        n = strip(n.c[0])
    if depth <= 0:
        return (("?", n.id),)
    P = a.P
    if n.k == "Str":
        return (("s", n.d["v"]),)
    if n.k == "Ctor" and n.c:
        return text(a, n.c[0], depth - 1)
    if n.k == "Call":
        nm = last(n.d.get("q"))
        o = n.slot("obj")
        if nm in ("c_str", "data", "str") and o is not None:
            return text(a, o, depth - 1)
        if n.d.get("oper") == "+":
            return tuple(x for y in ([o] if o is not None else []) + list(n.c) for x in text(a, y, depth - 1))
        r = P.resolve(n)
        if len(r) == 1 and not r[0].impl:
            rets = [m for m in P.all_nodes(r[0]) if m.k == "Return" and m.c]
            if len(rets) == 1:
                sub = {r[0].params[i]: c for i, c in enumerate(n.c) if i < len(r[0].params)}
                out = []
                for x in text(a, rets[0].c[0], depth - 1):
                    if x[0] == "p" and x[1] == r[0].usr and x[2] in sub:
                        out.extend(text(a, sub[x[2]], depth - 1))
                    else:
                        out.append(x)
                return tuple(out)
        return (("?", n.fn.usr, n.id),)
    if n.k == "Mem":
        return (("m", n.d.get("q")),)
    if n.k == "Global":
        return (("g", n.d.get("q")),)
    if n.k == "Var":
        v, fn = n.d["v"], n.fn
        asg = [m for m in P.all_nodes(fn) if (m.k == "Assign" or m.k == "Call" and m.d.get("oper") in ("=", "+=")) and
               strip(m.slot("obj") if m.slot("obj") is not None else m.c[0]).k == "Var" and strip(m.slot("obj") if m.slot("obj") is not None else m.c[0]).d["v"] == v]
        if v in fn.params:
            cs = P.callers.get(fn.usr, ())
            if not asg and len(cs) == 1 and fn.params.index(v) < len(cs[0][1].c) and cs[0][0] is not fn and not last(fn.q) == "batchTestIncremental":
                return text(a, cs[0][1].c[fn.params.index(v)], depth - 1)
            return (("p", fn.usr, v),)
        ini = [x[3] for d in P.all_nodes(fn) if d.k == "Decl" for x in d.vars if x[0] == v and x[3] is not None]
        if len(ini) == 1 and all(m.d.get("oper") == "+=" or m.d.get("op") == "+=" for m in asg):
            out = list(text(a, ini[0], depth - 1))
            for m in asg:
                out.extend(text(a, m.c[-1], depth - 1))
            return tuple(out)
        if not ini and len(asg) == 1 or len(ini) == 1 and len(asg) == 1 and not text(a, ini[0], depth - 1)[0][0] in "pmgs":
            return text(a, asg[0].c[-1], depth - 1)
        return (("v", fn.usr, v),)
    return (("?", n.fn.usr, n.id),)


def tstr(t):
    return "+".join(str(x[-1]) for x in t)


MOVES = ("rename", "renameat", "renameat2", "link", "linkat")
RMS = ("unlink", "remove", "unlinkat")


def plain(n, names):
    return n.k == "Call" and n.slot("obj") is None and last(n.d.get("q")) in names and (n.d.get("q") in names or n.d["q"] == "std::" + last(n.d["q"]))


def in_loop(a, n, depth=3):
    """the node can be reached again after it has run"""
    P = a.P
    pos = P.position(n)
    if pos and uncut(a, n.fn, pos, pos, ()):
        return True
    return depth > 0 and any(in_loop(a, m, depth - 1) for c, m in P.callers.get(n.fn.usr, ()) if c is not n.fn)


def i07(a):
    P = a.P
    k = 0
    for fn in list(P.funcs.values()):
        if fn.impl:
            continue
        for n in P.all_nodes(fn):
            if n.k == "Call":
                q = n.d.get("q") or ""
                if q in ("system", "std::system", "popen", "execl", "execlp", "execle", "execv", "execvp", "execve", "wordexp") and P.reachable(n) and n.c:
                    if all(x[0] == "s" for x in text(a, n.c[0])):
                        continue
                    a.fail("I07.shell", fn.where(n), "%s hands a file name to a command interpreter" % short(fn.q))
            if n.k == "Call" and last(n.d.get("q")) == "writePolicy" and n.c and P.reachable(n) and in_loop(a, n):
                k += 1
                name = text(a, n.c[0])
                mv = [m for g in P.funcs.values() if not g.impl for m in P.all_nodes(g) if plain(m, MOVES) and len(m.c) == 2 and text(a, m.c[0]) == name and text(a, m.c[1]) != name]
                maks = lambda e: any(e is m for m in mv)
                lifted = P.lift(maks)
                pos = P.position(n)
                none = lambda rs: any(isinstance(r[1], frozenset) and re.search(r"\b(access|stat|lstat|exists)\(", vstr(r[1])) for r in rs)
                first = guarded(a, n, none, elem=lifted)
                again = uncut(a, fn, pos, pos, good_edges(a, fn, none), lifted) is None
                a.check(bool(mv) and first and again, "I07.backup", fn.where(n), "the previous policy is put aside before %s writes a new one" % short(fn.q),
                        "%s writes a new policy over the previous one, which has not been put aside" % short(fn.q))
                baks = set(text(a, m.c[1]) for m in mv)
                wr = P.lift(lambda e, n=n: e is n)
                # what is removed, and when
                for g in P.funcs.values():
                    if g.impl:
                        continue
                    for m in P.all_nodes(g):
                        if plain(m, RMS) and m.c and P.reachable(m):
                            t = text(a, m.c[0])
                            if t == name:
                                a.fail("I07.remove", g.where(m), "%s removes the policy file itself" % short(g.q))
                            elif t in baks:
                                a.ok("I07.remove", g.where(m), "only the backup is removed")
                                for x in mv:
                                    early = before_write(a, x, m, wr)
                                    a.check(not early, "I07.remove", g.where(m), "the backup is removed only after the new policy is written",
                                            "%s removes the backup before the new policy is complete" % short(g.q))
                        elif plain(m, ("fopen", "open", "truncate", "creat")) and m.c and text(a, m.c[0]) in baks and baks and P.reachable(m):
                            md = text(a, m.c[1]) if len(m.c) > 1 else ()
                            if not (md and md[0][0] == "s" and md[0][1].startswith("r")):
                                a.fail("I07.remove", g.where(m), "%s overwrites the backup of the policy" % short(g.q))
    a.need("I07.backup", k, 1, "repeated writes of a policy")
    if not any(b["rule"] == "I07.shell" for b in a.bad):
        a.ok("I07.shell", "src", "no file name reaches a command interpreter")


def before_write(a, mv, rm, wr, depth=3):
    """rm can run after mv without the write in between"""
    P = a.P
    if mv.fn is rm.fn:
        return uncut(a, mv.fn, P.position(mv), P.position(rm), (), wr) is not None
    if depth <= 0:
        return False
    # lift both to the callers
    for c, m in P.callers.get(mv.fn.usr, ()):
        if c is not mv.fn and uncut(a, mv.fn, P.position(mv), "exit", (), wr) is not None and before_write(a, m, rm, wr, depth - 1):
            return True
    for c, m in P.callers.get(rm.fn.usr, ()):
        if c is not rm.fn and uncut(a, rm.fn, (rm.fn.entry, -1), P.position(rm), (), wr) is not None and before_write(a, mv, m, wr, depth - 1):
            return True
    return False


RULES["I07"] = [i07]


# ------------------------------------------------------------------ E03
OTHERGEN = re.compile(r"^(std::)?(random|rand_r|drand48|erand48|lrand48|nrand48|mrand48|jrand48|srandom|srand48|initstate|arc4random\w*|getrandom|getentropy|random_shuffle|shuffle|sample)$"
                      r"|::mersenne_twister|::random_device|linear_congruential|subtract_with_carry|_distribution<|::default_random_engine")


def israw(n):
    return n.k == "Call" and n.d.get("q") in ("rand", "std::rand")


def isseed(n):
    return n.k == "Call" and n.d.get("q") in ("srand", "std::srand")


def e03_source(a):
    P, E = a.P, a.E
    draws = {}
    for fn in list(P.funcs.values()):
        if fn.impl:
            continue
        for n in P.all_nodes(fn):
            if n.k in ("Call", "Ctor") and P.reachable(n):
                q = n.d.get("q") or ""
                if OTHERGEN.search(q) and not P.resolve(n):
                    a.fail("E03.source", fn.where(n), "%s draws random numbers from %s, which no command seeds" % (short(fn.q), q))
            if israw(n) and P.reachable(n):
                p = n.p
                # the value of a bare statement is thrown away
                used = True
                x = n
                while x.p is not None and x.p.k in ("Cast", "Paren"):
                    x = x.p
                if x.p is None or x.p.k in ("Block", "If", "For", "While"):
                    used = False
                if used:
                    draws.setdefault(fn.usr, (fn, []))[1].append(n)
    if not a.bad:
        a.need("E03.source", len(draws), 1, "functions that draw random numbers")
    for fn, ns in draws.values():
        rets = [m for m in P.all_nodes(fn) if m.k == "Return" and m.c and P.reachable(m)]
        good = bool(rets)
        for r in rets:
            v = E.ev(r.c[0])
            ok = bool(v) and all(re.match(r"^\+?(/(#2\.14748e\+09|\(\+(1 \+#2\.14748e\+09|#2\.14748e\+09 \+1)\))\*(std::)?rand\(\)|(std::)?rand\(\)\*/(#2\.14748e\+09|\(\+(1 \+#2\.14748e\+09|#2\.14748e\+09 \+1)\)))$", pstr(p)) for p in v)
            # the division is carried out on real numbers
            ds = [y for y in P.all_nodes(fn) if (y.k == "Bin" and y.d["op"] == "/" or y.k == "Assign" and y.d.get("op") == "/=")]
            real = all(re.search(r"double|float", y.t or "") for y in ds)
            good = good and ok and real
        a.check(good, "E03.source", fn.where(), "%s is uniform between 0 and 1" % short(fn.q), "%s does not return the raw random number divided by its maximum" % short(fn.q))
    a._draws = set(draws)
    return a._draws


def e03_seed(a):
    P = a.P
    # what may seed / draw
    def reach(pred):
        base = set(fn.usr for fn in P.funcs.values() for n in P.all_nodes(fn) if pred(n) and P.reachable(n))
        out, st = set(base), list(base)
        while st:
            u = st.pop()
            for c, m in P.callers.get(u, ()):
                if c.usr not in out:
                    out.add(c.usr)
                    st.append(c.usr)
        return out
    sd, dr = reach(isseed), reach(israw)
    always = P.lift(isseed)
    memo = {}

    def els(fn):
        for b in fn.reach:
            for j, e in enumerate(fn.blocks[b].el):
                if isinstance(e, Node) and e.k in ("Call", "Ctor"):
                    yield (b, j), e

    def unseeded(fn):
        """a draw that can come before the seed when fn is entered unseeded"""
        if fn.usr in memo:
            return memo[fn.usr]
        memo[fn.usr] = None
        res = None
        for pos, e in els(fn):
            hit = None
            if israw(e):
                hit = e
            else:
                for g in P.resolve(e):
                    if g.usr in dr:
                        hit = unseeded(g) and e
                        if hit is not None:
                            break
            if hit is not None and uncut(a, fn, (fn.entry, -1), pos, (), always) is not None:
                res = e
                break
        memo[fn.usr] = res
        return res
    memo2 = {}

    def twice(fn):
        if fn.usr in memo2:
            return memo2[fn.usr]
        memo2[fn.usr] = None
        ss = [(pos, e) for pos, e in els(fn) if isseed(e) or any(g.usr in sd for g in P.resolve(e))]
        for pos, e in ss:
            for pos2, e2 in ss:
                if uncut(a, fn, pos, pos2, ()) is not None:
                    memo2[fn.usr] = e2
                    return e2
            for g in P.resolve(e):
                if twice(g) is not None:
                    memo2[fn.usr] = e
                    return e
        return None
    n = 0
    for fn in P.funcs.values():
        if last(fn.q) != "main" or "::" in fn.q or fn.impl or fn.usr not in dr:
            continue
        n += 1
        u = unseeded(fn)
        a.check(u is None, "E03.seed", fn.where(u) if u is not None else fn.where(), "%s seeds the generator before it draws from it" % fn.file,
                "%s can draw random numbers before the generator is seeded" % fn.file)
        t = twice(fn)
        a.check(t is None, "E03.seed", fn.where(t) if t is not None else fn.where(), "%s seeds the generator once" % fn.file, "%s can seed the generator again in the middle of a run" % fn.file)
    if not any(b["rule"] == "E03.source" for b in a.bad):
        a.need("E03.seed", n, 1, "commands that draw random numbers")


def e03_choose(a):
    P, E = a.P, a.E
    draws = a._draws if hasattr(a, "_draws") else e03_source(a)
    names = set(short(P.funcs[u].q).split("::")[-1] for u in draws)
    if not names:
        return
    DR = re.compile(r"^[\w:]*\b(%s)\(" % "|".join(names))
    isdraw = lambda n: n.k == "Call" and any(g.usr in draws for g in P.resolve(n))
    cnt = 0
    for fn in list(P.funcs.values()):
        if fn.impl or last(fn.q) == "main" or fn.usr in draws:
            continue
        ds = [n for n in P.calls(fn) if isdraw(n) and P.reachable(n)]
        rets = [m for m in P.all_nodes(fn) if m.k == "Return" and m.c and P.reachable(m)]
        if not ds or not re.match(r"^(const )?(unsigned |long |short )*(int|long|size_t|short|unsigned)\b", fn.rt or ""):
            continue
        cnt += 1
        w = fn.where(ds[0])
        nm = short(fn.q)
        a.check(len(ds) == 1 and not in_loop_local(a, ds[0]), "E03.choose", w, "%s draws once" % nm, "%s draws more than one random number for one choice" % nm)

        def weight(v):
            """the index term the weight belongs to, for a value that is one entry of the distribution"""
            ix = set()
            for p in v:
                if len(p) != 1:
                    return None
                s, m = next(iter(p))
                if s != 1 or len(m) != 1 or not isinstance(m[0], str):
                    return None
                t = m[0]
                if re.search(r"\.data\[\w*\]\.value$", t):
                    ix.add(t[:-len("value")] + "index")
                elif t.endswith(".obsProb"):
                    k = re.search(r"\[([^\[\]]*)\]\.obsProb$", t)
                    ix.add(k.group(1) if k else "?")
                elif re.match(r"^[$@][\w:]+(\.\w+)*\[[^\[\]]*\]$", t):
                    ix.add(re.search(r"\[([^\[\]]*)\]$", t).group(1))
                else:
                    return None
            return ix.pop() if len(ix) == 1 else None
        # the remainder and its updates
        upd = []
        for n, lhs, op, rhs in assigns(P, fn):
            if rhs is None or strip(lhs).k != "Var" or not P.reachable(n):
                continue
            if op in ("-=", "+="):
                ix = weight(E.ev(rhs))
                if ix is not None:
                    upd.append((n, ix, E.ev(rhs)))
            elif op == "=":
                r = strip(rhs)
                if r.k == "Bin" and r.d["op"] in ("-", "+"):
                    for i in (0, 1):
                        o, x = strip(r.c[i]), r.c[1 - i]
                        if o.k == "Var" and o.d["v"] == strip(lhs).d["v"] and weight(E.ev(x)) is not None and (i == 0 or r.d["op"] == "+"):
                            upd.append((n, weight(E.ev(x)), E.ev(x)))
        if not upd:
            # the loop may be in a helper the number is handed to
            if any(any(y is d for y in c.walk()) for d in ds for n in P.calls(fn) if P.resolve(n) and n is not d for c in n.c):
                continue
            bad = [r for r in rets if not all(DR.search(noargs(pstr(p))) is None for p in E.ev(r.c[0]))]
            a.fail("E03.choose", w, "%s does not subtract the weight of the entries it passes from the number it drew" % nm)
            continue
        rv = set(strip(n.c[0]).d["v"] for n, _, _ in upd)
        a.check(len(rv) == 1, "E03.choose", w, "%s keeps one remainder" % nm, "%s keeps several remainders" % nm)
        wanted = set(pstr(p) for n, ix, v in upd for p in v)

        def lin(v, sd, sw):
            """v = sd*draw + sw*weights and nothing else"""
            ok = False
            for p in v:
                d = 0
                for s, m in p:
                    t = mstr1(m)
                    if DR.search(t):
                        if s != sd:
                            return False
                        d += 1
                    elif "+" + t in wanted or t == "rec" or t in wanted:
                        if s != sw:
                            return False
                    else:
                        return False
                ok = ok or d == 1
            return ok

        def stop(rs):
            return any(r[0] in (">=", ">") and isinstance(r[1], frozenset) and lin(r[1], -1, 1) for r in rs)

        def go(rs):
            return any(r[0] in (">=", ">") and isinstance(r[1], frozenset) and lin(r[1], 1, -1) for r in rs)

        def positive(v):
            ps = set(pstr(p) for p in v)
            owners = set(re.sub(r"\.obsProb$", "", q) for q in ps if q.endswith(".obsProb"))

            def p(rs):
                for r in rs:
                    if not isinstance(r[1], frozenset):
                        continue
                    q = set(pstr(x) for x in r[1])
                    if r[0] in (">", "T") and q and q <= ps or r[0] == "T" and q and q <= owners or r[0] == "!=" and q and (q <= ps or q <= owners):
                        return True
                return False
            return p
        ge, se = good_edges(a, fn, go), good_edges(a, fn, stop)
        isupd = lambda e: any(e is n for n, _, _ in upd)
        a.check(bool(se), "E03.choose", w, "%s stops when the remainder is used up" % nm, "%s does not stop when the remainder is used up" % nm)
        for n, ix, v in upd:
            pos = P.position(n)
            pe = good_edges(a, fn, positive(v))
            a.check(uncut(a, fn, (fn.entry, -1), pos, pe) is None and uncut(a, fn, pos, pos, pe) is None, "E03.choose", fn.where(n),
                    "%s passes over entries of weight zero" % nm, "%s can choose an entry of weight zero" % nm)
            for n2, _, _ in upd:
                a.check(uncut(a, fn, pos, P.position(n2), ge) is None, "E03.choose", fn.where(n), "%s goes on only with a remainder left" % nm,
                        "%s goes on to the next entry although the number drawn is used up" % nm)
            lps = [l for l in loops_of(n)]
            L = loop_info(a, lps[0]) if lps else None
            cover(a, "E03.choose", fn.where(n), nm, n, lps, L, E)
        # what is returned
        for r in rets:
            x = strip(r.c[0])
            while x.k == "Cast" and x.c:
                x = strip(x.c[0])
            rpos = P.position(r)
            from_upd = [u for u in upd if uncut(a, fn, P.position(u[0]), rpos, ())]
            if not from_upd:
                # nothing was subtracted on the way: no entry at all
                continue
            if x.k == "Var" and not in_loop_local(a, r) and not is_index_of(E.ev(x), upd, E):
                v = x.d["v"]
                dd = [d for d in fn_defs(P, fn).byvar.get(v, ()) if d.field is None]
                setn = [d for d in dd if d.kind not in ("init",) or in_loop_local(a, d.node)]
                setn = [d for d in dd if d.rhs is not None and is_index_of(E.ev(d.rhs), upd, E)]
                oth = [d for d in dd if d not in setn]
                isset = lambda e: any(e is d.node for d in setn)
                okset = bool(setn) and all(in_no_loop(a, d.node) for d in oth)
                a.check(okset, "E03.choose", fn.where(r), "%s returns the index of the entry it stopped at" % nm,
                        "%s returns something else than the index of the entry it stopped at" % nm)
                if not setn:
                    continue
                for u in upd:
                    up = P.position(u[0])
                    # set and subtract go together
                    before = uncut(a, fn, (fn.entry, -1), up, (), isset) is None
                    if before:
                        ok = uncut(a, fn, up, up, (), isset) is None and all(uncut(a, fn, P.position(d.node), rpos, (), isupd) is None for d in setn)
                    else:
                        ok = uncut(a, fn, up, rpos, (), isset) is None and uncut(a, fn, up, up, (), isset) is None and \
                            all(uncut(a, fn, P.position(d.node), P.position(d.node), (), isupd) is None for d in setn)
                    a.check(ok, "E03.choose", fn.where(r), "%s remembers the entry whenever it subtracts its weight" % nm,
                            "%s can return another entry than the one whose weight it subtracted last" % nm)
            else:
                v = E.ev(r.c[0])
                a.check(is_index_of(v, upd, E), "E03.choose", fn.where(r), "%s returns the index of the entry it stopped at" % nm,
                        "%s returns something else than the index of the entry it stopped at" % nm)
                a.check(uncut(a, fn, (fn.entry, -1), rpos, (), isupd) is None, "E03.choose", fn.where(r), "%s stops only after subtracting" % nm,
                        "%s returns an entry whose weight it has not subtracted" % nm)
                for u in upd:
                    bad = uncut(a, fn, P.position(u[0]), rpos, se) is not None
                    a.check(not bad, "E03.choose", fn.where(r), "%s stops only when the remainder is used up" % nm, "%s can stop at an entry before the number drawn is used up" % nm)
        # leaving the loop early needs a used-up remainder
        for u in upd:
            early(a, fn, u, se, nm)
    if not any(b["rule"] == "E03.source" for b in a.bad):
        a.need("E03.choose", cnt, 2, "functions that choose an entry of a distribution")


def mstr1(m):
    return vals.mstr(m).lstrip("+")


def early(a, fn, u, se, nm):
    """the loop is left only at its end or with the remainder used up"""
    P = a.P
    lps = loops_of(u[0])
    if not lps:
        return
    L = lps[0]
    head = set()
    for s in ("cond", "inc"):
        x = L.slot(s)
        for y in (x.walk() if x is not None else ()):
            p = P.position(y)
            if p:
                head.add(p[0])
    if not head:
        head = {P.position(u[0])[0]}
    fwd, st = set(head), list(head)
    while st:
        for s in fn.blocks[st.pop()].succ:
            if s is not None and s not in fwd:
                fwd.add(s)
                st.append(s)
    loop = reach_back(fn, head) & fwd
    bad = None
    for b in loop - head:
        for k, s in enumerate(fn.blocks[b].succ):
            if s is not None and s not in loop and (b, k) not in se:
                bad = s
    a.check(bad is None, "E03.choose", fn.where(u[0]), "%s leaves its loop early only with the remainder used up" % nm,
            "%s can leave its loop before the number drawn is used up" % nm)


def reach_back(fn, targets):
    pre = {}
    for b in fn.reach:
        for s in fn.blocks[b].succ:
            if s is not None:
                pre.setdefault(s, set()).add(b)
    seen, st = set(targets), list(targets)
    while st:
        b = st.pop()
        for p in pre.get(b, ()):
            if p not in seen:
                seen.add(p)
                st.append(p)
    return seen


def in_loop_local(a, n):
    pos = a.P.position(n)
    return bool(pos) and uncut(a, n.fn, pos, pos, ()) is not None


def in_no_loop(a, n):
    return not in_loop_local(a, n)


def is_index_of(v, upd, E):
    want = set(ix for _, ix, _ in upd)
    return bool(v) and all(len(p) == 1 and next(iter(p))[0] == 1 and mstr1(next(iter(p))[1]) in want for p in v)


def cover(a, rule, w, nm, n, lps, L, E):
    from rules.bounds import full_range
    if L is None:
        return
    full_range(a, rule, w, "%s: loop over the entries" % nm, L)
    if L.kind == "count" and L.hi is not None:
        s = vstr(L.hi)
        a.check(all(len(p) == 1 for p in L.hi) and re.search(r"size\(\)|getNumOutcomes|filled|numO", s) is not None, rule, w, "%s looks at every entry" % nm,
                "%s looks at the entries up to %s only" % (nm, s[:80]))


RULES["E03"] = [e03_source, e03_seed, e03_choose]


# ------------------------------------------------------------------ E04
TV = re.compile(r"\btimeval\b")


class Aff(dict):
    """an affine form: symbol -> coefficient, '' for the constant"""

    def __add__(self, o):
        r = Aff(self)
        for k, v in o.items():
            r[k] = r.get(k, 0) + v
        return Aff((k, v) for k, v in r.items() if v)

    def times(self, c):
        return Aff((k, v * c) for k, v in self.items() if v * c)


def tv_paths(a, fn):
    """all paths through an operator on two instants: (sec form, usec form, interval of the microsecond term), or None"""
    P = a.P
    A_, B_ = fn.params[0], fn.params[1]
    sign = 1 if fn.q.endswith("+") else -1
    D = Aff({"au": 1, "bu": sign})
    full = (0, 1999998) if sign > 0 else (-999999, 999999)
    init = {(A_, "tv_sec"): Aff({"as": 1}), (A_, "tv_usec"): Aff({"au": 1}), (B_, "tv_sec"): Aff({"bs": 1}), (B_, "tv_usec"): Aff({"bu": 1})}

    class Unknown(Exception):
        pass

    def place(n):
        n = strip(n)
        if n.k == "Mem" and n.c and strip(n.c[0]).k == "Var":
            return (strip(n.c[0]).d["v"], n.d.get("n"))
        if n.k == "Var":
            return (n.d["v"], None)
        raise Unknown()

    def ev(n, env, dec):
        n = strip(n)
        if n.k in ("Cast", "Paren") and n.c:
            return ev(n.c[0], env, dec)
        cv = n.d.get("cv")
        if n.k == "Lit" and isinstance(n.d.get("v"), (int, float)):
            return Aff({"": n.d["v"]}) if n.d["v"] else Aff()
        if isinstance(cv, int) and n.k != "Mem":
            return Aff({"": cv}) if cv else Aff()
        if n.k in ("Mem", "Var"):
            r = env.get(place(n))
            if r is None:
                raise Unknown()
            return r
        if n.k == "Bin" and n.d["op"] in "+-":
            x, y = ev(n.c[0], env, dec), ev(n.c[1], env, dec)
            return x + (y if n.d["op"] == "+" else y.times(-1))
        if n.k == "Bin" and n.d["op"] == "*":
            x, y = ev(n.c[0], env, dec), ev(n.c[1], env, dec)
            if set(x) <= {""}:
                return y.times(x.get("", 0))
            if set(y) <= {""}:
                return x.times(y.get("", 0))
        if n.k == "Un" and n.d["op"] == "-":
            return ev(n.c[0], env, dec).times(-1)
        if n.k == "Cond":
            t = dec.get(strip(n.c[0]).id)
            if t is not None:
                return ev(n.c[1 if t else 2], env, dec)
            iv = dec[0]
            r = truth(n.c[0], env, dec)
            ts = [(t, meet(iv, r, t)) for t in (True, False)] if r else []
            ts = [t for t, i in ts if i]
            if len(ts) == 1:
                return ev(n.c[1 if ts[0] else 2], env, dec)
        raise Unknown()

    def truth(n, env, dec):
        """(op, bound) on the microsecond term"""
        n = strip(n)
        if n.k == "Bin" and n.d["op"] in ("<", ">", "<=", ">=", "==", "!="):
            f = ev(n.c[0], env, dec) + ev(n.c[1], env, dec).times(-1)
            c = f.get("", 0)
            g = Aff((k, v) for k, v in f.items() if k)
            if g == D:
                return n.d["op"], -c
            if g == D.times(-1):
                return {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(n.d["op"], n.d["op"]), c
        raise Unknown()

    def meet(iv, r, t):
        op, b = r
        if not t:
            op = {"<": ">=", ">": "<=", "<=": ">", ">=": "<", "==": "!=", "!=": "=="}[op]
        lo, hi = iv
        if op == "<":
            hi = min(hi, b - 1)
        elif op == "<=":
            hi = min(hi, b)
        elif op == ">":
            lo = max(lo, b + 1)
        elif op == ">=":
            lo = max(lo, b)
        elif op == "==":
            lo, hi = max(lo, b), min(hi, b)
        return (lo, hi) if lo <= hi else None
    out = []
    st = [(fn.entry, init, full, {}, {})]
    steps = 0
    try:
        while st:
            steps += 1
            if steps > 2000:
                return None
            b, env, iv, dec, seen = st.pop()
            if seen.get(b, 0) > 5:
                return None
            seen = dict(seen)
            seen[b] = seen.get(b, 0) + 1
            env, dec = dict(env), dict(dec)
            dec[0] = iv
            blk = fn.blocks[b]
            done = False
            for e in blk.el:
                if not isinstance(e, Node):
                    continue
                if e.k == "Assign":
                    k = place(e.c[0])
                    op = e.d.get("op", "=")
                    if op == "=":
                        x = strip(e.c[1])
                        if k[1] is None and x.k == "Var" and (x.d["v"], "tv_sec") in env:
                            for f in ("tv_sec", "tv_usec"):
                                env[(k[0], f)] = env[(x.d["v"], f)]
                            continue
                        env[k] = ev(e.c[1], env, dec)
                    elif op in ("+=", "-="):
                        env[k] = env[k] + ev(e.c[1], env, dec).times(1 if op == "+=" else -1)
                    else:
                        return None
                elif e.k == "Un" and e.d.get("op") in ("++", "--", "post++", "post--"):
                    k = place(e.c[0])
                    env[k] = env[k] + Aff({"": 1 if "+" in e.d["op"] else -1})
                elif e.k == "Decl":
                    for v, nme, ty, ini in e.vars:
                        if ini is None:
                            continue
                        x = strip(ini)
                        while x.k in ("Ctor", "Cast") and x.c and not TV.search(""):
                            x = strip(x.c[0])
                        if x.k == "Var" and (x.d["v"], "tv_sec") in env:
                            for f in ("tv_sec", "tv_usec"):
                                env[(v, f)] = env[(x.d["v"], f)]
                        elif x.k == "InitList" and len(x.c) == 2:
                            env[(v, "tv_sec")], env[(v, "tv_usec")] = ev(x.c[0], env, dec), ev(x.c[1], env, dec)
                        elif TV.search(ty or ""):
                            pass
                        else:
                            env[(v, None)] = ev(ini, env, dec)
                elif e.k == "Return":
                    x = strip(e.c[0])
                    while x.k in ("Ctor", "Cast") and x.c:
                        x = strip(x.c[0])
                    if x.k == "InitList" and len(x.c) == 2:
                        out.append((ev(x.c[0], env, dec), ev(x.c[1], env, dec), iv, e))
                    elif x.k == "Var":
                        out.append((env[(x.d["v"], "tv_sec")], env[(x.d["v"], "tv_usec")], iv, e))
                    else:
                        return None
                    done = True
                elif e.k == "Call" and not e.d.get("nr"):
                    return None
            if done:
                continue
            ss = [(k, s) for k, s in enumerate(blk.succ) if s is not None]
            if len(blk.succ) == 2 and blk.cond is not None:
                c = strip(blk.cond)
                neg_ = False
                while c.k == "Un" and c.d["op"] == "!":
                    c, neg_ = strip(c.c[0]), not neg_
                r = truth(c, env, dec)
                for k, s in ss:
                    t = (k == 0) != neg_
                    i2 = meet(iv, r, t)
                    if i2:
                        d2 = dict(dec)
                        d2[c.id] = t
                        st.append((s, env, i2, d2, seen))
            else:
                for k, s in ss:
                    st.append((s, env, iv, dec, seen))
    except (Unknown, KeyError):
        return None
    return sign, D, out


def e04_time(a):
    P, E = a.P, a.E
    k = 0
    for fn in P.funcs.values():
        if fn.impl or len(fn.params) != 2 or not all(TV.search(fn.vars[p]["t"]) for p in fn.params):
            continue
        nm = last(fn.q)
        if nm in ("operator-", "operator+"):
            k += 1
            r = tv_paths(a, fn)
            if r is None:
                a.ok("E04.time", fn.where(), "%s: not decided" % short(fn.q))
                continue
            sign, D, outs = r
            want = Aff({"as": 1000000, "bs": sign * 1000000}) + D
            for s, u, iv, e in outs:
                tot = s.times(1000000) + u
                a.check(tot == want, "E04.time", fn.where(e), "%s keeps the total when it carries" % short(fn.q),
                        "%s changes the total when it carries between seconds and microseconds" % short(fn.q))
                c = u.get("", 0)
                ok = Aff((x, y) for x, y in u.items() if x) == D and iv[0] + c >= 0 and iv[1] + c <= 999999
                a.check(ok, "E04.time", fn.where(e), "%s leaves between 0 and 999999 microseconds" % short(fn.q),
                        "%s can leave a number of microseconds outside 0 to 999999" % short(fn.q))
        elif nm in ("operator<", "operator>", "operator<=", "operator>="):
            k += 1
            bad = tv_compare(a, fn, nm[8:])
            a.check(not bad, "E04.time", fn.where(), "%s compares instants" % short(fn.q), "%s does not order instants by seconds, then microseconds" % short(fn.q))
    for fn in P.funcs.values():
        if fn.impl or "double" not in (fn.rt or ""):
            continue
        one = len(fn.params) == 1 and TV.search(fn.vars[fn.params[0]]["t"])
        watch = fn.cls and (fn.cls or "").endswith("StopWatch")
        if not one and not watch:
            continue
        for r in P.all_nodes(fn):
            if r.k != "Return" or not r.c or not P.reachable(r):
                continue
            k += 1
            v = E.ev(r.c[0])
            bad = False
            for p in v:
                terms = {}
                for s, m in p:
                    t = mstr1(m)
                    g = re.match(r"^(?:(#1e-06|/#1e\+06)\*)?(.*?)\.tv_(u?)sec(?:\*(#1e-06|/#1e\+06))?$", t)
                    if not g or bool(g.group(1) or g.group(4)) != bool(g.group(3)):
                        bad = bad or "tv_" in t
                        continue
                    terms[("start" if "startTime" in g.group(2) else "now", g.group(3))] = s
                if watch and terms:
                    bad = bad or terms != {("now", ""): 1, ("now", "u"): 1, ("start", ""): -1, ("start", "u"): -1}
                elif terms:
                    bad = bad or terms != {("now", ""): 1, ("now", "u"): 1}
            # numbers are real before they are scaled
            for y in r.walk():
                if y.k == "Bin" and y.d["op"] == "/" and not re.search(r"double|float", y.t or ""):
                    bad = True
            a.check(not bad, "E04.time", fn.where(r), "%s is seconds plus millionths" % short(fn.q), "%s does not turn an instant into seconds" % short(fn.q))
    # seconds into an instant: only what the whole seconds leave over becomes microseconds
    for fn in P.funcs.values():
        if fn.impl or "/include/" in fn.file:
            continue
        for n, lhs, op, rhs in assigns(P, fn):
            l = strip(lhs)
            if l.k != "Mem" or l.d.get("n") != "tv_usec" or op != "=" or rhs is None or not any(re.search(r"double|float", y.t or "") for y in rhs.walk()):
                continue
            k += 1
            bad = False
            for p in E.ev(rhs):
                ts = [(s, mstr1(m)) for s, m in p]
                if not all("#1e+06" in t for s, t in ts if "$" in t):
                    bad = bad or any("$" in t for s, t in ts)
                if len(ts) == 1 and re.match(r"^(#1e\+06\*)?\$\w+(\*#1e\+06)?$", ts[0][1]):
                    bad = True
            a.check(not bad, "E04.time", fn.where(n), "%s: the fraction of a second becomes microseconds" % short(fn.q),
                    "%s does not turn the fraction of a second into microseconds" % short(fn.q))
    a.need("E04.time", k, 2, "operations on instants")
    # the clock is read into what is reported
    for fn in P.funcs.values():
        if last(fn.q) in ("restart", "StopWatch", "getTime") and "zmdpCommonTime" in fn.file and not fn.impl and fn.blocks:
            rd = lambda e: e.k == "Call" and last(e.d.get("q")) in ("gettimeofday", "clock_gettime", "restart", "getTime", "now")
            a.check(uncut(a, fn, (fn.entry, -1), "exit", (), P.lift(rd)) is None, "E04.time", fn.where(), "%s reads the clock" % short(fn.q),
                    "%s can return without reading the clock" % short(fn.q))


def tv_compare(a, fn, op):
    """does the comparison differ from the order (seconds, microseconds) in one of the nine cases of signs?"""
    P = a.P

    def side(n):
        n = strip(n)
        while n.k in ("Cast", "Paren") and n.c:
            n = strip(n.c[0])
        if n.k == "Mem" and strip(n.c[0]).k == "Var":
            v = strip(n.c[0]).d["v"]
            if v in fn.params:
                return fn.params.index(v), n.d.get("n")
        return None

    class Un_(Exception):
        pass

    def cmp_(n, case):
        l, r = side(n.c[0]), side(n.c[1])
        if l is None or r is None:
            # a - b <op> 0
            for i in (0, 1):
                y, z = strip(n.c[i]), strip(n.c[1 - i])
                if y.k == "Bin" and y.d["op"] == "-" and z.d.get("v") == 0:
                    l, r = side(y.c[0]), side(y.c[1])
                    if i == 1:
                        l, r = r, l
                    if l is None or r is None:
                        raise Un_()
                    break
            else:
                raise Un_()
        if l[1] != r[1]:
            return None
        s = case[l[1]] * (1 if l[0] < r[0] else -1) if l[0] != r[0] else 0
        return {"<": s < 0, ">": s > 0, "<=": s <= 0, ">=": s >= 0, "==": s == 0, "!=": s != 0}[n.d["op"]]

    def ev(n, case):
        n = strip(n)
        while n.k in ("Cast", "Paren") and n.c:
            n = strip(n.c[0])
        if n.k == "Bin" and n.d["op"] == "||":
            return ev(n.c[0], case) or ev(n.c[1], case)
        if n.k == "Bin" and n.d["op"] == "&&":
            return ev(n.c[0], case) and ev(n.c[1], case)
        if n.k == "Un" and n.d["op"] == "!":
            return not ev(n.c[0], case)
        if n.k == "Cond":
            return ev(n.c[1 if ev(n.c[0], case) else 2], case)
        if n.k == "Bin" and n.d["op"] in ("<", ">", "<=", ">=", "==", "!="):
            r = cmp_(n, case)
            if r is None:
                raise ValueError
            return r
        if n.k in ("Lit", "Bool"):
            return bool(n.d.get("v", n.d.get("cv")))
        if n.k == "Call" and last(n.d.get("q")) == fn.q.split("::")[-1][:0]:
            pass
        raise Un_()
    for s in (-1, 0, 1):
        for u in (-1, 0, 1):
            case = {"tv_sec": s, "tv_usec": u}
            t = s if s else u
            want = {"<": t < 0, ">": t > 0, "<=": t <= 0, ">=": t >= 0}[op]
            b = fn.entry
            try:
                for _ in range(60):
                    blk = fn.blocks[b]
                    ret = [e for e in blk.el if isinstance(e, Node) and e.k == "Return"]
                    if ret:
                        # short-circuit blocks lead to the return: evaluate the whole expression
                        if ev(ret[0].c[0], case) != want:
                            return True
                        break
                    ss = [x for x in blk.succ if x is not None]
                    if len(blk.succ) == 2 and blk.cond is not None and len(ss) == 2:
                        b = blk.succ[0] if ev(blk.cond, case) else blk.succ[1]
                    elif ss:
                        b = ss[0]
                    else:
                        break
            except ValueError:
                return True
            except Un_:
                return False
    return False


def divs(a):
    P = a.P
    for fn in list(P.funcs.values()):
        if fn.impl or "/include/" in fn.file:
            continue
        for n in P.all_nodes(fn):
            if (n.k == "Bin" and n.d["op"] in "/%" or n.k == "Assign" and n.d.get("op") in ("/=", "%=")) and P.reachable(n):
                yield fn, n, n.c[0], n.c[1]


def vkey(v):
    return frozenset(pstr(p) for p in v)


def accum(a, n):
    """the accumulator a numerator is, with its loop: (var, [add nodes], loop info, reset nodes)"""
    P, E = a.P, a.E
    x = strip(n)
    while x.k in ("Cast", "Paren") and x.c:
        x = strip(x.c[0])
    if x.k != "Var":
        return None
    fn, v = x.fn, x.d["v"]
    ds = [d for d in fn_defs(P, fn).byvar.get(v, ()) if d.field is None]
    add = [d for d in ds if d.kind in ("+=", "++")]
    for d in ds:
        if d.kind == "=" and d.rhs is not None:
            r = strip(d.rhs)
            if r.k == "Bin" and r.d["op"] == "+" and any(strip(c).k == "Var" and strip(c).d["v"] == v for c in r.c):
                add.append(d)
    res = [d for d in ds if d not in add]
    isr = lambda e: any(e is d.node for d in res)
    # the additions that can still be in the sum here
    at = P.position(n)
    add = [d for d in add if at and uncut(a, fn, P.position(d.node), at, (), isr) is not None]
    isa = lambda e: any(e is d.node for d in add)
    if not add:
        return None
    res = [d for d in res if d.kind == "init" or any(uncut(a, fn, P.position(d.node), P.position(x.node), (), lambda e: isr(e) and e is not d.node) is not None for x in add)]
    if len(res) > 1:
        res = [d for d in res if d.kind != "init"] if all(uncut(a, fn, (fn.entry, -1), P.position(x.node), (), lambda e: any(e is d.node for d in res if d.kind != "init")) is None for x in add) else res
    return v, add, res


def e04_mean(a):
    P, E = a.P, a.E
    k = 0
    for fn, n, num_, den in divs(a):
        if not re.search(r"double|float", n.t or ""):
            continue
        c = accum(a, num_)
        w = fn.where(n)
        if c is not None:
            v, add, res = c
            # the loops the additions are in and the division is not
            mine = set(l.id for l in loops_of(n))
            out = [[l for l in loops_of(d.node) if l.id not in mine] for d in add]
            if all(out) and len(set(l[-1].id for l in out)) > 1:
                # samples of several loops in one sum
                both = any(l1[-1].id != l2[-1].id and uncut(a, fn, P.position(d1.node), P.position(d2.node), (), lambda e: any(e is d.node for d in res)) is not None
                           for d1, l1 in zip(add, out) for d2, l2 in zip(add, out))
                k += 1
                a.check(not both, "E04.mean", w, "%s sums one collection of samples" % short(fn.q), "%s divides a sum that still holds the samples of an earlier loop" % short(fn.q))
                continue
            if not all(out):
                continue
            L = loop_info(a, out[0][-1])
            if L is None or L.kind != "count" or L.hi is None or L.lo is None:
                continue
            cnt = vals.vadd(L.hi, vals.vneg(L.lo))
            if not any(x in short(fn.q) for x in ("PolicyEvaluator", "bootstrap", "mean", "avg", "Stats")) and not fn.file.startswith("src/exec") and not fn.file.startswith("src/common"):
                continue
            k += 1
            dv = E.ev(den)
            a.check(vkey(dv) == vkey(cnt), "E04.mean", w, "%s divides by the number of samples added (%s)" % (short(fn.q), vstr(cnt)[:60]),
                    "%s divides a sum of %s terms by %s" % (short(fn.q), vstr(cnt)[:60], vstr(dv)[:60]))
            # one addition per round
            for d in add:
                p = P.position(d.node)
                for d2 in add:
                    p2 = P.position(d2.node)
                    hd = L.node.slot("inc") or L.node.slot("cond")
                    hp = P.position(strip(hd)) if hd is not None else None
                    again = hp and uncut(a, fn, p, p2, settled(a, fn, d.node), lambda e, hd=hd: any(y is e for y in hd.walk()))
                    a.check(not again, "E04.mean", fn.where(d.node), "%s adds once per sample" % short(fn.q), "%s can add twice for one sample" % short(fn.q))
            zero = [d for d in res if d.rhs is not None and all(num(q) == 0 or pstr(q) in ("0", "") for q in E.ev(d.rhs))]
            a.check(len(zero) == len(res) and bool(res), "E04.mean", w, "%s starts from zero" % short(fn.q), "%s starts a sum from something else than zero" % short(fn.q))
            isz = lambda e, zero=zero: any(e is d.node for d in zero)
            for d in add:
                if uncut(a, fn, P.position(n), P.position(d.node), ()) and mine:
                    zb = [d2 for d2 in zero if d2.kind == "init"]
                    again = uncut_dv(a, fn, P.position(n), P.position(d.node), zero)
                    a.check(not again, "E04.mean", fn.where(d.node), "%s starts each sum from zero" % short(fn.q), "%s adds to a sum left over from the previous sample" % short(fn.q))
            continue
        # sum(samples) / count
        x = strip(num_)
        while x.k in ("Cast", "Paren") and x.c:
            x = strip(x.c[0])
        if x.k == "Call" and last(x.d.get("q")) == "sum" and x.c and strip(x.c[0]).k == "Var":
            k += 1
            v = strip(x.c[0]).d["v"]
            dv = E.ev(den)
            fill = [m for m in P.calls(fn) if m is not x and any(strip(c).k == "Var" and strip(c).d["v"] == v for c in m.c) and P.resolve(m)]
            good = vstr(dv).endswith(".size()")
            for m in fill:
                good = good or any(vkey(E.ev(c)) == vkey(dv) for c in m.c)
            a.check(good, "E04.mean", w, "%s divides by the number of samples in the batch" % short(fn.q), "%s divides a sum of samples by %s" % (short(fn.q), vstr(dv)[:80]))
    # a whole-number quotient has lost its fraction
    for fn, n, num_, den in divs(a):
        if n.d["op"] not in ("/", "/=") or not fn.file.startswith(("src/exec", "src/common")) or re.search(r"double|float", n.t or ""):
            continue
        x = n
        while x.p is not None and x.p.k in ("Paren", "Cast") and not re.search(r"double|float", x.t or ""):
            x = x.p
        up = x if re.search(r"double|float", x.t or "") else x.p
        real = up is not None and re.search(r"double|float", up.t or "") and up.k in ("Cast", "Assign", "Bin", "Return")
        k += 1
        a.check(not real, "E04.mean", fn.where(n), "%s: a whole-number quotient counts something" % short(fn.q),
                "%s divides whole numbers and uses the quotient as a real number: its fraction is lost" % short(fn.q))
    # quantiles
    for fn in P.funcs.values():
        if last(fn.q) == "getQuantile" and not fn.impl:
            for r in P.all_nodes(fn):
                if r.k == "Return" and r.c and P.reachable(r):
                    k += 1
                    v = E.ev(r.c[0])
                    a.check(all(quantile_form(p, upper_entry(a, fn)) for p in v), "E04.quantile", fn.where(r), "the quantile interpolates between neighbours",
                            "the quantile is not the weighted average of the two neighbouring samples")
            gs = [c for c in P.all_nodes(fn) if c.k in ("Call", "Idx") and (c.d.get("oper") in ("()", "[]") or c.k == "Idx") and P.reachable(c)]
            for g in gs:
                ix = g.c[-1]
                iv = E.ev(ix)
                lo = guarded(a, g, lambda rs: any(r[0] in (">=", ">", "==", "T") and isinstance(r[1], frozenset) and vkey(r[1]) in (vkey(iv), vkey(simp1(vals.vadd(iv, const(-1))))) for r in rs), depth=0)
                hi = guarded(a, g, lambda rs: any(r[0] in (">=", ">") and isinstance(r[1], frozenset) and any(".size()" in pstr(p) and p_has(p, iv) for p in r[1]) for r in rs), depth=0)
                a.check(lo and hi, "E04.quantile", fn.where(g), "the samples are looked up within range", "a sample is looked up at a place that may lie outside the samples")
        if last(fn.q).startswith("calc_bootstrap") and not fn.impl:
            qs = list(calls_in(P, fn, r"getQuantile$"))
            for c in qs:
                srt = [m for m in P.calls(fn) if last(m.d.get("q")) in ("sort", "stable_sort")]
                a.check(bool(srt) and uncut(a, fn, (fn.entry, -1), P.position(c), (), lambda e: any(e is m for m in srt)) is None, "E04.quantile", fn.where(c),
                        "the samples are sorted before a quantile is taken", "a quantile is taken of samples that may not be sorted")
                for m in srt:
                    sv = [y.d["v"] for y in m.walk() if y.k == "Var"][:1]
                    for s in P.all_nodes(fn):
                        if s.k == "Assign" and any(y.k == "Var" and y.d["v"] in sv for y in s.c[0].walk()) and P.reachable(s):
                            a.check(uncut(a, fn, P.position(s), P.position(c), (), lambda e, m=m: e is m) is None, "E04.quantile", fn.where(s),
                                    "no sample is added after sorting", "a sample is added after the samples are sorted")
            # the place drawn lies within the samples
            for g in P.all_nodes(fn):
                if g.k == "Call" and g.d.get("oper") in ("()", "[]") and P.reachable(g):
                    s = vstr(E.ev(g.c[-1]))
                    if "rand(" in s:
                        ok = "MIN{" in s and "size() -1" in s or guarded(a, g, lambda rs: any(r[0] in (">", ">=") and "size()" in vstr(r[1]) for r in rs if isinstance(r[1], frozenset)), depth=0) or "%(" in s
                        a.check(ok, "E04.quantile", fn.where(g), "a sample is drawn within range", "the sample drawn can lie just past the last one when the random number is 1")
            # interval ends
            ends = sorted(vstr(E.ev(c.c[1])) for c in qs)
            outs = {}
            for c in qs:
                p = c.p
                while p is not None and p.k in ("Cast",):
                    p = p.p
                if p is not None and p.k == "Assign" and strip(p.c[0]).k == "Var" and strip(p.c[0]).d["v"] in fn.params:
                    outs[fn.params.index(strip(p.c[0]).d["v"])] = E.ev(c.c[1])
            if len(outs) == 2:
                lo_, hi_ = outs[min(outs)], outs[max(outs)]
                a.check(vkey(vsum(lo_, hi_)) == vkey(const(1)) and not any("1" == pstr(p).lstrip("+")[:1] for p in lo_), "E04.quantile", fn.where(),
                        "the interval is symmetric: %s and %s" % (vstr(lo_), vstr(hi_)), "the two ends of the confidence interval are not symmetric: %s and %s" % (vstr(lo_), vstr(hi_)))
    a.need("E04.mean", k, 3, "means and quantiles")


def vsum(x, y):
    """sum with equal terms of opposite sign taken out"""
    out = set()
    for p in vals.vadd(x, y):
        c = {}
        for s, m in p:
            c[m] = c.get(m, 0) + s
        out.add(tuple(sorted(((1 if v > 0 else -1), m) for m, v in c.items() if v)))
    return frozenset(out)


def p_has(p, iv):
    neg_ = set((-s, m) for q in iv for s, m in q if m and not isconstm(m))
    return bool(neg_) and neg_ <= set(p)


def uncut_dv(a, fn, start, target, defs):
    """uncut() where declarations reached again also count"""
    nodes = [d.node for d in defs]
    return uncut(a, fn, start, target, (), lambda e: any(e is n for n in nodes))


def upper_entry(a, fn):
    """the later of the two neighbouring samples, as it appears in values"""
    E = a.E
    ix = {}
    for g in a.P.all_nodes(fn):
        if (g.k == "Idx" or g.k == "Call" and g.d.get("oper") in ("()", "[]")) and a.P.reachable(g):
            for p, q in [(p, q) for p in E.ev(g) for q in E.ev(g.c[-1])]:
                if len(p) == 1:
                    ix["*".join(str(x) for x in next(iter(p))[1])] = [(s, mstr1(m)) for s, m in q]
    for e, t in ix.items():
        for e2, t2 in ix.items():
            if e != e2 and sorted(t) == sorted(t2 + [(1, "")]):
                return e
            if e != e2 and sorted(t) == sorted(t2 + [(1, "1")]):
                return e
    return None


def quantile_form(p, up=None):
    """v[i] + (x - i) * (v[i+1] - v[i]) with x = p*n - 1/2, i = floor(x)"""
    v0 = v1 = None
    t = []
    for s, m in p:
        st = mstr1(m)
        if "[" not in st:
            return False
        t.append((s, sorted(str(x) for x in m)))
    ent = set(x for s, m in t for x in m if re.search(r"\[.*\]$", x))
    if len(ent) != 2:
        return False
    one = [e for e in ent if any(s == 1 and m == [e] for s, m in t)]
    neg_ = [e for e in ent if any(s == -1 and m == [e] for s, m in t)]
    if len(p) != 8 - 0 and len(p) != 7:
        pass
    # coefficients of either entry as sets of (sign, rest)
    co = {e: set() for e in ent}
    for s, m in t:
        es = [x for x in m if x in ent]
        if len(es) != 1:
            return False
        r = list(m)
        r.remove(es[0])
        co[es[0]].add((s, "*".join(r)))
    a_, b_ = sorted(ent, key=lambda e: len(co[e]), reverse=True)
    # the two weights add up to one
    tot = {}
    for e in ent:
        for s, r in co[e]:
            f, r2 = coef(r)
            tot[r2] = tot.get(r2, 0) + s * f
    tot = {r: c for r, c in tot.items() if abs(c) > 1e-12}
    if tot != {"": 1}:
        return False
    # weight of the upper neighbour: p*n - 1/2 - floor
    for e in ent:
        w = {}
        for s, r in co[e]:
            f, r2 = coef(r)
            w[r2] = w.get(r2, 0) + s * f
        fl = [r for r in w if "floor(" in r or "~" in r]
        if w.get("", 0) == -0.5 and len(fl) == 1 and w[fl[0]] == -1 and len(w) == 3:
            return up is None or e == up
    return False


def coef(r):
    f, out = 1.0, []
    for x in r.split("*") if r else ():
        g = re.match(r"^(/?)#([\d.e+-]+)$", x)
        if g:
            f = f / float(g.group(2)) if g.group(1) else f * float(g.group(2))
        else:
            out.append(x)
    return f, "*".join(out)


def checked(a, q, pred_ops=(">",)):
    """every store to the field from outside the program is followed by a check that it is positive, or is positive itself"""
    P, E = a.P, a.E
    memo = a.__dict__.setdefault("_checked", {})
    if q in memo:
        return memo[q]
    memo[q] = True
    f = last(q)
    ok, any_ = True, False
    for fn in P.funcs.values():
        for n, lhs, op, rhs in assigns(P, fn):
            l = strip(lhs)
            if l.k != "Mem" or l.d["q"] != q or rhs is None or not P.reachable(n):
                continue
            any_ = True
            v = E.ev(rhs)
            if op == "=" and v and all(poscons(p) for p in v):
                continue
            tests = lambda rs: any(r[0] in (">", "T") and isinstance(r[1], frozenset) and len(r[1]) and (vkey(r[1]) == vkey(v) or vstr(r[1]).endswith("." + f)) or
                                   r[0] == ">=" and isinstance(r[1], frozenset) and (vkey(r[1]) in (vkey(vals.vadd(v, const(-1))),)) for r in rs)
            es = good_edges(a, fn, tests) | field_edges(a, fn, q)
            if uncut(a, fn, P.position(n), "exit", es) is not None and not guarded(a, n, tests, depth=1):
                ok = False
        for i in fn.inits:
            pass
    memo[q] = ok and any_
    return memo[q]


def field_edges(a, fn, q):
    """edges on which the field itself is compared and found positive"""
    out = set()
    for b, i, ats in branches(a, fn):
        for n, t in ats:
            n = strip(n)
            while n.k == "Un" and n.d.get("op") == "!" and isinstance(t, bool):
                n, t = strip(n.c[0]), not t
            if n.k != "Bin" or n.d["op"] not in ("<", ">", "<=", ">=") or not isinstance(t, bool):
                continue
            for k in (0, 1):
                l, r = strip(n.c[k]), strip(n.c[1 - k])
                if l.k == "Mem" and l.d["q"] == q:
                    c = r.d.get("v") if r.k == "Lit" else r.d.get("cv")
                    if not isinstance(c, (int, float)):
                        continue
                    op = n.d["op"] if k == 0 else {"<": ">", ">": "<", "<=": ">=", ">=": "<="}[n.d["op"]]
                    if not t:
                        op = {"<": ">=", ">": "<=", "<=": ">", ">=": "<"}[op]
                    if op == ">" and c >= 0 or op == ">=" and c > 0:
                        out.add((b, i))
    return out


def poscons(p):
    s = pstr(p).replace("#", "").replace(" ", "")
    try:
        return float(s) > 0
    except ValueError:
        return False


def e04_div(a):
    P, E = a.P, a.E
    k = 0

    def mpos(x, ctxn, depth):
        """the factor is positive"""
        if isinstance(x, tuple) and len(x) == 2 and x[0] in ("MIN", "MAX"):
            return (all if x[0] == "MIN" else any)(ppos(p, ctxn, depth) for p in x[1])
        if not isinstance(x, str):
            return False
        if x.startswith("#"):
            return float(x[1:]) > 0 if re.match(r"^#[\d.e+-]+$", x) else False
        g = re.match(r"^MIN\{(.*)\}$", x)
        if g:
            return all(spos(y.strip().lstrip("+"), ctxn, depth) for y in splits(g.group(1)))
        g = re.match(r"^MAX\{(.*)\}$", x)
        if g:
            return any(spos(y.strip().lstrip("+"), ctxn, depth) for y in splits(g.group(1)))
        g = re.match(r"^[@$](\w+)\.(\w+)$", x)
        if g:
            for q in fieldq(a, g.group(1), g.group(2)):
                if checked(a, q):
                    return True
        return False

    def splits(s):
        out, d, cur = [], 0, ""
        for ch in s:
            if ch in "({[":
                d += 1
            elif ch in ")}]":
                d -= 1
            if ch == ";" and d == 0:
                out.append(cur)
                cur = ""
            else:
                cur += ch
        return out + [cur]

    def spos(s, ctxn, depth):
        return mpos(s, ctxn, depth)

    def ppos(p, ctxn, depth=3):
        if num(p) is not None:
            return num(p) != 0
        if poscons(p):
            return True
        for s, m in p:
            if s < 0:
                return False
            fs = list(m)
            for x in fs:
                if isinstance(x, str) and x.startswith("/"):
                    # x / MIN{..; x} is at least one
                    d = x[1:].strip("()")
                    g = re.match(r"^MIN\{(.*)\}$", d)
                    rest = [y for y in fs if y is not x]
                    if not (g and len(rest) == 1 and ("+" + rest[0]) in [y.strip() for y in splits(g.group(1))] and mpos(d, ctxn, depth)):
                        return False
                    fs = []
                    break
            if fs and not all(mpos(x, ctxn, depth) for x in fs):
                return False
        return bool(p)

    def proven(n, den, depth=3):
        v = E.ev(den)
        if v and all(ppos(p, n) for p in v):
            return True
        x = strip(den)
        while x.k in ("Cast", "Paren") and x.c:
            x = strip(x.c[0])
        # a test on the way
        nz = lambda rs: any(r[0] in (">", "T", "!=") and isinstance(r[1], frozenset) and vkey(r[1]) == vkey(v) or
                            r[0] == ">" and isinstance(r[1], frozenset) and len(r[1]) == 1 and isvar(r[1], v) or
                            r[0] == ">=" and isinstance(r[1], frozenset) and vkey(r[1]) == vkey(vals.vadd(v, const(-1))) for r in rs)
        if guarded(a, n, nz, depth=0):
            return True
        es = set()
        if x.k == "Mem":
            es = field_edges(a, n.fn, x.d["q"])
            if es and uncut(a, n.fn, (n.fn.entry, -1), P.position(n), es) is None:
                return True
            if checked(a, x.d["q"]):
                return True
        if x.k == "Var" and x.d["v"] in n.fn.params and depth > 0:
            i = n.fn.params.index(x.d["v"])
            cs = P.callers.get(n.fn.usr, ())
            return bool(cs) and all(i < len(m.c) and proven(m, m.c[i], depth - 1) for c, m in cs)
        if x.k == "Var" and depth > 0:
            ds = [d for d in fn_defs(P, n.fn).byvar.get(x.d["v"], ()) if d.field is None]
            if ds and all(d.rhs is not None and d.kind in ("init", "=") for d in ds):
                return all(proven(d.node, d.rhs, depth - 1) for d in ds)
        return False

    def isvar(r, v):
        return False

    def config(v, den):
        """the divisor comes from the configuration"""
        x = strip(den)
        st, seen = [den], set()
        names = set()
        while st:
            y = st.pop()
            for z in y.walk():
                if z.k == "Call" and re.search(r"ZMDPConfig::get(Int|Double|UInt)", z.d.get("q") or ""):
                    return True
                if z.k == "Mem":
                    names.add(z.d["q"])
                if z.k == "Var" and (z.fn.usr, z.d["v"]) not in seen:
                    seen.add((z.fn.usr, z.d["v"]))
                    for d in fn_defs(P, z.fn).byvar.get(z.d["v"], ()):
                        if d.rhs is not None:
                            st.append(d.rhs)
                    if z.d["v"] in z.fn.params:
                        i = z.fn.params.index(z.d["v"])
                        for c, m in P.callers.get(z.fn.usr, ()):
                            if i < len(m.c):
                                st.append(m.c[i])
        return any(q in cfgfields for q in names)
    cfgfields = set()
    for fn in P.funcs.values():
        for n, lhs, op, rhs in assigns(P, fn):
            l = strip(lhs)
            if l.k == "Mem" and rhs is not None and any(z.k == "Call" and re.search(r"ZMDPConfig::get(Int|Double|UInt)", z.d.get("q") or "") for z in rhs.walk()):
                cfgfields.add(l.d["q"])
    for fn, n, num_, den in divs(a):
        integer = not re.search(r"double|float", n.t or "")
        v = E.ev(den)
        if v and all(num(p) not in (None, 0) or poscons(p) for p in v):
            continue
        fc = integer or config(v, den)
        if not fc:
            continue
        k += 1
        a.check(proven(n, den), "E04.div", fn.where(n), "%s: the divisor %s is not zero" % (short(fn.q), vstr(v)[:80]),
                "%s divides by %s, which can be zero" % (short(fn.q), vstr(v)[:100]))
    a.need("E04.div", k, 2, "divisions by configuration values or whole numbers")


def fieldq(a, cls, f):
    """qualified names of the field f of class cls as the program stores it"""
    m = a.__dict__.setdefault("_fieldq", {})
    if not m:
        for fn in a.P.funcs.values():
            for n, lhs, op, rhs in assigns(a.P, fn):
                l = strip(lhs)
                if l.k == "Mem":
                    q = l.d["q"].split("::")
                    if len(q) > 1:
                        m.setdefault((q[-2], q[-1]), set()).add(l.d["q"])
    return m.get((cls, f), ())


RULES["E04"] = [e04_time, e04_mean, e04_div]

TEXT = {
    "I03.handler": "a handler of the interrupt signal, and all it calls, calls no function that is unsafe in a handler, stores only to volatile flags, and records the request on every path; nothing else clears the record while the solver runs",
    "I03.loop": "on every path from one call of the solver to the next, a test of the recorded request comes between, and its true side leaves the loop",
    "I03.install": "the handler is installed for the interrupt signal before the solver runs and stays installed; the installing helper passes on the signal and handler it is given on every path",
    "I03.policy": "no path from the solver to the end of the run (return or successful exit) avoids writing the requested policy and finishing the logs, except where none was requested",
    "I07.backup": "on every path to a repeated policy write, a rename of the previous file under another name comes first (unless there was none)",
    "I07.remove": "every removal or overwriting of a policy file concerns the backup name and comes only after the new policy was written",
    "I07.shell": "no system()/popen()/exec of a shell",
    "E03.source": "every random number comes from the seeded generator; the unit draw is the raw number over its maximum",
    "E03.seed": "in each command that draws, every path to the first draw seeds, and no path seeds again after a draw or seeds twice",
    "E03.choose": "a sampling loop draws once, covers all entries, takes the weight of every entry with one off the number drawn, stops exactly when it is used up and returns the entry it stopped at; left-over rounding falls to an entry with weight",
    "E04.time": "on every path of the timeval operators, the total in microseconds is the sum/difference and the microseconds end between 0 and 999999; comparisons agree with the order in all nine sign cases; conversions scale by one million",
    "E04.mean": "every division by a sample count: the numerator starts from zero for each mean, gets each sample once, and the divisor is the number of passes of the adding loop",
    "E04.quantile": "quantiles are read from sorted data at p*n-1/2 with linear interpolation, at alpha/2 and 1-alpha/2",
    "E04.div": "every division by a whole number or a configuration value has a divisor that is provably positive (constant, validated when read, minimum/maximum of such, or tested on the way)",
}
