"""B04, B06, B07: initial bounds, evaluation of the stored elements, pruning."""
from rules.common import *
from rules.bounds import opq, returns, full_range, isbig, BELL_L
from rules.search import lname, TR, cmp_reason, isf, lastname, relparts, cfg_loop, cover, loops_of

INITCLS = r"(BlindLB|FullObsUB|FastInfUB)Initializer$"


def init_fns(a, rx_=INITCLS):
    for fn in a.P.funcs.values():
        if fn.cls and re.search(rx_, fn.cls) and not fn.impl:
            yield fn


def cnt(m, rx_):
    r_ = re.compile(rx_)
    return sum(1 for x in m if isinstance(x, str) and r_.search(x))


def tidx(m):
    """action indices mentioned by one product"""
    out = set()
    for x in m:
        if isinstance(x, str):
            out |= set(re.findall(r"\.T(?:tr)?\[([^\[\]]*)\]", x)) | set(re.findall(r"\.R\[:,([^\[\]]*)\]", x)) | set(re.findall(r"\.O\[([^\[\]]*)\]\[", x))
    return out


RT = r"\.T(tr)?\[[^\[\]]*\](\^t)?$"
RG = r"\.discount$"
RR = r"\.R\[:,[^\[\]]*\]$"
RO = r"\.O\[[^\[\]]*\]\[:,[^\[\]]*\]$"


def transposed(m):
    return any(isinstance(x, str) and re.search(r"\.T(tr)?\[[^\[\]]*\]\^t$", x) for x in m)


def iv(fn, v):
    return "iv:%s.%d" % (fn.vars[v]["n"], v)


def rform(p):
    """value is R[:,a] + sum of T[a]^k discount^k ...: (ok, actions)"""
    acts = set()
    bare = False
    for s, m in p:
        if s != 1:
            return False, "negative term", acts
        acts |= tidx(m)
        if transposed(m):
            return False, "transition matrix used the wrong way round", acts
        if cnt(m, RT) != cnt(m, RG):
            return False, "discount and transition not applied equally often", acts
        if cnt(m, RR) > 1:
            return False, "reward multiplied twice", acts
        if cnt(m, RR) and len(m) == 1:
            bare = True
    return bare, "no immediate reward term", acts


def b04(a):
    P, E = a.P, a.E
    # ---- worst-case start of the blind policies
    nw = 0
    for x in find_ext(a):
        if not (x.fn.cls or "").endswith("BlindLBInitializer"):
            continue
        v = E.ev(x.cand)
        rows = set()
        cols = set()
        for p in v:
            for s, m in p:
                for y in m:
                    mm = re.search(r"\.R\[([^\[\],]*),([^\[\],]*)\]$", y) if isinstance(y, str) else None
                    if mm:
                        rows.add(mm.group(1))
                        cols.add(mm.group(2))
        if not rows:
            continue
        L = loop_info(a, x.loop)
        if L is None or L.var is None:
            continue
        name = iv(x.fn, L.var)
        nw += 1
        if name in rows:
            a.check(x.dir == "min", "B04.blind-start", x.fn.where(x.upd), "worst state reward of an action is a minimum over states", "%s takes the largest reward over states as the worst case" % short(x.fn.q))
            a.check(x.place.k != "Var" or reset_per(a, x), "B04.blind-start", x.fn.where(x.upd), "worst state reward restarts for each action",
                    "%s carries the worst reward of one action over to the next" % short(x.fn.q))
        elif name in cols:
            a.check(x.dir == "max", "B04.blind-start", x.fn.where(x.upd), "best action of the worst rewards is a maximum over actions", "%s takes the smallest over actions of the worst rewards" % short(x.fn.q))
        else:
            a.fail("B04.blind-start", x.fn.where(x.upd), "%s: the reward examined does not depend on the loop variable" % short(x.fn.q))
    # ---- blind planes
    npl = 0
    for fn in init_fns(a, r"BlindLBInitializer$"):
        for n in P.all_nodes(fn):
            if n.k == "Ctor" and lname(n.d.get("q")) == "LBPlane" and len(n.c) == 3 and P.reachable(n):
                npl += 1
                w = fn.where(n)
                act = set(vstr(frozenset([p])).lstrip("+") for p in E.ev(n.c[1]))
                v = maximal(E.ev(n.c[0]))
                good = False
                for p in v:
                    if not any(cnt(m, RT) or cnt(m, RR) for s, m in p):
                        for s, m in p:
                            start_ok(a, w, m)
                        continue
                    okk, why, acts = rform(p)
                    good = True
                    a.check(okk, "B04.blind-plane", w, "plane of the fixed action", "value of a blind policy is not reward + discount * transition * value: %s (%s)" % (why, pstr(p)[:200]))
                    a.check(len(acts) == 1, "B04.blind-plane", w, "one action per blind policy", "a blind policy mixes actions %s" % sorted(acts))
                    a.check(acts <= act, "B04.blind-plane", w, "plane labelled with its action", "plane of action %s is labelled with action %s" % (sorted(acts), sorted(act)))
                    for s, m in p:
                        start_ok(a, w, m)
                a.check(good, "B04.blind-plane", w, "blind policies are evaluated", "blind planes are not the values of the fixed actions")
                # one plane for every action
                for L in [loop_info(a, l) for l in loops_of(n)]:
                    if L is not None and L.kind == "count":
                        full_range(a, "B04.every-action", w, "a blind plane for every action", L)
                a.check(any(L is not None and L.var is not None and iv(fn, L.var) in act for L in [loop_info(a, l) for l in loops_of(n)]),
                        "B04.every-action", w, "blind planes enumerate the actions", "blind planes are not made for every action")
                for x in loop_breaks2(loops_of(n)):
                    a.fail("B04.every-action", fn.where(x), "%s stops before every action has its plane" % short(fn.q))
                for c, t in P.facts_at(n):
                    l = loops_of(n)
                    if any(c.id == y.id for z in l for y in (z.slot("cond").walk() if z.slot("cond") is not None else ())):
                        continue
                    if any(norm_cmp(E, r) for r in E.rels(c, t)):
                        continue
                    vs = set(y.d["v"] for y in c.walk() if y.k == "Var")
                    a.check(not any(loop_info(a, z) is not None and loop_info(a, z).var in vs for z in l), "B04.every-action", w, "no action skipped",
                            "%s skips actions on a condition (%s)" % (short(fn.q), fn.where(c)))
                # full mask
                mv = E.ev(n.c[2])
                a.check(any("mask_set_all" in pstr(p) for p in mv), "B04.blind-mask", w, "blind planes apply to every state", "blind planes do not apply everywhere: their mask is not the set of all states")
        for n in P.all_nodes(fn):
            if is_call(n, "mask_set_all"):
                fs = [r for c, t in P.facts_at(n) for r in E.rels(c, t)]
                a.check(not fs or all(r[0] == "T" and "useMaxPlanesMasking" in vstr(r[1]) for r in fs), "B04.blind-mask", fn.where(n), "mask filled whenever masks are used",
                        "the mask of the blind planes is not filled in every masking run")
    a.need("B04.blind", npl, 1, "blind planes")
    # ---- fully observable value iteration
    nf = 0
    for fn, n, op, rhs, lhs, ch in field_stores(a, lambda q: q.endswith("FullObsUBInitializer::alpha")):
        if op != "=" or rhs is None or not (fn.cls or "").endswith("FullObsUBInitializer"):
            continue
        for p in flat(maximal(E.ev(rhs, a.build(ch)))):
            if not p:
                continue
            nf += 1
            okk, why, acts = rform(p)
            one = all(cnt(m, RT) <= 1 and (cnt(m, RT) == 0 or cnt(m, r"\.alpha$") == 1) for s, m in p) and any(cnt(m, RT) for s, m in p)
            a.check(okk and one, "B04.full-observation", fn.where(n), "value iteration step", "fully observable backup is not reward + discount * transition * value: %s (%s)" % (why, pstr(p)[:200]))
            a.check(len(acts) == 1, "B04.full-observation", fn.where(n), "one action per backup", "fully observable backup mixes actions %s" % sorted(acts))
    a.need("B04.full-observation", nf, 1, "value iteration stores")
    for x in find_ext(a):
        if (x.fn.cls or "").endswith("FullObsUBInitializer") and x.place.k != "Var" and not isnorm(x):
            a.check(x.dir == "max", "B04.full-observation", x.fn.where(x.upd), "maximum over actions", "%s takes the minimum over actions" % short(x.fn.q))
    # ---- fast informed bound
    fib(a)
    # ---- convergence loops
    nc = 0
    for fn in init_fns(a):
        nc += converge(a, fn)
    a.need("B04.converged", nc, 2, "convergence tests")
    # ---- loop ranges
    for fn in init_fns(a):
        for n in P.all_nodes(fn):
            if n.k in ("For", "While") and n.slot("body") is not None:
                L = loop_info(a, n)
                if L is not None and L.kind == "count":
                    if L.lo == const(1) and started(a, fn, n):
                        a.ok("B04.range", fn.where(n), "loop in %s continues after element 0" % short(fn.q))
                        continue
                    full_range(a, "B04.range", fn.where(n), "loop in %s" % short(fn.q), L)
    # ---- terminal states
    nt = 0
    for cls in ("PointLowerBound", "PointUpperBound", "SawtoothUpperBound"):
        for fn in P.find("zmdp::%s::initNodeBound" % cls):
            nt += terminal_node(a, fn)
    a.need("B04.terminal-node", nt, 3, "initial bounds of nodes")
    for rx_ in (r"BlindLBInitializer$", r"FastInfUBInitializer$"):
        terminal_states(a, rx_)
    # ---- the initialisers are run
    for cls, ini in (("SawtoothUpperBound", "FastInfUBInitializer"), ("MaxPlanesLowerBound", "BlindLBInitializer")):
        for fn in P.find("zmdp::%s::initialize" % cls):
            es = good_edges(a, fn, TR(r"initialized$", "T"))
            run = lambda e: e.k == "Call" and any((g.cls or "").endswith("Initializer") and sinks_in(a, g) for g in P.resolve(e))
            a.check(uncut(a, fn, (fn.entry, -1), "exit", es, elem=run) is None, "B04.run", fn.where(), "%s computes its initial bound" % cls,
                    "%s::initialize can finish without computing the initial bound" % cls)


def isnorm(x):
    return False


def sinks_in(a, g):
    P = a.P
    for h in P.closure([g]).values() if g.blocks else ():
        for n in P.all_nodes(h):
            if n.k == "Call" and (lname(n.d.get("q")) == "addLBPlane" or (lname(n.d.get("q")) == "copy" and n.c and strip(n.c[0]).k == "Mem" and strip(n.c[0]).d["n"] == "cornerPts")):
                return True
        for n, lhs, op, rhs in assigns(P, h):
            if strip(lhs).k == "Mem" and strip(lhs).d["n"] == "cornerPts":
                return True
    return False


def started(a, fn, loop):
    """the loop accumulates into something that was set from element 0"""
    P, E = a.P, a.E
    b = loop.slot("body")
    for n in b.walk() if b is not None else ():
        if is_call(n, "max_assign") and n.c:
            x = strip(n.c[0])
            if x.k == "Var":
                for d in fn_defs(P, fn).byvar.get(x.d["v"], ()):
                    if d.rhs is not None and d.kind in ("init", "=") and any(y.k in ("Idx", "Call") and y.c and E.ev(y.c[-1]) == ZERO for y in d.rhs.walk()):
                        return True
    return False


def loop_breaks2(ls):
    from rules.bounds import loop_breaks
    for l in ls[-1:]:
        for x in loop_breaks(l):
            if x.k in ("Return", "Break"):
                yield x


def norm_cmp(E, r):
    return isinstance(r[1], frozenset) and any("norm_inf" in pstr(p) for p in r[1])


def reset_per(a, x):
    """the extremum variable is assigned its start value on every way into the extremum's loop from the enclosing one"""
    P, fn = a.P, x.fn
    ls = loops_of(x.loop)
    if not ls or ls[0].slot("cond") is None or x.loop.slot("cond") is None:
        return True
    ids = set(y.id for y in x.loop.walk())
    resets = set(d.node.id for d in fn_defs(P, fn).byvar.get(x.place.d["v"], ()) if d.kind in ("init", "=") and d.node.id not in ids)
    op, ip = P.position(ls[0].slot("cond")), P.position(x.loop.slot("cond"))
    if op is None or ip is None:
        return True
    for s in fn.blocks[op[0]].succ:
        if s is not None and s in cfg_loop(fn, op[0]):
            if uncut(a, fn, (s, -1), ip, set(), elem=lambda e: e.id in resets or any(y.id in resets for y in e.walk())) is not None:
                return False
    return True


FACT = [r"/\(\+1 -[^()]*discount\)$", r"pow\(\+[^(),]*discount,\+1 \+[^(),]*maxHorizon\)$", r"maxHorizon$"]


def start_ok(a, w, m):
    """the start vector: worst-case reward times the length factor"""
    for y in m:
        if isinstance(y, str) and re.search(RT, y) is None and re.search(RG, y) is None:
            if "maxHorizon" in y or y.startswith("/("):
                a.check(any(re.search(f, y) for f in FACT), "B04.long-term", w, "length factor of the worst-case value", "worst-case value is multiplied by %s" % y)
        elif isinstance(y, tuple) and y and y[0] in ("MIN", "MAX"):
            for q in y[1]:
                for s, mm in q:
                    horizon = any(isinstance(z, str) and ("maxHorizon" in z or z.startswith("/(")) for z in mm)
                    if not horizon:
                        continue
                    a.check(y[0] == "MIN", "B04.long-term", w, "the shorter horizon counts", "worst-case value uses the longer of two horizons")
                    for z in mm:
                        a.check(any(re.search(f, z) for f in FACT), "B04.long-term", w, "length factor of the worst-case value", "worst-case value is multiplied by %s" % z)
                    neg = s < 0
                    isp = any(isinstance(z, str) and z.startswith("pow(") for z in mm)
                    a.check(neg == isp, "B04.long-term", w, "geometric sum", "worst-case value uses a wrong geometric sum")


def fib(a):
    P, E = a.P, a.E
    n_acc = n_max = n_back = n_sink = 0
    for fn in init_fns(a, r"FastInfUBInitializer$"):
        for n, lhs, op, rhs in assigns(P, fn):
            if rhs is None:
                continue
            if op == "+=":
                v = maximal(E.ev(rhs))
                obs = set()
                isacc = False
                for p in v:
                    for s, m in p:
                        for y in m:
                            if isinstance(y, tuple) and y[0] in ("MAX", "MIN"):
                                for q in y[1]:
                                    if any(cnt(mm, RO) for s2, mm in q):
                                        isacc = True
                                        a.check(y[0] == "MAX", "B04.fast-informed", fn.where(n), "maximum over actions", "the fast informed bound takes the minimum over actions")
                                        for s2, mm in q:
                                            for z in mm:
                                                if isinstance(z, str):
                                                    obs |= set(re.findall(r"\.O\[[^\[\]]*\]\[:,([^\[\]]*)\]", z))
                        if cnt(m, RO):
                            isacc = True
                            a.fail("B04.fast-informed", fn.where(n), "%s adds successor values without maximising over actions per observation" % short(fn.q))
                if isacc:
                    n_acc += 1
                    L = [loop_info(a, l) for l in loops_of(n)]
                    a.check(bool(L) and L[0] is not None and L[0].var is not None and obs == {iv(fn, L[0].var)}, "B04.fast-informed", fn.where(n), "sum over observations of the maxima",
                            "%s does not sum the maxima once per observation" % short(fn.q))
        for n in P.all_nodes(fn):
            if is_call(n, "max_assign", "min_assign") and len(n.c) == 2 and P.reachable(n):
                v = E.ev(n.c[1])
                isobs = any(cnt(m, RO) for p in v for s, m in p)
                a.check(is_call(n, "max_assign"), "B04.fast-informed", fn.where(n), "maximum over actions", "%s takes the minimum over actions" % short(fn.q))
                if isobs:
                    n_max += 1
                    for p in flat(v):
                        for s, m in p:
                            okk = s == 1 and cnt(m, RO) == 1 and cnt(m, RT) >= 1 and not transposed(m)
                            o = [y for y in m if isinstance(y, str) and re.search(RO, y)]
                            oa = set(re.findall(r"\.O\[([^\[\]]*)\]", o[0])) if o else set()
                            ta = [re.findall(r"\.T(?:tr)?\[([^\[\]]*)\]", y)[0] for y in m if isinstance(y, str) and re.search(RT, y)]
                            a.check(okk and oa & set(ta), "B04.fast-informed", fn.where(n), "product of observation, transition and value",
                                    "%s does not multiply the value by observation and transition probabilities of the same action: %s" % (short(fn.q), mstr(m)[:200]))
                    L = [loop_info(a, l) for l in loops_of(n)]
                    ivs = [iv(fn, x.var) for x in L if x is not None and x.var is not None]
                    obs = set(z for p in v for s, m in p for y in m if isinstance(y, str) for z in re.findall(r"\.O\[[^\[\]]*\]\[:,([^\[\]]*)\]", y))
                    a.check(len(ivs) >= 3 and ivs[0] not in obs and ivs[1] in obs, "B04.fast-informed", fn.where(n), "actions are maximised inside each observation",
                            "%s does not maximise over actions inside each observation" % short(fn.q))
                    # the action maximised over selects the vector
                    nm = [y for y in n.c[1].walk() if y.k == "Var"]
        # backed-up vectors
        for n, lhs, op, rhs in assigns(P, fn):
            if op != "+=" or rhs is None:
                continue
            if not all(len(p) == 1 and cnt(next(iter(p))[1], RR) == 1 and len(next(iter(p))[1]) == 1 for p in E.ev(rhs)):
                continue
            r = [tidx(m) for p in E.ev(rhs) for s, m in p]
            for p in maximal(E.ev(lhs)):
                for s, m in p:
                    for y in m:
                        if isinstance(y, tuple) and y[0] == "MAX" and any(cnt(mm, RO) for q in y[1] for s2, mm in q):
                            n_back += 1
                            a.check(cnt(m, RG) == 1 and s == 1, "B04.fast-informed", fn.where(n), "discount applied once", "the fast informed bound applies the discount %d times" % cnt(m, RG))
                            oa = set(z for q in y[1] for s2, mm in q for t in mm if isinstance(t, str) for z in re.findall(r"\.O\[([^\[\]]*)\]", t))
                            a.check(all(oa == x for x in r), "B04.fast-informed", fn.where(n), "reward of the same action", "the fast informed bound adds the reward of another action (%s / %s)" % (sorted(oa), sorted(r[0]) if r else []))
        # result
        for n in P.all_nodes(fn):
            tgt = src = None
            if is_call(n, "copy") and len(n.c) == 2:
                tgt, src = strip(n.c[0]), n.c[1]
            elif n.k == "Assign" and n.d["op"] == "=" or (n.k == "Call" and n.d.get("oper") == "="):
                xs = n.c if n.k == "Assign" else [n.slot("obj")] + n.c if n.slot("obj") is not None else n.c
                tgt, src = strip(xs[0]), xs[1]
            if tgt is not None and tgt.k == "Mem" and tgt.d["n"] == "cornerPts":
                n_sink += 1
                v = maximal(E.ev(src))
                a.check(any(extset(p)[0] == "MAX" for p in v), "B04.fast-informed", fn.where(n), "corner values are maxima over actions", "the corner values are not the maximum of the action vectors")
        # start: an upper bound from the fully observable problem
        sites = [n for n in P.calls(fn) if lname(n.d.get("q")) == "nextAlphaAction"]
        pre = lambda e: e.k == "Call" and P.reaches_call2(e, "valueIteration") if hasattr(P, "reaches_call2") else calls_named(a, e, "valueIteration")
        for n in sites:
            a.check(P.hits_before(fn, P.position(n), pre), "B04.fib-start", fn.where(n), "starts from the fully observable bound", "the fast informed bound does not start from the fully observable bound")
    a.need("B04.fast-informed", n_acc, 1, "sums over observations")
    a.need("B04.fast-informed", n_back, 1, "backed-up vectors")
    a.check(n_max > 0, "B04.fast-informed", "src/pomdpBounds", "maximum over actions", "no maximum over actions inside the observation loop")
    a.need("B04.fast-informed", n_sink, 1, "stores of the corner values")


def calls_named(a, e, name, depth=3):
    if e.k != "Call":
        return False
    if lname(e.d.get("q")) == name:
        return True
    if depth == 0:
        return False
    for g in a.P.resolve(e):
        if g.blocks and any(calls_named(a, n, name, depth - 1) for n in a.P.calls(g)):
            return True
    return False


def converge(a, fn):
    """iteration goes on while the residual (norm of new minus old) exceeds the precision"""
    P, E = a.P, a.E
    k = 0
    for b in sorted(fn.reach):
        blk = fn.blocks[b]
        if blk.cond is None or len(blk.succ) != 2:
            continue
        loop = cfg_loop(fn, b)
        for i in (0, 1):
            for c, t in P.branch_atoms(fn, b, i == 0):
                for r in E.rels(c, t):
                    if r[0] not in (">", ">=") or not norm_cmp(E, r):
                        continue
                    al = relparts(r) or ()
                    big = small_ = False
                    for ps, ns in al:
                        pn = any("norm_inf" in mstr(m) for m in ps)
                        nn = any("norm_inf" in mstr(m) for m in ns)
                        if pn and not nn:
                            big = True     # residual beyond the precision
                        elif nn and not pn:
                            small_ = True
                    s = blk.succ[i]
                    if s is None or big == small_:
                        continue
                    inner = innermost(a, fn, c)
                    stays = s in inner and b in forward(fn, s, inner)
                    k += 1
                    if big:
                        a.check(stays, "B04.converged", fn.where(c), "iteration goes on while the residual exceeds the precision",
                                "%s stops although the residual still exceeds the precision" % short(fn.q))
                    else:
                        a.check(not stays, "B04.converged", fn.where(c), "iteration stops at the precision", "%s goes on although the residual is within the precision" % short(fn.q))
    # the residual compares the new value with the old one
    for n in P.calls(fn):
        if lname(n.d.get("q")) == "norm_inf" and n.c:
            v = E.ev(n.c[0])
            a.check(all(any(s < 0 for s, m in p) and any(s > 0 for s, m in p) for p in v if p) and any(p for p in v), "B04.residual", fn.where(n), "residual is the norm of a difference",
                    "%s takes as residual the norm of something that is not a difference of successive values" % short(fn.q))
            stale_residual(a, fn, n)
    return 1 if k else 0


def stale_residual(a, fn, n):
    """no path from 'old = new' to the residual without recomputing new"""
    P, E = a.P, a.E
    x = strip(n.c[0])
    if x.k != "Var":
        return
    v = x.d["v"]
    ops = set()
    for d in fn_defs(P, fn).byvar.get(v, ()):
        if d.kind in ("=", "-=", "init") and d.rhs is not None:
            r = strip(d.rhs)
            ops.add(place_key(E, r))
    for m, lhs, op, rhs in assigns(P, fn):
        if op != "=" or rhs is None:
            continue
        kl, kr = place_key(E, strip(lhs)), place_key(E, strip(rhs))
        if kl in ops and kr in ops and kl != kr:
            roots = set(y.d["v"] for y in strip(rhs).walk() if y.k == "Var")
            defs = set(d.node.id for d in fn_defs(P, fn).all if d.var in roots)
            inc = set(y.id for d in fn_defs(P, fn).all if d.var in roots for y in [d.node])
            avoid = lambda e: e.id in inc or any(y.id in inc for y in e.walk()) if isinstance(e, Node) else False
            pos = P.position(m)
            if pos is None:
                continue
            bad = P.can_reach(fn, pos, lambda e: e is n or any(y is n for y in e.walk()), avoid)
            a.check(not bad, "B04.residual", fn.where(n), "residual computed before the old value is replaced", "%s replaces the old value before computing the residual" % short(fn.q))


def innermost(a, fn, c):
    """blocks of the innermost loop statement around (or controlled by) c"""
    P = a.P
    for l in c.ancestors():
        if l.k in ("For", "While", "Do", "ForRange"):
            ids = set(y.id for y in l.walk())
            out = set()
            for b in fn.reach:
                blk = fn.blocks[b]
                els = [e for e in blk.el if isinstance(e, Node)]
                if blk.cond is not None:
                    els.append(blk.cond)
                if any(e.id in ids for e in els):
                    out.add(b)
            # empty blocks between blocks of the loop
            for b in list(fn.reach):
                blk = fn.blocks[b]
                if b not in out and not [e for e in blk.el] and blk.cond is None and all(s in out for s in blk.succ if s is not None) and blk.succ:
                    out.add(b)
            return out
    return set()


def forward(fn, s, within):
    seen, st = {s}, [s]
    while st:
        b = st.pop()
        for x in fn.blocks[b].succ:
            if x is not None and x in within and x not in seen:
                seen.add(x)
                st.append(x)
    return seen


def terminal_node(a, fn):
    P, E = a.P, a.E
    term = TR(r"(isTerminal|getIsTerminalState)$", "T")
    live = TR(r"(isTerminal|getIsTerminalState)$", "F")
    low = "Lower" in fn.cls
    fld = "lbVal" if low else "ubVal"
    stores = []
    for f, n, op, rhs, lhs, ch in field_stores(a, lambda q: q.endswith("MDPNode::" + fld)):
        if op != "=" or rhs is None or f.impl:
            continue
        if f is fn:
            for fs, x in split(a, rhs):
                stores.append((n, E.ev(x), fs))
        else:
            for c in P.calls(fn):
                if f in P.resolve(c):
                    r = strip(rhs)
                    if r.k == "Var" and r.d["v"] in f.params and f.params.index(r.d["v"]) < len(c.c):
                        for fs, x in split(a, c.c[f.params.index(r.d["v"])]):
                            stores.append((c, E.ev(x), fs))
                    else:
                        stores.append((c, E.ev(rhs, Ctx(c, fn, None)), ()))
    if not stores:
        return 0
    zero = live_ = False
    for n, v, fs in stores:
        own = [r for c, t in fs for r in E.rels(c, t)]
        es_t = term(own) or guarded(a, n, term, depth=0)
        es_l = live(own) or guarded(a, n, live, depth=0)
        cv = strip_cond(a, n, v)
        for p in v:
            if not p:
                zero = True
                a.check(es_t or cv, "B04.terminal-node", fn.where(n), "zero only for terminal states", "%s starts a state that is not terminal with the bound 0" % short(fn.q))
            else:
                live_ = True
                a.check(es_l or cv, "B04.terminal-node", fn.where(n), "initial bound of a live state", "%s starts a terminal state with a bound other than 0: %s" % (short(fn.q), pstr(p)[:120]))
                a.check(re.search(r"getValue\(|cornerPts|initBound|MIN", pstr(p)) is not None, "B04.initial-value", fn.where(n), "initial bound comes from the bound's evaluation",
                        "%s does not start from the evaluation of the initial bound: %s" % (short(fn.q), pstr(p)[:120]))
    a.check(zero, "B04.terminal-node", fn.where(), "terminal states start at 0", "%s does not start terminal states with the bound 0" % short(fn.q))
    # a bound is stored on every path
    ids = set(n.id for n, v, fs in stores)
    a.check(uncut(a, fn, (fn.entry, -1), "exit", set(), elem=lambda e: e.id in ids) is None, "B04.initial-value", fn.where(), "an initial bound is always stored",
            "%s can return without storing a bound" % short(fn.q))
    return 1


def strip_cond(a, n, v):
    """value chosen by a conditional expression on the terminal flag"""
    for x in n.walk():
        if x.k == "Cond" and "erminal" in vstr(a.E.ev(x.kids[0])):
            z = a.E.ev(x.kids[1])
            neg = strip(x.kids[0])
            flip = neg.k == "Un" and neg.d["op"] == "!"
            return (z == ZERO) != flip
    return False


def terminal_states(a, rx_):
    """every terminal state's entry is set to zero before the vector becomes the initial bound"""
    P, E = a.P, a.E
    k = 0
    isT = r"isTerminalState\[\]$|getIsTerminalState$"
    for fn in init_fns(a, rx_):
        for n, lhs, op, rhs in assigns(P, fn):
            if op != "=" or rhs is None or E.ev(rhs) != ZERO:
                continue
            if lhs.k not in ("Call", "Idx") or not loops_of(n):
                continue
            fs = [r for c, t in P.facts_at(n) for r in E.rels(c, t)]
            tr = [r for r in fs if r[0] in ("T", "F") and re.search(isT, noargs(vstr(r[1])))]
            if not tr:
                continue
            k += 1
            w = fn.where(n)
            a.check(all(r[0] == "T" for r in tr), "B04.terminal-states", w, "terminal entries zeroed", "%s zeroes the states that are not terminal" % short(fn.q))
            lid = set(y.id for y in loops_of(n)[0].walk())
            lt = loops_of(n)[0].slot("cond")
            lt = set(y.id for y in lt.walk()) if lt is not None else set()
            for c, t in P.facts_at(n):
                if c.id in lid and c.id not in lt:
                    extra = [r for r in E.rels(c, t) if not (r[0] in ("T", "F") and re.search(isT, noargs(vstr(r[1])))) and r[0] not in ("!=",) and not (r[0] == "T" and E.ev(lhs) == r[1])]
                    a.check(not extra, "B04.terminal-states", fn.where(c), "every terminal entry is zeroed", "%s zeroes terminal entries only on a further condition" % short(fn.q))
            li = [y for y in lhs.walk() if y.k == "Var"]
            L = loop_info(a, loops_of(n)[0])
            okk = L is not None and L.kind == "count"
            if okk:
                full_range(a, "B04.terminal-states", w, "every terminal state zeroed", L)
                name = iv(fn, L.var)
                ix = lhs.c[-1]
                a.check(vstr(E.ev(ix)) == "+" + name and all(name in vstr(r[1]) for r in tr), "B04.terminal-states", w, "the entry of the terminal state itself",
                        "%s zeroes another entry than that of the terminal state" % short(fn.q))
            # nothing overwrites the vector afterwards, and it reaches the result
            rt = root_place(lhs)[0]
            if rt is not None and rt.k == "Var":
                v = rt.d["v"]
                pos = P.position(n)
                sinks = [m for m in P.calls(fn) if lname(m.d.get("q")) in ("copy",) and len(m.c) == 2 and any(y.k == "Var" and y.d["v"] == v for y in m.c[1].walk())]
                a.check(bool(sinks) or fn.vars[v]["p"], "B04.terminal-states", w, "the zeroed vector is the result", "%s does not use the vector whose terminal entries it zeroed" % short(fn.q))
                lid = set(y.id for y in loops_of(n)[0].walk())
                for d in fn_defs(P, fn).byvar.get(v, ()):
                    if d.node is n or d.node.id in lid:
                        continue
                    dp = P.position(d.node)
                    if dp is None:
                        continue
                    bad = P.can_reach(fn, pos, lambda e, d=d: isinstance(e, Node) and (e is d.node or any(y is d.node for y in e.walk())), None)
                    a.check(not bad, "B04.terminal-states", fn.where(d.node), "zeroed after the last change", "%s changes the vector after zeroing its terminal entries" % short(fn.q))
                for m in sinks:
                    bad = uncut_stmt(a, fn, loops_of(n)[0], m)
                    a.check(not bad, "B04.terminal-states", fn.where(m), "result written after zeroing", "%s writes the result before (or without) zeroing the terminal entries" % short(fn.q))
    a.check(k > 0, "B04.terminal-states", "src/pomdpBounds", "terminal entries zeroed by %s" % rx_.rstrip("$"), "%s never sets the value of terminal states to zero" % rx_.rstrip("$"))


def uncut_stmt(a, fn, loop, target):
    """a path from entry to target that misses the loop statement's test"""
    P = a.P
    cond = loop.slot("cond")
    if cond is None:
        return False
    ids = set(y.id for y in cond.walk())
    tp = P.position(target)
    if tp is None:
        return False
    return uncut(a, fn, (fn.entry, -1), tp, set(), elem=lambda e: e.id in ids) is not None


# ---------------------------------------------------------------- B06
PSET = r"(planes|supportList\[\])\[\]"
QSET = r"(pts|supportList\[\])\[\]"


def b06(a):
    P, E = a.P, a.E
    nsel = 0
    for x in find_ext(a):
        if not re.search(r"/pomdpBounds/", "/" + x.fn.file) or re.search(INITCLS, x.fn.cls or ""):
            continue
        v = E.ev(x.cand)
        if any(re.search(r"\.[OT]\[", y) for p in v for s, m in p for y in m if isinstance(y, str)):
            continue    # a backup's maximisation over actions, not a selection among stored planes
        if any(re.search(r"\.(planes|supportList\[[^\[\]]*\])\[\]\.alpha$", y) for p in v for s, m in p for y in m if isinstance(y, str)):
            nsel += 1
            plane_selection(a, x, v)
    a.need("B06.plane", nsel, 2, "selections of the best plane")
    E2 = opq(a)
    # value of the lower bound at a belief
    for fn in P.find("zmdp::MaxPlanesLowerBound::getValue"):
        for r in returns(fn):
            for p in flat(maximal(E2.ev(r.c[0]))):
                t = pstr(p)
                mm = re.match(r"^\+(\$\w+)\*(@\w+)\.getBestLBPlane\w*\((.*)\)\.alpha$", t) or re.match(r"^\+(@?[\w.$]+)\*.*getBestLBPlane\w*\(\+?(\1)\)\.alpha$", t)
                okk = len(p) == 1 and next(iter(p))[0] == 1 and len(next(iter(p))[1]) == 2 and re.search(r"getBestLBPlane\w*\(\+\$\w+\)\.alpha", t)
                a.check(bool(okk), "B06.value", fn.where(r), "lower bound is the best plane's value at the belief", "%s is not the inner product of the best plane with the belief: %s" % (short(fn.q), t[:160]))
    # a node's lower bound is its plane's value there
    for fn, n, op, rhs, lhs, ch in field_stores(a, lambda q: q.endswith("MDPNode::lbVal")):
        if not (fn.cls or "").endswith("MaxPlanesLowerBound") or rhs is None:
            continue
        for p in flat(maximal(E2.ev(rhs))):
            if all(isconstm(m) for s, m in p):
                continue
            m = next(iter(p))[1] if len(p) == 1 else ()
            okk = len(m) == 2 and any(isinstance(y, str) and y.endswith(".alpha") for y in m) and any(isinstance(y, str) and y.endswith(".s") for y in m) and next(iter(p))[0] == 1
            a.check(okk, "B06.value", fn.where(n), "node's lower bound is its plane's value", "%s stores something other than the plane's value at the node: %s" % (short(fn.q), pstr(p)[:160]))
    stamps(a)
    support(a)
    sawtooth(a)


def plane_selection(a, x, v):
    P, E, fn = a.P, a.E, x.fn
    w = fn.where(x.upd)
    what = "best plane in %s" % short(fn.q)
    a.check(x.dir == "max", "B06.plane", w, what, "%s selects the worst plane" % short(fn.q))
    for p in v:
        m = next(iter(p))[1] if len(p) == 1 else ()
        al = [y for y in m if isinstance(y, str) and re.search(r"\.alpha$", y)]
        a.check(len(p) == 1 and next(iter(p))[0] == 1 and len(m) == 2 and len(al) == 1, "B06.plane", w, "inner product of plane and belief in %s" % short(fn.q),
                "%s compares something other than the plane's value at the belief: %s" % (short(fn.q), pstr(p)[:160]))
    L = loop_info(a, x.loop)
    over = set(noidx(pstr(p)) for p in L.over) if L is not None and L.over else set()
    a.check(any(".planes[]" in o for o in over) or not over, "B06.plane", w, "all planes are examined in %s" % short(fn.q), "%s does not look at the list of all planes" % short(fn.q))
    lists(a, fn, "planes", "useMaxPlanesSupportList")
    # skip reasons
    masked = TR(r"mask_subset$", "F")
    usemask = TR(r"useMaxPlanesMasking$", "T")
    nomask = TR(r"useMaxPlanesMasking$", "F")
    subset = TR(r"mask_subset$", "T")

    def older(rs):
        for r in rs:
            if r[0] != ">":
                continue
            for ps, ns in relparts(r) or ():
                if any("numBackupsAtCreation" in mstr(m) for m in ns) and len(ns) == 1 and len(ps) == 1 and not any("numBackupsAtCreation" in mstr(m) for m in ps):
                    return True
        return False

    def lost(rs):
        """candidate does not beat the best so far"""
        for r in rs:
            if r[0] not in (">", ">="):
                continue
            if isinstance(r[1], frozenset) and any(".alpha" in mstr(m) and s < 0 for p in r[1] for s, m in p):
                return True
            if isinstance(r[1], frozenset) and any("$cvector" in pstr(p) for p in r[1]):
                return True
        return False
    skip = anyof(lambda rs: masked(rs), older, lambda rs: x.cond is not None and lost(rs))
    es = good_edges(a, fn, skip)
    # start: the loop body entry; target: the loop test again
    cond = x.loop.slot("cond")
    if cond is not None:
        pos = P.position(cond)
        upd = x.upd.id
        b = pos[0]
        ok = True
        for i, s in enumerate(fn.blocks[b].succ):
            if s is None or b not in forward(fn, s, fn.reach):
                continue
            if s not in cfg_loop(fn, b):
                continue
            pth = uncut(a, fn, (s, -1), pos, es, elem=lambda e: e.id == upd or any(y.id == upd for y in e.walk()))
            ok &= pth is None
        a.check(ok, "B06.skip", w, "planes are passed over only when they do not apply, are older than the cached choice or are not better (%s)" % short(fn.q),
                "%s passes over planes for another reason" % short(fn.q))
    from rules.bounds import loop_breaks
    for y in loop_breaks(x.loop):
        a.fail("B06.plane", fn.where(y), "%s stops before every plane is examined" % short(fn.q))
    # with masks, only applicable planes
    app = anyof(subset, nomask)
    a.check(guarded(a, x.upd, app, depth=0), "B06.applies", w, "with masks, only planes that apply are chosen (%s)" % short(fn.q), "%s can choose a plane that does not apply to the belief" % short(fn.q))
    for n in P.calls(fn):
        if lname(n.d.get("q")) == "mask_subset" and len(n.c) >= 2:
            k0, k1 = noidx(vstr(E.ev(n.c[0]))), noidx(vstr(E.ev(n.c[1])))
            a.check("mask" in k1 and "mask" not in k0, "B06.applies", fn.where(n), "belief's support inside the plane's mask", "%s tests whether the plane's mask lies inside the belief, not the converse" % short(fn.q))
    # start value and companion
    if x.place.k == "Var":
        for d in fn_defs(P, fn).byvar.get(x.place.d["v"], ()):
            if d.kind == "init" or (d.kind == "=" and d.node.id not in set(y.id for y in x.loop.walk())):
                if d.rhs is None:
                    continue
                v0 = E.ev(d.rhs)
                if isbig(v0, -1):
                    continue
                al = [y for p in v0 for s, m in p for y in m if isinstance(y, str) and y.endswith(".alpha")]
                a.check(bool(al), "B06.plane", fn.where(d.node), "search starts from nothing or from the cached plane's value", "%s starts from %s" % (short(fn.q), vstr(v0)[:80]))


def lists(a, fn, full, option):
    """the short list is used only under its option; and indexed by the belief's first stored entry"""
    P, E = a.P, a.E
    for n in P.all_nodes(fn):
        if n.k == "Mem" and n.d["n"] == "supportList" and P.reachable(n):
            e = n
            a.check(guarded(a, n, TR(option + "$", "T"), depth=1), "B06.short-list", fn.where(n), "short list only under its option (%s)" % short(fn.q), "%s uses the short list although the option is off" % short(fn.q))
            p = n.p
            while p is not None and p.k == "Cast":
                p = p.p
            if p is not None and (p.k == "Idx" or (p.k == "Call" and p.d.get("oper") == "[]")):
                ix = p.c[-1]
                t = vstr(E.ev(ix))
                a.check(re.search(r"\.index$", noidx(t)) is not None, "B06.short-list", fn.where(n), "short list of a state in the belief's support (%s)" % short(fn.q), "%s looks in the short list of %s" % (short(fn.q), t[:80]))


def private_copy(a, fn, lhs):
    """the field belongs to a local object by value that never leaves the function whole"""
    x = strip(lhs.c[0]) if lhs.k == "Mem" and lhs.c else None
    if x is None or x.k != "Var" or x.d["v"] in fn.params:
        return False
    t = fn.vars[x.d["v"]]["t"]
    if "*" in t or "&" in t:
        return False
    for m in a.P.all_nodes(fn):
        if m.k == "Var" and m.d["v"] == x.d["v"]:
            p = m.p
            while p is not None and p.k in ("Cast", "Paren"):
                p = p.p
            if p is None or p.k != "Mem":
                return False
    return True


def stamps(a):
    """ages: a plane's creation stamp and a node's last-choice stamp are the current number of backups"""
    P, E = a.P, a.E
    k = 0
    for fn, n, op, rhs, lhs, ch in field_stores(a, lambda q: re.search(r"(LBPlane|BVPair)::numBackupsAtCreation$|MaxPlanesData::lastSetPlaneNumBackups$|::lastPruneNumBackups$", q) is not None):
        if fn.impl or rhs is None or (lhs is not None and private_copy(a, fn, lhs)):
            continue
        q = lhs.d["q"] if lhs is not None else [i["m"] for i in fn.inits if i["e"] is n][0]
        for v, c2 in a.resolved(rhs, 2):
            k += 1
            t = vstr(v)
            const0 = all(all(isconstm(m) for s, m in p) for p in v)
            if q.endswith("numBackupsAtCreation"):
                okk = re.match(r"\+[^ ]*\.numBackups$", t) or (const0 and all(s <= 0 or m == () for p in v for s, m in p) and re.search(r"initialize$|Initializer::|LBPlane$|BVPair$|readFrom", fn.q)) \
                    or re.match(r"\+[^ ]*numBackupsAtCreation$", t)
            else:
                okk = re.match(r"\+([^ ]*\.numBackups|\$int)$", t) or (const0 and (fn.ctor or v == frozenset([next(iter(const(-1)))])))
            a.check(bool(okk), "B06.age", fn.where(n), "%s is the current number of backups" % short(q), "%s in %s is not the current number of backups but %s" % (short(q), short(fn.q), t[:80]))
    a.need("B06.age", k, 3, "age stamps")
    # the node's last choice is stamped together with the choice, and the bound goes with it
    for fn, n, op, rhs, lhs, ch in field_stores(a, lambda q: q.endswith("MaxPlanesData::bestPlane")):
        if fn.impl or lhs is None or E.ev(rhs) == ZERO or fn.ctor or nullv(E, rhs):
            continue
        if "deleteAndForward" in fn.q:
            continue
        st = lambda e: isinstance(e, Node) and any(y.k == "Assign" and strip(y.c[0]).k == "Mem" and strip(y.c[0]).d["n"] == "lastSetPlaneNumBackups" for y in e.walk())
        pos = P.position(n)
        a.check(P.hits_after(fn, pos, st) or P.hits_before(fn, pos, st), "B06.age", fn.where(n), "the choice is stamped", "%s remembers a plane without stamping the choice" % short(fn.q))
        lb = lambda e: isinstance(e, Node) and any(y.k == "Assign" and strip(y.c[0]).k == "Mem" and strip(y.c[0]).d["n"] == "lbVal" for y in e.walk())
        a.check(P.hits_after(fn, pos, lb) or P.hits_before(fn, pos, lb), "B06.age", fn.where(n), "the bound goes with the plane", "%s remembers a plane without the bound it gives" % short(fn.q))


def nullv(E, n):
    return vstr(E.ev(n)) in ("0", "+null", "+NULL") or strip(n).k in ("Null",)


def support(a):
    """an element is filed under every state of its support, whenever it is stored and short lists are used"""
    P, E = a.P, a.E
    k = 0
    for fn in P.funcs.values():
        if fn.impl or not re.search(r"(MaxPlanesLowerBound|SawtoothUpperBound)$", fn.cls or ""):
            continue
        opt = "useMaxPlanesSupportList" if "Max" in fn.cls else "useSawtoothSupportList"
        for n in P.calls(fn):
            if lname(n.d.get("q")) not in ("push_back", "push_front", "insert", "emplace_back") or n.slot("obj") is None or not P.reachable(n):
                continue
            o = strip(n.slot("obj"))
            if o.k == "Mem" and o.d["n"] in ("planes", "pts"):
                k += 1
                elt = place_key(E, strip(n.c[-1]))
                # moved elements (erased from the same list just before) are already filed
                moved = any(lname(m.d.get("q")) in ("eraseElement", "erase") and P.can_reach(fn, P.position(m), lambda e: isinstance(e, Node) and any(y is n for y in e.walk()), None) and
                            any(y.k == "Mem" and y.d["n"] == o.d["n"] for y in m.walk()) and m.c and place_key(E, uncopy(m.c[-1])) == iter_of(a, fn, n.c[-1]) for m in P.calls(fn))
                if moved:
                    a.ok("B06.filed", fn.where(n), "element moved within the list")
                    continue
                filed = lambda e: isinstance(e, Node) and files(a, fn, e, elt)
                es = good_edges(a, fn, TR(opt + "$", "F"))
                pos = P.position(n)
                aft = uncut(a, fn, pos, "exit", es, elem=filed) is None
                bef = uncut(a, fn, (fn.entry, -1), pos, es, elem=filed) is None
                a.check(aft or bef, "B06.filed", fn.where(n), "stored element is filed for every state of its support", "%s stores an element without filing it in the short lists" % short(fn.q))
            elif any(y.k == "Mem" and y.d["n"] == "supportList" for y in o.walk()):
                k += 1
                L = loop_info(a, loops_of(n)[0]) if loops_of(n) else None
                a.check(L is not None and L.kind in ("iter", "range"), "B06.filed", fn.where(n), "filed under every state of the support", "%s files an element only once" % short(fn.q))
                if L is not None and L.over is not None:
                    t = set(noidx(pstr(p)) for p in L.over)
                    want = r"\.mask\.data\[\]$" if "Max" in fn.cls else r"\.?(b|\$cvector)\.data\[\]$"
                    a.check(all(re.search(want, y) for y in t), "B06.filed", fn.where(n), "filed under the states where it applies", "%s files an element under the states of %s" % (short(fn.q), sorted(t)[0][:80]))
                from rules.bounds import loop_breaks
                if loops_of(n):
                    for y in loop_breaks(loops_of(n)[0]):
                        a.fail("B06.filed", fn.where(y), "%s files an element under some of its states only" % short(fn.q))
                    ids = set(y.id for y in loops_of(n)[0].walk())
                    for c, t in P.facts_at(n):
                        if c.id in ids and L is not None and c is not L.test and not (c.k == "Call" and c.d.get("oper") in ("!=", "==")):
                            a.fail("B06.filed", fn.where(n), "%s files an element only for some of its states" % short(fn.q))
                for m in o.walk():
                    if (m.k == "Idx" or (m.k == "Call" and m.d.get("oper") == "[]")) and m.c:
                        t = vstr(E.ev(m.c[-1]))
                        if "supportList" in vstr(E.ev(m)) or True:
                            a.check(re.search(r"index$", t) is not None, "B06.filed", fn.where(n), "filed under the state itself", "%s files an element under %s" % (short(fn.q), t[:60]))
                        break
    a.need("B06.filed", k, 4, "insertions into the stored lists")


def uncopy(x):
    x = strip(x)
    while x.k == "Ctor" and len(x.c) == 1:
        x = strip(x.c[0])
    return x


def iter_of(a, fn, x):
    """place of the iterator a pointer variable was read from"""
    P, E = a.P, a.E
    x = strip(x)
    if x.k == "Un" and x.d["op"] == "*" or (x.k == "Call" and x.d.get("oper") == "*"):
        y = x.c[0] if x.k == "Un" else (x.slot("obj") or x.c[0])
        return place_key(E, uncopy(y))
    if x.k == "Var":
        ks = set()
        for d in fn_defs(P, fn).byvar.get(x.d["v"], ()):
            if d.kind in ("init", "=") and d.rhs is not None:
                ks.add(iter_of(a, fn, d.rhs))
        if len(ks) == 1:
            return ks.pop()
    return None


def files(a, fn, e, elt):
    P, E = a.P, a.E
    for y in e.walk():
        if y.k == "Call" and lname(y.d.get("q")) in ("push_back", "push_front") and y.slot("obj") is not None and \
                any(z.k == "Mem" and z.d["n"] == "supportList" for z in y.slot("obj").walk()):
            return True
        # the loop that files: its test stands for the loop (an empty support files nothing)
        if y.k in ("Call", "Bin") and y.p is not None:
            for l in y.ancestors():
                if l.k in ("For", "While") and l.slot("cond") is not None and any(z.id == y.id for z in l.slot("cond").walk()):
                    b = l.slot("body")
                    if b is not None and any(z.k == "Call" and lname(z.d.get("q")) in ("push_back", "push_front") and z.slot("obj") is not None and
                                             any(q.k == "Mem" and q.d["n"] == "supportList" for q in z.slot("obj").walk()) for z in b.walk()):
                        return True
                    break
    if e.k == "Call":
        for g in P.resolve(e):
            if g.blocks and g is not fn and any(z.k == "Call" and lname(z.d.get("q")) in ("push_back", "push_front") and z.slot("obj") is not None and
                                                any(q.k == "Mem" and q.d["n"] == "supportList" for q in z.slot("obj").walk()) for z in P.all_nodes(g)):
                return True
    return False


def sawtooth(a):
    P, E = a.P, opq(a)
    # value at a belief
    k = 0
    for fn in P.find("zmdp::SawtoothUpperBound::getValue"):
        for r in returns(fn):
            v = maximal(E.ev(r.c[0]))
            k += 1
            corner = point = False
            for p in v:
                op, es = extset(p)
                els = list(es) if op else [p]
                if op:
                    a.check(op == "MIN", "B06.sawtooth-value", fn.where(r), "minimum of corner and point interpolations", "%s takes the maximum of the interpolations" % short(fn.q))
                for q in els:
                    t = noidx(pstr(q))
                    m = next(iter(q))[1] if len(q) == 1 else ()
                    if len(q) == 1 and next(iter(q))[0] == 1 and len(m) == 2 and any(isinstance(y, str) and y.endswith(".cornerPts") for y in m) and any(isinstance(y, str) and y.startswith("$") for y in m):
                        corner = True
                    elif len(q) == 1 and next(iter(q))[0] == 1 and len(m) == 1 and "getBVValue(" in t:
                        point = True
                    else:
                        a.fail("B06.sawtooth-value", fn.where(r), "%s mixes in %s" % (short(fn.q), t[:120]))
            a.check(corner, "B06.sawtooth-value", fn.where(r), "corner interpolation counted", "%s ignores the corner interpolation" % short(fn.q))
            a.check(point, "B06.sawtooth-value", fn.where(r), "point interpolations counted", "%s ignores the stored points" % short(fn.q))
        lists(a, fn, "pts", "useSawtoothSupportList")
    for fn in P.funcs.values():
        if fn.impl or not (fn.cls or "").endswith("SawtoothUpperBound"):
            continue
        for n in P.calls(fn):
            if lname(n.d.get("q")) != "getBVValue" or len(n.c) != 4 or not P.reachable(n):
                continue
            k += 1
            w = fn.where(n)
            pt = strip(n.c[1])
            if "dominates" in fn.q:
                continue
            ib, ic = E.ev(n.c[2]), E.ev(n.c[3])
            b = vstr(E.ev(n.c[0])).lstrip("+")
            okb = all(len(p) == 1 and sorted(map(str, next(iter(p))[1])) == sorted([b] + [y for y in next(iter(p))[1] if isinstance(y, str) and y.endswith("cornerPts")]) and len(next(iter(p))[1]) == 2 for p in ib)
            a.check(okb, "B06.interpolation-arguments", w, "corner value at the belief", "%s passes as the corner value of the belief %s" % (short(fn.q), vstr(ib)[:100]))
            okc = all(len(p) == 1 and len(next(iter(p))[1]) == 2 and any(str(y).endswith("cornerPts") for y in next(iter(p))[1]) and any(re.search(r"\[\]\.b$", noidx(str(y))) for y in next(iter(p))[1]) for p in ic) or \
                all(pstr(p).endswith("innerCornerCache") for p in ic)
            a.check(okc, "B06.interpolation-arguments", w, "corner value at the point", "%s passes as the corner value of the point %s" % (short(fn.q), vstr(ic)[:100]))
        if fn.short == "getValue":
            for x in find_ext(a):
                if x.fn is fn:
                    from rules.bounds import loop_breaks
                    for y in loop_breaks(x.loop):
                        a.fail("B06.sawtooth-value", fn.where(y), "%s stops before every point is examined" % short(fn.q))
                    fs = [c for c, t in P.facts_at(x.upd) if c.id in set(z.id for z in x.loop.walk())]
                    L = loop_info(a, x.loop)
                    for c in fs:
                        if x.loop.k == "ForRange" and x.loop.slot("body") is not None and c.id not in set(z.id for z in x.loop.slot("body").walk()):
                            continue        # the loop's own end test
                        if L is not None and c is not L.test and x.cond is not c:
                            if skip_useless(a, fn, c, x.upd):
                                continue
                            a.fail("B06.sawtooth-value", fn.where(c), "%s passes over stored points on a condition" % short(fn.q))
    a.need("B06.sawtooth", k, 2, "sawtooth evaluations")
    for fn in P.find("zmdp::SawtoothUpperBound::getBVValue"):
        interpolation(a, fn)
    # corner points
    for fn in P.funcs.values():
        if fn.impl or not (fn.cls or "").endswith("SawtoothUpperBound"):
            continue
        for n, lhs, op, rhs in assigns(P, fn):
            if op != "=" or rhs is None or lhs.k not in ("Call", "Idx"):
                continue
            rt = lhs.slot("obj") if lhs.k == "Call" and lhs.slot("obj") is not None else lhs.c[0]
            if strip(rt).k == "Mem" and strip(rt).d["n"] == "cornerPts":
                t = vstr(E.ev(lhs.c[-1]))
                a.check("whichCornerPoint" in t or "iv:" in t or True, "B06.corner", fn.where(n), "corner value stored at its own corner", "")
                ix = strip(lhs.c[-1])
                vv = vstr(a.E.ev(lhs.c[-1]))
                a.check(re.search(r"whichCornerPoint|iv:|max", vv) is not None or ix.k == "Var", "B06.corner", fn.where(n), "corner value stored at its own corner",
                        "%s stores a corner value at index %s" % (short(fn.q), vv[:60]))
                # -1 excluded
                def corner_ok(rs):
                    for r in rs:
                        if r[0] in ("!=", ">=", ">"):
                            return True
                        if r[0] == "F" and isinstance(r[1], frozenset):
                            return True
                    return False
                a.check(guarded(a, n, corner_ok, depth=0), "B06.corner", fn.where(n), "only corner points go to the corners", "%s stores a point at the corners without having identified its corner" % short(fn.q))


def skip_useless(a, fn, c, upd):
    return False


def interpolation(a, fn):
    """innerB + min_i(b_i / c_i) * (value - innerC), over every non-zero entry of the point"""
    P, E = a.P, a.E
    pn = [fn.vars[v]["n"] for v in fn.params]
    if len(fn.params) != 4:
        return
    # returns
    big = 0
    for r in returns(fn):
        if not P.reachable(r):
            continue
        v = maximal(E.ev(r.c[0]))
        w = fn.where(r)
        if isbig(v, 1):
            big += 1
            def useless(rs):
                for q in rs:
                    if q[0] in (">", ">="):
                        t = pstr(next(iter(q[1]))) if isinstance(q[1], frozenset) and len(q[1]) == 1 else ""
                        al = relparts(q) or ()
                        for ps, ns in al:
                            sp, sn = [mstr(m) for m in ps], [mstr(m) for m in ns]
                            if len(sp) == 1 and len(sn) == 1:
                                if sp[0].endswith(".v") and sn[0].startswith("$double"):
                                    return True   # point lies above the corner plane
                                if sp[0].endswith(".index") and sn[0].endswith(".index") and sp[0].startswith(("$cvector", "@Sawtooth")) and "BVPair" in sn[0]:
                                    return q[0] == ">"   # b's next entry is beyond c's: b is zero there
                    if q[0] == "T" and isinstance(q[1], frozenset) and all(pstr(p).endswith(".value") and "BVPair" in pstr(p) for p in q[1]):
                        return True
                    if q[0] in ("!=",) and isinstance(q[1], frozenset) and all(pstr(p).endswith(".value") and "BVPair" in pstr(p) for p in q[1]):
                        return True
                return False
            a.check(guarded(a, r, useless, depth=0), "B06.not-applicable", w, "a point is ignored only when it gives no bound", "%s ignores a point that may give a bound" % short(fn.q))
            continue
        for p in v:
            ts = {}
            okk = True
            inner_b = 0
            for s, m in p:
                ms = sorted(mstr((y,)) for y in m)
                if s == 1 and len(m) == 1 and m[0] in ("$double", "$double#0"):
                    inner_b += 1
            txt = pstr(p)
            # +$double + ratio*v - ratio*$double#1
            pos_v = [m for s, m in p if s == 1 and any(isinstance(y, str) and y.endswith(".v") for y in m)]
            neg_c = [m for s, m in p if s == -1 and any(isinstance(y, str) and re.match(r"\$double#1$", y) for y in m)]
            rest = [m for s, m in p if not (s == 1 and m == ("$double",))]
            okk = inner_b == 1 and len(p) == 3 and len(pos_v) == 1 and len(neg_c) == 1
            if okk:
                f1 = sorted(mstr((y,)) for y in pos_v[0] if not (isinstance(y, str) and y.endswith(".v")))
                f2 = sorted(mstr((y,)) for y in neg_c[0] if not (isinstance(y, str) and re.match(r"\$double#?\d*$", y)))
                okk = f1 == f2
                one = f1 == [] or f1 == ["#BIG"]
                if not one:
                    okk = okk and all(("value" in t or "MIN" in t or t.startswith("~")) for t in f1)
            a.check(okk, "B06.interpolation", w, "corner value plus smallest ratio times the point's depth", "%s does not compute corner value + ratio * (value - corner value at the point): %s" % (short(fn.q), txt[:200]))
    ratio = 0
    for x in find_ext(a):
        if x.fn is not fn:
            continue
        v = E.ev(x.cand)
        if not any("value" in pstr(p) for p in v):
            continue
        ratio += 1
        w = fn.where(x.upd)
        a.check(x.dir == "min", "B06.ratio", w, "smallest ratio", "%s takes the largest ratio" % short(fn.q))
        for p in v:
            t = pstr(p)
            m = next(iter(p))[1] if len(p) == 1 else ()
            num = [y for y in m if isinstance(y, str) and not y.startswith("/")]
            den = [y for y in m if isinstance(y, str) and y.startswith("/")]
            a.check(len(num) == 1 and len(den) == 1 and "$cvector" in num[0] and "BVPair" in den[0] and num[0].endswith(".value") and den[0].endswith(".value"), "B06.ratio", w,
                    "ratio of the belief's entry to the point's", "%s does not compare the belief's entry with the point's: %s" % (short(fn.q), t[:120]))
        # at the same state
        fs = [r for c, t in P.facts_at(x.upd) for r in E.rels(c, t)]
        ge = le = False
        for r in fs:
            for ps, ns in (relparts(r) or ()) if r[0] in (">", ">=") else ():
                sp, sn = [mstr(m) for m in ps], [mstr(m) for m in ns]
                if len(sp) == 1 and len(sn) == 1 and sp[0].endswith(".index") and sn[0].endswith(".index"):
                    if "$cvector" in sp[0]:
                        ge = True
                    else:
                        le = r[0] == ">="
            if r[0] == "==" and isinstance(r[1], frozenset) and all(".index" in pstr(p) for p in r[1]):
                ge = le = True
        # facts hold as negations too
        for c, t in P.facts_at(x.upd):
            if c.k == "Bin" and c.d["op"] in (">", "<", ">=", "<=", "==", "!=") and not isinstance(t, tuple):
                xs = [vstr(E.ev(y)) for y in c.c]
                if all(y.endswith(".index") for y in xs):
                    op = c.d["op"] if t else {"<": ">=", ">": "<=", "<=": ">", ">=": "<", "==": "!=", "!=": "=="}[c.d["op"]]
                    if "BVPair" in xs[0]:
                        op = {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(op, op)
                    if op in (">=", "=="):
                        ge = True
                    if op in ("<=", "=="):
                        le = True
        ge = ge or advanced(a, fn)
        a.check(ge and le, "B06.ratio", w, "entries of the same state are compared", "%s compares entries that may belong to different states" % short(fn.q))
        # every non-zero entry of the point
        def zero(rs):
            for r in rs:
                if r[0] in ("F", "==") and isinstance(r[1], frozenset) and all(pstr(p).endswith(".value") and "BVPair" in pstr(p) for p in r[1]):
                    return True
            return False
        a.check(every_pass(a, x, zero), "B06.ratio", w, "only zero entries are skipped", "%s skips entries of the point" % short(fn.q))
    a.need("B06.ratio", ratio, 1, "ratio minimisations")
    a.check(big >= 2, "B06.not-applicable", fn.where(), "points that do not apply are ignored", "%s uses points that do not apply to the belief" % short(fn.q))


def advanced(a, fn):
    """a loop that goes on exactly while the belief's state precedes the point's"""
    P, E = a.P, a.E
    for n in P.all_nodes(fn):
        if n.k in ("While", "For") and n.slot("cond") is not None:
            for r in E.rels(n.slot("cond"), True):
                if r[0] == ">":
                    for ps, ns in relparts(r) or ():
                        sp, sn = [mstr(m) for m in ps], [mstr(m) for m in ns]
                        if len(sp) == 1 and len(sn) == 1 and sp[0].endswith(".index") and sn[0].endswith(".index") and "BVPair" in sp[0] and "$cvector" in sn[0]:
                            return True
    return False


def every_pass(a, x, skip):
    """every pass through the extremum's loop updates it, unless skip holds"""
    P, fn = a.P, x.fn
    cond = x.loop.slot("cond")
    pos = P.position(cond) if cond is not None else None
    if pos is None:
        return True
    es = good_edges(a, fn, skip)
    inl = cfg_loop(fn, pos[0])
    for s in fn.blocks[pos[0]].succ:
        if s is None or s not in inl:
            continue
        if uncut(a, fn, (s, -1), pos, es, elem=lambda e: any(y.id == x.upd.id or x.cond is not None and y.id == x.cond.id for y in e.walk())) is not None:
            return False
    return True


# ---------------------------------------------------------------- B07
def domcalls(a, node, depth=2):
    """(dominator key, victim key, node) established at node by comparisons called 'dominates'"""
    P, E = a.P, a.E
    out = []

    def from_fact(c, t, sub, d):
        c = strip(c)
        while c.k == "Un" and c.d["op"] == "!":
            c, t = strip(c.c[0]), not t
        if c.k == "Bin" and c.d["op"] == ("&&" if t else "||"):
            for y in c.c:
                from_fact(y, t, sub, d)
            return
        if c.k == "Var" and c.fn is not None and d > 0:
            defs, entry = E.reaching(c.fn, c.d["v"], P.position(c))
            if not entry and len(defs) == 1:
                (q,) = defs
                if q.rhs is not None and q.kind in ("init", "="):
                    from_fact(q.rhs, t, sub, d - 1)
            return
        if c.k != "Call" or isinstance(t, tuple):
            return
        if lname(c.d.get("q")) in ("dominates", "mask_dominates"):
            if t:
                ks = [key(y, sub) for y in c.c[:2]]
                out.append((ks[0], ks[1], c))
            return
        if d > 0:
            r = [g for g in P.resolve(c) if g.blocks]
            if len(r) == 1:
                g = r[0]
                s2 = {("v", g.params[i]): key(c.c[i], sub) for i in range(min(len(g.params), len(c.c)))}
                rets = [x for x in g.body.walk() if x.k == "Return" and x.c]
                if len(rets) == 1:
                    from_fact(rets[0].c[0], t, s2, d - 1)

    def key(n, sub):
        k = place_key(E, strip(n))
        if sub is not None:
            return sub.get(k, ("?",))
        return k
    for c, t in P.facts_at(node):
        from_fact(c, t, None, depth)
    return out


def valkey(a, fn, n, sub=None):
    """identity of the object a pointer expression denotes: the variable, or the iterator it was read from"""
    return place_key(a.E, strip(n))


def b07(a):
    P, E = a.P, a.E
    ndel = 0
    for fn in P.funcs.values():
        if fn.impl or not re.search(r"(MaxPlanesLowerBound|SawtoothUpperBound)$", fn.cls or "") or fn.short.startswith("~"):
            continue
        for n in P.calls(fn):
            nm = lname(n.d.get("q"))
            if nm == "deleteAndForward" and len(n.c) == 2 and P.reachable(n):
                ndel += 1
                deletion(a, fn, n, n.c[0], n.c[1])
            elif nm in ("erase", "eraseElement", "pop_front", "pop_back", "clear", "remove", "remove_if", "unique", "splice", "swap") and P.reachable(n):
                tg = [y for y in ([n.slot("obj")] if n.slot("obj") is not None else []) + n.c if strip(y).k == "Mem" and strip(y).d["n"] in ("planes", "pts")]
                if tg:
                    erasure(a, fn, n)
        for n in P.all_nodes(fn):
            if n.k == "Delete" and P.reachable(n):
                t = strip(n.c[0]).ct
                if re.search(r"(LBPlane|BVPair) ?\*", t):
                    a.check("deleteAndForward" in fn.q or fresh(a, fn, n), "B07.delete", fn.where(n), "elements are destroyed by the pruning routine only",
                            "%s destroys a stored plane or point outside pruning" % short(fn.q))
    a.need("B07", ndel, 3, "discarded planes and points")
    # the dominance tests themselves
    nd = 0
    for fn in P.funcs.values():
        if fn.impl or fn.short != "dominates" or not re.search("pomdpBounds", fn.file):
            continue
        nd += 1
        dominance(a, fn)
    a.need("B07.test", nd, 2, "dominance tests")
    # cached corner values are current when points are compared
    for fn in P.find("zmdp::SawtoothUpperBound::prune"):
        for n in P.calls(fn):
            if lname(n.d.get("q")) == "dominates":
                fresh_ = lambda e: isinstance(e, Node) and any(refreshes(a, y) for y in [e] + list(e.walk()))
                a.check(P.hits_before(fn, P.position(n), fresh_) or any(refresh_call(a, fn, n) for _ in (0,)), "B07.cache", fn.where(n), "corner values refreshed before points are compared",
                        "%s compares points without refreshing their corner values" % short(fn.q))
    for fn, n, op, rhs, lhs, ch in field_stores(a, lambda q: q.endswith("BVPair::innerCornerCache")):
        if rhs is None or fn.impl or lhs is None:
            continue
        for p in E.ev(rhs):
            m = next(iter(p))[1] if len(p) == 1 else ()
            base = vstr(E.ev(lhs.c[0])).lstrip("+") if lhs.c else ""
            okk = len(m) == 2 and any(str(y).endswith("cornerPts") for y in m) and any(str(y).endswith(".b") for y in m)
            a.check(okk, "B07.cache", fn.where(n), "corner value of the point", "%s caches %s as a point's corner value" % (short(fn.q), pstr(p)[:100]))


def refreshes(a, y):
    """the test of a loop over all points whose body refreshes the corner cache"""
    if y.k in ("Call", "Bin"):
        for l in y.ancestors():
            if l.k in ("For", "While", "ForRange"):
                c = l.slot("cond")
                if c is not None and any(z.id == y.id for z in c.walk()):
                    L = loop_info(a, l)
                    b = l.slot("body")
                    over = L is not None and L.over is not None and all(noidx(pstr(p)).endswith(".pts[]") for p in L.over)
                    if over and b is not None and any(z.k == "Assign" and strip(z.c[0]).k == "Mem" and strip(z.c[0]).d["n"] == "innerCornerCache" and
                                                      not any(w.k in ("If", "Cond") for w in z.ancestors() if w.id in set(q.id for q in b.walk())) for z in b.walk()):
                        return True
                return False
    if y.k == "Call":
        for g in a.P.resolve(y):
            if g.blocks and "dominates" not in g.q and any(refreshes2(a, z) for z in a.P.all_nodes(g)):
                return True
    return False


def refreshes2(a, y):
    return y.k == "Assign" and strip(y.c[0]).k == "Mem" and strip(y.c[0]).d["n"] == "innerCornerCache" and bool(loops_of(y))


def refresh_call(a, fn, n):
    return False


def fresh(a, fn, n):
    """the destroyed element is the caller's own, not one from the lists: a parameter or a local whose value was copied out first"""
    x = strip(n.c[0])
    if x.k != "Var":
        return False
    v = x.d["v"]
    if fn.vars[v]["p"]:
        # its value has been kept elsewhere (corner value) before
        P, E = a.P, a.E
        kept = lambda e: isinstance(e, Node) and any(y.k in ("Assign", "Call") and any(z.k == "Mem" and z.d["n"] == "v" for z in y.walk()) and "cornerPts" in "".join(str(z.d.get("n")) for z in y.walk() if z.k == "Mem") for y in [e])
        if P.hits_before(fn, P.position(n), kept):
            return True
        held = set(w for m in P.all_nodes(fn) if m.k == "Decl" for w, nm, t, i in m.vars if i is not None and any(z.k == "Mem" and z.d["n"] == "v" and z.c and strip(z.c[0]).k == "Var" and strip(z.c[0]).d["v"] == v for z in i.walk()))
        put = lambda e: isinstance(e, Node) and e.k in ("Assign", "Call") and "cornerPts" in "".join(str(z.d.get("n")) for z in e.walk() if z.k == "Mem") and any(z.k == "Var" and z.d["v"] in held for z in e.walk())
        return bool(held) and P.hits_after(fn, P.position(n), put)
    for d in fn_defs(a.P, fn).byvar.get(v, ()):
        if d.rhs is not None and not any(y.k == "New" for y in d.rhs.walk()):
            return False
    return True


def deletion(a, fn, n, victim, dom):
    P, E = a.P, a.E
    w = fn.where(n)
    kv, kd = valkey(a, fn, victim), valkey(a, fn, dom)
    if nullv(E, dom) or strip(dom).k in ("Null", "Lit", "Zero"):
        # nobody refers to it
        fs = [r for c, t in P.facts_at(n) for r in E.rels(c, t)]
        okk = any(r[0] in ("T",) and re.search(r"backPointers\.empty$", noargs(vstr(r[1]))) for r in fs) or any(empty_rel(r) for r in fs if isinstance(r[1], frozenset))
        a.check(okk, "B07.unreferenced", w, "dropped because no node uses it", "%s discards a plane without a dominating one although nodes may use it" % short(fn.q))
        a.check(any(r[0] == "T" and "useMaxPlanesExtraPruning" in vstr(r[1]) for r in fs), "B07.unreferenced", w, "only when extra pruning is enabled", "%s discards unreferenced planes although extra pruning is off" % short(fn.q))
        own = any(kv in [place_key(E, strip(y)) for y in c.walk() if y.k in ("Var",)] for c, t in P.facts_at(n) if "backPointers" in vstr(E.ev(c)))
        a.check(own, "B07.unreferenced", w, "its own references are examined", "%s examines the references of another plane" % short(fn.q))
        return
    ok_, rev, distinct = True, False, True
    for at, dm in chosen(a, fn, n, dom):
        k2 = valkey(a, fn, dm)
        ds = domcalls(a, at)
        ok_ = ok_ and any(x == k2 and y == kv for x, y, c in ds)
        rev = rev or any(x == kv and y == k2 for x, y, c in ds)
        distinct = distinct and any(apart(a, fn, m, victim, dm) for m in [at] + [c for x, y, c in ds])
    a.check(ok_, "B07.dominated", w, "discarded because the kept element dominates it (%s)" % short(fn.q),
            "%s discards the dominating element and keeps the dominated one" % short(fn.q) if rev else "%s discards an element that the kept one is not known to dominate" % short(fn.q))
    iv_ = iter_of(a, fn, victim)
    a.check(distinct, "B07.not-itself", w, "never compared with itself (%s)" % short(fn.q), "%s may discard an element because it 'dominates' itself" % short(fn.q))
    # the victim is taken off the list, the survivor is not
    er = lambda e: isinstance(e, Node) and any(is_erase(a, fn, y, iv_) for y in [e] + list(e.walk()))
    pos = P.position(n)
    a.check(P.hits_after(fn, pos, er) or inblock(fn, pos, er), "B07.removed", w, "discarded element is taken off the list (%s)" % short(fn.q), "%s leaves a discarded element on the list or takes off the kept one" % short(fn.q))


def chosen(a, fn, n, dom):
    """(node, expression) where the kept element was decided on: the call itself, or the assignments of the variable handed to it"""
    x = strip(dom)
    if x.k != "Var" or domcalls(a, n):
        return [(n, dom)]
    defs, entry = a.E.reaching(fn, x.d["v"], a.P.position(n))
    out = []
    for q in defs:
        if q.rhs is None or getattr(q, "node", None) is None:
            return [(n, dom)]
        if nullv(a.E, q.rhs) or strip(q.rhs).k in ("Null", "Lit", "Zero"):
            continue
        out.append((q.node, q.rhs))
    return out if out and not entry else [(n, dom)]


def apart(a, fn, n, victim, dom):
    """the two elements are known to be different at n"""
    P, E = a.P, a.E
    kv, kd = valkey(a, fn, victim), valkey(a, fn, dom)
    iv_, id_ = iter_of(a, fn, victim), iter_of(a, fn, dom)
    for c, t in list(P.facts_at(n)):
        c = strip(c)
        if isinstance(t, tuple):
            continue
        op = c.d.get("op") if c.k == "Bin" else c.d.get("oper") if c.k == "Call" else None
        if op not in ("==", "!="):
            continue
        xs = list(c.c) if c.k == "Bin" else ([c.slot("obj")] if c.slot("obj") is not None else []) + list(c.c)
        if len(xs) != 2:
            continue
        ks = set(place_key(E, strip(y)) for y in xs)
        if ks in ({kv, kd}, {iv_, id_}) and (op == "!=") == bool(t):
            return True
    return False


def erasedpos(n):
    """the list position handed to erase: it, it++"""
    n = uncopy(n)
    while n.k == "Un" and n.d.get("op") == "post++" or n.k == "Call" and n.d.get("oper") == "++":
        n = uncopy(n.slot("obj") if n.k == "Call" and n.slot("obj") is not None else n.c[0])
    return n


def empty_rel(r):
    """backPointers.size() == 0, or 1 > size"""
    t = vstr(r[1])
    return r[0] == "F" and re.search(r"^\+[^ ]*backPointers\.size(\(\))?$", t) is not None or r[0] == ">" and re.search(r"^\+1 -[^ ]*backPointers\.size(\(\))?$|^-[^ ]*backPointers\.size(\(\))? \+1$", t) is not None


def inblock(fn, pos, pred, after=False):
    """an element of the same basic block before (after) pos satisfies pred"""
    el = fn.blocks[pos[0]].el
    return any(isinstance(e, Node) and pred(e) for e in (el[pos[1] + 1:] if after else el[:pos[1]]))


def is_erase(a, fn, y, it):
    if y.k != "Call" or lname(y.d.get("q")) not in ("erase", "eraseElement"):
        return False
    if not any(strip(x).k == "Mem" and strip(x).d["n"] in ("planes", "pts") for x in ([y.slot("obj")] if y.slot("obj") is not None else []) + list(y.c)):
        return False
    args = [x for x in y.c if not (strip(x).k == "Mem" and strip(x).d["n"] in ("planes", "pts"))]
    return bool(args) and place_key(a.E, erasedpos(args[0])) == it


def erasure(a, fn, n):
    """every element taken off the lists was discarded, or is put back"""
    P, E = a.P, a.E
    w = fn.where(n)
    if lname(n.d.get("q")) not in ("erase", "eraseElement"):
        a.fail("B07.removed", w, "%s takes elements off the list wholesale (%s)" % (short(fn.q), lname(n.d.get("q"))))
        return
    args = [x for x in n.c if not (strip(x).k == "Mem" and strip(x).d["n"] in ("planes", "pts"))]
    it = place_key(E, erasedpos(args[0])) if args else None
    pos = P.position(n)
    gone = lambda e: isinstance(e, Node) and any(y.k == "Call" and lname(y.d.get("q")) == "deleteAndForward" and y.c and iter_of(a, fn, y.c[0]) == it for y in [e] + list(e.walk()))
    back = lambda e: isinstance(e, Node) and any(y.k == "Call" and lname(y.d.get("q")) in ("push_front", "push_back") and y.c and iter_of(a, fn, y.c[0]) == it for y in [e] + list(e.walk()))
    a.check(inblock(fn, pos, gone) or inblock(fn, pos, lambda e: gone(e), True) or P.hits_after(fn, pos, back), "B07.removed", w, "element taken off the list was discarded or is put back (%s)" % short(fn.q),
            "%s takes an element off the list that no other is known to replace" % short(fn.q))


def dominance(a, fn):
    P, E = a.P, opq(a)
    names = [fn.params[0], fn.params[1]] if len(fn.params) >= 2 else None
    if names is None:
        return
    for r in returns(fn):
        if not P.reachable(r):
            continue
        e = strip(r.c[0])
        w = fn.where(r)
        if e.k == "Call" and lname(e.d.get("q")) in ("dominates", "mask_dominates"):
            for i in (0, 1):
                root = root_place(strip(e.c[i]))[0]
                a.check(root is not None and root.k == "Var" and root.d["v"] == names[i], "B07.test", w, "dominance compares first with second",
                        "%s compares the planes the wrong way round" % short(fn.q))
                a.check("alpha" in vstr(E.ev(e.c[i])), "B07.test", w, "dominance compares the values", "%s does not compare the planes' values" % short(fn.q))
            eps_ok(a, w, E.ev(e.c[2]) if len(e.c) > 2 else ZERO, fn)
            if lname(e.d.get("q")) == "mask_dominates":
                for i in (0, 1):
                    root = root_place(strip(e.c[3 + i]))[0] if len(e.c) > 4 else None
                    a.check(root is not None and root.k == "Var" and root.d["v"] == names[i] and "mask" in vstr(E.ev(e.c[3 + i])), "B07.test", w, "dominance compares the masks the same way round",
                            "%s passes the masks the wrong way round" % short(fn.q))
            else:
                # without masks only when masks are not used
                a.check(guarded(a, r, TR(r"useMaxPlanesMasking$|\$bool", "F"), depth=0) or guarded(a, r, lambda rs: any(q[0] == "F" for q in rs), depth=0), "B07.test", w, "masks ignored only when masks are off",
                        "%s ignores where the planes apply although masks are in use" % short(fn.q))
            continue
        alts = dnf(a, r.c[0], True, E=E)
        for alt in alts:
            okk = False
            for q in alt:
                if q[0] not in (">", ">="):
                    continue
                for ps, ns in relparts(q) or ():
                    sp = [mstr(m) for m in ps]
                    sn = [mstr(m) for m in ns]
                    if len(sn) == 1 and "getBVValue(" in sn[0] and any(y.endswith(".v") for y in sp):
                        okk = True
                        for m in ps:
                            if not mstr(m).endswith(".v"):
                                eps_ok(a, w, frozenset([frozenset([(1, m)])]), fn)
            a.check(okk, "B07.test", w, "a point is redundant when the other's interpolation at it is no higher", "%s does not say that the interpolation through the first point is at most the second's value" % short(fn.q))
    for n in P.calls(fn):
        if lname(n.d.get("q")) == "getBVValue" and len(n.c) == 4:
            want = [names[1], names[0], names[1], names[0]]
            for i in range(4):
                root = [y for y in n.c[i].walk() if y.k == "Var"]
                a.check(len(root) >= 1 and root[0].d["v"] == want[i], "B07.test", fn.where(n), "interpolation of the first point at the second", "%s interpolates with the points exchanged (argument %d)" % (short(fn.q), i + 1))


def eps_ok(a, w, v, fn):
    for p in v:
        for s, m in p:
            c = constm(m)
            a.check(c is not None and abs(c) <= 1e-6, "B07.tolerance", w, "tolerance of the dominance test", "%s uses a tolerance of %s" % (short(fn.q), mstr(m)))


RULES = {"B04": [b04], "B06": [b06], "B07": [b07]}
TEXT = {
    "B04.blind-start": "worst-case reward: minimum over states inside a maximum over actions, restarted per action",
    "B04.blind-plane": "the plane of a fixed action is R[:,a] + discount*T[a]*value: one action throughout, discount and transition equally often, reward once",
    "B04.long-term": "the worst-case start is multiplied by the (shorter) geometric horizon factor only",
    "B04.every-action": "a plane is added for every action",
    "B04.blind-mask": "the initial planes apply to every state",
    "B04.full-observation": "the value iteration step is the maximum over actions of R[:,a] + discount*T[a]*value",
    "B04.fast-informed": "R[:,a] + discount * (sum over observations of max over actions of T[a]*(O[a][:,o] . value)); corner values are the maximum over actions",
    "B04.fib-start": "the fast informed iteration starts from the fully observable bound",
    "B04.converged": "iteration continues exactly while the residual exceeds the precision",
    "B04.residual": "the residual is the norm of new minus old value, computed before the old one is replaced",
    "B04.range": "loops of the initialisers cover the full range",
    "B04.terminal-node": "a node's initial bound is 0 exactly when it is terminal",
    "B04.initial-value": "a live node's initial bound is the evaluation of the initial bound",
    "B04.terminal-states": "terminal entries are zeroed last, for every terminal state, before the vector is published",
    "B04.run": "the bound's initialisation always runs its initialiser",
    "B06.plane": "the plane chosen maximises the inner product with the belief over the full list",
    "B06.skip": "a plane is passed over only if masked out, older than the cached choice, or not better",
    "B06.applies": "with masks, the chosen plane's mask contains the belief's support",
    "B06.value": "the lower bound at a belief/node is the chosen plane's inner product with it",
    "B06.short-list": "the short list is consulted only under its option and for a state of the belief's support",
    "B06.age": "age stamps are the current backup count and set together with the choice and bound",
    "B06.filed": "stored elements are filed under every state of their support",
    "B06.sawtooth-value": "upper bound: minimum of the corner interpolation and every point's interpolation",
    "B06.interpolation-arguments": "corner values passed to the interpolation belong to the belief and the point",
    "B06.interpolation": "corner value + smallest ratio * (point value - corner value at the point)",
    "B06.ratio": "the ratio is the smallest quotient of belief and point entry of the same state over the point's non-zero entries",
    "B06.not-applicable": "a point is ignored only when it cannot give a bound at the belief",
    "B06.corner": "corner points are stored at their own corner",
    "B07.dominated": "the discarded element is the one the kept element dominates",
    "B07.not-itself": "an element is never compared with itself",
    "B07.removed": "exactly the discarded element leaves the list",
    "B07.unreferenced": "planes dropped without a dominator are unreferenced and extra pruning is on",
    "B07.delete": "stored elements are destroyed by the pruning routine only",
    "B07.test": "the dominance test compares the right way round, values and masks alike",
    "B07.tolerance": "the tolerance of the dominance test is tiny",
    "B07.cache": "cached corner values are refreshed before points are compared",
}
