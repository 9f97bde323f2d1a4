"""G01: destroyed planes and points are mentioned nowhere; nothing uses them, or an erased list position, afterwards"""
from rules.common import *
from flow import last
from core import is_ref_type

RULES = {}
TEXT = {}


def assigned_place(m):
    """the place a node gives a whole new value to: (place node, value node) pairs"""
    if m.k == "Assign" and m.d["op"] == "=":
        return [(strip(m.c[0]), m.c[1])]
    if m.k == "Call" and m.d.get("oper") == "=" and m.slot("obj") is not None:
        v = [c for c in m.c if c is not m.slot("obj")]
        return [(strip(m.slot("obj")), v[0] if v else None)]
    return []


def key(a, n):
    n = strip(n)
    while n.k == "Ctor" and len(n.c) == 1:
        n = strip(n.c[0])
    if n.k in ("Var", "Mem"):
        return place_key(a.E, n)
    return None


def frees(a):
    """usr -> {index of a parameter: 'object' | 'position'} that the function may destroy / erase"""
    if hasattr(a, "_frees"):
        return a._frees
    P = a.P
    a._frees = out = {}
    todo = list(P.funcs.values())
    again = True
    while again:
        again = False
        for fn in todo:
            for n, e, how in events(a, fn):
                x = strip(e)
                while x.k == "Ctor" and len(x.c) == 1:
                    x = strip(x.c[0])
                if x.k == "Var" and x.d["v"] in fn.params:
                    k = fn.params.index(x.d["v"])
                    if how == "position" and is_ref_type(fn.vars[x.d["v"]]["t"]):
                        continue
                    if any(m.d["v"] == x.d["v"] for y in P.all_nodes(fn) for m, v in assigned_place(y) if m.k == "Var"):
                        continue
                    if out.setdefault(fn.usr, {}).get(k) != how:
                        out[fn.usr][k] = how
                        again = True
    return out


def events(a, fn):
    """(node, expression, how): the object an expression points to is destroyed, or the list position it denotes is erased"""
    P = a.P
    fr = a._frees
    for n in P.all_nodes(fn):
        if n.k == "Delete" and n.c:
            yield n, n.c[0], "object"
        elif n.k == "Call":
            nm = last(n.d.get("q") or "")
            o = n.slot("obj")
            args = [c for c in n.c if c is not o]
            res = P.resolve(n)
            if nm == "erase" and o is not None and not res and args and re.search("iterator", (strip(args[0]).t or "")):
                yield n, args[0], "position"
            for g in res:
                for k, how in fr.get(g.usr, {}).items():
                    if k < len(n.c):
                        yield n, n.c[k], how


def reaches_use(fn, start, target, kill):
    """a path start -> target on which no element gives the place a new value"""
    seen = set()
    st = [(start[0], start[1] + 1)]
    while st:
        b, i = st.pop()
        blk = fn.blocks[b]
        for j in range(i, len(blk.el) + 1):
            if (b, j) == target:
                return True
            if j < len(blk.el) and kill(blk.el[j]):
                break
        else:
            if target[0] == b and target[1] >= len(blk.el) >= i:
                return True
            for s in blk.succ:
                if s is not None and s not in seen:
                    seen.add(s)
                    st.append((s, 0))
    return False


def g01_use(a):
    """nothing uses a pointer after its object was destroyed, nor a list position after it was erased"""
    P = a.P
    frees(a)
    seen = 0
    for fn in P.funcs.values():
        evs = list(events(a, fn))
        if not evs:
            continue
        for f, e, how in evs:
            k = key(a, e)
            pos = P.position(f)
            if k is None or pos is None or not P.reachable(f):
                continue
            seen += 1
            mine = set(x.id for x in f.walk())
            kills = set()
            lhs = set()
            uses = []
            root = k
            while root[0] == "m":
                root = root[2]
            for m in P.all_nodes(fn):
                for t, v in assigned_place(m):
                    tk = key(a, t)
                    if tk == k or tk == root and root[0] == "v":
                        kills.add(m.id)
                        lhs.add(t.id)
                if m.k == "Decl" and any(("v", v) == root for v, nm, ty, i in m.vars):
                    kills.add(m.id)
            for m in P.all_nodes(fn):
                if m.k in ("Var", "Mem") and m.id not in lhs and key(a, m) == k and m.id not in mine:
                    p = m.p
                    while p is not None and p.k in ("Cast", "Paren"):
                        p = p.p
                    if p is not None and p.k == "Bin" and p.d["op"] in ("==", "!="):
                        continue
                    if p is not None and p.k == "Call" and p.d.get("oper") in ("==", "!=") and how == "object":
                        continue
                    if p is not None and p.k == "Assign" and strip(p.c[0]) is m:
                        continue
                    if any(x.id in kills and x.k != "Decl" and any(t is m for t, v in assigned_place(x)) for x in m.ancestors()):
                        continue
                    uses.append(m)
            hit = None
            if any(x.id in kills for x in f.ancestors()):
                pass                       # p = erase(p): the same statement gives it a new value
            else:
                for u in uses:
                    up = None
                    x = u
                    while x is not None and up is None:
                        up = P.position(x)
                        x = x.p
                    if up is None:
                        continue
                    if up != pos and reaches_use(fn, pos, up, lambda el: getattr(el, "id", None) in kills or isinstance(el, tuple) and el[0] == "dv" and root == ("v", el[1])):
                        hit = u
                        break
            nm = strip(e).d.get("n") or "it"
            a.check(hit is None, "G01.use", fn.where(hit) if hit is not None else fn.where(f), "%s: %s not used after it was %s" % (fn.short, nm, "destroyed" if how == "object" else "erased"),
                    "%s: %s is used after %s" % (fn.q.replace("zmdp::", ""), nm, "its object was destroyed" if how == "object" else "the list entry it denotes was erased"),
                    key="G01.use|%s|%s" % (fn.q, nm))
    a.need("G01.use", seen, 4, "places where something is destroyed or erased")


# ------------------------------------------------------------------ who still mentions it
def bare(t):
    return re.sub(r"\b(const|class|struct|zmdp::)\s*|\bconst\b", "", t or "").replace(" ", "")


def destroyed(a):
    """types with an object destroyed outside a destructor, that some list holds: bare type -> [(function, delete node)]"""
    out = {}
    for fn in a.P.funcs.values():
        if fn.short.startswith("~") or not re.search(r"/(bounds|pomdpBounds|search)/", fn.file):
            continue
        for n in a.P.all_nodes(fn):
            if n.k == "Delete" and n.c:
                t = bare(strip(n.c[0]).t)
                if t.endswith("*"):
                    out.setdefault(t[:-1], []).append((fn, n))
    return out


def holders(a, T):
    """fields that can mention an object of type T: field -> list | indexed | slot | back"""
    out = {}
    for r in a.P.records.values():
        if not r["q"].startswith("zmdp::"):
            continue
        for f in r["fields"]:
            t = bare(f["t"])
            if T not in t:
                continue
            if re.fullmatch(r"%s[*&]" % re.escape(T), t):
                out[f["q"]] = "slot"
            elif re.search(r"<%s\*\*[,>]" % re.escape(T), t):
                out[f["q"]] = "back"
            elif re.search(r"<%s\*[,>]" % re.escape(T), t):
                out[f["q"]] = "indexed" if re.match(r"std::(vector|map|deque|unordered_map)<.*<", t) else "list"
            elif re.search(r"%s\*" % re.escape(T), t):
                out[f["q"]] = "list"
    for q, g in a.P.globals.items():
        if re.fullmatch(r"%s[*&]" % re.escape(T), bare(g.get("t"))):
            out[q] = "slot"
    return out


def field_of(a, n):
    """the field a list expression or local reference denotes"""
    from rules.effects import Effects
    if not hasattr(a, "_eff"):
        a._eff = Effects(a)
    out = set()
    for r, f in a._eff.paths(n):
        if f:
            out.add(f[-1])
        elif r[0] == "global":
            out.add(r[1])
    return out


def flagfacts(a, n):
    """switches that are known at a node: {(field, truth)}, and other conditions"""
    flags, other = set(), []
    for c, t in a.P.facts_at(n):
        m = strip(c)
        while m.k == "Un" and m.d["op"] == "!" and isinstance(t, bool):
            m, t = strip(m.c[0]), not t
        if m.k == "Mem" and (m.t or "").replace("const ", "") == "bool" and isinstance(t, bool):
            flags.add((m.d["n"], t))
        else:
            other.append((m, t))
    return flags, other


LISTOPS = ("erase", "remove", "pop_back", "pop_front", "clear")


def list_calls(a, fn, names):
    """(call, list expression) of list operations, member or free"""
    for n in a.P.all_nodes(fn):
        if n.k != "Call":
            continue
        nm = last(n.d.get("q") or "")
        o = n.slot("obj")
        if o is not None and nm in names and not a.P.resolve(n):
            yield n, o
        elif o is None and n.c and re.match("eraseElement", nm) and "erase" in names:
            yield n, n.c[0]


def eraser(a, g):
    """index of the list parameter that a helper erases entries of, else None"""
    for n, o in list_calls(a, g, ("erase", "remove")):
        x = strip(o)
        if x.k == "Var" and x.d["v"] in g.params:
            return g.params.index(x.d["v"])
    return None


def erases(a, fn, hold):
    """(call node, holder, iterator or value expression) that take an entry out of a holder, helpers one level deep"""
    out = []
    for n, o in list_calls(a, fn, ("erase", "remove")):
        for q in field_of(a, o):
            if q in hold:
                args = [c for c in n.c if c is not n.slot("obj")]
                it = args[1] if n.slot("obj") is None and len(args) > 1 else args[0] if args else None
                out.append((n, q, it))
    for n in a.P.all_nodes(fn):
        if n.k == "Call" and not re.match("eraseElement", last(n.d.get("q") or "")):
            for g in a.P.resolve(n):
                if g.impl or g is fn:
                    continue
                k = eraser(a, g)
                if k is not None and k < len(n.c):
                    for q in field_of(a, n.c[k]):
                        if q in hold:
                            rest = [c for i, c in enumerate(n.c) if i != k]
                            out.append((n, q, rest[0] if rest else None))
                elif any(q in hold for m, o in list_calls(a, g, ("erase", "remove")) for q in field_of(a, o)):
                    for m, o in list_calls(a, g, ("erase", "remove")):
                        for q in field_of(a, o):
                            if q in hold:
                                out.append((n, q, None))
    return out


def inserts(a, hold):
    """(function, call, holder, value) of everything put into a holder"""
    for fn in a.P.funcs.values():
        for n, o in list_calls(a, fn, ("push_back", "push_front", "insert", "emplace_back")):
            for q in field_of(a, o):
                if q in hold:
                    yield fn, n, q, [c for c in n.c if c is not o][-1]


def cut_points(a, fn, nodes):
    """elements whose execution means that control has come to one of the nodes or to the loop around it"""
    ids = set()
    for n in nodes:
        ids.add(n.id)
        for l in n.ancestors():
            if l.k in ("For", "While", "ForRange", "Do"):
                for s in ("init", "cond", "range", "inc"):
                    x = l.slot(s)
                    if x is not None:
                        ids.update(y.id for y in x.walk())
    return ids


def flag_edges(a, fn, flags):
    """branches on which one of the switches has the opposite value"""
    out = set()
    for b, i, ats in branches(a, fn):
        for c, t in ats:
            m = strip(c)
            while m.k == "Un" and m.d["op"] == "!" and isinstance(t, bool):
                m, t = strip(m.c[0]), not t
            if m.k == "Mem" and isinstance(t, bool) and (m.d["n"], not t) in flags:
                out.add((b, i))
    return out


def derefs(a, n):
    """the iterator variable an expression is the entry of: *it"""
    n = strip(n)
    if n.k == "Call" and n.d.get("oper") == "*" or n.k == "Un" and n.d["op"] == "*":
        x = strip(n.slot("obj") if n.k == "Call" and n.slot("obj") is not None else n.c[0])
        return x.d["v"] if x.k == "Var" else None
    if n.k == "Var":
        ds = [i for m in a.P.all_nodes(n.fn) if m.k == "Decl" for v, nm, t, i in m.vars if v == n.d["v"] and i is not None]
        as_ = [v for m in a.P.all_nodes(n.fn) for t, v in assigned_place(m) if t.k == "Var" and t.d["v"] == n.d["v"]]
        if len(ds) + len(as_) == 1:
            return derefs(a, (ds + as_)[0])
    return None


def itvar(n):
    n = strip(n) if n is not None else None
    while n is not None and n.k == "Ctor" and len(n.c) == 1:
        n = strip(n.c[0])
    return n.d["v"] if n is not None and n.k == "Var" else None


def g01_lists(a):
    P = a.P
    frees(a)
    seen = 0
    for T, dels in sorted(destroyed(a).items()):
        H = holders(a, T)
        if not any(h in ("list", "indexed") for h in H.values()):
            continue
        back = [q for q, h in H.items() if h == "back"]
        ins = {}
        for fn, n, q, v in inserts(a, H):
            ins.setdefault(q, []).append((fn, n, v))
        for fn, d in dels:
            x = strip(d.c[0])
            if x.k != "Var" or P.position(d) is None or not P.reachable(d):
                continue
            isnew = fresh_here(a, fn, d, x)
            for q, kind in sorted(H.items()):
                if q in back or q not in ins and kind != "slot":
                    continue
                seen += 1
                nm = q.split("::")[-1]
                if isnew and kind != "slot":
                    bad = [n for f2, n, v in ins.get(q, ()) if f2 is fn and key(a, v) == key(a, x) and P.position(n)
                           and uncut(a, fn, P.position(n), P.position(d), set()) is not None]
                    a.check(not bad, "G01.lists", fn.where(d), "%s: not in %s yet" % (fn.short, nm), "%s destroys an object after it was put into %s" % (fn.short, nm), key="G01.lists|%s|%s" % (fn.q, nm))
                    continue
                if kind == "slot":
                    slot(a, T, fn, d, x, q, back, isnew)
                    continue
                # flags under which something is put into the list
                fl = None
                for f2, n, v in ins[q]:
                    g = flagfacts(a, n)[0]
                    fl = g if fl is None else fl & g
                rem = [(n, it) for n, q2, it in erases(a, fn, {q})]
                if rem:
                    why = None
                    for n, it in rem:
                        g, other = flagfacts(a, n)
                        extra = g - (fl or set())
                        if extra:
                            why = "only when %s is %s, although the list is used in other cases too" % sorted(extra)[0]
                        for m, t in other:
                            vs = set(y.d["v"] for y in m.walk() if y.k == "Var")
                            if vs & set(fn.params) and x.d["v"] not in vs:
                                why = "only under a condition on %s" % ", ".join(sorted(fn.vars[v]["n"] for v in vs & set(fn.params)))
                    ids = cut_points(a, fn, [n for n, it in rem])
                    fe = flag_edges(a, fn, fl or set())
                    if why is None and uncut(a, fn, (fn.entry, -1), P.position(d), fe, lambda el: el.id in ids) is not None:
                        why = "not on every path"
                    if why is None and kind == "indexed":
                        why = same_range(a, fn, [n for n, it in rem], ins[q], x)
                    a.check(why is None, "G01.lists", fn.where(d), "%s takes it out of %s" % (fn.short, nm), "%s destroys an object that is taken out of %s %s" % (fn.short, nm, why), key="G01.lists|%s|%s" % (fn.q, nm))
                    continue
                # every caller takes it out
                if x.d["v"] not in fn.params:
                    a.fail("G01.lists", fn.where(d), "%s destroys an object without taking it out of %s" % (fn.short, nm), key="G01.lists|%s|%s" % (fn.q, nm))
                    continue
                k = fn.params.index(x.d["v"])
                for f2, c in P.callers.get(fn.usr, ()):
                    pos = P.position(c)
                    if pos is None or not P.reachable(c) or k >= len(c.c):
                        continue
                    iv = derefs(a, c.c[k])
                    cl = [(n, it) for n, q2, it in erases(a, f2, {q})]
                    ok = [n for n, it in cl if iv is None or itvar(it) is None or itvar(it) == iv]
                    ids = set(n.id for n in ok)
                    before = any(P.position(n) and uncut(a, f2, (f2.entry, -1), pos, set(), lambda el: el.id in ids) is None for n in ok)
                    late = uncut(a, f2, pos, "exit", set(), lambda el: el.id in ids) is not None or uncut(a, f2, pos, pos, set(), lambda el: el.id in ids) is not None
                    cond = [n for n in ok if flagfacts(a, n)[0] - (fl or set()) - flagfacts(a, c)[0]]
                    a.check(not late or before, "G01.lists", f2.where(c), "%s takes it out of %s" % (f2.short, nm),
                            "%s: an object destroyed here stays in %s on some path" % (f2.q.replace("zmdp::", ""), nm), key="G01.lists|%s|%s" % (f2.q, nm))
    a.need("G01.lists", seen, 3, "lists that hold objects which are destroyed")


def fresh_here(a, fn, d, x):
    """the destroyed object was handed in by callers that have just made it, or was made here, and is in no list"""
    P = a.P
    ds = [i for m in P.all_nodes(fn) if m.k == "Decl" for v, nm, t, i in m.vars if v == x.d["v"] and i is not None]
    if ds:
        return all(strip(i).k == "New" for i in ds)
    if x.d["v"] not in fn.params:
        return False
    k = fn.params.index(x.d["v"])
    cs = list(P.callers.get(fn.usr, ()))
    if not cs:
        return False
    for f2, c in cs:
        y = strip(c.c[k]) if k < len(c.c) else None
        if y is None:
            return False
        if y.k == "New":
            continue
        if y.k != "Var":
            return False
        ds = [i for m in P.all_nodes(f2) if m.k == "Decl" for v, nm, t, i in m.vars if v == y.d["v"] and i is not None]
        ds += [v for m in P.all_nodes(f2) for t, v in assigned_place(m) if t.k == "Var" and t.d["v"] == y.d["v"]]
        if not ds or not all(strip(i).k == "New" for i in ds):
            return False
    return True


def loop_over(a, n):
    """(outermost loop's list field, every entry?) around a node"""
    ls = [l for l in n.ancestors() if l.k in ("For", "While", "ForRange")]
    return ls


def ranged_field(a, loop):
    """last field name of the collection a loop runs over"""
    if loop.k == "ForRange":
        r = strip(loop.slot("range"))
        return r.d.get("n")
    src = list(loop.slot("init").walk()) if loop.slot("init") is not None else []
    for m in src:
        if m.k == "Call" and last(m.d.get("q") or "") == "begin" and m.slot("obj") is not None:
            o = strip(m.slot("obj"))
            return o.d.get("n")
    return None


def same_range(a, fn, rem, ins, x):
    """entries are taken out of the same indices they were put in"""
    def outer(n):
        ls = [l for l in n.ancestors() if l.k in ("For", "While", "ForRange")]
        return ls[-1] if ls else None
    put = set()
    for f2, n, v in ins:
        l = outer(n)
        put.add(path_of(a, l) if l is not None else None)
    got = set()
    for n in rem:
        l = outer(n)
        got.add(path_of(a, l) if l is not None else None)
        if l is not None:
            for m in l.walk():
                if m.k in ("Break", "Return"):
                    inner = [y for y in m.ancestors() if y.k in ("For", "While", "ForRange", "Do", "Switch")]
                    if m.k == "Return" or inner and inner[0] is l:
                        return "only at the first index found"
    if None in put or None in got or not put or not got:
        return None
    if got & put:
        return None
    return "at the indices of %s, but was put in at the indices of %s" % (sorted(got)[0], sorted(put)[0])


def path_of(a, loop):
    """member names of the collection a loop runs over: "mask.data" """
    o = None
    if loop.k == "ForRange":
        o = strip(loop.slot("range"))
    elif loop.slot("init") is not None:
        for m in loop.slot("init").walk():
            if m.k == "Call" and last(m.d.get("q") or "") == "begin" and m.slot("obj") is not None:
                o = strip(m.slot("obj"))
    out = []
    while o is not None and o.k == "Mem":
        out.append(o.d["n"])
        o = strip(o.c[0]) if o.c else None
    if not out:
        return None
    # a reference parameter that is the field elsewhere: b.data with b = bv->b
    return out[0] if len(out) == 1 else ".".join(reversed(out[:2])) if out[1] in ("mask",) else out[0]


def slot(a, T, fn, d, x, q, back, isnew):
    """a pointer kept in a field is redirected, through the list of places that mention the object, before it is destroyed"""
    P = a.P
    nm = q.split("::")[-1]
    stores = []
    for f2 in P.funcs.values():
        for m in P.all_nodes(f2):
            for t, v in assigned_place(m):
                if t.k in ("Mem", "Global") and (t.d.get("q") == q):
                    stores.append((f2, m, t, v))
    live = [(f2, m, t, v) for f2, m, t, v in stores if not nullish(v)]
    if not live:
        return a.ok("G01.slots", fn.where(d), "%s never set" % nm)
    if isnew:
        return a.ok("G01.slots", fn.where(d), "%s: object not stored yet" % fn.short)
    direct = [m for f2, m, t, v in stores if f2 is fn]
    if direct:
        return a.ok("G01.slots", fn.where(d), "%s updates %s itself" % (fn.short, nm))
    if not back:
        cs = [f2 for f2, c in P.callers.get(fn.usr, ())]
        if cs and all(any(f3 is f2 for f3, m, t, v in stores) for f2 in cs):
            return a.ok("G01.slots", fn.where(d), "callers update %s" % nm)
        return a.fail("G01.slots", live[0][0].where(live[0][1]), "%s keeps a pointer in %s that nothing clears when the object is destroyed" % (live[0][0].q.replace("zmdp::", ""), nm), key="G01.slots|" + q)
    # registered: every store of a live pointer registers the place with the new object
    flags = None
    for f2, m, t, v in live:
        vk = key(a, v)
        reg = [n for n, o in list_calls(a, f2, ("push_back", "push_front", "insert")) if set(back) & field_of2(a, o, back) and (vk is None or base_key(a, o) == vk)
               and n.c and any(y.k == "Mem" and y.d.get("q") == q for c in n.c if c is not n.slot("obj") for y in c.walk())]
        ids = set(n.id for n in reg)
        pos = P.position(m)
        if pos is None:
            continue
        covered = bool(reg) and (uncut(a, f2, pos, "exit", set(), lambda el: el.id in ids) is None or uncut(a, f2, (f2.entry, -1), pos, set(), lambda el: el.id in ids) is None)
        a.check(covered, "G01.slots", f2.where(m), "registered with the object", "%s stores a pointer in %s without registering the place with the object it points to" % (f2.q.replace("zmdp::", ""), nm), key="G01.slots|reg|%s|%s" % (f2.q, nm))
        g = flagfacts(a, m)[0]
        flags = g if flags is None else flags & g
        # the place is taken off the old object's list
        off = [n for n, o in list_calls(a, f2, ("erase", "remove")) if set(back) & field_of2(a, o, back)]
        off += [n for n in P.all_nodes(f2) if n.k == "Call" for g in P.resolve(n) if not g.impl and g is not f2 and any(set(back) & field_of2(a, o, back) for m2, o in list_calls(a, g, ("erase", "remove")))]
        if covered:
            ids2 = cut_points(a, f2, off)
            ne = null_branches(a, f2)
            a.check(bool(off) and uncut(a, f2, (f2.entry, -1), pos, ne, lambda el: el.id in ids2) is None, "G01.slots", f2.where(m), "taken off the old object's list",
                    "%s stores a new pointer in %s without taking the place off the list of the object it pointed to before" % (f2.q.replace("zmdp::", ""), nm), key="G01.slots|unreg|%s|%s" % (f2.q, nm))
    # the deleter redirects every registered place
    loops = []
    for l in P.all_nodes(fn):
        if l.k in ("For", "While", "ForRange") and names_field(l, back):
            loops.append(l)
    writes = [m for l in loops for m in l.walk() for t, v in assigned_place(m) if t.k == "Un" and t.d["op"] == "*" or t.k == "Call" and t.d.get("oper") == "*"]
    regs = [n for l in loops for n, o in list_calls(a, fn, ("push_back", "push_front", "insert")) if set(back) & field_of2(a, o, back) and any(y is l for y in n.ancestors())]
    regs += [n for n, o in list_calls(a, fn, ("splice", "merge", "insert", "swap", "assign")) if set(back) & field_of2(a, o, back)]
    if not loops or not writes:
        helper = [g for n in P.all_nodes(fn) if n.k == "Call" for g in P.resolve(n) if any(names_field(l, back) for l in P.all_nodes(g) if l.k in ("For", "While", "ForRange"))]
        if helper:
            return a.ok("G01.slots", fn.where(d), "redirected by %s" % helper[0].short)
        return a.fail("G01.slots", fn.where(d), "%s destroys an object without redirecting the places that still point to it" % fn.q.replace("zmdp::", ""), key="G01.slots|redirect|" + fn.q)
    ex, other = flagfacts(a, writes[0])
    extra = ex - (flags or set())
    ids = cut_points(a, fn, writes)
    fe = flag_edges(a, fn, flags or set())
    part = uncut(a, fn, (fn.entry, -1), P.position(d), fe | null_branches(a, fn), lambda el: el.id in ids) is not None
    early = [m for l in loops for m in l.walk() if m.k in ("Break", "Return")]
    after = uncut(a, fn, P.position(d), P.position(writes[0]), set()) is not None
    a.check(not extra and not part and not early and not after, "G01.slots", fn.where(d), "all registered places redirected",
            "%s redirects the places that point to a destroyed object %s" % (fn.short, "only when %s is %s" % sorted(extra)[0] if extra else "only on some paths" if part else "only up to the first one" if early else "too late"), key="G01.slots|redirect|" + fn.q)
    a.check(bool(regs), "G01.slots", fn.where(d), "redirected places registered with the new object",
            "%s redirects places to another object without registering them there, so that they dangle when that object is destroyed in turn" % fn.short, key="G01.slots|rereg|" + fn.q)


def names_field(l, back):
    src = [l.slot(s) for s in ("init", "range", "cond") if l.slot(s) is not None]
    return any(y.k == "Mem" and y.d.get("q") in back for s in src for y in s.walk())


def field_of2(a, o, back):
    return field_of(a, o) | {y.d.get("q") for y in strip(o).walk() if y.k == "Mem"}


def base_key(a, o):
    o = strip(o)
    if o.k == "Mem" and o.c:
        return key(a, o.c[0])
    return None


def nullish(v):
    v = strip(v) if v is not None else None
    return v is None or v.k == "Null" or v.d.get("cv") in (0, "0") or v.k == "Lit" and v.d.get("v") in (0, "0")


def null_branches(a, fn):
    """branches on which a pointer is known to be null or a list to be empty"""
    out = set()
    for b, i, ats in branches(a, fn):
        for c, t in ats:
            m = strip(c)
            while m.k == "Un" and m.d["op"] == "!" and isinstance(t, bool):
                m, t = strip(m.c[0]), not t
            if m.k == "Bin" and m.d["op"] in ("==", "!=") and any(nullish(y) for y in m.c) and (m.d["op"] == "==") == t:
                out.add((b, i))
            elif (m.t or "").rstrip().endswith("*") and t is False:
                out.add((b, i))
            elif m.k == "Call" and last(m.d.get("q") or "") == "empty" and t is True:
                out.add((b, i))
    return out


def g01_dtor(a):
    """a destructor destroys the entries of one list only, since the others hold the same objects"""
    P = a.P
    for fn in P.funcs.values():
        if not fn.short.startswith("~") or not fn.q.startswith("zmdp::"):
            continue
        by = {}
        for n in P.all_nodes(fn):
            if n.k == "Delete" and n.c and strip(n.c[0]).k in ("Call", "Un"):
                ls = [l for l in n.ancestors() if l.k in ("For", "While", "ForRange")]
                f = ranged_field(a, ls[0]) if ls else None
                by.setdefault(bare(strip(n.c[0]).t), []).append((f, n))
        for t, xs in by.items():
            a.check(len(xs) == 1, "G01.dtor", fn.where(xs[-1][1]), "%s: %s" % (fn.q.replace("zmdp::", ""), t),
                    "%s destroys the same objects from two lists (%s)" % (fn.q.replace("zmdp::", ""), " and ".join(str(f) for f, n in xs)), key="G01.dtor|" + fn.q)


RULES["G01"] = [g01_use, g01_lists, g01_dtor]
TEXT["G01.use"] = "typestate over the control-flow graph: after a pointer's object is deleted (directly or by a called function) or a list position is erased, no path uses that pointer or position before it gets a new value"
TEXT["G01.lists"] = "for every delete of a plane or point outside a destructor and every list field that can hold it: the deleting function, or each of its callers on every path, takes the same element out; a removal may depend only on the switches the insertion depends on, and indexed lists are searched at the indices used for insertion"
TEXT["G01.slots"] = "a pointer field of that type is registered with the object on every store, unregistered from the old one, and the deleting function redirects and re-registers every registered place; a field nothing clears is reported"
TEXT["G01.dtor"] = "a destructor deletes the elements of one list per element type"
