"""I01, I02, M06, M07, M08: files, streams, diagnostics and buffers."""
from rules.common import *
from flow import *
from absint import Interp

PRINTS = {"printf", "fprintf", "vprintf", "vfprintf", "puts", "fputs", "perror", "fputc", "putc", "fwrite"}


def is_print(n):
    if n.k != "Call":
        return False
    if last(n.d.get("q")) in PRINTS:
        return True
    if n.d.get("oper") == "<<":
        r = stream_root(n)
        return r.k == "Global" and last(r.d.get("q")) in ("cerr", "cout", "clog")
    return False


def prints(P, g):
    return P.reaches_call(g, is_print) is not None


def outer(n):
    """the variable, field or return a freshly opened handle is put into: ('key', node) or ('return', call) ..."""
    x = n
    while x.p is not None and (x.p.k == "Cast" or (x.p.k == "Ctor" and len(x.p.c) == 1) or x.p.k == "New"):
        x = x.p
    p = x.p
    if p is None:
        for i in x.fn.inits:
            if i["e"] is x and i["m"]:
                return "key", ("m", i["m"].split("::")[-1], ("this",)), x
        return None, None, x
    if p.k == "Assign" and p.c[1] is x:
        return "key", hkey(p.c[0]), p
    if p.k == "Decl":
        for v in p.vars:
            if v[3] is not None and any(y is n for y in v[3].walk()):
                return "key", ("v", v[0]), p
    if p.k == "Return":
        return "return", None, p
    if p.k == "Call" or p.k == "Ctor":
        # smart pointer initialisation or an argument
        y = p
        while y.p is not None and y.p.k in ("Cast", "Ctor"):
            y = y.p
        if y.p is not None and y.p.k == "Decl":
            for v in y.p.vars:
                if v[3] is not None and any(z is n for z in v[3].walk()):
                    return "key", ("v", v[0]), y.p
        return "arg", p, x
    return None, None, x


def declpos(P, n, key):
    p = P.position(n)
    if n.k == "Decl" and key and key[0] == "v":
        q = P.dvpos(n.fn, key[1])
        if q:
            return q
    return p


def opens(a):
    """every place a named file is opened: (fn, node, handle key, position, kind 'stream'/'file', 'r'/'w')"""
    if hasattr(a, "_opens"):
        return a._opens
    P = a.P
    out = []

    def add(fn, n, kind, mode, depth=0):
        how, key, at = outer(n)
        if how == "key":
            out.append((fn, n, key, declpos(P, at, key), kind, mode))
        elif how == "return" and depth < 3:
            for c, m in P.callers.get(fn.usr, ()):
                add(c, m, kind, mode, depth + 1)
        elif how == "arg":
            out.append((fn, n, None, P.position(n), kind, mode))
        else:
            out.append((fn, n, None, P.position(n), kind, mode))

    for fn in P.funcs.values():
        if fn.impl or fn.file.endswith("pomdp_spec.l") or "/include/" in fn.file and "yy" in fn.file and not fn.short.startswith("read"):
            continue
        for n in P.all_nodes(fn):
            if not P.reachable(n):
                continue
            if n.k == "Ctor" and re.search(r"basic_[io]?fstream\b", n.t or "") and n.c and not STREAM.search(n.c[0].t or ""):
                add(fn, n, "stream", "r" if "ifstream" in n.t else "w")
            elif n.k == "Call":
                nm = last(n.d.get("q"))
                if nm == "open" and n.slot("obj") is not None and re.search(r"basic_[io]?fstream\b", (n.slot("obj").t or "") + (n.slot("obj").ct or "")):
                    o = n.slot("obj")
                    out.append((fn, n, hkey(o), P.position(n), "stream", "r" if "ifstream" in (o.t or "") + (o.ct or "") else "w"))
                elif nm in ("fopen", "freopen", "fopen64", "fdopen") and "::" not in n.d["q"]:
                    m = n.c[1] if len(n.c) > 1 else None
                    s = strip(m).d.get("v") if m is not None and strip(m).k == "Str" else None
                    if s is None and m is not None:
                        s = "".join(x.d["v"] for x in m.walk() if x.k == "Str")
                    add(fn, n, "file", "r" if s and s[0] == "r" and "+" not in s else "w")
    a._opens = out
    return out


def operands(n):
    o = n.slot("obj")
    return ([o] if o is not None else []) + list(n.c)


def handles_in(n, env):
    """handle keys of env used as direct operands of call n"""
    res = []
    for o in operands(n):
        for y in (o, stream_root(o)):
            k = hkey(y)
            if k in env.st and k not in res:
                res.append(k)
    return res


def is_test(n):
    nm = last(n.d.get("q"))
    return nm in TESTS or nm in CTESTS or n.d.get("oper") == "!" or nm in ("close", "fclose", "errno", "strerror", "c_str", "rdbuf", "clear")


def lib(P, n):
    return not [g for g in P.resolve(n) if g.blocks]


def i01(a):
    P, F = a.P, Flow(a)
    ops = opens(a)
    a.need("I01", len(ops), 12, "file opens")

    def on(x, e):
        if x.k == "Call":
            if is_print(x) and not e.tr.get("said") and not handles_in(x, e):
                return "env", e.put(tr={"said": True})
            if lib(P, x) and not is_test(x) and any(e.st[k] == S.OPENFAIL for k in handles_in(x, e)):
                return "hit", x
        return None

    for fn, n, key, pos, kind, mode in ops:
        what = "%s opened for %s in %s" % ("stream" if kind == "stream" else "file", "reading" if mode == "r" else "writing", short(fn.q))
        if key is None or pos is None:
            how, call, _ = outer(n)
            okk, why = False, "nothing tests whether it could be opened"
            if how == "arg":
                rs = [g for g in P.resolve(call) if g.blocks]
                i = [k for k, y in enumerate(call.c) if n in list(y.walk())]
                if len(rs) == 1 and i and i[0] < len(rs[0].params):
                    g = rs[0]
                    okk, why = F.leads_to_failure(g, (g.entry, -1), Env({("v", g.params[i[0]]): S.OPENFAIL}), on)
            a.check(okk, "I01.reported", fn.where(n), what, "%s: %s" % (what, why))
            continue
        okk, why = F.leads_to_failure(fn, pos, Env({key: S.OPENFAIL}), on)
        a.check(okk, "I01.reported", fn.where(n), what, "%s: when it cannot be opened, %s" % (what, why))
        # and the user is told
        silent = None
        st = [(fn, pos, Env({key: S.OPENFAIL}), 0)]
        while st and okk and silent is None:
            f, p, e, d = st.pop()
            for k, x, e2 in F.run(f, p, e, on):
                if k == "noreturn":
                    if not e2.tr.get("said") and not (x is not None and x.k == "Call" and (
                            any(prints(P, g) for g in P.resolve(x)) or "assert" in (x.d.get("q") or ""))):
                        silent = x
                elif k == "return" and not e2.tr.get("said") and d < 3:
                    v = F.failvalue(x, e2)
                    for c, m in P.callers.get(f.usr, ()):
                        if m.k == "Call" and P.position(m):
                            st.append((c, P.position(m), Env({}, {("n", c.usr, m.id): v == "nonzero"}), d + 1))
        if okk:
            a.check(silent is None, "I01.message", fn.where(n), what, "%s: the run ends without a message when it cannot be opened" % what)


# ---------------------------------------------------------------- I02
def i02(a):
    P, F = a.P, Flow(a)
    ops = [o for o in opens(a) if o[5] == "w" and o[2] is not None and o[3] is not None]
    a.need("I02", len(ops), 5, "output files")

    def on(x, e):
        # the failure becomes visible when the buffer is written out
        if x.k == "Call":
            hs = [k for k in handles_in(x, e) if e.st[k] == S.PEND]
            nm = last(x.d.get("q"))
            if hs:
                if nm in ("close", "flush") and x.slot("obj") is not None:
                    return "env", e.put(st={k: S.VIS for k in hs})
                if x.d.get("oper") == "<<" and any(last(y.d.get("q")) in ("endl", "flush") for y in x.walk() if y.k in ("Fn", "Global", "Call", "FuncRef", "Ref")):
                    return None
        if x.k == "Delete" and x.c:
            k = hkey(x.c[0])
            if k in e.st:
                return "hit", x
        return None

    for fn, n, key, pos, kind, mode in ops:
        starts = [(fn, pos, n, key)]
        for x in P.all_nodes(fn):
            if x.k == "Call" and not is_test(x) and P.reachable(x) and last(x.d.get("q")) not in ("flush", "fflush", "open", "fopen"):
                for i, o in enumerate(operands(x)):
                    if hkey(o) == key or hkey(stream_root(o)) == key:
                        if not F_reach(P, fn, pos, x):
                            break
                        g = closer(P, x, i - (x.slot("obj") is not None))
                        if g is None:
                            starts.append((fn, P.position(x), x, key))
                        else:
                            starts += [(h, P.position(y), y, k2) for h, y, k2 in g]
                        break
        bad = None
        for f_, p, x, key_ in starts:
            if p is None:
                continue
            for s in ((S.PEND,) if kind == "stream" else (S.PEND, S.VIS)):
                okk, why = F.leads_to_failure(f_, p, Env({key_: s}, {key_: True}), on)
                if not okk and bad is None:
                    bad = (x, why)
        what = "output file written in %s" % short(fn.q)
        a.check(bad is None, "I02.reported", fn.where(n), "%s (%d writes)" % (what, len(starts)),
                None if bad is None else "%s: a write that fails (%s) is not reported before the file is given up" % (what, fn.where(bad[0])))


def closer(P, call, i):
    """when the called helper closes the file passed as argument i: its own writes to it [(function, node, key)]; else None"""
    rs = [g for g in P.resolve(call) if g.blocks]
    if len(rs) != 1 or i < 0 or i >= len(rs[0].params):
        return None
    g = rs[0]
    k = ("v", g.params[i])
    closes, writes = False, []
    for y in P.all_nodes(g):
        if y.k == "Call" and any(hkey(o) == k or hkey(stream_root(o)) == k for o in operands(y)):
            if last(y.d.get("q")) in ("close", "fclose"):
                closes = True
            elif not is_test(y) and last(y.d.get("q")) not in ("flush", "fflush"):
                writes.append((g, y, k))
    return writes if closes else None


def F_reach(P, fn, pos, x):
    return P.can_reach(fn, pos, lambda y: y is x) is not None


# ---------------------------------------------------------------- M06
ERRTXT = re.compile(r"^\W*(ERROR\b|Error:|error:|\*\* ?ERR)|\bERROR\b|^Cannot open|not successfully parsed")


def texts(n):
    """string literals printed by a print statement (whole << chain)"""
    if n.d.get("oper") == "<<":
        _, ops = stream_chain(n)
        return [y.d["v"] for o in ops for y in o.walk() if y.k == "Str"]
    return [y.d["v"] for o in n.c for y in o.walk() if y.k == "Str"]


def facts_env(a, F, n):
    tr = {}
    for c, t in a.P.facts_at(n):
        if not isinstance(t, bool):
            continue
        tr[("n", n.fn.usr, c.id)] = t
        x = strip(c)
        if x.k == "Bin" and x.d["op"] in ("==", "!="):
            for i in (0, 1):
                z = strip(x.c[1 - i])
                if z.k == "Null" or z.k == "Lit" and not z.d["v"]:
                    tr[place_key(a.E, strip(x.c[i]))] = t == (x.d["op"] == "!=")
        elif x.k in ("Var", "Mem"):
            tr[place_key(a.E, x)] = t
    return tr


def entered(a, g, picks):
    """entering each error number that is raised anywhere: (every return came after a picked node, nodes met); None: not settled"""
    codes = set()
    for f, n in a.P.callers.get(g.usr, ()):
        if len(n.c) > 2:
            y = strip(n.c[2])
            v = y.cv if y.cv is not None else y.d.get("v")
            if isinstance(v, int):
                codes.add(v)
    met, good = set(), True
    for c in sorted(codes):
        def on(n, fr, st, I):
            met.add(n.id)
            return ("picked",) if n.id in picks else None
        I = Interp(a, {}, lambda h: False, on, config=False, limit=6000)
        for kind, v, st, n in I.start(g, args={p: v for p, v in zip(g.params, (None, None, c, None)) if v is not None}):
            if kind == "ret" and ("picked",) not in st.ev:
                good = False
        if I.over:
            return None
    return (good, met) if codes else None


def m06(a):
    P, F = a.P, Flow(a)
    n_ = 0
    for fn in P.funcs.values():
        if fn.impl or "yy.cc" in fn.file:
            continue
        for n in P.all_nodes(fn):
            if n.k != "Call" or not is_print(n) or not P.reachable(n):
                continue
            if n.d.get("oper") == "<<" and not outer_stream(n):
                continue
            ts = texts(n)
            if not any(ERRTXT.search(t) for t in ts):
                continue
            n_ += 1
            if fn.short == "ERR_enter":
                got = entered(a, fn, ())
                if got and not any(y.id in got[1] for y in [n] + list(n.walk())):
                    continue      # internal: no number that is raised anywhere gets here
            okk, why = F.leads_to_failure(fn, P.position(n), Env({}, facts_env(a, F, n)))
            a.check(okk, "M06.fatal", fn.where(n), "error report in %s" % short(fn.q),
                    "%s reports an error and goes on: %s" % (short(fn.q), why))
    a.need("M06.fatal", n_, 40, "error reports")
    # the parser's own error list
    for g in P.find("readMDPFile"):
        for n in P.calls(g):
            if last(n.d.get("q")) in ("yyparse", "ERR_dump"):
                okk, why = F.leads_to_failure(g, P.position(n), Env({}, {("n", g.usr, n.id): True}))
                a.check(okk, "M06.parse", g.where(n), "failure result of %s" % last(n.d["q"]),
                        "a failure result of %s does not stop the program: %s" % (last(n.d["q"]), why))
                if last(n.d["q"]) == "ERR_dump":
                    late = P.can_reach(g, P.position(n), lambda x: x.k == "Call" and any(
                        P.reaches_call(h, lambda y: y.k == "Call" and last(y.d.get("q")) == "ERR_enter") for h in P.resolve(x)))
                    a.check(late is None, "M06.parse", g.where(n), "errors are collected before they are counted",
                            "errors may still be recorded after the error list has been printed (%s)" % (g.where(late) if late is not None else ""))
    nd = 0
    for g in P.find("ERR_dump"):
        for b in P.all_nodes(g):
            if b.k == "Mem" and b.d["n"] == "nextError" and strip(b.c[0]).k == "Global":
                nd += 1
                env = Env({}, {place_key(a.E, b): True})
                rs = F.run(g, (g.entry, -1), env)
                okk = all(k == "noreturn" or F.failvalue(x, e) == "nonzero" for k, x, e in rs)
                a.check(okk, "M06.list", g.where(b), "a non-empty error list is a failure", "ERR_dump can report success although errors were recorded")
                break
    for g in P.find("ERR_enter"):
        # every in-range error is linked into the list
        st = [n for n, lhs, op, rhs in assigns(P, g) if lhs.k == "Mem" and lhs.d["n"] == "nextError" and strip(lhs.c[0]).k == "Var" and
              any("Err_list" in vstr(v) or True for v in [a.E.ev(lhs.c[0])])]

        link = [n for n in st if re.search(r"new:|malloc|calloc", vstr(a.E.ev(n.c[1])))]
        got = entered(a, g, {x.id for x in link})
        a.check(bool(link) and (got is None or got[0]), "M06.list", g.where(), "every error that is raised is recorded",
                "ERR_enter may return without recording the error")


# ---------------------------------------------------------------- M07
RSTREAM = {"getline", "operator>>", "read", "get", "readsome", "ignore", "putback", "peek"}
RFILE = {"fgets", "fread", "fscanf", "getc", "fgetc", "vfscanf", "getline"}


def read_handle(n):
    """(handle key, destinations) when n reads from a stream or file"""
    if n.k != "Call":
        return None
    q = n.d.get("q") or ""
    nm = last(q)
    if n.d.get("oper") == ">>":
        nm = "operator>>"
    if nm in RFILE and "::" not in q:
        for x in n.c:
            if CFILE.search((x.ct or "") + (x.t or "")):
                return hkey(x), [y for y in n.c if y is not x]
    if nm in RSTREAM:
        o = n.slot("obj")
        if o is not None and STREAM.search((o.t or "") + (o.ct or "")):
            return hkey(stream_root(o)), list(n.c)
        if n.c and STREAM.search((n.c[0].t or "") + (n.c[0].ct or "")) and ("std::" in q or n.d.get("oper")):
            return hkey(stream_root(n.c[0])), list(n.c[1:])
    return None


def helper_reads(a, n):
    """a repo helper that reads from a handle passed to it: (handle key, destinations)"""
    P = a.P
    if n.k != "Call":
        return None
    rs = [g for g in P.resolve(n) if g.blocks]
    if len(rs) != 1:
        return None
    g = rs[0]
    for i, x in enumerate(n.c):
        if i < len(g.params) and STREAM.search((x.t or "") + (x.ct or "")) or CFILE.search((x.ct or "") + (x.t or "")):
            pk = ("v", g.params[i]) if i < len(g.params) else None
            for y in P.all_nodes(g):
                h = read_handle(y)
                if h and h[0] == pk:
                    return hkey(stream_root(x)) if STREAM.search((x.t or "") + (x.ct or "")) else hkey(x), [z for z in n.c if z is not x]
    return None


def body_edge(fn, L):
    """(block, successor) pairs entering an iteration / leaving the loop"""
    ent, ex = [], []
    for b in fn.reach:
        blk = fn.blocks[b]
        if blk.term is L and len(blk.succ) >= 1:
            if blk.succ[0] is not None:
                ent.append((b, blk.succ[0]))
            if len(blk.succ) > 1 and blk.succ[1] is not None:
                ex.append((b, blk.succ[1]))
    return ent, ex


def root_var(n):
    n = strip(n)
    while True:
        if n.k in ("Mem", "Idx", "Cast") and n.c:
            n = n.c[0]
        elif n.k == "Un" and n.d["op"] in ("&", "*"):
            n = n.c[0]
        elif n.k == "Call" and n.slot("obj") is not None:
            n = n.slot("obj")
        else:
            return n


def m07(a):
    P, F = a.P, Flow(a)
    nl = 0
    for fn in P.funcs.values():
        if fn.impl or fn.file.endswith((".l", ".yy.cc")) or "sla" in fn.file.split("/")[-1]:
            continue
        for r in P.all_nodes(fn):
            h = read_handle(r) or helper_reads(a, r)
            if h is None or not P.reachable(r):
                continue
            key, dests = h
            pos = P.position(r)
            for L in loops_of(r):
                info = loop_info(a, L)
                if info is not None and info.kind in ("count", "iter", "range"):
                    continue
                if L.k == "ForRange":
                    continue
                ent, ex = body_edge(fn, L)
                nl += 1
                bad = None
                for s in (S.FN, S.FE):
                    env = Env({key: s})
                    r1 = F.run(fn, pos, env, None, stop_at=lambda b, t, e: (b, t) in ent)
                    if not any(k == "hit" for k, _, _ in r1):
                        continue
                    for b, t in ent:
                        r2 = F.run(fn, (t, -1), env, lambda x, e: ("hit", x) if x is r else None)
                        if any(k == "hit" for k, _, _ in r2):
                            bad = s
                what = "loop reading a file in %s" % short(fn.q)
                a.check(bad is None, "M07.ends", fn.where(L), what,
                        "%s: the loop does not end when a read %s" % (what, "fails (over-long line, I/O error)" if bad == S.FN else "meets the end of the file"))
                # data delivered together with end-of-file
                vs = set()
                for d in dests:
                    y = root_var(d)
                    if y.k == "Var" and not re.match(r"(const )?(int|long|unsigned|char)$", y.ct or y.t or ""):
                        vs.add(y.d["v"])
                    elif y.k == "Var" and r.d.get("oper") == ">>":
                        vs.add(y.d["v"])
                if not vs:
                    continue
                rid = set(y.id for y in r.walk())

                def use(x, e):
                    if x is r:
                        return "hit", x
                    if x.id in rid:
                        return None
                    for y in x.walk():
                        if y.k == "Var" and y.d["v"] in vs and y.id not in rid:
                            return "stop", x
                    return None
                res = F.run(fn, pos, Env({key: S.OE}), use)
                lost = [k for k, x, e in res if k in ("hit", "return")]
                a.check(not lost, "M07.last", fn.where(r), "data read together with end-of-file in %s" % short(fn.q),
                        "%s drops a last line or value that is not followed by a newline" % short(fn.q))
    a.need("M07", nl, 6, "reading loops")
    # the character dropped from the end of a line is a newline
    for fn in P.funcs.values():
        if fn.impl:
            continue
        for n, lhs, op, rhs in assigns(P, fn):
            if lhs.k != "Idx" or a.E.ev(rhs) != ZERO or not re.match(r"char", lhs.t or ""):
                continue
            if not any(re.search(r"strlen\(|\bsize\(|length\(", str(x)) for v in a.E.ev(lhs.c[1]) for s_, m in v for x in m) or \
               not all(len(q) == 2 and any(s_ < 0 for s_, m in q) for q in a.E.ev(lhs.c[1])):
                continue
            k = place_key(a.E, lhs)
            good = False
            for c, t in P.facts_at(n):
                c = strip(c)
                if c.k == "Bin" and (c.d["op"] == "==") == (t is True) and c.d["op"] in ("==", "!="):
                    for i in (0, 1):
                        z = strip(c.c[1 - i])
                        if place_key(a.E, strip(c.c[i])) == k and z.k in ("Chr", "Lit") and z.d.get("v") in (10, "\n"):
                            good = True
            a.check(good, "M07.newline", fn.where(n), "only a newline is dropped from the end of a line in %s" % short(fn.q),
                    "%s drops the last character of a line without testing that it is a newline" % short(fn.q))


# ---------------------------------------------------------------- M08
def capacity(a, n):
    """bytes of the character array an expression designates (offset 0), or None"""
    x = strip(n)
    if x.k == "Un" and x.d["op"] == "&":
        y = strip(x.c[0])
        if y.k == "Idx":
            return capacity(a, y.c[0]) if strip(y.c[1]).k == "Lit" and strip(y.c[1]).d["v"] == 0 else None
        x = y
    for t in (x.ct or "", x.t or ""):
        m = re.match(r"(?:const )?(?:unsigned |signed )?char ?\[(\d+)\]$", t)
        if m:
            return int(m.group(1))
    return None


def is_chararray(a, n):
    return capacity(a, n) is not None


def cval(a, n):
    x = strip(n)
    cv = x.d.get("cv", x.d.get("v") if x.k == "Lit" else None)
    if isinstance(cv, (int, float)):
        return int(cv)
    v = a.E.ev(n)
    if len(v) == 1:
        (p,) = v
        if not p:
            return 0
        if len(p) == 1:
            (s, m), = p
            c = constm(m)
            if c is not None:
                return int(s * c)
    return None


def alloc_of(a, n):
    """size expressions of the allocations a pointer expression may hold; None when unknown"""
    x = strip(n)
    res = []
    defs = []
    if x.k == "Var":
        D = fn_defs(a.P, x.fn)
        pos = a.P.position(x)
        ds, entry = a.E.reaching(x.fn, x.d["v"], pos)
        if entry:
            return None
        defs = [d.rhs for d in ds if d.field is None]
    elif x.k == "Mem":
        k = place_key(a.E, x)
        defs = [n2.c[1] for n2 in a.P.all_nodes(x.fn) if n2.k == "Assign" and n2.d["op"] == "=" and place_key(a.E, n2.c[0]) == k]
    if not defs:
        return None
    for d in defs:
        if d is None:
            return None
        y = strip(d)
        if y.k == "Null" or y.k == "Lit":
            continue
        if y.k == "Call" and last(y.d.get("q")) in ("malloc", "alloca", "__builtin_alloca"):
            res.append([y.c[0]])
        elif y.k == "Call" and last(y.d.get("q")) == "calloc":
            res.append(list(y.c))
        elif y.k == "Call" and last(y.d.get("q")) == "realloc":
            res.append([y.c[1]])
        elif y.k == "New" and y.d.get("arr"):
            sz = y.slot("size") or (y.c[0] if y.c else None)
            if sz is None:
                return None
            res.append([sz])
        else:
            return None
    return res


def fits_source(a, sizes, src):
    """one of the factor lists is strlen(src)+k, k>=1 (times sizeof(char))"""
    key = place_key(a.E, strip(src))
    for fl in sizes:
        good = False
        for f in fl:
            for y in f.walk():
                if y.k == "Bin" and y.d["op"] == "+":
                    xs = [strip(z) for z in y.c]
                    ln = [z for z in xs if z.k == "Call" and last(z.d.get("q")) == "strlen" and place_key(a.E, strip(z.c[0])) == key]
                    lit = [z for z in xs if z.k == "Lit" and z.d["v"] >= 1]
                    if ln and lit:
                        good = True
                if y.k == "Var":
                    v = y.fn.vars[y.d["v"]]
                    d = Flow(a).onedef(y)
                    if d is not None:
                        for z in d.walk():
                            if z.k == "Bin" and z.d["op"] == "+":
                                xs = [strip(w) for w in z.c]
                                if any(w.k == "Call" and last(w.d.get("q")) == "strlen" and place_key(a.E, strip(w.c[0])) == key for w in xs) and \
                                   any(w.k == "Lit" and w.d["v"] >= 1 for w in xs):
                                    good = True
        if not good:
            return False
    return bool(sizes)


SCAN = re.compile(r"%(\*?)(\d*)((?:hh|h|ll|l|L|q|j|z|t)?)(\[\^?\]?[^\]]*\]|[a-zA-Z%])")
WIDE = {"d": 11, "i": 11, "u": 10, "c": 1, "x": 8, "o": 11, "X": 8, "p": 18}


def fmt_of(a, n):
    """string literals the format argument may be"""
    x = strip(n)
    if x.k == "Str":
        return [x.d["v"]]
    if x.k == "Cond":
        r = []
        for y in x.kids[1:]:
            z = fmt_of(a, y)
            if z is None:
                return None
            r += z
        return r
    if x.k == "Var":
        d = Flow(a).onedef(x)
        if d is not None:
            return fmt_of(a, d)
        pos = a.P.position(x)
        ds, entry = a.E.reaching(x.fn, x.d["v"], pos)
        if not entry and ds and all(q.rhs is not None and q.field is None for q in ds):
            r = []
            for q in ds:
                z = fmt_of(a, q.rhs)
                if z is None:
                    return None
                r += z
            return r
    return None


def strcap(a, n):
    """largest number of characters (without the terminator) a string expression can hold, None when unbounded"""
    x = strip(n)
    if x.k == "Str":
        return len(x.d["v"])
    c = capacity(a, x)
    if c is not None:
        return c - 1
    if x.k == "Cond":
        cs = [strcap(a, y) for y in x.kids[1:]]
        return None if None in cs else max(cs)
    if x.k == "Var" and x.fn is not None:
        d = Flow(a).onedef(x)
        if d is not None and strip(d) is not x:
            return strcap(a, d)
        if x.d["v"] in x.fn.params:
            i = x.fn.params.index(x.d["v"])
            cs = [(c_, m) for c_, m in a.P.callers.get(x.fn.usr, ())]
            if cs:
                vs = [strcap(a, m.c[i]) if i < len(m.c) else None for c_, m in cs]
                return None if None in vs else max(vs)
    if x.k == "Call" and last(x.d.get("q")) in ("strtok", "strtok_r", "strchr", "strrchr", "strstr") and x.c:
        # part of the tokenised string
        y = strip(x.c[0])
        if y.k not in ("Null", "Lit"):
            return strcap(a, x.c[0])
    return None


def m08(a):
    P, F = a.P, Flow(a)
    ns = 0
    for fn in P.funcs.values():
        if fn.impl or fn.file.endswith((".yy.cc",)) or "LSHack" in fn.file:
            continue
        for n in P.all_nodes(fn):
            if n.k != "Call" or not P.reachable(n):
                continue
            q = n.d.get("q") or ""
            nm = last(q)
            w = fn.where(n)
            if [g for g in P.resolve(n) if g.blocks]:
                continue
            if nm in ("sscanf", "fscanf", "scanf", "vsscanf"):
                k = 0 if nm == "scanf" else 1
                fs = fmt_of(a, n.c[k]) if len(n.c) > k else None
                if fs is None:
                    continue
                for f in fs:
                    ai = k + 1
                    for m in SCAN.finditer(f):
                        star, width, _, conv = m.groups()
                        if conv == "%":
                            continue
                        if star:
                            continue
                        if conv[0] in "s[" or conv == "c":
                            dst = n.c[ai] if ai < len(n.c) else None
                            cap_ = capacity(a, dst) if dst is not None else None
                            ns += 1
                            if cap_ is None:
                                al = alloc_of(a, dst) if dst is not None else None
                                okk = bool(al) and fits_source(a, al, n.c[0])
                                a.check(okk, "M08.scan", w, "text read into an allocation of the source's length in %s" % short(fn.q),
                                        "%s reads text into a buffer whose size is not known to hold it" % short(fn.q))
                            else:
                                lim = int(width) + (conv != "c") if width else (1 if conv == "c" else None)
                                if lim is None and nm == "sscanf":
                                    sc = strcap(a, n.c[0])
                                    lim = None if sc is None else sc + 1
                                a.check(lim is not None and lim <= cap_, "M08.scan", w, "at most %s characters into a buffer of %d in %s" % (lim, cap_, short(fn.q)),
                                        "%s reads %s characters into a buffer of %d" % (short(fn.q), "an unlimited number of" if lim is None else "up to %d" % lim, cap_))
                        ai += 1
            elif nm in ("strcpy", "stpcpy", "strcat", "gets"):
                ns += 1
                if nm == "gets":
                    a.fail("M08.copy", w, "%s reads an unlimited line with gets" % short(fn.q))
                    continue
                cap_ = capacity(a, n.c[0])
                al = alloc_of(a, n.c[0]) if cap_ is None else None
                sc = strcap(a, n.c[1])
                if cap_ is not None:
                    okk = nm != "strcat" and sc is not None and sc + 1 <= cap_
                else:
                    okk = bool(al) and nm != "strcat" and (fits_source(a, al, n.c[1]) or (
                        sc is not None and all(len(f) == 1 and (cval(a, f[0]) or 0) > sc for f in al)))
                a.check(okk, "M08.copy", w, "text copied into a large enough buffer in %s" % short(fn.q),
                        "%s copies text into a buffer not known to be large enough" % short(fn.q))
            elif nm in ("sprintf", "vsprintf"):
                ns += 1
                cap_ = capacity(a, n.c[0])
                fs = fmt_of(a, n.c[1])
                okk = cap_ is not None and fs is not None and all(self_bounded(a, f, n.c[2:]) is not None and self_bounded(a, f, n.c[2:]) < cap_ for f in fs)
                a.check(okk, "M08.copy", w, "formatted text fits in %s" % short(fn.q), "%s formats text into a buffer not known to be large enough" % short(fn.q))
            elif nm in ("snprintf", "vsnprintf", "fgets", "strncpy", "fread", "memcpy", "memmove", "strftime", "gethostname", "readlink", "read", "strncat") or \
                    (nm in ("getline", "read", "get") and n.slot("obj") is not None and STREAM.search((n.slot("obj").t or "") + (n.slot("obj").ct or ""))):
                args = n.c
                di, si = {"fread": (0, None), "memcpy": (0, 2), "memmove": (0, 2), "strncpy": (0, 2), "strncat": (0, 2), "read": (1, 2)}.get(nm, (0, 1))
                if n.slot("obj") is not None:
                    di, si = 0, 1
                if nm == "fread" and len(args) > 2:
                    x, y = cval(a, args[1]), cval(a, args[2])
                    size = None if x is None or y is None else x * y
                elif si is None or len(args) <= si:
                    continue
                else:
                    size = cval(a, args[si])
                if len(args) <= di:
                    continue
                cap_ = capacity(a, args[di])
                if cap_ is None:
                    # a position inside an array, or a pointer: remaining room must be tested
                    base = inside(a, args[di])
                    if base is not None and nm in ("memcpy", "memmove"):
                        ns += 1
                        okk = room_tested(a, n, args[di], args[si])
                        a.check(okk, "M08.room", w, "remaining room tested before the copy in %s" % short(fn.q),
                                "%s copies into the middle of a buffer without testing the remaining room" % short(fn.q))
                    elif is_ptrparam(a, args[di]) and size is not None:
                        ns += 1
                        bad = [c for c in param_caps(a, args[di]) if c is not None and c < size]
                        a.check(not bad, "M08.bound", w, "bounded write through a parameter in %s" % short(fn.q),
                                "%s writes up to %d characters into a buffer of %d" % (short(fn.q), size, min(bad) if bad else 0))
                    continue
                ns += 1
                if size is None and nm in ("memcpy", "memmove", "strncpy"):
                    okk = room_tested(a, n, args[di], args[si])
                elif size is None:
                    continue
                else:
                    okk = size <= cap_
                a.check(okk, "M08.bound", w, "bound %s fits the buffer of %d in %s" % (size, cap_, short(fn.q)),
                        "%s writes up to %s characters into a buffer of %d" % (short(fn.q), size if size is not None else "an untested number of", cap_))
            elif n.d.get("oper") == ">>" and len(operands(n)) == 2 and is_chararray(a, operands(n)[1]):
                ns += 1
                a.fail("M08.copy", w, "%s reads unlimited text into a character array" % short(fn.q))
    a.need("M08", ns, 15, "bounded or unbounded text copies")


def self_bounded(a, f, args):
    """longest text a format can produce, None when unbounded"""
    n, i, pos = 0, 0, 0
    for m in re.finditer(r"%([-+ #0]*)(\d*)(?:\.(\d+))?((?:hh|h|ll|l|L|q|j|z|t)?)([a-zA-Z%])", f):
        n += m.start() - pos
        pos = m.end()
        w, c = int(m.group(2) or 0), m.group(5)
        if c == "%":
            n += 1
            continue
        if c == "s":
            s = strcap(a, args[i]) if i < len(args) else None
            if m.group(3):
                s = int(m.group(3))
            if s is None:
                return None
            n += max(w, s)
        elif c in WIDE:
            n += max(w, WIDE[c] * (2 if "l" in m.group(4) else 1))
        else:
            return None
        i += 1
    return n + len(f) - pos


def inside(a, n):
    x = strip(n)
    if x.k == "Un" and x.d["op"] == "&" and strip(x.c[0]).k == "Idx":
        return strip(x.c[0]).c[0] if capacity(a, strip(x.c[0]).c[0]) is not None else None
    if x.k == "Bin" and x.d["op"] == "+":
        for y in x.c:
            if capacity(a, y) is not None:
                return y
    return None


def room_tested(a, n, dst, size):
    """a test (assertion or branch) on every path to n puts the position plus the size below the capacity"""
    P, fn = a.P, n.fn
    x = strip(dst)
    base = inside(a, dst)
    cap_ = capacity(a, base if base is not None else dst)
    keys = [place_key(a.E, y) for y in x.walk() if y.k in ("Var", "Mem") and y.k == "Var" and capacity(a, y) is None]
    sz = strip(size)
    if cval(a, sz) is None:
        keys.append(place_key(a.E, sz))
    es = set()
    for b, i, ats in branches(a, fn):
        for c, t in ats:
            c = strip(c)
            if c.k != "Bin" or c.d["op"] not in ("<", "<=", ">", ">=") or not isinstance(t, bool):
                continue
            op = c.d["op"] if t else {"<": ">=", ">": "<=", "<=": ">", ">=": "<"}[c.d["op"]]
            lo, hi = (c.c[0], c.c[1]) if op in ("<", "<=") else (c.c[1], c.c[0])
            h = strip(hi)
            lim = h.d.get("cv") if h.k in ("SizeOf", "Global", "Bin") else cval(a, h)
            have = set(place_key(a.E, strip(y)) for y in lo.walk())
            if lim is not None and lim <= cap_ and all(k in have for k in keys):
                es.add((b, i))
    return uncut(a, fn, (fn.entry, -1), P.position(n), es) is None


def is_ptrparam(a, n):
    x = strip(n)
    return x.k == "Var" and x.fn is not None and x.d["v"] in x.fn.params


def param_caps(a, n, depth=2):
    x = strip(n)
    i = x.fn.params.index(x.d["v"])
    res = []
    for c, m in a.P.callers.get(x.fn.usr, ()):
        if i < len(m.c):
            y = strip(m.c[i])
            cp = capacity(a, y)
            if cp is None and depth and is_ptrparam(a, y):
                res += param_caps(a, y, depth - 1)
            else:
                res.append(cp)
    return res


RULES = {"I01": [i01], "I02": [i02], "M06": [m06], "M07": [m07], "M08": [m08]}
TEXT = {
    "I01.reported": "from every open of a named file, assuming it failed, every path ends in an exit with a failure status before the handle is used (the stream or FILE pointer itself being what is tested); failure results handed to callers are followed there",
    "I01.message": "on each of those paths a message is printed",
    "I02.reported": "from every write to an output file, assuming the data does not reach the file, every path ends in a failure exit before the handle is closed, deleted or goes out of scope (close/flush results tested)",
    "M06.fatal": "from every printed error diagnostic, every path ends in an exit with a failure status, or in a failure result that every caller turns into one",
    "M06.parse": "a failure result of the grammar or a non-empty error list makes the model reader fail, and nothing records errors after the list has been counted",
    "M06.list": "every recorded error is linked into the list, and a non-empty list yields a failure result",
    "M07.ends": "assuming a read inside a loop fails (with or without end-of-file), no path starts another iteration and reads again",
    "M07.last": "assuming a read delivers data together with end-of-file, the data is used before the next read or the end of the function",
    "M07.newline": "a character cut from the end of a line (store of 0 at length-1) is known to be a newline there",
    "M08.scan": "every text conversion has a width, or a source, that fits the destination array",
    "M08.copy": "every unbounded copy goes into an allocation sized from the same source, or has a bounded source",
    "M08.bound": "the size argument of every bounded copy or read is at most the destination's capacity",
    "M08.room": "copies into the middle of an array are preceded on every path by a test of the remaining room",
}
