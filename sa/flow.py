"""State-directed exploration of the control flow graph: follow only the branches consistent with an assumed state of a
stream, a FILE pointer, a call's result or a condition, and see where control can end up."""
import re
from base import *
from rules.common import place_key, strip

STREAM = re.compile(r"\bbasic_\w*stream\b|\b[io]?f?stream\b")
CFILE = re.compile(r"\b_IO_FILE\b|\bFILE\b")
TESTS = {"operator bool", "operator!", "operator void *", "fail", "good", "bad", "eof", "is_open", "rdstate"}
CTESTS = {"ferror", "feof", "fileno", "clearerr"}


def last(q):
    return (q or "").split("::")[-1]


def hkey(n):
    """identity of the object an expression designates: references, pointers and casts dropped"""
    while True:
        if n.k == "Cast" or (n.k == "Un" and n.d["op"] in ("*", "&")):
            n = n.c[0]
            continue
        if n.k == "Call" and n.slot("obj") is not None and last(n.d.get("q")) in ("get", "operator->", "operator*"):
            n = n.slot("obj")
            continue
        if n.k == "Ctor" and len(n.c) == 1:
            n = n.c[0]
            continue
        return place_key(None, n)


def stream_root(n):
    """the stream an expression of stream type designates: chains of <<, >>, getline, write... followed to their object"""
    while True:
        if n.k == "Cast" or (n.k == "Un" and n.d["op"] in ("*", "&")):
            n = n.c[0]
        elif n.k == "Call" and STREAM.search((n.t or "") + (n.ct or "")) and (n.slot("obj") is not None or n.c) and not n.d.get("repo"):
            n = n.slot("obj") if n.slot("obj") is not None and STREAM.search((n.slot("obj").t or "") + (n.slot("obj").ct or "")) else n.c[0] if n.c else n.slot("obj")
        else:
            return n


class Env(object):
    """what is assumed: st maps handle keys to stream states, tr maps condition/place keys to truth values"""
    __slots__ = ("st", "tr", "_k")

    def __init__(self, st=(), tr=()):
        self.st, self.tr = dict(st), dict(tr)
        self._k = (tuple(sorted(self.st.items(), key=str)), tuple(sorted(self.tr.items(), key=str)))

    def put(self, st=None, tr=None, drop=()):
        s, t = dict(self.st), dict(self.tr)
        s.update(st or {})
        t.update(tr or {})
        for k in drop:
            s.pop(k, None)
            t.pop(k, None)
        return Env(s, t)


# stream states: fail / eof / open bits; FILE states: null pointer, error flag, end flag, pending (shows on close)
class S(object):
    OPENFAIL = "openfail"      # stream in fail state, FILE* null
    FN = "fail"                # read failed, not at end
    FE = "fail+eof"            # read failed at end
    OE = "ok+eof"              # read delivered the last data and met the end
    PEND = "pending"           # written data will not reach the file; not visible yet
    VIS = "writefail"          # failure visible


def neg(x):
    return None if x is None else not x


class Flow(object):
    def __init__(self, a):
        self.a, self.P, self.E = a, a.P, a.E

    # -- conditions
    def truth(self, n, env, depth=0):
        n = strip(n)
        k = n.k
        cv = n.d.get("cv", n.d.get("v") if k in ("Bool", "Lit") else None)
        if cv is not None and k in ("Bool", "Lit", "Global", "Bin", "SizeOf"):
            return bool(cv)
        if k == "Null":
            return False
        t = env.tr.get(("n", n.fn.usr if n.fn else None, n.id))
        if t is not None:
            return t
        if k == "Un" and n.d["op"] == "!":
            return neg(self.truth(n.c[0], env, depth))
        if k == "Bin" and n.d["op"] in ("&&", "||"):
            x, y = self.truth(n.c[0], env, depth), self.truth(n.c[1], env, depth)
            if n.d["op"] == "&&":
                return False if x is False or y is False else (True if x and y else None)
            return True if x or y else (False if x is False and y is False else None)
        if k == "Cond" and len(n.kids) == 3:
            c = self.truth(n.kids[0], env, depth)
            if c is None:
                x, y = self.truth(n.kids[1], env, depth), self.truth(n.kids[2], env, depth)
                return x if x == y else None
            return self.truth(n.kids[1] if c else n.kids[2], env, depth)
        if k == "Bin" and n.d["op"] in ("==", "!="):
            for i in (0, 1):
                z = strip(n.c[1 - i])
                zero = z.k == "Null" or (z.k in ("Lit", "Bool", "Chr") and not z.d.get("v")) or z.d.get("cv") == 0
                if zero:
                    x = self.truth(n.c[i], env, depth)
                    if x is not None:
                        return x == (n.d["op"] == "!=")
            r = self.compare(n, env)
            if r is not None:
                return r
        if k == "Bin" and n.d["op"] in ("<", ">", "<=", ">="):
            r = self.compare(n, env)
            if r is not None:
                return r
        if k == "Bin" and n.d["op"] in ("&", "|") and depth < 4:
            x, y = self.truth(n.c[0], env, depth + 1), self.truth(n.c[1], env, depth + 1)
            if n.d["op"] == "|":
                return True if x or y else (False if x is False and y is False else None)
            return False if x is False or y is False else None
        if k == "Assign" and n.d["op"] == "=":
            r = self.truth(n.c[1], env, depth)
            return r if r is not None else self.truth(n.c[0], env, depth)
        if k == "Call":
            return self.calltruth(n, env, depth)
        if k in ("Var", "Mem", "Un", "Idx", "Global"):
            key = place_key(self.E, n)
            t = env.tr.get(key)
            if t is not None:
                return t
            s = env.st.get(hkey(n))
            if s == S.OPENFAIL and CFILE.search((n.ct or "") + (n.t or "")):
                return False
            if s is not None and CFILE.search((n.ct or "") + (n.t or "")):
                return True
            if k == "Var" and depth < 4 and n.fn is not None:
                d = self.onedef(n)
                if d is not None:
                    return self.truth(d, env, depth + 1)
        return None

    def onedef(self, n):
        """the only definition reaching a local's use"""
        pos = self.P.position(n)
        if pos is None:
            return None
        defs, entry = self.E.reaching(n.fn, n.d["v"], pos)
        if not entry and len(defs) == 1 and defs[0].kind in ("init", "=") and defs[0].field is None and defs[0].rhs is not None:
            return defs[0].rhs
        return None

    def compare(self, n, env):
        """comparisons of the count a formatted read or write returned"""
        op = n.d["op"]
        for i in (0, 1):
            x, z = strip(n.c[i]), strip(n.c[1 - i])
            if x.k == "Var":
                d = self.onedef(x)
                x = strip(d) if d is not None else x
            if x.k != "Call":
                continue
            nm = last(x.d.get("q"))
            if nm in ("fwrite", "fread", "fscanf", "fputs", "fprintf", "vfprintf", "putc", "fputc", "getc", "fgetc", "fclose", "fflush", "gcount", "getchar"):
                h = self.fileof(x)
                s = env.st.get(h) if h is not None else None
                if s is None:
                    continue
                if nm == "fwrite" and s == S.VIS or nm == "fread" and s in (S.FN, S.FE):
                    # short count
                    o = op if i == 0 else {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(op, op)
                    if z.k == "Lit" and z.d["v"] == 0:
                        return {"==": True, "!=": False, ">": False, "<=": True}.get(o)
                    return {"==": False, "!=": True, "<": True, ">=": False}.get(o)
                if nm == "fwrite":
                    o = op
                    return {"==": True, "!=": False, "<": False, ">=": True}.get(o) if i == 0 else None
                bad = (nm in ("fputs", "fprintf", "vfprintf", "putc", "fputc") and s == S.VIS) or \
                    (nm in ("fclose", "fflush") and s == S.PEND) or \
                    (nm in ("fscanf", "getc", "fgetc") and s in (S.FN, S.FE))
                zc = z.d.get("cv", z.d.get("v"))
                if z.k == "Un" and z.d["op"] == "-" and strip(z.c[0]).k == "Lit":
                    zc = -strip(z.c[0]).d["v"]
                if not isinstance(zc, (int, float)):
                    continue
                val = -1 if bad else None
                if val is None and nm in ("fclose", "fflush"):
                    val = 0
                if val is None:
                    continue
                l, r = (val, zc) if i == 0 else (zc, val)
                return {"==": l == r, "!=": l != r, "<": l < r, ">": l > r, "<=": l <= r, ">=": l >= r}[op]
        return None

    def fileof(self, n):
        """handle key of the FILE* argument of a C library call"""
        for x in n.c:
            if CFILE.search((x.ct or "") + (x.t or "")):
                return hkey(x)
        return None

    def calltruth(self, n, env, depth):
        nm = last(n.d.get("q"))
        if n.d.get("oper") == "!":
            nm = "operator!"
        o = n.slot("obj")
        if o is None and nm in TESTS and n.c:
            o = n.c[0]
        if nm in TESTS and o is not None:
            r = stream_root(o)
            if r.k == "Var" and STREAM.search((r.t or "") + (r.ct or "")) is None:
                d = self.onedef(r)
            s = env.st.get(hkey(r))
            if s is None:
                return None
            fail = s in (S.OPENFAIL, S.FN, S.FE, S.VIS)
            eof = s in (S.FE, S.OE)
            if nm in ("operator bool", "operator void *"):
                return not fail
            if nm == "operator!" or nm == "fail":
                return fail
            if nm == "good":
                return not fail and not eof
            if nm == "bad":
                return True if s == S.VIS else None if s == S.FN else False
            if nm == "eof":
                return eof
            if nm == "is_open":
                return s != S.OPENFAIL
            return None
        h = self.fileof(n) if nm in ("ferror", "feof", "fgets", "fclose", "fflush", "fopen", "fputs", "fread", "fscanf", "getc", "fgetc") else None
        if h is not None and h in env.st:
            s = env.st[h]
            if nm == "ferror":
                return s == S.VIS or s == S.FN
            if nm == "feof":
                return s in (S.FE, S.OE)
            if nm == "fgets":
                return False if s in (S.FN, S.FE) else True if s == S.OE else None
            if nm in ("fclose", "fflush"):
                return s == S.PEND     # non-zero result: failure
            if nm == "fread":
                return False if s in (S.FN, S.FE) else None
            return None
        rs = [g for g in self.P.resolve(n) if g.blocks]
        if len(rs) == 1 and depth < 3:
            g = rs[0]
            e2 = self.bind(n, g, env)
            if e2 is None and not self.reads_state(g, env):
                return None
            e2 = e2 or env
            outs = set()
            for kind, node, _ in self.run(g, (g.entry, -1), e2, depth=depth + 1):
                if kind == "return":
                    if node is None or not node.c:
                        return None
                    outs.add(self.truth(node.c[0], e2, depth + 1))
            return outs.pop() if len(outs) == 1 else None
        return None

    def reads_state(self, g, env):
        return any(isinstance(k, tuple) and k and k[0] == "m" for k in env.st)

    def bind(self, call, g, env):
        """the environment inside callee g: handles passed as arguments"""
        st, tr = {}, {}
        for i, x in enumerate(call.c):
            if i >= len(g.params):
                break
            k = hkey(stream_root(x)) if STREAM.search((x.t or "") + (x.ct or "")) else hkey(x)
            if k in env.st:
                st[("v", g.params[i])] = env.st[k]
            t = g.vars[g.params[i]]["t"]
            if t in ("bool", "int", "const bool", "const int"):
                v = self.truth(x, env, 2)
                if v is not None:
                    tr[("v", g.params[i])] = v
        for k, v in env.st.items():
            if isinstance(k, tuple) and k[0] == "m" and k[2] == ("this",):
                st[k] = v
        if not st and not tr:
            return None
        return Env(st, tr)

    # -- exploration
    def run(self, fn, pos, env, on=None, depth=0, stop_at=None, limit=20000):
        """follow every consistent path from just after pos.  on(elem, env) -> None, ("stop",), ("env", env'),
        ("hit", tag).  Returns [(kind, node, env)] with kind: 'return' (function left normally), 'noreturn', 'hit'."""
        out, seen = [], set()
        P = self.P
        st = [(pos[0], pos[1] + 1, env)]
        n = 0
        while st:
            b, i, e = st.pop()
            n += 1
            if n > limit:
                out.append(("limit", None, e))
                return out
            blk = fn.blocks[b]
            dead = False
            for j in range(i, len(blk.el)):
                x = blk.el[j]
                if not isinstance(x, Node):
                    continue
                if on is not None:
                    r = on(x, e)
                    if r is not None:
                        if r[0] == "hit":
                            out.append(("hit", x, e))
                            dead = True
                            break
                        if r[0] == "stop":
                            dead = True
                            break
                        if r[0] == "env":
                            e = r[1]
                if x.k == "Call" and P.call_noreturn(x):
                    out.append(("noreturn", x, e))
                    dead = True
                    break
                if x.k in ("Call", "Ctor") and depth < 3:
                    rs = [g for g in P.resolve(x) if g.blocks]
                    if len(rs) == 1:
                        e2 = self.bind(x, rs[0], e)
                        if e2 is not None and e2.st:
                            sub = self.run(rs[0], (rs[0].entry, -1), e2, self.inner(on, x, e), depth + 1)
                            if sub and not any(k == "return" for k, _, _ in sub):
                                out.extend(sub)
                                dead = True
                                break
                            out.extend(s for s in sub if s[0] == "hit")
                if x.k == "Return":
                    out.append(("return", x, e))
                    dead = True
                    break
                # assignments forget what was assumed about the place
                if x.k == "Assign" and e.tr:
                    k = place_key(self.E, x.c[0])
                    if k in e.tr:
                        e = e.put(drop=[k])
                elif x.k == "Un" and x.d["op"] in ("++", "--", "post++", "post--") and e.tr:
                    k = place_key(self.E, x.c[0])
                    if k in e.tr:
                        e = e.put(drop=[k])
            if dead:
                continue
            if b == fn.exit:
                out.append(("return", None, e))
                continue
            if not any(s is not None for s in blk.succ):
                # pruned after a no-return call
                x = next((y for y in reversed(blk.el) if isinstance(y, Node)), None)
                out.append(("noreturn", x, e))
                continue
            for k, s in enumerate(blk.succ):
                if s is None:
                    continue
                if blk.cond is not None and len(blk.succ) == 2 and blk.tk != "SwitchStmt":
                    bad = False
                    for c, t in P.branch_atoms(fn, b, k == 0):
                        v = self.truth(c, e)
                        if v is not None and isinstance(t, bool) and v != t:
                            bad = True
                    if bad:
                        continue
                if stop_at is not None:
                    r = stop_at(b, s, e)
                    if r:
                        out.append(("hit", None, e))
                        continue
                key = (s, e._k)
                if key in seen:
                    continue
                seen.add(key)
                st.append((s, 0, e))
        return out

    def inner(self, on, call, env):
        return on

    def fatal_call(self, n):
        """a no-return call that reports failure: exit with a non-zero status, abort, failed assertion"""
        if n is None or n.k != "Call":
            return True
        nm = last(n.d.get("q"))
        if nm in ("exit", "_exit", "_Exit", "quick_exit"):
            x = strip(n.c[0]) if n.c else None
            cv = None if x is None else x.d.get("cv", x.d.get("v"))
            if x is not None and x.k == "Un" and x.d["op"] == "-":
                return True
            if cv is None and x is not None and x.k == "Var":
                v = self.E.ev(x)
                return v != ZERO
            return cv is None or bool(cv)
        rs = [g for g in self.P.resolve(n) if g.blocks]
        for g in rs:
            for y in self.P.all_nodes(g):
                if y.k == "Call" and last(y.d.get("q")) in ("exit", "_exit", "_Exit") and self.P.reachable(y) and not self.fatal_call(y):
                    e2 = self.bind(n, g, Env())
                    return self.via_params(n, g, y)
        return True

    def via_params(self, call, g, ex):
        return False

    def failvalue(self, r, env):
        """the constant a return statement yields, when it is one: 'zero', 'nonzero' or None"""
        if r is None or not r.c:
            return None
        x = strip(r.c[0])
        t = self.truth(x, env)
        if t is None:
            cv = x.d.get("cv", x.d.get("v") if x.k in ("Lit", "Bool") else None)
            if x.k == "Un" and x.d["op"] == "-":
                return "nonzero"
            if cv is None:
                return None
            t = bool(cv)
        return "nonzero" if t else "zero"

    def leads_to_failure(self, fn, pos, env, on=None, depth=3, trail=()):
        """every consistent path from pos ends the program with a failure status (directly, or by a failure result that
        every caller turns into one).  -> (True, '') or (False, why)"""
        res = self.run(fn, pos, env, on)
        for kind, n, e in res:
            if kind == "hit":
                return False, "%s (%s)" % ("continues with it", fn.where(n) if n is not None else fn.q)
            if kind == "limit":
                return False, "too many paths"
            if kind == "noreturn":
                if not self.fatal_call(n):
                    return False, "ends the program with a success status at %s" % fn.where(n)
                continue
            v = self.failvalue(n, e)
            if fn.q == "main":
                if v == "nonzero":
                    continue
                return False, "main returns success"
            if v is None:
                return False, "control continues after %s returns" % short(fn.q)
            cs = [(c, m) for c, m in self.P.callers.get(fn.usr, ()) if c is not fn]
            if not cs:
                continue
            if depth <= 0:
                return False, "too deep"
            for c, m in cs:
                if m.k != "Call":
                    return False, "result lost"
                e2 = Env({}, {("n", c.usr, m.id): v == "nonzero"})
                p = self.P.position(m)
                if p is None or p[0] not in c.reach:
                    continue
                okk, why = self.leads_to_failure(c, p, e2, None, depth - 1)
                if not okk:
                    return False, "the failure result of %s is not handled at %s: %s" % (short(fn.q), c.where(m), why)
        return True, ""
