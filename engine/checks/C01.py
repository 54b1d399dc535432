"""C01: no exception leaves the C / Fortran interface; failures are reported with the
sentinel of the return type and recorded."""
from ..core import *
from ..throws import Throws
from ..facts import Broken

SENT = {"int": lambda v: v < 0, "double": lambda v: v == -999.999, "unsigned long": lambda v: int(v) % 2 ** 64 == 2 ** 64 - 1}
TEXT = {"int": "a negative value", "double": "-999.999", "unsigned long": "npos"}


class Rets(Flow):
    """State: {erroneous?: {var: constant or None}} -- which constants locals hold on
    normal paths and on paths that went through an exception handler."""

    def __init__(self, ck, fn):
        self.ck, self.f = ck, fn
        self.out = []

    def join(self, a, b):
        r = {}
        for e in set(a) | set(b):
            if e in a and e in b:
                r[e] = {v: a[e][v] for v in a[e] if v in b[e] and a[e][v] == b[e][v]}
            else:
                r[e] = dict(a.get(e) or b.get(e) or {})
        return r

    def setv(self, st, var, expr):
        c = {}
        for e, env in st.items():
            env = dict(env)
            vals = self.ck.consts(expr, env)
            if vals is None:
                env.pop(var, None)
            else:
                env[var] = vals
            c[e] = env
        return c

    def on_decl(self, d, st):
        if len(d) > 3 and d[3] is not None:
            return self.setv(st, d[0], d[3])
        return st

    def event(self, n, st):
        if n[0] == "asg" and n[2] == "=" and n[3][0] == "v":
            return self.setv(st, n[3][2], n[4])
        if st.get("E") is not None and callee(n) and self.ck.records(callee(n)[0]):
            env = dict(st["E"])
            env["@rec"] = (1,)
            st = dict(st)
            st["E"] = env
        return st

    def on_catch(self, h, st):
        env = {}
        for e in (st or {}).values():
            env = {v: c for v, c in e.items() if not env or env.get(v) == c}
        env.pop("@rec", None)
        return {"E": env}

    def on_return(self, s, st):
        if "E" in st:
            vals = self.ck.consts(s[2], st["E"]) if s[2] is not None else ()
            self.out.append((s[1], vals, "@rec" in st["E"]))
        return st


class Check:
    def __init__(self, prog):
        self.p = prog
        self.cg = CallGraph(prog)
        self.th = Throws(prog, self.cg)
        self.rec = None
        self._rec = {}
        self.globals = {}
        for h, b in prog.vars:
            if b and b != "null":
                self.globals.setdefault(h["name"], b)

    def records(self, key):
        """Does the function store the message in the error list on every path?"""
        if key in self._rec:
            return self._rec[key]
        self._rec[key] = False
        r = key in self.adders
        f = self.p.fns.get(key)
        if not r and f and f.hasbody:
            fl = Must(lambda n: callee(n) and self.records(callee(n)[0]))
            ex = [x for x in fl.run(f.body, False) if x[0] != "throw"]
            r = bool(ex) and all(x[3] for x in ex)
        self._rec[key] = r
        return r

    def consts(self, n, env, depth=0):
        """Tuple of possible constant values, or None when unknown."""
        if n is None or depth > 6:
            return None
        v = lit(n)
        if v is not None and not isinstance(v, str):
            return (v,)
        k = n[0]
        if k == "un" and n[2] == "-":
            a = self.consts(n[3], env, depth + 1)
            return tuple(-x for x in a) if a else None
        if k == "cast":
            a = self.consts(n[4], env, depth + 1)
            if a and n[3] == "unsigned long":
                a = tuple(int(x) % 2 ** 64 for x in a)
            elif a and n[3] == "int":
                a = tuple(((int(x) + 2 ** 31) % 2 ** 32) - 2 ** 31 for x in a)
            return a
        if k == "v":
            return env.get(n[2])
        if k == "g" and short(n[2]) == "npos":
            return (2 ** 64 - 1,)
        if k == "g" and n[2] in self.globals:
            import json
            return self.consts(json.loads(self.globals[n[2]]), {}, depth + 1)
        if k == "cond":
            a, b = self.consts(n[3], env, depth + 1), self.consts(n[4], env, depth + 1)
            return a + b if a and b else None
        if k == "call":
            f = self.p.fns.get(n[2])
            if f and f.hasbody:
                e2 = {}
                for prm, arg in zip(f.params, n[3]):
                    c = self.consts(arg, env, depth + 1)
                    if c:
                        e2[prm[0]] = c
                out = ()
                for r in walk_nolambda(f.body):
                    if r[0] == "ret":
                        c = self.consts(r[2], e2, depth + 1)
                        if not c:
                            return None
                        out += c
                return out or None
        return None


class Must(Flow):
    """Whether an event has happened on every path (boolean state)."""

    def __init__(self, pred):
        self.pred = pred

    def join(self, a, b):
        return a and b

    def event(self, n, st):
        return st or bool(self.pred(n))


def run(prog, rep):
    ext = sorted((f for f in prog.fns.values() if f.hasbody and f.extc
                  and f.file.startswith(("src/clib/", "src/fortran/"))), key=lambda f: (f.file, f.line))
    rep.rule("contained", 400, "every path of every extern \"C\" function of the C and Fortran interfaces: each construct that may throw "
             "(throw expression reachable through the resolved call graph) lies inside a try block with a catch-all handler, and handlers do not throw")
    rep.rule("sentinel", 400, "on every path through an exception handler the constant returned is the error value of the return type "
             "(int: negative, double: -999.999, size_t: npos)")
    rep.rule("recorded", 400, "on every such path the message is added to the error list that ct_getCanteraError reads")
    ck = Check(prog)
    ck.adders = {f.key for f in prog.fn("Cantera::Application::addError")}
    for f in ext:
        un = []
        ck.th.scan(f.body, un)
        wit = None
        for kind, n, tg in un:
            if kind in ("throw", "unknown"):
                wit = (n, "throws" if kind == "throw" else "calls an unknown callable")
                break
            for t in tg:
                w = ck.th.fn(t)
                if w:
                    wit = (n, w)
                    break
            if wit:
                break
        if wit:
            rep.bad("contained", f.file, wit[0][1], f.q, show(wit[0])[:60],
                    "an exception can leave this extern \"C\" function: " + wit[1])
        else:
            rep.ok("contained", "%s %s" % (f.where, f.q))
        ret = f.ret
        if ret not in SENT:
            continue
        fl = Rets(ck, f)
        fl.run(f.body, {"N": {}})
        for line, vals, rec in fl.out:
            if vals is None:
                continue
            bad = [v for v in vals if not SENT[ret](v)]
            if bad:
                rep.bad("sentinel", f.file, line, f.q, "handler returns %s" % bad[0],
                        "after an exception this %s function returns %s, callers test for %s" % (ret, bad[0], TEXT[ret]))
            else:
                rep.ok("sentinel", "%s:%d %s" % (f.file, line, f.q))
            if rec:
                rep.ok("recorded")
            else:
                rep.bad("recorded", f.file, line, f.q, "handler without addError",
                        "an exception is turned into an error code without recording its message")
