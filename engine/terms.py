"""Value flow: a forward pass that gives every expression a term over parameters, fields,
constants and calls, follows local variables and references, and looks into chosen helpers.
Branches on a condition that the assumed constants decide are pruned; all others are joined."""
from .core import *
from .guards import OPS

U = ("u",)


def T(n):
    return isinstance(n, tuple)


def has(t, sub):
    if t == sub:
        return True
    return any(has(x, sub) for x in t if isinstance(x, tuple))


def params_in(t):
    out = []

    def rec(x):
        if x and x[0] == "p":
            out.append(x[1])
        else:
            for y in x:
                if isinstance(y, tuple):
                    rec(y)
    rec(t)
    return out


def params_t(t):
    """All parameter terms inside t."""
    if t and t[0] == "p":
        return [t]
    out = []
    for y in t:
        if isinstance(y, tuple):
            out += params_t(y)
    return out


FILL = {"push_back", "emplace_back", "append", "assign", "insert", "operator+=", "operator=", "operator<<", "resize", "emplace"}


def tshow(t):
    if not isinstance(t, tuple) or not t:
        return str(t)
    k = t[0]
    if k == "p":
        return t[2]
    if k == "c":
        return repr(t[1])
    if k == "fld":
        return ("" if t[2] == ("this",) else tshow(t[2]) + ".") + t[1].split("::")[-1]
    if k == "this":
        return "this"
    if k == "call":
        return (tshow(t[2]) + "." if t[2] and t[2] != ("this",) else "") + short(t[1]) + "(" + ", ".join(map(tshow, t[3])) + ")"
    if k == "bin":
        return "(" + tshow(t[2]) + " " + t[1] + " " + tshow(t[3]) + ")"
    if k == "un":
        return t[1] + tshow(t[2])
    if k == "idx":
        return tshow(t[1]) + "[" + tshow(t[2]) + "]"
    if k == "u":
        return "?"
    if k == "g":
        return t[1].split("::")[-1]
    return k + "(" + ", ".join(tshow(x) for x in t[1:] if isinstance(x, tuple)) + ")"


class Val(Flow):
    inline_lambdas = False
    """State: dict of variable id -> term, plus '@must' -> frozenset of facts established on every path."""

    def __init__(self, prog, f, args=None, consts=None, inline=None, depth=0, obj=("this",), sink=None):
        self.p, self.f, self.inline, self.depth = prog, f, inline, depth
        self.consts = consts or {}
        self.obj = obj
        self.calls = sink if sink is not None else []      # (key, obj term, arg terms, node, file)
        self.lam = {}
        self.stores = []
        st = {"@must": frozenset()}
        for i, q in enumerate(f.params):
            st[q[0]] = args[i] if args and i < len(args) else ("p", i, q[1])
        self.start = st
        self.retv = {}

    def go(self):
        self.exits = self.run(self.f.body, self.start)
        return self

    def normal(self):
        return [x for x in self.exits if x[0] != "throw"]

    def must(self):
        m = None
        for x in self.normal():
            m = x[3]["@must"] if m is None else m & x[3]["@must"]
        return m if m is not None else frozenset()

    def join(self, a, b):
        if a is b:
            return a
        r = {}
        for k in a:
            if k == "@must":
                r[k] = a[k] & b[k]
            elif k in b:
                x, y = a[k], b[k]
                r[k] = x if x == y else (("built",) + tuple(sorted(set(params_t(x)) | set(params_t(y))))
                                         if "built" in (x[0], y[0]) else U)
        return r

    # -- terms
    def term(self, n, st):
        if n is None or not isnode(n):
            return U
        k = n[0]
        if k == "lit":
            v = lit(n)
            return ("c", v)
        if k == "v":
            return st.get(n[2], ("v", n[3]))
        if k == "g":
            return ("g", n[2])
        if k == "enum":
            return ("g", n[2])
        if k == "this":
            return self.obj
        if k == "m":
            return ("fld", n[3], self.term(n[2], st) if n[2] else self.obj)
        if k == "cast":
            return self.term(n[4], st)
        if k == "cond":
            t = self.truth(n[2], st)
            if t is not None:
                return self.term(n[3] if t else n[4], st)
            a, b = self.term(n[3], st), self.term(n[4], st)
            return a if a == b else ("cond", self.term(n[2], st), a, b)
        if k == "un":
            if n[2] in ("*", "&"):
                return self.term(n[3], st)
            a = self.term(n[3], st)
            if n[2] == "-" and a[0] == "c" and isinstance(a[1], (int, float)):
                return ("c", -a[1])
            return ("un", n[2], a)
        if k == "bin":
            return ("bin", n[2], self.term(n[3], st), self.term(n[4], st))
        if k == "asg":
            return self.term(n[4], st)
        if k == "idx":
            return ("idx", self.term(n[2], st), self.term(n[3], st))
        if k in ("f", "mf"):
            return ("f", n[2])
        if k == "lambda":
            return ("lam", n[1])
        c = callee(n)
        if c:
            key, obj, args = c
            if k == "op":
                if n[2] in ("*", "->") and not args:
                    return self.term(obj, st)
                if n[2] == "[]" and len(args) == 1:
                    return ("idx", self.term(obj, st), self.term(args[0], st))
                if n[2] in ("=",) and len(args) == 1:
                    return self.term(args[0], st)
            if k == "ctor" and len(args) >= 1 and key.startswith("std::vector<") and "(unsigned long" in key:
                return ("vec",)
            if k == "ctor" and len(args) == 1:
                return self.term(args[0], st)
            if k == "mcall" and short(key) in ("get", "c_str", "data", "ref") and not args and qn(key).startswith("std::"):
                return self.term(obj, st)
            if k == "call" and qn(key).startswith(("std::move", "std::forward")) and len(args) == 1:
                return self.term(args[0], st)
            r = self.retv.get(id(n))
            if r is not None:
                return r
            return ("call", key, self.term(obj, st) if obj is not None else None, tuple(self.term(a, st) for a in args))
        if k == "init":
            return ("init",) + tuple(self.term(x, st) for x in children(n))
        if k == "new":
            return ("new",) + tuple(self.term(x, st) for x in children(n))
        return U

    def truth(self, c, st):
        """Value of a condition under the assumed constants, else None."""
        if c[0] == "cast":
            return self.truth(c[4], st)
        if c[0] == "lit":
            v = lit(c)
            return bool(v) if v is not None else None
        if c[0] == "un" and c[2] == "!":
            t = self.truth(c[3], st)
            return None if t is None else not t
        if c[0] == "bin" and c[2] in OPS:
            a, b = self.const(c[3], st), self.const(c[4], st)
            if isinstance(a, (int, float)) and isinstance(b, (int, float)):
                return OPS[c[2]](a - b)
            if isinstance(a, str) and isinstance(b, str) and c[2] in ("==", "!="):
                return (a == b) == (c[2] == "==")
            return None
        if c[0] == "op" and c[2] in ("==", "!=") and len(c[4]) == 2:
            a, b = self.const(c[4][0], st), self.const(c[4][1], st)
            if isinstance(a, str) and isinstance(b, str):
                return (a == b) == (c[2] == "==")
            return None
        v = self.const(c, st)
        return bool(v) if isinstance(v, (int, float)) else None

    def const(self, e, st):
        t = self.term(e, st)
        if t[0] == "c":
            return t[1]
        if t[0] == "p" and t[1] in self.consts:
            return self.consts[t[1]]
        return None

    def refine(self, c, truth, st):
        t = self.truth(c, st)
        return st if t is None or t == truth else None

    def on_case(self, s, case, st):
        v = self.const(s[3], st)
        if v is None:
            return st
        if case is None:
            body = s[4]
            for x in walk(body):
                if x[0] == "case" and self.const(x[2], st) == v:
                    return None
            return st
        w = self.const(case[2], st)
        return st if w is None or w == v else None

    def on_nomatch(self, s, st):
        v = self.const(s[3], st)
        if v is not None:
            for x in walk(s[4]):
                if x[0] == "case" and self.const(x[2], st) == v:
                    return None
        return st

    def on_decl(self, d, st):
        st = dict(st)
        if d[3] is not None:
            st[d[0]] = self.term(d[3], st)
            p = peel(d[3])
            if isnode(p) and p[0] == "lambda":
                self.lam[d[0]] = p
        else:
            st[d[0]] = ("v", d[1])
        return st

    def on_loopvar(self, s, st):
        st = dict(st)
        st[s[2][0]] = ("elem", self.term(s[3], st))
        return st

    def event(self, n, st):
        if n[0] == "asg" and n[3][0] == "v":
            st = dict(st)
            st[n[3][2]] = self.term(n[4], st) if n[2] == "=" else U
            return self.store(n, st)
        if n[0] == "asg":
            return self.store(n, st)
        if n[0] == "un" and n[2].replace("post", "") in ("++", "--") and n[3][0] == "v":
            st = dict(st)
            st[n[3][2]] = U
            return st
        c = callee(n)
        if c:
            key, obj, args = c
            ot = self.term(obj, st) if obj is not None else None
            at = tuple(self.term(a, st) for a in args)
            if n[0] == "op" and n[2] == "()" and obj is not None:
                o = peel(obj)
                lam = self.lam.get(o[2]) if isnode(o) and o[0] == "v" else None
                if lam is not None and self.depth < 4:
                    return self.run_lambda(lam, at, st, n)
            if n[0] == "op" and n[2] == "=" and obj is not None and obj[0] == "v":
                st = dict(st)
                st[obj[2]] = at[0] if at else U
            f = self.p.fns.get(key)
            if f and f.hasbody and self.inline and self.depth < 5 and self.inline(f, n, ot):
                if not (ot is None and not f.static and f.cls):
                    sub = Val(self.p, f, at, self.consts, self.inline, self.depth + 1, ot if ot is not None else self.obj, self.calls)
                    sub.go()
                    rets = {sub.term(x[2][2], x[3]) for x in sub.exits if x[0] == "ret" and x[2][2] is not None}
                    if len(rets) == 1:
                        self.retv[id(n)] = rets.pop()
                    if not sub.normal():
                        self.x.thr.append((n[1], n, st))
                        return None
                    st = dict(st)
                    st["@must"] = st["@must"] | sub.must()
                    return st
            self.calls.append((key, ot, at, n, self.f.file))
            st = dict(st)
            rv = root_var(obj) if obj is not None else None
            if short(key) in FILL and rv in st and rv is not None and not (st[rv] and st[rv][0] == "p"):
                st[rv] = ("built",) + tuple(sorted(set(params_t(st[rv])) | {p for a in at for p in params_t(a)}))
            st["@must"] = st["@must"] | {("call", key, ot, at), ("did", strip_tmpl(qn(key)))}
        return st

    def store(self, n, st):
        self.stores.append((self.term(n[3], st), self.term(n[4], st), n, n[2]))
        st = dict(st)
        st["@must"] = st["@must"] | {("store", self.term(n[3], st), self.term(n[4], st))}
        rv = root_var(n[3])
        if rv in st and st[rv][0] not in ("p",) and n[3][0] != "v":
            ps = params_t(self.term(n[4], st))
            if ps:
                st[rv] = ("built",) + tuple(sorted(set(params_t(st[rv])) | set(ps)))
        return st

    def run_lambda(self, lam, at, st, n):
        st = dict(st)
        for q, a in zip(lam[4], at):
            st[q[0]] = a
        sv, tr = self.x, self._try
        self.x = Exits()
        end = self.ex(lam[5], st)
        rets = {self.term(r[1][2], r[2]) for r in self.x.ret if r[1][2] is not None}
        for r in self.x.ret:
            end = self.J(end, r[2])
        sv.thr += self.x.thr
        self.x, self._try = sv, tr
        if len(rets) == 1:
            self.retv[id(n)] = rets.pop()
        return end
