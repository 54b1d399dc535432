"""Extents of tables: how many entries each container field or local has at every place that sizes it, and the largest
index every loop uses with it, both as polynomials over the object's counts (species, reactions, points, ...)."""
from .core import *
from .poly import P, Poly, subst, atom
from fractions import Fraction

SIZERS = {"resize", "assign"}
PUSH = {"push_back", "emplace_back"}
SAFE = {"size", "empty", "begin", "end", "cbegin", "cend", "data", "back", "front", "reserve", "at", "shrink_to_fit",
        "rbegin", "rend", "capacity", "nRows", "nColumns", "ptrColumn", "value", "zero", "fill", "setZero", "rows", "cols",
        "col", "row", "getColumn", "setColumn", "getRow", "setRow", "operator=", "max_size", "count", "colPts", "mult",
        "leftMult", "increment", "array", "matrix", "sum", "norm", "transpose", "str", "c_str", "substr", "find", "setConstant"}
MAT = ("Cantera::Array2D", "Cantera::DenseMatrix")


def bare(t):
    t = t.strip()
    while True:
        if t.startswith("const "):
            t = t[6:]
        elif t.startswith("mutable "):
            t = t[8:]
        elif t and t[-1] in "&* ":
            t = t[:-1]
        elif t.endswith(" const"):
            t = t[:-6]
        else:
            return t.strip()


def is_vec(t):
    return bare(t).startswith("std::vector<")


def is_mat(t):
    return bare(t) in MAT


def is_eig(t):
    t = bare(t)
    return t.startswith("Eigen::Matrix<") and not "Eigen::Matrix<double, 3" in t


def is_cont(t):
    return is_vec(t) or is_mat(t) or is_eig(t)


INTT = ("unsigned long", "unsigned int", "int", "long", "size_t", "unsigned short", "unsigned char", "long long", "short")


class FnInfo:
    """Locals of a function: initialisers of those never assigned again."""
    def __init__(self, f):
        self.f = f
        self.decl = {}
        self.mod = {}
        self.types = {}
        for pr in f.params:
            self.types[pr[0]] = pr[2]
        body = f.body
        if body is None:
            return
        for n in walk(body):
            k = n[0]
            if k == "decl":
                for d in n[2:]:
                    if isinstance(d, list) and d and isinstance(d[0], int):
                        self.decl[d[0]] = d[3]
                        self.types[d[0]] = d[2]
            elif k == "asg" and peel(n[3])[0] == "v":
                self.mod[peel(n[3])[2]] = self.mod.get(peel(n[3])[2], 0) + 1
            elif k == "un" and ("++" in n[2] or "--" in n[2] or n[2] == "&") and peel(n[3])[0] == "v":
                self.mod[peel(n[3])[2]] = self.mod.get(peel(n[3])[2], 0) + 1
            elif k == "op" and n[2] in ("=", "+=", "-=", "*=") and n[4] and peel(n[4][0])[0] == "v":
                self.mod[peel(n[4][0])[2]] = self.mod.get(peel(n[4][0])[2], 0) + 1

    def single(self, i):
        """Initialiser of local i if it keeps that value."""
        if i in self.decl and not self.mod.get(i):
            return self.decl[i]
        return None


class Extents:
    def __init__(self, prog, use):
        self.p = prog
        self.use = use
        self.fi = {}
        self.getter = {}
        self.fns = [f for f in prog.fns.values() if f.hasbody and use(f)]
        self.sites = {}        # key -> list of (fn, line, kind, dims)
        self.given = set()
        self.intasg = {}       # integer field -> list of (fn, line, node | "++")
        self.alias = {}
        for f in self.fns:
            self.collect(f)
        self.solve_aliases()

    def info(self, f):
        r = self.fi.get(f.h["key"])
        if r is None:
            r = self.fi[f.h["key"]] = FnInfo(f)
        return r

    # ---------------------------------------------------------------- values
    def body_ret(self, key):
        """Expression a one-line function returns."""
        if key in self.getter:
            return self.getter[key]
        f = self.p.fns.get(key)
        r = None
        if f is not None and f.hasbody and not [o for o in self.p.overriders.get(key, ()) if self.p.fns.get(o) and self.p.fns[o].hasbody]:
            b = [s for s in f.body[2:] if isnode(s) and s[0] != "nop"]
            if f.body[0] == "{" and len(b) == 1 and b[0][0] == "ret" and len(b[0]) > 2 and b[0][2] is not None:
                r = (f, b[0][2])
        self.getter[key] = r
        return r

    def path(self, n, f, env, depth=0):
        """Object path from this (tuple), or None."""
        n = peel(n)
        if n is None or depth > 8:
            return None
        k = n[0]
        if k == "this":
            return env.get("this", ()) if env else ()
        if k == "un" and n[2] == "*":
            return self.path(n[3], f, env, depth + 1)
        if k == "op" and n[2] in ("->", "*") and n[4]:
            return self.path(n[4][0], f, env, depth + 1)
        if k == "mcall" and short(n[2]) == "get" and not n[4]:
            return self.path(n[3], f, env, depth + 1)
        if k == "m":
            b = self.path(n[2], f, env, depth + 1)
            return None if b is None else b + (n[3],)
        if k == "v":
            if env and n[2] in env:
                e = env[n[2]]
                return e if isinstance(e, tuple) else None
            ini = self.info(f).single(n[2])
            if isnode(ini):
                r = self.path(ini, f, env, depth + 1)
                if r is not None:
                    return r
            return (("v", f.h["key"], n[2]),)
        if k in ("op", "idx"):
            a = n[4] if k == "op" else [n[2], n[3]]
            if (k == "idx" or n[2] == "[]") and len(a) == 2:
                b = self.path(a[0], f, env, depth + 1)
                ix = self.val(a[1], f, env, depth + 1)
                if b is not None and ix is not None:
                    return b + (("[]", ix.k),)
            return None
        if k == "mcall":
            g = self.body_ret(n[2])
            if g is not None:
                b = self.path(n[3], f, env, depth + 1)
                if b is None:
                    return None
                e2 = {"this": b}
                self.bind(g[0], n[4], f, env, e2, depth)
                return self.path(g[1], g[0], e2, depth + 1)
        return None

    def bind(self, g, args, f, env, e2, depth):
        for pr, a in zip(g.params, args):
            v = self.val(a, f, env, depth + 1) if bare(pr[2]) in INTT else None
            if v is None:
                v = self.path(a, f, env, depth + 1)
            e2[pr[0]] = v if v is not None else False

    def field(self, path, q):
        """Value of an integer field, aliases resolved."""
        a = self.alias.get(q)
        if a is not None:
            return self.rebase(a, path)
        return P(("s", path, q))

    def rebase(self, poly, path):
        def g(a):
            if a[0] == "s":
                return self.field(path + a[1], a[2]) if path else None
            if a[0] == "size":
                return P(("size", self.rekey(a[1], path)) + a[2:]) if path else None
            if a[0] == "grown":
                return P(("of", path, P(a).k))
            if a[0] == "of":
                return P(("of", path + a[1], a[2]))
            return None
        return subst(poly, g) if path else poly

    def rekey(self, key, path):
        if key[0] == "F":
            return ("F", path + key[1], key[2])
        if key[0] == "[]":
            return ("[]", self.rekey(key[1], path))
        return key

    def val(self, n, f, env=None, depth=0):
        n = peel(n)
        if n is None or not isnode(n) or depth > 12:
            return None
        k = n[0]
        if k == "lit":
            return P(int(n[3])) if n[2] in ("i", "b") and not isinstance(n[3], str) else (
                P(int(n[3])) if n[2] == "i" else None)
        if k == "enum":
            for e in self.p.enums.values():
                pass
            return P(("g", n[2])) if len(n) < 4 or not isinstance(n[3], int) else P(n[3])
        if k == "g":
            return P(("g", n[2]))
        if k == "v":
            if env and n[2] in env:
                e = env[n[2]]
                return e if isinstance(e, Poly) else None
            fi = self.info(f)
            ini = fi.single(n[2])
            if isnode(ini) and bare(fi.types.get(n[2], "")) in INTT:
                return self.val(ini, f, env, depth + 1)
            if n[2] in fi.decl:
                return P(("lv", f.h["key"], n[2]))
            if fi.mod.get(n[2]):
                return None
            return P(("par", f.h["key"], n[2]))
        if k == "m":
            b = self.path(n[2], f, env, depth + 1)
            return None if b is None else self.field(b, n[3])
        if k == "bin" and n[2] in "+-*":
            a, b = self.val(n[3], f, env, depth + 1), self.val(n[4], f, env, depth + 1)
            if a is None or b is None:
                return None
            return a + b if n[2] == "+" else a - b if n[2] == "-" else a * b
        if k == "mcall":
            if short(n[2]) == "size" and not n[4]:
                key = self.key(n[3], f, env, depth + 1)
                return None if key is None else self.size_of(key)
            if short(n[2]) in ("nRows", "nColumns") and not n[4]:
                key = self.key(n[3], f, env, depth + 1)
                if key is not None:
                    return P(("size", key, short(n[2])))
            g = self.body_ret(n[2])
            if g is not None:
                b = self.path(n[3], f, env, depth + 1)
                if b is None:
                    return None
                e2 = {"this": b}
                self.bind(g[0], n[4], f, env, e2, depth)
                return self.val(g[1], g[0], e2, depth + 1)
            b = self.path(n[3], f, env, depth + 1)
            if b is not None and not n[4]:
                m = self.p.methods.get(n[2])
                fn = self.p.fns.get(n[2])
                if bare((fn.h.get("ret") if fn is not None else None) or "") in INTT:
                    return P(("s", b, "call " + short(n[2])))
            return None
        if k == "cond":
            return None
        return None

    # ------------------------------------------------------------ containers
    def key(self, n, f, env=None, depth=0):
        """Identity of the container an expression names, or None."""
        n = peel(n)
        if n is None or not isnode(n) or depth > 8:
            return None
        k = n[0]
        if k == "m":
            b = self.path(n[2], f, env, depth + 1)
            return None if b is None else ("F", b, n[3])
        if k == "v":
            if env and n[2] in env:
                return None
            fi = self.info(f)
            t = fi.types.get(n[2], "")
            if (t.endswith("*") or t.endswith("* const")) and n[2] not in fi.decl and not fi.mod.get(n[2]):
                return ("P", f.h["key"], n[2])
            if t.rstrip().endswith("&") or t.rstrip().endswith("*"):
                ini = fi.single(n[2])
                return self.key(ini, f, env, depth + 1) if isnode(ini) else None
            if n[2] in fi.decl:
                return ("L", f.h["key"], n[2])
            return None
        if k == "un" and n[2] == "*":
            return self.key(n[3], f, env, depth + 1)
        if k == "un" and n[2] == "&":
            # &F[0]
            m = peel(n[3])
            if m[0] == "op" and m[2] == "[]" and lit(m[4][1]) == 0:
                return self.key(m[4][0], f, env, depth + 1)
            return None
        if k == "op" and n[2] in ("->", "*") and n[4]:
            return self.key(n[4][0], f, env, depth + 1)
        if k == "op" and n[2] == "[]" and len(n[4]) == 2:
            b = self.key(n[4][0], f, env, depth + 1)
            return None if b is None else ("[]", b)
        if k == "idx":
            b = self.key(n[2], f, env, depth + 1)
            return None if b is None else ("[]", b)
        if k == "mcall":
            if short(n[2]) == "data" and not n[4]:
                return self.key(n[3], f, env, depth + 1)
            g = self.body_ret(n[2])
            if g is not None and not n[4]:
                b = self.path(n[3], f, env, depth + 1)
                if b is not None:
                    return self.key(g[1], g[0], {"this": b}, depth + 1)
        return None

    def ctype(self, key, f=None):
        if key[0] == "F":
            fl = self.p.field.get(key[2])
            return fl["t"] if fl else ""
        if key[0] == "P":
            return "ptr"
        if key[0] == "L":
            return self.fi[key[1]].types.get(key[2], "")
        t = bare(self.ctype(key[1]))
        if t.startswith("std::vector<") and t.endswith(">"):
            return t[len("std::vector<"):-1]
        return ""

    def add(self, key, f, line, kind, dims=None, node=None):
        self.sites.setdefault(key, []).append((f, line, kind, dims, node))

    def dims_of(self, key, args):
        """nodes of the extents given in resize/ctor/assign arguments."""
        t = self.ctype(key)
        if is_mat(t) or is_eig(t):
            return args[:2] if len(args) >= 2 or is_mat(t) else args[:1]
        return args[:1]

    def inner(self, key, args, f, ln):
        """sizes of the elements: resize(n, vector(m))."""
        if len(args) >= 2 and is_cont(self.ctype(("[]", key))):
            c = peel(args[1])
            if c[0] == "ctor" and is_cont(c[2]) and c[4]:
                a = [x for x in c[4]]
                if bare(peel(a[0])[2] if peel(a[0])[0] == "ctor" else "x") == "x":
                    self.add(("[]", key), f, ln, "set", self.dims_of(("[]", key), a))
                    self.inner(("[]", key), a, f, ln)
                    return
            if c[0] == "ctor" and not c[4]:
                return
            self.add(("[]", key), f, ln, "?")

    def collect(self, f):
        self.info(f)
        body = f.body
        if body is None:
            return
        fi = self.fi[f.h["key"]]
        for ini in f.inits:
            if not (isinstance(ini, list) and ini and ini[0] == "f" and ini[1] in self.p.field):
                continue
            q, e = ini[1], ini[3]
            if not is_cont(self.p.field[q]["t"]):
                continue
            key = ("F", (), q)
            if isnode(e) and e[0] == "ctor" and not e[4]:
                continue
            if isnode(e) and e[0] == "ctor" and is_cont(e[2]) and self.intlike(e[4][0], f):
                self.add(key, f, e[1], "set", self.dims_of(key, e[4]))
                self.inner(key, e[4], f, e[1])
            else:
                self.given.add(q)
                self.add(key, f, f.h["line"], "copy" if isnode(e) else "?", None, e if isnode(e) else None)
        for n in walk(body):
            k = n[0]
            if k == "decl":
                for d in n[2:]:
                    if isinstance(d, list) and d and isinstance(d[0], int) and is_cont(d[2]) and not d[2].rstrip().endswith(("&", "*")):
                        key = ("L", f.h["key"], d[0])
                        ini = d[3]
                        ini0 = ini
                        if not isnode(ini) or (ini[0] == "ctor" and not ini[4]):
                            self.add(key, f, n[1], "empty")
                        elif ini[0] == "ctor" and is_cont(ini[2]) and ini[4] and len(ini[4]) <= 3 and self.intlike(ini[4][0], f):
                            self.add(key, f, n[1], "set", self.dims_of(key, ini[4]))
                            self.inner(key, ini[4], f, n[1])
                        else:
                            self.add(key, f, n[1], "copy", None, ini)
            elif k == "mcall":
                nm = strip_tmpl(short(n[2]))
                ck = clsof(n[2])
                if not (is_cont(ck) or "Eigen" in ck):
                    continue
                key = self.key(n[3], f)
                if key is None:
                    continue
                if nm in SIZERS and n[4] and (nm == "resize" or self.intlike(n[4][0], f)):
                    self.add(key, f, n[1], "set", self.dims_of(key, n[4]))
                    self.inner(key, n[4], f, n[1])
                elif nm in PUSH:
                    self.add(key, f, n[1], "push")
                    if is_cont(self.ctype(("[]", key))):
                        self.add(("[]", key), f, n[1], "?")
                elif nm == "clear":
                    self.add(key, f, n[1], "empty")
                elif nm in SAFE:
                    pass
                else:
                    self.add(key, f, n[1], "?")
            elif k == "op" and n[2] == "=" and len(n[4]) == 2:
                key = self.key(n[4][0], f)
                if key is not None and is_cont(self.ctype(key)):
                    r = peel(n[4][1])
                    if n[4][1][0] == "ctor" and is_cont(n[4][1][2]) and n[4][1][4] and self.intlike(n[4][1][4][0], f):
                        self.add(key, f, n[1], "set", self.dims_of(key, n[4][1][4]))
                    else:
                        self.add(key, f, n[1], "copy", None, r)
            elif k == "asg" and peel(n[3])[0] == "m":
                m = peel(n[3])
                if m[3] in self.p.field and bare(self.p.field[m[3]]["t"]) in INTT:
                    self.intasg.setdefault(m[3], []).append((f, n[1], n[2], n[4], m))
            elif k == "un" and ("++" in n[2] or "--" in n[2]) and peel(n[3])[0] == "m":
                m = peel(n[3])
                self.intasg.setdefault(m[3], []).append((f, n[1], n[2].replace("post", ""), None, m))
            if k == "un" and n[2] == "&":
                ky = self.key(n[3], f)
                if ky is not None and is_cont(self.ctype(ky)):
                    self.add(ky, f, n[1], "?")      # its address may reach any code
            if k == "op" and n[2] == "()":
                for a in n[4][1:]:
                    ky = self.key(a, f) if isnode(peel(a)) and peel(a)[0] in ("m", "v", "op", "idx") else None
                    if ky is not None and is_cont(self.ctype(ky)):
                        self.add(ky, f, n[1], "?")
            if k in ("call", "mcall", "ctor", "op"):
                key, obj, args = callee(n)
                if key is None or (k == "op" and n[2] in ("[]", "()", "=", "*", "->", "+", "-")):
                    continue
                g = self.p.fns.get(key)
                if k == "ctor" and (is_cont(n[2])):
                    continue
                for i, a in enumerate(args or ()):
                    t = None
                    if g is not None and i < len(g.params):
                        t = g.params[i][2]
                    pa = peel(a)
                    if not isnode(pa) or pa[0] not in ("m", "v", "op", "idx"):
                        continue
                    if t is None and k == "mcall" and (is_cont(clsof(key))):
                        if short(key) == "swap":
                            t = "std::vector<double> &"
                        else:
                            continue
                    if t is None:
                        t = "&"
                    if t.rstrip().endswith("&") and not t.startswith("const "):
                        ky = self.key(pa, f)
                        if ky is not None and is_cont(self.ctype(ky)):
                            self.add(ky, f, n[1], "?", None, key)

    def intlike(self, n, f):
        m = peel(n)
        if not isnode(m):
            return False
        if m[0] == "lit":
            return m[2] in ("i",)
        if m[0] == "v":
            return bare(self.info(f).types.get(m[2], "")) in INTT
        if m[0] == "m":
            fl = self.p.field.get(m[3])
            return bool(fl) and bare(fl["t"]) in INTT
        if m[0] in ("bin", "cond", "enum", "g", "sizeof"):
            return m[0] != "bin" or self.intlike(m[3], f)
        if m[0] in ("call", "mcall"):
            if short(m[2]) in ("size", "nRows", "nColumns", "max", "min"):
                return True
            g = self.p.fns.get(m[2])
            return bool(g) and bare(g.h.get("ret") or "") in INTT
        return False

    # --------------------------------------------------------------- aliases
    def solve_aliases(self):
        """Integer fields that every assignment sets to one expression of other counts."""
        for _ in range(3):
            for q, l in self.intasg.items():
                if q in self.alias:
                    continue
                vals = set()
                for f, ln, op, node, m in l:
                    if op != "=":
                        vals = None
                        break
                    b = self.path(m[2], f, None)
                    v = self.val(node, f) if node is not None else None
                    if b != () or v is None:
                        vals = None
                        break
                    if v.const() is not None:
                        if v.const() == 0:
                            continue
                        vals = None
                        break
                    if any(a[0] in ("lv", "par", "g") or (a[0] == "s" and a[2] == q) or
                           (a[0] == "s" and any(isinstance(x, tuple) for x in a[1])) for a in v.atoms()):
                        vals = None
                        break
                    vals.add(v)
                if vals and len(vals) == 1:
                    self.alias[q] = vals.pop()

    def size_of(self, key):
        return P(("size", key))


class Need:
    """One loop access: container key, dimension, number of entries it needs, whether other conditions stand in the way."""
    __slots__ = ("f", "line", "key", "dim", "need", "cond", "text", "inloop")

    def __init__(self, f, line, key, dim, need, cond, text, inloop):
        self.f, self.line, self.key, self.dim, self.need = f, line, key, dim, need
        self.cond, self.text, self.inloop = cond, text, inloop


def vars_of(n):
    return {x[2] for x in walk(n) if x[0] == "v"} if isnode(n) else set()


class Accesses:
    def __init__(self, ext):
        self.e = ext
        self.out = []
        self.calls = []
        self.unknown = 0
        for f in ext.fns:
            if f.body is not None:
                self.f = f
                self.fi = ext.info(f)
                self.visit(f.body, {}, [])

    def lv(self, i):
        return ("lv", self.f.h["key"], i)

    def bound(self, s):
        """{loop var: (lowest, highest) values}, the variables of the condition, or None"""
        init, cond, inc, body = s[2], s[3], s[4], s[5]
        if not isnode(cond):
            return None
        conj = []

        def split(c):
            c = peel(c)
            if c[0] == "bin" and c[2] == "&&":
                split(c[3])
                split(c[4])
            else:
                conj.append(c)
        split(cond)
        var = None
        step = None
        if isnode(inc):
            i = peel(inc)
            if i[0] == "un" and ("++" in i[2] or "--" in i[2]) and peel(i[3])[0] == "v":
                var, step = peel(i[3])[2], 1 if "++" in i[2] else -1
            elif i[0] == "asg" and i[2] == "+=" and peel(i[3])[0] == "v":
                var, step = peel(i[3])[2], 1
        if var is None:
            # for (i = n; i-- > 0;)
            for c in conj:
                if c[0] == "bin" and c[2] == ">" and peel(c[3])[0] == "un" and peel(c[3])[2] == "post--" and lit(c[4]) == 0:
                    var, step = peel(peel(c[3])[3])[2], -2
        if var is None:
            return None
        lo = None
        if isnode(init):
            for d in walk(init):
                if d[0] == "decl":
                    for x in d[2:]:
                        if isinstance(x, list) and x and x[0] == var and isnode(x[3]):
                            lo = self.e.val(x[3], self.f)
                elif d[0] == "asg" and d[2] == "=" and peel(d[3])[0] == "v" and peel(d[3])[2] == var:
                    lo = self.e.val(d[4], self.f)
        # not changed in the body
        for x in walk(body):
            if (x[0] == "asg" and peel(x[3])[0] == "v" and peel(x[3])[2] == var) or \
               (x[0] == "un" and ("++" in x[2] or "--" in x[2]) and peel(x[3])[0] == "v" and peel(x[3])[2] == var):
                return None
        if step < 0:
            if lo is None:
                return None
            hi = lo if step == -1 else lo - 1
            return var, P(0), hi, len(conj) > 1
        for c in conj:
            if c[0] == "bin" and c[2] in ("<", "<=", "!=") and peel(c[3])[0] == "v" and peel(c[3])[2] == var:
                h = self.e.val(c[4], self.f)
                if h is not None:
                    return var, lo if lo is not None else P(0), (h if c[2] == "<=" else h - 1), len(conj) > 1
            if c[0] == "bin" and c[2] in (">", ">=") and peel(c[4])[0] == "v" and peel(c[4])[2] == var:
                h = self.e.val(c[3], self.f)
                if h is not None:
                    return var, lo if lo is not None else P(0), (h if c[2] == ">=" else h - 1), len(conj) > 1
        return None

    def cvars(self, n, loops):
        """variables a condition depends on, through the locals it is made of; a flag set along the way depends on any loop"""
        todo, seen = list(vars_of(n)), set()
        while todo:
            v = todo.pop()
            if v in seen or v is None:
                continue
            seen.add(v)
            if v in loops:
                continue
            if v in self.fi.decl:
                if self.fi.mod.get(v):
                    if bare(self.fi.types.get(v, "")) == "bool":
                        seen.add("lambda")
                elif isnode(self.fi.decl[v]):
                    todo.extend(vars_of(self.fi.decl[v]))
        return seen

    def visit(self, n, loops, conds):
        if not isnode(n):
            if isinstance(n, list):
                for c in n:
                    self.visit(c, loops, conds)
            return
        k = n[0]
        if k == "for":
            self.visit(n[2], loops, conds)
            b = self.bound(n)
            if b is None:
                c2 = conds + [vars_of(n[3]) | vars_of(n[4])]
                self.visit(n[3], loops, c2)
                self.visit(n[5], loops, c2)
                return
            l2 = dict(loops)
            l2[b[0]] = (b[1], b[2])
            c2 = conds + ([vars_of(n[3])] if b[3] else []) + self.exits(n[5], l2)
            self.visit(n[5], l2, c2)
            return
        if k in ("while", "do"):
            c2 = conds + [vars_of(n), {None}]
            for c in n[2:]:
                self.visit(c, loops, c2)
            return
        if k == "if":
            for c in n[2:]:
                if isnode(c) and c is n[3]:
                    self.visit(c, loops, conds)
            c2 = conds + [self.cvars(n[3], loops) | {None}]
            for c in n[4:]:
                self.visit(c, loops, c2)
            return
        if k == "cond":
            self.visit(n[2], loops, conds)
            c2 = conds + [self.cvars(n[2], loops) | {None}]
            self.visit(n[3], loops, c2)
            self.visit(n[4], loops, c2)
            return
        if k == "switch":
            c2 = conds + [self.cvars(n[2], loops) | {None}]
            for c in n[2:]:
                self.visit(c, loops, c2)
            return
        if k == "bin" and n[2] in ("&&", "||"):
            self.visit(n[3], loops, conds)
            self.visit(n[4], loops, conds + [self.cvars(n[3], loops) | {None}])
            return
        if k == "lambda":
            c2 = conds + [{None, "lambda"}]
            for c in n[2:]:
                self.visit(c, loops, c2)
            return
        if k == "op" and n[2] == "[]" and len(n[4]) == 2:
            self.access(n[4][0], [n[4][1]], n, loops, conds)
        elif k == "idx":
            self.access(n[2], [n[3]], n, loops, conds)
        elif k == "op" and n[2] == "()" and len(n[4]) in (2, 3):
            if is_mat(clsof(n[3])) or "Eigen" in clsof(n[3]):
                self.access(n[4][0], n[4][1:], n, loops, conds)
        elif k in ("call", "mcall"):
            self.call(n, loops, conds)
        for c in n[2:]:
            self.visit(c, loops, conds)

    def region(self, a):
        """(table, offset) a pointer or iterator expression starts at"""
        a = peel(a)
        if not isnode(a):
            return None
        if a[0] == "bin" and a[2] == "+" or (a[0] == "op" and a[2] == "+" and len(a[4]) == 2):
            l, r = (a[3], a[4]) if a[0] == "bin" else a[4]
            b = self.region(l)
            o = self.e.val(r, self.f)
            return None if b is None or o is None else (b[0], b[1] + o)
        if a[0] == "mcall" and short(a[2]) in ("begin", "cbegin", "data") and not a[4]:
            k = self.e.key(a[3], self.f)
            return None if k is None else (k, P(0))
        if a[0] == "mcall" and short(a[2]) in ("end", "cend") and not a[4]:
            k = self.e.key(a[3], self.f)
            return None if k is None else (k, P(("size", k)))
        if a[0] == "un" and a[2] == "&":
            m = peel(a[3])
            if m[0] == "op" and m[2] == "[]" or m[0] == "idx":
                bs, ix = (m[4][0], m[4][1]) if m[0] == "op" else (m[2], m[3])
                k, o = self.e.key(bs, self.f), self.e.val(ix, self.f)
                return None if k is None or o is None else (k, o)
            return None
        if a[0] in ("v", "mcall", "m"):
            k = self.e.key(a, self.f)
            if k is not None and (k[0] == "P" or a[0] == "v"):
                return k, P(0)
        return None

    def emit(self, key, need, vs, loops, conds, n, text, used=True):
        v = need
        for _ in range(6):
            lvs = [a for a in v.atoms() if a[0] == "lv" and a[2] in loops and a[1] == self.f.h["key"]]
            if not lvs:
                break
            order = list(loops)
            a = max(lvs, key=lambda a: order.index(a[2]))
            vs = vs | {a[2]}
            lo, hi = loops[a[2]]
            co = self.coef(v, a)
            if co is None:
                return
            v = subst(v, lambda x, a=a, w=(hi if co > 0 else lo): w if x == a else None)
        if any(a[0] == "lv" for a in v.atoms()):
            return
        cond = any((c & vs) or "lambda" in c for c in conds)
        self.out.append(Need(self.f, n[1], key, 0, v, cond, text, (used, any(None in c for c in conds))))

    def call(self, n, loops, conds):
        nm = short(n[2])
        args = n[3] if n[0] == "call" else n[4]
        if n[0] == "call" and n[2].startswith("std::") and strip_tmpl(nm) in ("copy", "transform", "copy_backward") and len(args) in (3, 4, 5):
            a, b = self.region(args[0]), self.region(args[1])
            if a is None or b is None or a[0] != b[0]:
                return
            ln = b[1] - a[1]
            if any(x == ("size", a[0]) for x in a[1].atoms()):
                return
            self.emit(a[0], b[1], vars_of(args[1]), loops, conds, n, show(n))
            for d in args[2:]:
                r = self.region(d)
                if r is not None and r[0] != a[0]:
                    self.emit(r[0], r[1] + ln, vars_of(d) | vars_of(args[1]), loops, conds, n, show(n))
            return
        g = self.e.p.fns.get(n[2])
        if g is None:
            return
        for i, a in enumerate(args):
            if i >= len(g.params):
                break
            pt = g.params[i][2]
            if not pt.rstrip(" const").endswith("*") or "double" not in pt and "int" not in pt and "long" not in pt:
                continue
            r = self.region(a)
            if r is not None:
                self.calls.append((self.f, n, i, r, dict(loops), list(conds), args, a))

    def exits(self, body, loops):
        """variables that decide a continue/break/return inside a loop"""
        out = []
        for x in walk_nolambda(body):
            if x[0] == "if" and any(y[0] in ("cont", "break", "ret", "throw") for y in walk_nolambda(x)):
                out.append(self.cvars(x[3], loops))
        return out

    def access(self, base, idx, n, loops, conds):
        key = self.e.key(base, self.f)
        if key is None:
            self.unknown += 1
            return
        t = self.e.ctype(key)
        if key[0] == "P":
            pass
        elif not is_cont(t) or t.rstrip().endswith("*"):
            return
        for dim, ix in enumerate(idx):
            v = self.e.val(ix, self.f)
            if v is None:
                self.unknown += 1
                continue
            used = set()
            for _ in range(6):
                lvs = [a for a in v.atoms() if a[0] == "lv" and a[2] in loops and a[1] == self.f.h["key"]]
                if not lvs:
                    break
                # innermost first: later loops may be bounded by earlier variables
                order = list(loops)
                a = max(lvs, key=lambda a: order.index(a[2]))
                used.add(a[2])
                lo, hi = loops[a[2]]
                co = self.coef(v, a)
                if co is None:
                    v = None
                    break
                v = subst(v, lambda x, a=a, w=(hi if co > 0 else lo): w if x == a else None)
            if v is None or any(a[0] == "lv" for a in v.atoms()):
                self.unknown += 1
                continue
            vs = vars_of(ix) | used
            cond = any((c & vs) or "lambda" in c for c in conds)
            guarded = any(None in c for c in conds)
            self.out.append(Need(self.f, n[1], key, dim, v + 1, cond, show(n), (bool(used), guarded)))

    def close(self, skip=lambda k: False):
        """Needs of tables handed to callees by pointer: what the callee does with its parameter."""
        bypar = {}
        for x in self.out:
            if x.key[0] == "P":
                bypar.setdefault(x.key, []).append(x)
        fwd = {}
        for c in self.calls:
            if c[3][0][0] == "P":
                fwd.setdefault(c[3][0], []).append(c)
        memo = {}

        def impls(key):
            l = [key] + [o for o in self.e.p.overriders.get(key, ())]
            return [k for k in l if self.e.p.fns.get(k) is not None and self.e.p.fns[k].hasbody and not skip(k)]

        def summary(key, i, depth=0):
            """set of needs (polys over the callee's object and parameters) of parameter i, None when not known"""
            m = (key, i)
            if m in memo:
                return memo[m]
            memo[m] = None
            g = self.e.p.fns.get(key)
            if g is None or not g.hasbody or depth > 6 or i >= len(g.params):
                return None
            pk = ("P", key, g.params[i][0])
            out = set()
            for x in bypar.get(pk, ()):
                if not x.cond and not x.inloop[1]:
                    out.add(x.need)
            for c in fwd.get(pk, ()):
                if any(None in y for y in c[5]):
                    continue
                for v in self.at_call(c, summary, impls, depth + 1) or ():
                    if not any(a[0] == "lv" for a in v.atoms()):
                        out.add(v)
            memo[m] = out
            return out
        self.summary = summary
        extra = []
        for c in self.calls:
            if c[3][0][0] == "P":
                continue
            self.f = c[0]
            self.fi = self.e.info(c[0])
            for v in self.at_call(c, summary, impls, 0) or ():
                vs = vars_of(c[7])
                n0 = len(self.out)
                self.emit(c[3][0], v, vs, c[4], c[5], c[1], show(c[1]))
        return self

    def at_call(self, c, summary, impls, depth):
        f, n, i, (key, off), loops, conds, args, a = c
        path = ()
        if n[0] == "mcall":
            path = self.e.path(n[3], f, None)
            if path is None:
                return None
        virt = n[0] == "mcall" and n[5] if len(n) > 5 else 0
        l = impls(n[2]) if (n[0] == "mcall" and n[5]) else [n[2]]
        sets = []
        for k in l:
            s = summary(k, i, depth)
            if s is None:
                continue
            sets.append((k, s))
        if not sets:
            return None
        # what most implementations need: the caller cannot know which one it meets
        some = [(k, s) for k, s in sets if s]
        common = {v for k, s in some for v in s if 2 * sum(v in s2 for k2, s2 in some) > len(some)}
        out = set()
        for v in common:
            g = self.e.p.fns[sets[0][0]]
            env = {}
            for pr, x in zip(g.params, args):
                env[pr[0]] = self.e.val(x, f) if bare(pr[2]) in INTT else None
            bad = []

            def sub(at):
                if at[0] == "par":
                    w = env.get(at[2]) if at[1] == g.h["key"] else None
                    if w is None:
                        bad.append(at)
                    return w
                return None
            if len(sets) > 1 and any(at[0] == "par" for at in v.atoms()):
                continue
            w = subst(self.e.rebase(v, path), sub) if not path else subst(subst(v, sub), lambda at: None)
            if path:
                # arguments are values of the caller, the rest belongs to the receiver
                marks = {}

                def hide(at):
                    if at[0] == "par":
                        w = env.get(at[2]) if at[1] == g.h["key"] else None
                        if w is None:
                            bad.append(at)
                            return None
                        marks[at] = w
                        return P(("hid", at[2]))
                    return None
                w = self.e.rebase(subst(v, hide), path)
                w = subst(w, lambda at: marks.get(("par", g.h["key"], at[1])) if at[0] == "hid" else None)
            if bad:
                continue
            out.add(w + off)
        return out

    def coef(self, v, a):
        """sign of the coefficient of a in v if it is the same for all positive counts"""
        from .poly import aid
        i = aid(a)
        s = set()
        for m, c in v.d.items():
            for j, e in m:
                if j == i:
                    if e != 1:
                        return None
                    s.add(c > 0)
        if len(s) != 1:
            return None
        return 1 if s.pop() else -1


class Sizes:
    """Normal forms of the sizes of tables."""
    def __init__(self, ext):
        self.e = ext
        self.memo = {}
        self.imemo = {}
        self.loops = {}
        self.rootmemo = {}
        self.calls = None
        self.uneven = {}     # tables that a function does not extend exactly once on each successful path

    def root(self, f):
        """The functions at the top of the overriding chain of f."""
        k = f.h["key"]
        r = self.rootmemo.get(k)
        if r is None:
            self.rootmemo[k] = {k}
            over = f.h.get("over") or []
            r = set()
            for o in over:
                g = self.e.p.fns.get(o)
                r |= self.root(g) if g is not None else {o}
            r = self.rootmemo[k] = r or {k}
        return r

    def count(self, s, hit):
        """(fewest, most) additions to one table over the successful paths through s; None when a loop adds."""
        self.addvars = self.setvars(s) if isnode(s) else set()
        lo, hi, end = self._count(s, hit)
        return lo, hi

    def _count(self, s, hit):
        """(fewest, most, ends?) where ends: True all paths leave"""
        if not isnode(s):
            return 0, 0, False
        k = s[0]
        if k == "{":
            lo = hi = 0
            done = []
            for c in s[2:]:
                if not isnode(c):
                    continue
                if c[0] == "if":
                    a = self._count(c[4], hit) if len(c) > 4 else (0, 0, False)
                    b = self._count(c[5], hit) if len(c) > 5 and isnode(c[5]) else (0, 0, False)
                    ba = self.fails(c[4]) or self.notadded(c[3])
                    bb = len(c) > 5 and self.fails(c[5])
                    if a[2] and not ba:
                        done.append((lo + a[0], hi + a[1]))
                    if b[2] and not bb:
                        done.append((lo + b[0], hi + b[1]))
                    live = [x for x, bad in ((a, ba or a[2]), (b, bb or b[2])) if not bad]
                    if self.added(c[3]):
                        live = [] if ba or a[2] else [a]
                    if not live:
                        break
                    lo, hi = lo + min(x[0] for x in live), hi + max(x[1] for x in live)
                    continue
                a = self._count(c, hit)
                lo, hi = lo + a[0], hi + a[1]
                if a[2]:
                    if self.fails(c):
                        return (min([d[0] for d in done]), max([d[1] for d in done]), True) if done else (0, 0, True)
                    done.append((lo, hi))
                    return min(d[0] for d in done), max(d[1] for d in done), True
            if done:
                return min([lo] + [d[0] for d in done]), max([hi] + [d[1] for d in done]), False
            return lo, hi, False
        if k in ("for", "rfor", "while", "do", "switch", "try"):
            lo, hi = self.hits(s, hit)
            return (0, 99, False) if hi else (0, 0, False)
        if k == "if":
            return self._count(["{", s[1], s], hit)
        if k in ("ret", "throw"):
            return self.hits(s, hit) + (True,)
        return self.hits(s, hit) + (False,)

    def hits(self, s, hit):
        lo = hi = 0
        for x in walk(s):
            h = hit(x)
            if h:
                a, b = h if isinstance(h, tuple) else (1, 1)
                lo, hi = lo + a, hi + b
        return lo, hi

    def fails(self, s):
        """Does the block only leave by throwing or returning false?"""
        if not isnode(s):
            return False
        if s[0] == "{":
            l = [c for c in s[2:] if isnode(c) and c[0] != "nop"]
            return bool(l) and self.fails(l[-1]) and not any(
                x[0] == "ret" and not self.fails(x) for c in l[:-1] for x in walk_nolambda(c))
        if s[0] == "if":
            return len(s) > 5 and isnode(s[5]) and self.fails(s[4]) and self.fails(s[5])
        if s[0] == "ret":
            return len(s) > 2 and isnode(s[2]) and lit(s[2]) is False
        return s[0] == "throw"

    def added(self, cond):
        """Is the condition that the addition itself (of the base class) has succeeded?"""
        c = peel(cond)
        if not isnode(c):
            return False
        if c[0] == "bin" and c[2] in ("==", "!="):
            for x, y in ((c[3], c[4]), (c[4], c[3])):
                if lit(peel(y)) in (True, False) and self.added(x):
                    return (c[2] == "==") == bool(lit(peel(y)))
            return False
        if c[0] == "v":
            return c[3] in ("added", "ok", "success", "done") or c[2] in self.addvars
        return c[0] in ("mcall", "call") and isinstance(c[2], str) and short(c[2]).startswith("add")

    def notadded(self, cond):
        c = peel(cond)
        if isnode(c) and c[0] == "un" and c[2] == "!":
            return self.added(c[3])
        if isnode(c) and c[0] == "bin" and c[2] in ("==", "!="):
            for x, y in ((c[3], c[4]), (c[4], c[3])):
                if lit(peel(y)) in (True, False) and self.added(x):
                    return (c[2] == "==") != bool(lit(peel(y)))
        return False

    def setvars(self, body):
        """locals that hold the outcome of an addition"""
        r = set()
        for n in walk(body):
            if n[0] == "decl":
                for d in n[2:]:
                    if isinstance(d, list) and d and isinstance(d[0], int) and len(d) > 3 and isnode(d[3]) and bare(d[2]) == "bool" \
                            and any(x[0] in ("mcall", "call") and isinstance(x[2], str) and short(x[2]).startswith("add") for x in walk(d[3])):
                        r.add(d[0])
            elif n[0] == "asg" and n[2] == "=" and peel(n[3])[0] == "v" and isnode(peel(n[4])) and peel(n[4])[0] in ("mcall", "call") \
                    and isinstance(peel(n[4])[2], str) and short(peel(n[4])[2]).startswith("add"):
                r.add(peel(n[3])[2])
        return r

    def callers(self, key):
        """Functions calling a function on their own object, and whether anything else calls it."""
        if self.calls is None:
            self.calls = {}
            for f in self.e.p.fns.values():
                if f.body is None or not self.e.use(f):
                    continue
                for n in walk(f.body):
                    if n[0] == "mcall" and isinstance(n[2], str):
                        self.calls.setdefault(n[2], []).append((f, n))
        own, other = {}, False
        for f, n in self.calls.get(key, ()):
            if f.h["key"] != key and self.e.path(n[3], f, None) == ():
                own[f.h["key"]] = f
            else:
                other = True
        return list(own.values()), other

    def grown(self, fields, sites):
        """Symbol of a table or counter that grows by one in given functions, or None"""
        roots = set()
        byf = {}
        for f, line, hit in sites:
            byf.setdefault(f.h["key"], []).append((f, line, hit))
        work = [(l[0][0], l[0][1], lambda n, l=l: any(h(n) for _, _, h in l)) for l in byf.values()]
        helpers = {}
        i = 0
        while i < len(work) and i < 60:
            f, line, hit = work[i]
            i += 1
            if f.h["kind"] == "ctor":
                return None
            k = f.h["key"]
            lo, hi = self.count(f.body, hit)
            own, other = self.callers(k) if not f.h.get("virt") else ([], False)
            if own and hi < 99 and k not in helpers and (f.h.get("acc") != "pub" or not other):
                # a part of the additions of its callers
                def up(g, k=k, w=(lo, hi)):
                    prev = next((h for a, _, h in work if a.h["key"] == g.h["key"]), None)
                    return lambda n: w if n[0] == "mcall" and n[2] == k else (prev(n) if prev else False)
                new = [(g, g.h["line"], up(g)) for g in own]
                if f.h.get("acc") != "pub" or all(self.count(g.body, h) == (1, 1) for g, _, h in new):
                    helpers[k] = (lo, hi)
                    names = {g.h["key"] for g in own}
                    work = work[:i] + [x for x in work[i:] if x[0].h["key"] not in names] + new
                    continue
            if (lo, hi) != (1, 1):
                if hi < 99:
                    self.uneven[fields if isinstance(fields, str) else tuple(fields)] = (f, line, lo, hi, self.root(f))
                return None
            roots |= self.root(f)
        return P(("grown", tuple(sorted(roots))))

    def int_field(self, q):
        r = self.imemo.get(q)
        if r is None:
            self.imemo[q] = False
            l = self.e.intasg.get(q, [])
            inc = [x for x in l if x[2] == "++"]
            other = [x for x in l if x[2] != "++" and not (x[2] == "=" and lit(x[3]) == 0)]
            v = None
            if inc and not other:
                v = self.grown(q, [(x[0], x[1], lambda n: n[0] == "un" and "++" in n[2] and peel(n[3])[0] == "m" and peel(n[3])[3] == q)
                                   for x in inc])
            r = self.imemo[q] = v if v is not None else False
        return r

    def size(self, key, dim=0):
        m = (key, dim)
        if m in self.memo:
            return self.memo[m]
        self.memo[m] = None
        r = self._size(key, dim)
        self.memo[m] = r
        return r

    def base(self, key):
        """The key as seen from the owner class, and the path of the owner."""
        if key[0] == "F":
            return ("F", (), key[2]), key[1]
        if key[0] == "[]":
            b, p = self.base(key[1])
            return ("[]", b), p
        return key, ()

    def site_values(self, key, dim=0):
        """[(site, value or None)] over the sites of a table"""
        out = []
        push = []
        for s in self.e.sites.get(key, ()):
            f, line, kind, dims, node = s
            if kind == "empty":
                continue
            if kind == "set" and dim < len(dims) and isnode(peel(dims[dim])) and peel(dims[dim])[0] == "cond":
                c = peel(dims[dim])
                for b in c[3:5]:
                    v = self.e.val(b, f)
                    out.append(((f, line, "alt", dims, node), self.norm(v) if v is not None else None))
                continue
            if kind == "set":
                v = self.e.val(dims[dim], f) if dim < len(dims) else None
                if v is not None and v in (P(("size", key)), P(("size", key, "nRows")), P(("size", key, "nColumns"))):
                    continue            # keeps its size
                if v is not None:
                    v = self.norm(v)
                out.append((s, v))
            elif kind == "push":
                push.append(s)
            elif kind == "copy":
                k2 = self.e.key(node, f) if node is not None else None
                v = None
                if k2 is not None and k2 != key:
                    b2, p2 = self.base(k2)
                    v = self.size(b2, dim)
                    if v is not None and p2:
                        v = self.norm(self.e.rebase(v, p2))
                out.append((s, v))
            else:
                out.append((s, None))
        if push:
            def hit_of(key):
                def hit(n, f=None):
                    return n[0] == "mcall" and strip_tmpl(short(n[2])) in PUSH
                return hit
            l = []
            for s in push:
                l.append((s[0], s[1], lambda n, s=s: n[0] == "mcall" and strip_tmpl(short(n[2])) in PUSH and self.e.key(n[3], s[0]) == key))
            g = self.grown(key, l) if key[0] != "L" else None
            for s in push:
                out.append((s, g))
        return out

    def _size(self, key, dim):
        vals = self.site_values(key, dim)
        if not vals:
            return None
        s = {v for _, v in vals}
        if None in s or len(s) != 1:
            return None
        v = s.pop()
        if any(a == ("size", key) for a in v.atoms()):
            return None
        return v

    def norm(self, v):
        def g(a):
            if a[0] == "size":
                if len(a) > 2:
                    b, p = self.base(a[1])
                    r = self.size(b, 0 if a[2] == "nRows" else 1)
                else:
                    b, p = self.base(a[1])
                    r = self.size(b)
                if r is not None:
                    return self.e.rebase(r, p) if p else r
                return None
            if a[0] == "s":
                r = self.int_field(a[2])
                if r:
                    return r if not a[1] else P(("of", a[1], r.k))
                return None
            return None
        for _ in range(4):
            w = subst(v, g)
            if w == v:
                break
            v = w
        return v


def sign(p):
    """1 if never negative, -1 if never positive and somewhere negative, None if it depends. Counts are whole numbers >= 0,
    so a product of counts is at least each of its factors unless it is zero altogether."""
    if not p.d:
        return 1
    if any(e < 0 for m in p.d for _, e in m):
        return None
    pos = {m: c for m, c in p.d.items() if c > 0}
    neg = {m: -c for m, c in p.d.items() if c < 0}
    if not neg:
        return 1
    if not pos:
        return -1
    left = dict(pos)
    for m, c in neg.items():
        for m2 in list(left):
            d2 = dict(m2)
            if m != m2 and all(d2.get(i, 0) >= e for i, e in m):
                t = min(c, left[m2])
                left[m2] -= t
                c -= t
        if c > 0:
            return None
    return 1
