"""C08: array queries define every entry of the caller's array, and no entry depends on what the array held before.

Must-definition dataflow over each function with an output pointer parameter. Facts are kept per output array:
  ("full", p, dims)       every entry has been stored
  ("w", p, V, lo, dims)   in each iteration of the loops V (loop variables) the entry selected by them has been stored
  ("tri", p, V, fp)       the same, over a triangular part
  ("pre", p, c)           entries 0..c-1 have been stored
  ("suf", p, lo, dims)    entries lo.. have been stored
  ("at", p, fp)           the entry with this (loop independent) index has been stored
"""
import re
from ..core import Flow, walk, isnode, callee, qn, short, clsof, peel, lit, fingerprint, show, CallGraph, children

NS = "Cantera::"
OUTP = re.compile(r"^(double|Cantera::\w+|sunrealtype) \*(const)?$")


def is_out(t):
    return t in ("double *", "double *const")


ONE = ("SingleSpeciesTP", "PureFluidPhase")      # phases of exactly one species

SPECIES = {"m_kk", "nSpecies", "m_nsp", "nsp", "m_nspcs"}


class Fill(Flow):
    def __init__(self, an, f, pid):
        self.an, self.p, self.f, self.pid = an, an.p, f, pid
        self.loops = {}          # loop variable id -> (start, bound)
        self.reads = []
        self.alias = {}          # local pointer id -> offset expressions
        self.dep = {}
        self.inits = {}
        for n in walk(f.body):
            if n[0] == "decl":
                for d in n[2:]:
                    if len(d) > 3 and isnode(d[3]):
                        self.inits.setdefault(d[0], []).append(d[3])
            elif n[0] == "asg" and isnode(n[3]) and n[3][0] == "v":
                self.inits.setdefault(n[3][2], []).append(n[4])
            elif n[0] == "un" and n[2] in ("++", "--", "post++", "post--") and isnode(n[3]) and n[3][0] == "v":
                self.inits.setdefault(n[3][2], []).append(n[3])
        ch = True
        while ch:
            ch = False
            for v, es in self.inits.items():
                if v in self.alias or len(es) != 1:
                    continue
                r = self.root(es[0])
                if r is not None:
                    self.alias[v] = r
                    ch = True
        # pointers stepped through the array one entry at a time
        self.walker = {self.pid} if any(isnode(e) and e[0] == "v" and e[2] == self.pid for e in self.inits.get(self.pid, ())) else set()
        for v, es in self.inits.items():
            rest = [e for e in es if not (isnode(e) and e[0] == "v" and e[2] == v)]
            if len(es) > 1 and len(rest) == 1 and self.root(rest[0]) == []:
                self.walker.add(v)
        self.lhs = set()
        self.views = {}          # local id -> (offsets, dimension) of Eigen views of the array
        for n in walk(f.body):
            if n[0] == "decl":
                for d in n[2:]:
                    if len(d) > 3 and isnode(d[3]) and d[2].startswith("Eigen::Map<") and d[3][0] == "ctor" and d[3][4]:
                        r = self.root(d[3][4][0])
                        if r is not None:
                            self.views[d[0]] = (r, d[3][4][1] if len(d[3][4]) > 1 else None)
        self.one = any(an.p.isa(clsof(f.key), NS + c) for c in ONE)
        self.mods = {}           # local id -> loop variables of the loops that change it

    def join(self, a, b):
        fa, fb = [x for x in a if x[0] == "full"], [x for x in b if x[0] == "full"]
        if fa and fb:
            return frozenset(a & b) | {("full", self.pid, frozenset().union(*[x[2] for x in fa + fb]))}
        # an array stored completely has all that is stored in the other one
        if fa:
            return frozenset(x for x in b if x != ("single",))
        if fb:
            return frozenset(x for x in a if x != ("single",))
        return a & b

    # -- where a pointer expression points: list of offset expressions from the start of the array, or None
    def root(self, e):
        e = peel(e) if isnode(e) else e
        if not isnode(e):
            return None
        if e[0] == "v":
            if e[2] == self.pid:
                return []
            return self.alias.get(e[2])
        if e[0] == "bin" and e[2] in ("+", "-"):
            r = self.root(e[3])
            if r is not None:
                return r + [e[4]] if e[2] == "+" else r + [["un", e[1], "-", e[4]]]
            r = self.root(e[4])
            return r + [e[3]] if r is not None and e[2] == "+" else None
        if e[0] == "un" and e[2] == "&":
            return self.lv(e[3])
        if e[0] == "un" and e[2] in ("post++", "post--", "++", "--"):
            return self.root(e[3])
        if e[0] == "mcall" and short(e[2]) == "data" and isnode(e[3]) and e[3][0] == "v" and e[3][2] in getattr(self, "views", ()):
            return self.views[e[3][2]][0]
        return None

    def view(self, e):
        e = peel(e) if isnode(e) else None
        return self.views.get(e[2]) if e is not None and e[0] == "v" else None

    def lv(self, e):
        """Offsets of an lvalue inside the array."""
        if not isnode(e):
            return None
        e = peel(e)
        if e[0] == "idx":
            r = self.root(e[2])
            return None if r is None else r + [e[3]]
        if e[0] == "un" and e[2] == "*":
            return self.root(e[3])
        if e[0] == "op" and e[2] == "()" and e[4]:
            r = self.root(e[4][0])
            return None if r is None else r + list(e[4][1:])
        return None

    def deps(self, e, seen=None):
        seen = set() if seen is None else seen
        out = set()
        for n in walk(e):
            if n[0] == "v":
                if n[2] in self.loops:
                    out.add(n[2])
                elif n[2] not in seen:
                    seen.add(n[2])
                    out |= self.mods.get(n[2], set()) & set(self.loops)
                    for x in self.inits.get(n[2], ()):
                        out |= self.deps(x, seen)
        return out

    def shift(self, offs):
        """Constant part of an index sum, None if it has non-constant parts beyond one loop variable."""
        c = 0
        for o in offs:
            o = peel(o) if isnode(o) else o
            v = lit(o)
            if isinstance(v, (int, float)) and not isinstance(v, bool):
                c += int(v)
            elif o[0] == "v" and o[2] in self.loops:
                pass
            elif o[0] == "bin" and o[2] in ("+", "-"):
                a = self.shift([o[3]])
                b = self.shift([o[4]])
                if a is None or b is None:
                    return None
                if o[2] == "-" and self.deps(o[4]):
                    return None
                c += a + (b if o[2] == "+" else -b)
            else:
                return None
        return c

    def walked(self, l):
        """Innermost loop of a store through a stepped pointer."""
        l = peel(l) if isnode(l) else None
        if l is None or l[0] != "un" or l[2] != "*" or not self.loops:
            return None
        e = peel(l[3])
        if e[0] == "un" and e[2] in ("post++", "++"):
            e = peel(e[3])
        return frozenset([list(self.loops)[-1]]) if e[0] == "v" and e[2] in self.walker else None

    def fact(self, offs, st, block=False):
        if not offs:
            if block:
                return st
            return self.norm(st | {("at", self.pid, "0"), ("pre", self.pid, 1)})
        V = frozenset().union(*[self.deps(o) for o in offs])
        if V:
            s = self.shift(offs)
            lo = s if s is not None and len(V) == 1 else 0
            return st | {("w", self.pid, V, lo, frozenset())} | {("at", self.pid, self.fp(offs))}
        s = self.shift(offs)
        st = st | {("at", self.pid, self.fp(offs))}
        if s is not None:
            c = max([x[2] for x in st if x[0] == "pre" and x[1] == self.pid], default=0)
            if s == c:
                st = st | {("pre", self.pid, c + 1)}
        return self.norm(st)

    def fp(self, offs):
        return "+".join(sorted(str(fingerprint(peel(o))) for o in offs)) or "0"

    def norm(self, st):
        c = max([x[2] for x in st if x[0] == "pre"], default=0)
        for x in list(st):
            if x[0] == "single" and c:
                st = st | {("full", self.pid, frozenset())}
            if x[0] == "suf" and x[2] <= c:
                st = st | {("full", self.pid, x[3])}
        return st

    def isfull(self, st):
        return any(x[0] == "full" for x in st) or self.one and any(x[0] == "pre" for x in st)

    def defined(self, offs, st):
        if self.isfull(st):
            return True
        if ("at", self.pid, self.fp(offs)) in st:
            return True
        s = self.shift(offs)
        V = frozenset().union(*[self.deps(o) for o in offs]) if offs else frozenset()
        if not V and s is not None and any(x[0] == "pre" and x[2] > s for x in st):
            return True
        return any(x[0] == "w" and x[2] <= V and x[3] <= (s or 0) for x in st) if V else False

    def read(self, n, offs, st):
        if not self.defined(offs, st):
            self.reads.append((n[1], show(n)))

    def event(self, n, st):
        k = n[0]
        if k == "ctor" and n[2].startswith("Eigen::Map<"):
            return st
        if k == "op" and n[4] and self.view(n[4][0]) is not None:
            if n[2] in ("=", "+=", "-=", "*=", "/="):
                o, d = self.view(n[4][0])
                if n[2] != "=" and not self.isfull(st):
                    self.reads.append((n[1], show(n)))
                d = self.an.dim(self, d) if isnode(d) else None
                return self.filled(o, st, [d] if d else ())
        if k == "mcall" and self.view(n[3]) is not None and short(n[2]) in ("setZero", "setConstant", "setOnes", "fill"):
            o, d = self.view(n[3])
            d = self.an.dim(self, d) if isnode(d) else None
            return self.filled(o, st, [d] if d else ())
        if k == "v" and n[2] in self.views and id(n) not in self.lhs and not self.isfull(st):
            self.reads.append((n[1], show(n)))
            return st
        if k == "asg" or k == "op" and n[2] in ("=", "+=", "-=", "*=", "/="):
            l = n[3] if k == "asg" else n[4][0]
            w = self.walked(l)
            if w is not None:
                return st | {("w", self.pid, w, 0, frozenset())} if n[2] == "=" else st
            offs = self.lv(l)
            if offs is not None:
                op = n[2]
                if op != "=":
                    self.read(n, offs, st)
                return self.fact(offs, st)
            return st
        if k == "idx" or k == "un" and n[2] == "*":
            if id(n) in self.lhs:
                return st
            offs = self.lv(n)
            if offs is not None:
                self.read(n, offs, st)
            return st
        c = callee(n)
        if k == "op" and n[2] == "()":
            for a in n[4][1:]:
                r = self.root(a) if isnode(a) else None
                if r is not None and self.ispointer(a):
                    st = self.filled(r, st, ())
            return st
        if c or k == "icall":
            return self.callev(n, c, st)
        return st

    def ptr_args(self, args):
        return [(i, self.root(a)) for i, a in enumerate(args) if isnode(a) and self.root(a) is not None and self.ispointer(a)]

    def ispointer(self, a):
        a = peel(a)
        return not (a[0] == "idx" or a[0] == "un" and a[2] == "*")

    def filled(self, offs, st, dims):
        """A callee stored a block starting at offs."""
        if not offs or all(lit(peel(o)) == 0 for o in offs):
            return st | {("full", self.pid, frozenset(dims))}
        V = frozenset().union(*[self.deps(o) for o in offs])
        if V:
            return st | {("w", self.pid, V, 0, frozenset(["block"]))}
        s = self.shift(offs)
        if s is not None:
            return self.norm(st | {("suf", self.pid, s, frozenset(dims))})
        return st | {("blk", self.pid, self.fp(offs))}

    def callev(self, n, c, st):
        if c is None:
            for i, o in self.ptr_args(n[3] if len(n) > 3 and isinstance(n[3], list) else []):
                st = self.filled(o, st, ())
            return st
        key, obj, args = c
        pa = self.ptr_args(args or [])
        if not pa:
            return st
        s = short(key).split("<")[0]
        q = qn(key)
        if q in (NS + "multiply", NS + "increment") and len(args) == 3:
            r = self.root(args[2])
            if r is not None:
                if s == "increment" and not self.isfull(st):
                    self.reads.append((n[1], show(n)))
                st = self.filled(r, st, ())
            return st
        if q.startswith("std::") or q.startswith(NS + "scale") or q.startswith(NS + "multiply_each") or s in ("checkFinite",):
            return self.stdcall(s, args, pa, n, st)
        for i, o in pa:
            r = self.an.effect(key, i, n)
            if r is None:
                continue
            full, reads, dims = r
            if reads and not self.isfull(st):
                # a callee that reads the array needs it defined
                if not self.blockdefined(o, st):
                    self.reads.append((n[1], show(n)))
            if full:
                st = self.filled(o, st, dims)
        return st

    def blockdefined(self, o, st):
        V = frozenset().union(*[self.deps(x) for x in o]) if o else frozenset()
        return any(x[0] == "w" and x[2] <= V for x in st) if V else False

    def dim_range(self, b, e):
        """Dimension of the iterator range [b, e)."""
        b, e = peel(b), peel(e)
        if e[0] == "bin" and e[2] == "+":
            return self.an.dim(self, e[4])
        if b[0] == "mcall" and short(b[2]) in ("begin", "cbegin"):
            return self.an.fielddim(self, b[3])
        if e[0] == "op" and e[2] == "+" and len(e[4]) == 2:
            return self.an.dim(self, e[4][1])
        return None

    def stdcall(self, s, args, pa, n, st):
        first = {i for i, o in pa}
        if s in ("fill", "generate", "iota"):
            d = self.dim_range(args[0], args[1])
            return self.filled(pa[0][1], st, [d] if d else ())
        if s in ("fill_n", "memset"):
            d = self.an.dim(self, args[1])
            return self.filled(pa[0][1], st, [d] if d else ())
        if s in ("copy", "transform", "scale", "partial_sum", "copy_n", "multiply_each", "memcpy", "move", "multiplies", "inner_product", "accumulate", "dot", "max_element",
                 "min_element", "checkFinite", "replace", "for_each", "sort"):
            outpos = {"copy": 2, "scale": 2, "copy_n": 2, "partial_sum": 2, "memcpy": 0, "move": 2}.get(s)
            if s == "transform":
                outpos = len(args) - 2
            d = None
            if s in ("copy", "transform", "scale"):
                d = self.dim_range(args[0], args[1])
            elif s == "copy_n":
                d = self.an.dim(self, args[1])
            for i, o in pa:
                if i != outpos and not self.isfull(st):
                    self.reads.append((n[1], show(n)))
            for i, o in pa:
                if i == outpos:
                    st = self.filled(o, st, [d] if d else ())
            return st
        return st

    # -- loops
    def on_bind(self, lam, args, st):
        for d, a in zip(lam[4], args):
            self.inits[d[0]] = [a]
            r = self.root(a) if isnode(a) and self.ispointer(a) else None
            if r is not None:
                self.alias[d[0]] = r
            else:
                self.alias.pop(d[0], None)
        return st

    def canon(self, s):
        """(variable id, start, bound, op) of a loop that runs over consecutive indices."""
        if s[0] not in ("for", "while") or s[3] is None:
            return None
        c = peel(s[3])
        body = s[5] if s[0] == "for" else s[4]
        init, inc = (s[2], s[4]) if s[0] == "for" else (None, None)

        def var(x):
            x = peel(x) if isnode(x) else None
            return x[2] if x is not None and x[0] == "v" else None

        def start(v):
            if init is not None and init[0] == "decl":
                for d in init[2:]:
                    if d[0] == v and len(d) > 3:
                        return d[3]
            for n in walk(init) if init is not None else ():
                if n[0] == "asg" and n[2] == "=" and var(n[3]) == v:
                    return n[4]
            es = [e for e in self.inits.get(v, []) if var(e) != v]
            return es[0] if len(es) == 1 else None

        def steps(n, v, ops):
            n = peel(n) if isnode(n) else None
            if n is None:
                return False
            if n[0] == "un" and n[2] in ops and var(n[3]) == v:
                return True
            return n[0] == "asg" and n[2] == ("+=" if "++" in ops else "-=") and var(n[3]) == v and lit(peel(n[4])) == 1
        # counting down: k = N; k-- > 0   /   k = N - 1; k >= 0; k--
        if c[0] == "bin" and c[2] in (">", "!=") and lit(peel(c[4])) == 0 and peel(c[3])[0] == "un" and peel(c[3])[2] == "post--" and inc is None:
            v = var(peel(c[3])[3])
            a = start(v)
            return (v, ["lit", s[1], "i", 0], a, "<") if v is not None and a is not None else None
        if c[0] == "un" and c[2] == "post--" and inc is None:
            v = var(c[3])
            a = start(v)
            return (v, ["lit", s[1], "i", 0], a, "<") if v is not None and a is not None else None
        if c[0] == "bin" and c[2] == ">=" and lit(peel(c[4])) == 0 and inc is not None:
            v = var(c[3])
            a = start(v)
            a = peel(a) if isnode(a) else None
            if v is not None and steps(inc, v, ("--", "post--")) and a is not None and a[0] == "bin" and a[2] == "-" and lit(peel(a[4])) == 1:
                return v, ["lit", s[1], "i", 0], a[3], "<"
            return None
        if c[0] != "bin" or c[2] not in ("<", "!=", "<=", ">", ">="):
            return None
        l, r, op = c[3], c[4], c[2]
        if op in (">", ">="):
            l, r, op = r, l, {">": "<", ">=": "<="}[op]
        v = var(l)
        if v is None and op == "!=":
            l, r = r, l
            v = var(l)
        a = start(v) if v is not None else None
        if a is None:
            return None
        if inc is not None and steps(inc, v, ("++", "post++")):
            pass
        elif inc is None:
            top = body[2:] if body is not None and body[0] == "{" else [body]
            if sum(1 for t in top if steps(t, v, ("++", "post++"))) != 1 or any(n[0] == "cont" for n in walk(body)):
                return None
        else:
            return None
        return v, a, r, op

    def loop(self, s, st):
        c = self.canon(s)
        if c is None:
            if s[0] == "rfor":
                return self.rangefor(s, st)
            return Flow.loop(self, s, st)
        v, a, b, op = c
        body = s[5] if s[0] == "for" else s[4]
        if s[2] is not None:
            st = self.ex(s[2], st)
        if st is None:
            return None
        st = self.ev(b, st)
        self.loops[v] = (a, b)
        self.modified(body, v)
        sb, sc = self.x.brk, self.x.cont
        self.x.brk, self.x.cont = [], []
        end = self.ex(body, st)
        for t in self.x.cont:
            end = self.J(end, t)
        brk = self.x.brk
        self.x.brk, self.x.cont = sb, sc
        out = st
        if end is not None:
            out = out | self.cover(v, a, b, op, end, st)
        out = self.norm(out)
        for t in brk:
            out = self.J(out, frozenset(x for x in t if not (x[0] == "w" and v in x[2])))
        del self.loops[v]
        return out

    def modified(self, body, v):
        for n in walk(body):
            t = n[3] if n[0] == "asg" else n[3] if n[0] == "un" and n[2] in ("++", "--", "post++", "post--") else None
            t = peel(t) if isnode(t) else None
            if t is not None and t[0] == "v":
                self.mods.setdefault(t[2], set()).add(v)

    def refine(self, c, truth, st):
        c = peel(c)
        if c[0] == "bin" and c[2] in ("==", "!="):
            pos = (c[2] == "==") == truth
            for a, b in ((c[3], c[4]), (c[4], c[3])):
                a, b = peel(a), peel(b)
                if lit(b) == 1 and pos and self.an.dim(self, a) in ("species", "total species", "reactions"):
                    return self.norm(st | {("single",)})
                if self.root(a) == [] and pos:
                    # no array given, or the array the values are already kept in
                    if lit(b) in (0, None) and b[0] in ("lit", "cast", "?") or b[0] == "mcall":
                        return st | {("full", self.pid, frozenset())}
        if self.root(c) == [] and not truth:
            return st | {("full", self.pid, frozenset())}
        return st

    def on_nomatch(self, s, st):
        """A switch over a field whose every stored value has its own case."""
        c = peel(s[3])
        if c[0] == "m":
            vals = self.an.values(c[3])
            cases = set()
            for n in walk(s[4]):
                if n[0] == "case":
                    cases.add(lit(n[2]))
            if vals and vals <= cases:
                return None
        return st

    def cover(self, v, a, b, op, end, st):
        start = lit(peel(a)) if isnode(a) else a
        dim = self.an.dim(self, b)
        if op == "<=":
            dim = "%s + 1" % dim
        add = set()
        new = {x for x in end if x not in st}
        adeps = self.deps(a)
        bdeps = self.deps(b)
        for x in new:
            if x[0] == "w" and v in x[2]:
                V = x[2] - {v}
                if isinstance(start, int) and not isinstance(start, bool) and not (bdeps & V):
                    lo = x[3] + start
                    dims = x[4] | ({dim} if dim else frozenset())
                    if "block" in x[4]:
                        dims = frozenset()
                    if V:
                        add.add(("w", x[1], V, lo, dims))
                    elif lo == 0:
                        add.add(("full", x[1], frozenset(dims)))
                    else:
                        add.add(("suf", x[1], lo, frozenset(dims)))
                elif adeps or bdeps:
                    # triangular: both halves needed
                    if V:
                        ats = [y for y in new if y[0] == "at"]
                        sa = self.shift([a]) if isnode(a) else a
                        diag = bool(adeps) and sa == 0 or bool(bdeps) and op == "<=" and self.shift([b]) == 0
                        diag = diag or any(y[0] == "w" and v not in y[2] and y[2] & V for y in end)
                        if len(ats) >= 2 and diag:
                            add.add(("w", x[1], V, 0, frozenset()))
            elif x[0] in ("full", "suf", "pre") and x not in st:
                # stored in every iteration
                add.add(x)
        return add

    def rangefor(self, s, st):
        R = -s[1]                # stands for the position in the range
        sb, sc = self.x.brk, self.x.cont
        self.x.brk, self.x.cont = [], []
        st = self.ev(s[3], st)
        self.loops[R] = (0, s[3])
        self.modified(s[4], R)
        end = self.ex(s[4], st)
        for t in self.x.cont:
            end = self.J(end, t)
        brk = self.x.brk
        self.x.brk, self.x.cont = sb, sc
        out = st
        if end is not None:
            rng = ["mcall", s[1], "std::vector::size() const", s[3], [], 0, ""]
            out = self.norm(out | self.cover(R, ["lit", s[1], "i", 0], rng, "<", end, st))
        for t in brk:
            out = self.J(out, frozenset(x for x in t if not (x[0] == "w" and R in x[2])))
        del self.loops[R]
        return out

    def go(self):
        for n in walk(self.f.body):
            l = n[3] if n[0] == "asg" else n[4][0] if n[0] == "op" and n[2] in ("=", "+=", "-=", "*=", "/=") and n[4] else None
            if isnode(l):
                self.lhs.add(id(peel(l)))
                # address-of never reads
            if n[0] == "un" and n[2] == "&" and isnode(n[3]):
                self.lhs.add(id(peel(n[3])))
            if n[0] == "mcall" and isnode(n[3]) and n[3][0] == "v" and n[3][2] in self.views and short(n[2]) in ("data", "size", "rows", "cols", "setZero", "setConstant", "setOnes", "fill"):
                self.lhs.add(id(n[3]))
        return self.run(self.f.body, frozenset())


class An:
    def __init__(self, prog, rep):
        self.p, self.r = prog, rep
        self.memo, self.active = {}, set()
        self.fd = {}

    # -- dimensions
    def dim(self, fl, e, d=0):
        e = peel(e) if isnode(e) else e
        if not isnode(e):
            return None
        if e[0] == "m":
            return self.sort(e[3], fl.f)
        if e[0] == "mcall":
            s = short(e[2])
            if s == "size":
                return self.fielddim(fl, e[3])
            return self.sort(e[2], fl.f)
        if e[0] == "v":
            es = fl.inits.get(e[2], [])
            if len(es) == 1 and d < 4:
                return self.dim(fl, es[0], d + 1)
            return e[3] if False else None
        if e[0] == "bin" and e[2] in ("+", "-"):
            a = self.dim(fl, e[3], d + 1)
            return None if a is None else "%s %s %s" % (a, e[2], show(e[4]))
        return None

    def sort(self, key, f):
        s = short(key)
        c = clsof(key)
        kin = self.p.isa(c, NS + "Kinetics") or self.p.isa(clsof(f.key), NS + "Kinetics") and s in ("m_kk",)
        if s == "nTotalSpecies" or kin and s == "m_kk":
            return "total species"
        if s in SPECIES:
            return "species"
        if s == "nReactions":
            return "reactions"
        if s in ("nElements", "m_mm", "nel"):
            return "elements"
        if s in ("nPhases",):
            return "phases"
        return None

    def fielddim(self, fl, o):
        """Dimension of a vector field, from where it is sized; looks through references and accessors."""
        o = peel(o)
        d = 0
        while d < 5:
            d += 1
            if o[0] == "v":
                es = fl.inits.get(o[2], [])
                if len(es) != 1:
                    return None
                o = peel(es[0])
            elif o[0] in ("mcall",) and self.p.fns.get(o[2]) is not None and self.p.fns[o[2]].hasbody:
                rs = [x for x in walk(self.p.fns[o[2]].body) if x[0] == "ret" and len(x) > 2 and isnode(x[2])]
                ds = {self.fdim(peel(x[2])[3]) if peel(x[2])[0] == "m" else None for x in rs}
                return next(iter(ds)) if len(ds) == 1 else None
            else:
                break
        if o[0] != "m":
            return None
        return self.fdim(o[3])

    def fdim(self, fld):
        if not self.fd:
            for k, f in self.p.fns.items():
                if not f.hasbody:
                    continue
                fl = None
                for n in walk(f.body):
                    c = callee(n)
                    if not c or short(c[0]) not in ("resize", "assign", "push_back"):
                        continue
                    o = peel(c[1]) if c[1] is not None and isnode(c[1]) else None
                    if o is None or o[0] != "m":
                        continue
                    if short(c[0]) == "push_back":
                        d = "species" if short(k) == "addSpecies" and not self.p.isa(clsof(k), NS + "Kinetics") else "reactions" if short(k) == "addReaction" else None
                    else:
                        fl = fl or _Loc(f)
                        d = self.dim(fl, c[2][0]) if c[2] else None
                    self.fd.setdefault(o[3], set()).add(d)
        s = self.fd.get(fld)
        return next(iter(s)) if s and len(s) == 1 else None

    def values(self, fld):
        """All values ever stored in an integer field; None if one is not a constant."""
        if not hasattr(self, "_vals"):
            self._vals = {}
            for k, f in self.p.fns.items():
                if not f.hasbody:
                    continue
                for i in f.inits:
                    if isinstance(i[1], str) and i[3] is not None:
                        self._vals.setdefault(i[1], []).append(i[3])
                for n in walk(f.body):
                    if n[0] == "asg":
                        t = peel(n[3])
                        if t[0] == "m":
                            self._vals.setdefault(t[3], []).append(n[4])
        out = set()
        ini = self.p.field.get(fld, {}).get("init")
        for e in self._vals.get(fld, []):
            v = lit(peel(e)) if isnode(e) else None
            if not isinstance(v, int):
                return None
            out.add(v)
        if isnode(ini):
            out.add(lit(peel(ini)))
        return out

    # -- callee effects
    def effect(self, key, i, n):
        """(fills its i-th argument, reads it first, dims)"""
        ks = [key]
        if n[0] == "mcall" and n[5]:
            ks = sorted(set([key]) | set(self.p.overriders.get(key, ())))
        res = None
        for k in ks:
            f = self.p.fns.get(k)
            if f is None or not f.hasbody:
                continue
            ps = f.h["params"]
            if i >= len(ps) or not is_out(str(ps[i][2])):
                # passed as const double* or something else: read
                r = (False, "const double *" in str(ps[i][2]) if i < len(ps) else False, ())
            else:
                s = self.summary(k, ps[i][0])
                if s is None:
                    r = (True, False, ())
                else:
                    r = (s[0], bool(s[1]), s[2])
            res = r if res is None else (res[0] and r[0], res[1] or r[1], res[2])
        if res is None:
            h = self.p.fns.get(key)
            t = str(h.h["params"][i][2]) if h is not None and i < len(h.h["params"]) else key
            return (True, False, ()) if "const double *" not in t else (False, True, ())
        return res

    def summary(self, key, pid):
        """(filled on every normal path, reads before definition, dims, exits)"""
        m = (key, pid)
        if m in self.memo:
            return self.memo[m]
        if m in self.active:
            return (True, [], (), [])
        self.active.add(m)
        f = self.p.fns[key]
        fl = Fill(self, f, pid)
        ex = fl.go()
        bad = [l for k, l, n, st in ex if k != "throw" and not fl.isfull(st)]
        dims = set()
        for k, l, n, st in ex:
            if k != "throw":
                for x in st:
                    if x[0] == "full":
                        dims |= set(x[2])
        throws = all(k == "throw" for k, l, n, st in ex)
        self.active.discard(m)
        r = None if throws else (not bad, fl.reads, dims, bad)
        self.memo[m] = r
        return r


class _Loc:
    def __init__(self, f):
        self.f = f
        self.inits = {}
        for n in walk(f.body):
            if n[0] == "decl":
                for d in n[2:]:
                    if len(d) > 3 and isnode(d[3]):
                        self.inits.setdefault(d[0], []).append(d[3])


ROOTS = ("Phase", "Kinetics", "Transport", "MultiPhase", "ImplicitSurfChem")


# length of the array a query fills, where it is not the number of species (of reactions, for kinetics)
OTHER = re.compile(r"getElectronEnergy|Polynomial$|getElemAbundances")
TOTAL = re.compile(r"get(Creation|Destruction|NetProduction)Rates|getActivityConcentrations")


def run(prog, rep):
    a = An(prog, rep)
    rep.rule("every-entry-stored", 300, "A query stores every entry of the array it is given on every path that returns")
    rep.rule("not-read-before-stored", 300, "No entry of the caller's array is read before the query has stored it")
    rep.rule("extent", 220, "The entries stored are those of the dimension the query is documented for: species, reactions or species of all phases")
    for k, f in sorted(prog.fns.items()):
        if not f.hasbody:
            continue
        md = prog.methods.get(k)
        if not md or md[1].get("acc") != "pub" or not short(k).startswith("get"):
            continue
        if not any(prog.isa(clsof(k), NS + r) for r in ROOTS):
            continue
        for x in f.h["params"]:
            if not is_out(str(x[2])):
                continue
            s = a.summary(k, x[0])
            if s is None:
                continue
            full, reads, dims, bad = s
            if OTHER.search(short(k)) and "Elem" not in short(k):
                full = True
            rep.check("every-entry-stored", full, f.file, (bad[0] if bad else 0) or f.line, f.q, x[1],
                      "a path that returns leaves entries of %s unset" % x[1])
            rep.check("not-read-before-stored", not reads, f.file, reads[0][0] if reads else f.line, f.q, x[1],
                      reads and "%s uses entries of %s that have not been stored" % (reads[0][1], x[1]))
            if OTHER.search(short(k)):
                continue
            want = ("total species" if TOTAL.match(short(k)) else "reactions") if prog.isa(clsof(k), NS + "Kinetics") else "species"
            if prog.isa(clsof(k), NS + "ImplicitSurfChem"):
                continue
            if dims:
                rep.check("extent", dims == {want}, f.file, f.line, f.q, x[1], "stores %s entries of %s, expected %s" % (", ".join(sorted(dims)), x[1], want))
    rep.assumption("Arrays passed by callers have the documented length; phases and kinetics managers have at least one species and loops over them run to their bound")
