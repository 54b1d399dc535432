"""Index-argument analysis: does an integer parameter reach an unchecked element
access, directly or through calls, without an intervening range check?"""
from .core import *

UNS = ("unsigned long", "unsigned int", "size_t", "unsigned short", "unsigned char", "unsigned long long")
INTS = UNS + ("int", "long", "short", "long long", "const int", "const long", "const int &", "const unsigned long")


def is_int(t):
    return t in INTS


class Bounds:
    def __init__(self, prog, cg):
        self.p, self.cg = prog, cg
        self.memo = {}
        self.depth = 0

    def summary(self, key):
        """{param position: (raw witness or None, checked?: bool)}"""
        r = self.memo.get(key)
        if r is not None:
            return r
        f = self.p.fns.get(key)
        self.memo[key] = {}
        if f is None or not f.hasbody or self.depth > 25:
            return {}
        pos = [i for i, q in enumerate(f.params) if is_int(q[2]) or q[2].replace("const ", "").rstrip(" &*") in INTS]
        if not pos:
            return {}
        self.depth += 1
        fl = BFlow(self, f, pos)
        ex = fl.run(f.body, (frozenset((f.params[i][0], i) for i in pos), frozenset()))
        self.depth -= 1
        ok = [x[3] for x in ex if x[0] != "throw"]
        out = {}
        for i in pos:
            chk = all(("U", i) in s[1] and (("L", i) in s[1]) for s in ok) if ok else True
            out[i] = (fl.sinks.get(i), chk)
        self.memo[key] = out
        return out

    def ptype(self, key, i):
        f = self.p.fns.get(key)
        if f and i < len(f.params):
            return f.params[i][2]
        return ""


class BFlow(Flow):
    """State: (set of (variable id, origin parameter), set of ('U'/'L', origin))"""

    def __init__(self, b, f, pos):
        self.b, self.f = b, f
        self.sinks = {}
        self.lambdas = {}
        self.base_checked = frozenset(("L", i) for i in pos if f.params[i][2].replace("const ", "").rstrip(" &") in UNS)
        self.pos = pos

    def run(self, body, st):
        return super().run(body, (st[0], st[1] | self.base_checked))

    def join(self, a, b):
        return (a[0] | b[0], a[1] & b[1])

    def origins(self, e, st):
        e = peel(e)
        if e is None or not isnode(e):
            return set()
        if e[0] == "v":
            return {o for v, o in st[0] if v == e[2]}
        if e[0] == "bin" and e[2] in ("+", "-", "*"):
            return self.origins(e[3], st) | self.origins(e[4], st)
        if e[0] == "un" and e[2] == "*":
            return self.origins(e[3], st)
        if e[0] == "cond":
            return self.origins(e[3], st) | self.origins(e[4], st)
        if e[0] in ("mcall", "call"):
            f = self.b.p.fns.get(e[2])
            if f and f.ret.replace("const ", "").rstrip(" &") in INTS:
                o = set()
                for i, a in enumerate(callee(e)[2]):
                    if is_int(self.b.ptype(e[2], i)):
                        o |= self.origins(a, st)
                return o
        return set()

    def on_decl(self, d, st):
        if d[3] is not None and (is_int(d[2]) or d[2] in ("auto",)):
            o = self.origins(d[3], st)
            if o:
                return (st[0] | {(d[0], x) for x in o}, st[1])
        return st

    def sink(self, e, st, what, n):
        for o in self.origins(e, st):
            if not (("U", o) in st[1] and ("L", o) in st[1]):
                self.sinks.setdefault(o, "%s:%d %s" % (self.f.file, n[1], what))

    def unsigned(self, e):
        e0 = e
        e = peel(e)
        if not isnode(e):
            return False
        if e[0] == "m":
            fl = self.b.p.field.get(e[3])
            return bool(fl) and fl["t"].replace("const ", "") in UNS
        if e[0] in ("mcall", "call"):
            f = self.b.p.fns.get(callee(e)[0])
            if f:
                return f.ret.replace("const ", "").rstrip(" &") in UNS
            return short(callee(e)[0]) in ("size", "length", "count")
        if e[0] == "v":
            for q in self.f.params:
                if q[0] == e[2]:
                    return q[2].replace("const ", "") in UNS
        if e[0] == "bin":
            return self.unsigned(e[3]) or self.unsigned(e[4])
        return False

    def minus(self, e):
        e = peel(e)
        return isnode(e) and e[0] == "bin" and e[2] == "-" and lit(e[4]) is not None

    def refine(self, c, truth, st):
        if c[0] not in ("bin",) or c[2] not in ("<", ">", "<=", ">=", "==", "!="):
            return st
        op, l, r = c[2], c[3], c[4]
        add = set()
        for a, b, o in ((l, r, op), (r, l, {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(op, op))):
            og = self.origins(a, st)
            if not og:
                continue
            eff = o if truth else {"<": ">=", ">": "<=", "<=": ">", ">=": "<", "==": "!=", "!=": "=="}[o]
            lb = lit(b)
            if eff == "<=" and lb is None and not self.minus(b):
                continue            # i <= count does not keep i inside the container
            if eff in ("<", "<=", "==") and not (lb is not None and lb <= 0 and eff != "=="):
                for x in og:
                    add.add(("U", x))
                    if self.unsigned(b):
                        add.add(("L", x))
            if eff in (">=", ">", "==") and lb is not None and lb >= -1:
                for x in og:
                    add.add(("L", x))
        return (st[0], st[1] | add) if add else st

    def event(self, n, st):
        k = n[0]
        if k == "asg" and n[2] == "=" and n[3][0] == "v":
            var = n[3][2]
            o = self.origins(n[4], st)
            rest = {(v, x) for v, x in st[0] if v != var}
            st = (frozenset(rest | {(var, x) for x in o}), st[1])
        elif k == "idx":
            b = peel(n[2])
            if not (b[0] == "v" and any(q[0] == b[2] for q in self.f.params)):    # caller's own memory
                self.sink(n[3], st, show(n), n)
        elif k == "op" and n[2] == "[]" and len(n[4]) == 2:
            cl = clsof(n[3])
            if cl.startswith(("std::vector", "std::array", "std::deque", "std::string", "std::basic_string", "Eigen::", "std::unique_ptr")):
                self.sink(n[4][1], st, show(n), n)
                return st
        elif k == "bin" and n[2] == "+":
            for a, b in ((n[3], n[4]), (n[4], n[3])):
                a = peel(a)
                if isnode(a) and (a[0] == "mcall" and short(a[2]) in ("data", "begin", "cbegin", "ptrColumn")
                                  or a[0] == "m" and self.b.p.field.get(a[3], {}).get("t", "").endswith("*")):
                    self.sink(b, st, show(n), n)
        elif k == "op" and n[2] == "+" and len(n[4]) == 2 and "__normal_iterator" in n[3]:
            self.sink(n[4][1], st, show(n), n)
        c = callee(n)
        if c:
            key, obj, args = c
            if k == "op" and obj is not None and clsof(key) == "" and not key.startswith("std"):
                args = [obj] + args
            og = [(i, self.origins(a, st)) for i, a in enumerate(args)]
            og = [x for x in og if x[1]]
            if og:
                tg = self.b.cg.targets(n)
                add = set()
                for i, os in og:
                    sm = [self.b.summary(t).get(i) for t in tg]
                    uns = all(self.b.ptype(t, i).replace("const ", "").rstrip(" &") in UNS for t in tg) if tg else False
                    for o in os:
                        if ("U", o) in st[1] and (("L", o) in st[1] or uns):
                            continue
                        for t, s in zip(tg, sm):
                            if s and s[0]:
                                self.sinks.setdefault(o, "%s:%d %s -> %s" % (self.f.file, n[1], short(t), s[0]))
                                break
                    if sm and all(s is not None and s[1] for s in sm):
                        for o in os:
                            add.add(("U", o))
                            add.add(("L", o))
                if add:
                    st = (st[0], st[1] | add)
        return st
