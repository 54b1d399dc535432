"""Freshness of memoised fields: a field computed by an update function may be read only after that
function has run since the last possible change of state. Interprocedural over calls on this, one dynamic class at a time."""
from .core import *

OBJ = lambda o: o is None or (isnode(o) and (o[0] == "this" or (o[0] == "un" and o[2] == "*" and isnode(o[3]) and o[3][0] == "this")
                                            or (o[0] == "cast" and OBJ(o[4]))))


def this_field(n):
    """Field of this denoted by (or containing) lvalue n: innermost member access on this along the base path."""
    while n is not None and isnode(n):
        k = n[0]
        if k == "m":
            if OBJ(n[2]):
                return n[3]
            n = n[2]
        elif k == "idx":
            n = n[2]
        elif k == "op" and n[2] in ("[]", "*", "()", "+", "-") and n[4]:
            n = n[4][0]
        elif k == "mcall" and short(n[2]) in ("data", "begin", "end", "ptrColumn", "at", "back", "front", "operator[]"):
            n = n[3]
        elif k == "un":
            n = n[3]
        elif k == "bin" and n[2] in ("+", "-"):
            n = n[3]
        elif k == "cast":
            n = n[4]
        elif k == "ctor" and len(n[4]) == 1:
            n = n[4][0]
        else:
            return None
    return None


def is_addr(n):
    """Expression that denotes a writable pointer into a field: &m_x[0], m_x.data(), m_x.begin(), m_x itself by reference."""
    n0 = peel(n) if isnode(n) else n
    return isnode(n0) and (n0[0] == "un" and n0[2] == "&" or n0[0] == "mcall" and short(n0[2]) in ("data", "begin", "ptrColumn")
                           or n0[0] == "bin" and is_addr(n0[3]))


def ptypes(key):
    """Parameter types in a function key."""
    s = key[len(qn(key)):]
    a = s.find("(")
    if a < 0 or ")" not in s:
        return []
    s = s[a + 1:s.rindex(")")]
    out, d, cur = [], 0, ""
    for ch in s:
        d += ch in "<(["
        d -= ch in ">)]"
        if ch == "," and d == 0:
            out.append(cur)
            cur = ""
        else:
            cur += ch
    if cur:
        out.append(cur)
    return out


def mutable_param(t):
    return ("&" in t or "*" in t) and not t.startswith("const ")


# std algorithms: positions of the arguments written through (None: none)
STD_WRITES = {"find": (), "find_if": (), "accumulate": (), "max_element": (), "min_element": (), "lower_bound": (), "upper_bound": (),
              "inner_product": (), "count": (), "count_if": (), "equal": (), "distance": (), "all_of": (), "any_of": (), "none_of": (),
              "max": (), "min": (), "for_each": (), "adjacent_find": (), "is_sorted": (),
              "copy": (2,), "copy_n": (2,), "copy_if": (2,), "partial_sum": (2,), "adjacent_difference": (2,)}


def root_param(n):
    """Parameter id at the root of an lvalue, through element access and dereference."""
    return root_var(n)


class ParamWrites:
    """Which parameters of a function may be written through (transitively; functions without a body: by type)."""

    def __init__(self, prog):
        self.p, self.memo = prog, {}

    def writes(self, key, i):
        over = self.p.overriders.get(key)
        if over:
            return self.writes1(key, i) or any(self.writes1(k, i) for k in over)
        return self.writes1(key, i)

    def writes1(self, key, i):
        m = self.memo.get(key)
        if m is None:
            f = self.p.fns.get(key)
            if f is None or not f.hasbody:
                return True
            self.memo[key] = m = set()
            ids = {q[0]: j for j, q in enumerate(f.h["params"])}
            alias = dict(ids)
            for n in walk(f.body):
                if n[0] == "decl":
                    for d in n[2:]:
                        if len(d) > 3 and isnode(d[3]) and ("*" in d[2] or "&" in d[2] or "_iterator" in d[2]):
                            r = root_var(d[3])
                            if r in alias:
                                alias[d[0]] = alias[r]
            ch = True
            while ch:
                ch = False
                for n in walk(f.body):
                    for x in stored(n, self):
                        r = root_var(x)
                        if r in alias and alias[r] not in m:
                            if isnode(x) and x[0] == "v" and "&" not in str(f.h["params"][alias[r]][2]) and not callee(n):
                                continue       # the parameter variable itself, by value
                            m.add(alias[r])
                            ch = True
                    if n[0] == "mcall" and isnode(n[3]) and not self.const_method(n[2]) and self.self_writes(n[2]):
                        r = root_var(n[3])
                        if r in alias and alias[r] not in m and n[3][0] in ("v", "un"):
                            m.add(alias[r])
                            ch = True
        return i in m

    def self_writes(self, key):
        """The method may store to its object (unknown body: yes)."""
        m = self.memo.get(("self", key))
        if m is None:
            f = self.p.fns.get(key)
            if f is None or not f.hasbody or self.p.overriders.get(key):
                return True
            self.memo["self", key] = m = False
            for n in walk(f.body):
                if any(this_field(x) for x in stored(n, self)):
                    m = True
                elif n[0] == "mcall" and isnode(n[3]) and (OBJ(n[3]) or this_field(n[3])) and not self.const_method(n[2]):
                    m = m or self.self_writes(n[2])
            self.memo["self", key] = m
        return m

    def const_method(self, key):
        return key.rstrip().endswith(" const") or short(key) in ("size", "begin", "end", "data", "at", "find", "count", "empty", "rows", "cols")


def written_args(n, pw=None):
    """Arguments of call n that the callee may write through."""
    c = callee(n)
    if not c:
        return []
    ts = ptypes(c[0])
    out = []
    q = qn(c[0])
    if q.startswith("std::"):
        w = STD_WRITES.get(strip_tmpl(q).split("::")[-1])
        if strip_tmpl(q).split("::")[-1] == "transform":
            w = (len(c[2]) - 2,)
        if w is not None:
            return [a for i, a in enumerate(c[2]) if i in w]
    for i, a in enumerate(c[2]):
        t = ts[i] if i < len(ts) else (ts[-1] if ts else "")
        if pw is not None and mutable_param(t) and not pw.writes(c[0], i):
            continue
        if mutable_param(t) or t.startswith("type-parameter") or not ts:
            out.append(a)
        elif is_addr(a) and ("_Iter" in t or "iterator" in t or "OutputI" in t):
            out.append(a)
    return out


MUT = {"push_back", "resize", "assign", "clear", "insert", "erase", "emplace_back", "swap", "fill", "zero", "reset"}


class ClassView:
    """Methods of one dynamic class, calls on this resolved to final implementations."""

    def __init__(self, prog, cg, cls, pw=None):
        self.p, self.cg, self.cls, self.pw = prog, cg, cls, pw
        self._direct = {}
        self._callees = {}
        self._wr = {}

    def target(self, n):
        """Key of the implementation run by a call on this, else None."""
        if n[0] != "mcall" or not OBJ(n[3]):
            return None
        k = n[2]
        if n[5]:
            return self.cg.final_impl(k, self.cls) or k
        return k

    def direct(self, f):
        """(fields read, fields written, keys called on this) in f's own body."""
        r = self._direct.get(f.key)
        if r is None:
            rd, wr, ca = set(), set(), set()
            for src in [f.body] + [i[3] for i in f.inits]:
                if src is None:
                    continue
                for n in walk(src):
                    if n[0] == "m" and OBJ(n[2]):
                        rd.add(n[3])
                    w = stored(n, self.pw)
                    for x in w:
                        y = this_field(x)
                        if y:
                            wr.add(y)
                    t = self.target(n)
                    if t:
                        ca.add(t)
            r = self._direct[f.key] = (rd, wr, ca)
        return r

    def closure(self, key, what):
        """Fields read (0) or written (1) by key and everything it calls on this."""
        seen, q, out = set(), [key], set()
        while q:
            k = q.pop()
            if k in seen:
                continue
            seen.add(k)
            f = self.p.fns.get(k)
            if not f or not f.hasbody:
                continue
            d = self.direct(f)
            out |= d[what]
            q.extend(d[2])
        return out

    def region_writes(self, nodes):
        """Fields written by nodes and what they call on this."""
        out = set()
        for top in nodes:
            for n in walk(top):
                for x in stored(n, self.pw):
                    y = this_field(x)
                    if y:
                        out.add(y)
                t = self.target(n)
                if t:
                    out |= self.writes(t)
        return out

    def writes(self, key):
        if key not in self._wr:
            self._wr[key] = self.closure(key, 1)
        return self._wr[key]


def stored(n, pw=None):
    """Lvalues stored by node n itself."""
    k = n[0]
    if k == "asg":
        return [n[3]]
    if k == "op" and n[2] in ASSIGN_OPS and n[4]:
        return [n[4][0]]
    if k in ("un",) and n[2] in ("++", "--", "post++", "post--"):
        return [n[3]]
    if k == "op" and n[2] in ("++", "--") and n[4]:
        return [n[4][0]]
    if callee(n):
        out = written_args(n, pw)
        if n[0] == "mcall" and short(n[2]) in MUT and not OBJ(n[3]):
            out = out + [n[3]]
        return out
    return []


class Fresh(Flow):
    """state: frozenset of fresh fields. needs: {field: witness}."""

    def __init__(self, an, f):
        self.an, self.f = an, f
        self.needs = {}

    def join(self, a, b):
        return a & b

    def loop(self, s, st):
        """Loops over all elements of an array count as filling it: the body is taken to run at least once."""
        out = Flow.loop(self, s, st)
        if out is not None and s[0] in ("for", "rfor"):
            body = s[5] if s[0] == "for" else s[4]
            for n in (walk(body) if body is not None else ()):
                for x in stored(n, self.an.view.pw):
                    y = this_field(x)
                    if y in self.an.tracked:
                        out = out | {y}
                t = self.an.view.target(n)
                if t:
                    out = out | self.an.summary(t)[1]
        return out

    def ex(self, s, st):
        g = self.an.guards.get(id(s)) if s is not None and s[0] == "if" else None
        if g is None or st is None:
            return Flow.ex(self, s, st)
        neg, wr = g
        # flag memo: values are current when the flag is set, recomputed otherwise
        if neg:
            r = self.ex(s[4], st)
            return None if r is None else r | (wr & self.an.tracked)
        self.ex(s[4], st | (wr & self.an.tracked))
        return st

    def event(self, n, st):
        an = self.an
        if n[0] == "m" and OBJ(n[2]) and n[3] in an.tracked:
            if n[3] not in st and id(n) not in self.lv:
                self.needs.setdefault(n[3], (self.f, n[1]))
            return st
        if callee(n) or n[0] == "icall":
            t = an.view.target(n)
            if t:
                s = an.summary(t)
                for o, w in s[0].items():
                    if o not in st:
                        self.needs.setdefault(o, w)
                if s[2]:
                    st = frozenset()
                st = st | s[1]
        for x in stored(n, an.view.pw):
            y = this_field(x)
            if y in an.tracked:
                st = st | {y}
        return st


class Analysis:
    """tracked: fields memoised; updaters: {key: set of fields it makes fresh}; kills: predicate key -> bool."""

    def __init__(self, view, tracked, updaters, kills, guards=None):
        self.guards = guards or {}
        self.view, self.tracked, self.updaters, self.kills = view, tracked, updaters, kills
        self.memo = {}
        self.active = set()

    def lvalues(self, f):
        """ids of member nodes that are only stored to."""
        out = set()
        for src in [f.body] + [i[3] for i in f.inits]:
            if src is None:
                continue
            for n in walk(src):
                for x in stored(n, self.view.pw):
                    if n[0] == "asg" and n[2] != "=" or n[0] == "op" and n[2] in ASSIGN_OPS and n[2] != "=":
                        continue
                    y = x
                    while isnode(y):
                        if y[0] == "m" and OBJ(y[2]):
                            out.add(id(y))
                            break
                        if y[0] in ("m",):
                            y = y[2]
                        elif y[0] in ("idx",):
                            y = y[2]
                        elif y[0] == "op" and y[4]:
                            y = y[4][0]
                        elif y[0] == "mcall":
                            y = y[3]
                        elif y[0] == "un":
                            y = y[3]
                        elif y[0] == "bin":
                            y = y[3]
                        elif y[0] == "cast":
                            y = y[4]
                        elif y[0] == "ctor" and len(y[4]) == 1:
                            y = y[4][0]
                        else:
                            break
        # taking the address does not read the contents
        for n in walk(f.body) if f.body is not None else ():
            if n[0] == "decl":
                for d in n[2:]:
                    if len(d) > 3 and isnode(d[3]) and ("*" in d[2] and is_addr(d[3]) or "&" in d[2] and not d[2].startswith("const ")):
                        for y in walk(d[3]):
                            if y[0] == "m" and OBJ(y[2]):
                                out.add(id(y))
        # size queries do not read the contents
        for src in [f.body]:
            if src is None:
                continue
            for n in walk(src):
                if n[0] == "mcall" and short(n[2]) in ("size", "empty", "nRows", "nColumns", "resize") and isnode(n[3]) and n[3][0] == "m":
                    out.add(id(n[3]))
        return out

    def summary(self, key):
        """(needs, gen, kill)"""
        if key in self.memo:
            return self.memo[key]
        f = self.view.p.fns.get(key)
        if f is None or not f.hasbody or key in self.active:
            return ({}, frozenset(), False)
        self.active.add(key)
        fl = Fresh(self, f)
        fl.lv = self.lvalues(f)
        ex = fl.run(f.body, frozenset())
        gen = None
        for kind, line, n, st in ex:
            if kind != "throw":
                gen = st if gen is None else gen & st
        gen = frozenset(self.tracked) if gen is None else gen
        up = self.updaters.get(key)
        needs = fl.needs
        if up:
            gen = gen | up
            needs = {o: w for o, w in needs.items() if o not in up}
        self.active.discard(key)
        self.memo[key] = (needs, frozenset(gen), self.kills(key))
        return self.memo[key]
