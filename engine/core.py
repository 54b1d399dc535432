"""Syntax-tree helpers, call graph and a structured (path-joining) dataflow
interpreter over the facts emitted by tool/ctfacts."""

KINDS = {"{", "decl", "if", "for", "rfor", "while", "do", "switch", "case", "default", "ret", "break", "cont",
         "nop", "goto", "label", "try", "?s", "v", "g", "f", "enum", "m", "mf", "this", "fref", "call", "mcall", "icall",
         "op", "ctor", "new", "delete", "throw", "un", "bin", "asg", "idx", "cond", "cast", "lit", "init",
         "lambda", "dm", "df", "typeid", "sizeof", "?"}

ASSIGN_OPS = {"=", "+=", "-=", "*=", "/=", "%=", "|=", "&=", "^=", "<<=", ">>="}


def isnode(x):
    return isinstance(x, list) and len(x) >= 2 and isinstance(x[0], str) and x[0] in KINDS and isinstance(x[1], int)


def walk(n):
    """All nodes below n in pre-order, including n; lambda bodies included."""
    stack = [n]
    while stack:
        x = stack.pop()
        if not isinstance(x, list):
            continue
        if isnode(x):
            yield x
        stack.extend(reversed([c for c in x if isinstance(c, list)]))


def walk_nolambda(n):
    stack = [n]
    while stack:
        x = stack.pop()
        if not isinstance(x, list):
            continue
        if isnode(x):
            yield x
            if x[0] == "lambda":
                continue
        stack.extend(reversed([c for c in x if isinstance(c, list)]))


def children(n):
    """Direct child nodes of n (looking through non-node lists)."""
    out = []

    def rec(l):
        for c in l:
            if isinstance(c, list):
                if isnode(c):
                    out.append(c)
                else:
                    rec(c)
    rec(n[2:] if isnode(n) else n)
    return out


def callee(n):
    """(key, object, args) of any resolved call node, else None."""
    k = n[0]
    if k == "call":
        return n[2], None, n[3]
    if k == "mcall":
        return n[2], n[3], n[4]
    if k == "op":
        return n[3], (n[4][0] if n[4] else None), n[4][1:]
    if k == "ctor":
        return n[3], None, n[4]
    return None


def qn(key):
    """Qualified name of a function key (strip parameter list)."""
    d = 0
    for i, ch in enumerate(key):
        if ch == "<":
            d += 1
        elif ch == ">" and not (i and key[i - 1] == "-"):
            d -= 1
        elif ch == "(" and d <= 0 and not key[:i].endswith("operator"):
            return key[:i]
    return key


def short(key):
    """Unqualified function name."""
    q = qn(key)
    d = 0
    o = q.rfind("::operator")
    if o >= 0 and "->" in q[o:] and "::" not in q[o + 2:]:
        return q[o + 2:]
    for i in range(len(q) - 1, 0, -1):
        if q[i] == ">":
            d += 1
        elif q[i] == "<":
            d -= 1
        elif q[i] == ":" and d == 0 and q[i - 1] == ":":
            return q[i + 1:]
    return q


def clsof(key):
    q = qn(key)
    s = short(key)
    return q[:-(len(s) + 2)] if len(q) > len(s) else ""


def strip_tmpl(q):
    out, d = "", 0
    for i, ch in enumerate(q):
        if ch == "<":
            d += 1
        elif ch == ">" and not (i and q[i - 1] == "-"):
            d -= 1
        elif d == 0:
            out += ch
    return out


def lit(n):
    """Python value of a literal (looking through string construction), else None."""
    if n is None or not isnode(n):
        return None
    if n[0] == "lit":
        t, v = n[2], n[3]
        if t == "d":
            return float(v)
        if t == "b":
            return bool(v)
        return v
    if n[0] == "ctor" and ("std::string" in n[2]) and len(n[4]) >= 1:
        return lit(n[4][0])
    if n[0] == "cast":
        return lit(n[4])
    if n[0] == "un" and n[2] == "-":
        v = lit(n[3])
        return -v if isinstance(v, (int, float)) else None
    return None


def strlit(n):
    v = lit(n)
    return v if isinstance(v, str) else None


def peel(n):
    """Look through copies, casts, std::move and single-argument wrapping constructors."""
    while n is not None and isnode(n):
        if n[0] == "cast":
            n = n[4]
        elif n[0] == "ctor" and len(n[4]) == 1:
            n = n[4][0]
        elif n[0] == "call" and qn(n[2]).startswith(("std::move", "std::forward")) and len(n[3]) == 1:
            n = n[3][0]
        else:
            return n
    return n


def base_field(n):
    """The member field at the root of an lvalue path rooted at *this, e.g.
    m_y[k], m_y.data()+3, m_a.b.c, *m_p -> name of the outermost field of this."""
    while n is not None and isnode(n):
        k = n[0]
        if k == "m":
            b = n[2]
            if b and b[0] == "this":
                return n[3]
            if b and b[0] == "un" and b[2] == "*" and b[3][0] == "this":
                return n[3]
            n = b
        elif k == "idx":
            n = n[2]
        elif k == "op" and n[2] in ("[]", "*", "->", "()", "+", "++", "--", "+=", "-="):
            n = n[4][0] if n[4] else None
        elif k == "mcall":
            n = n[3]
        elif k == "un":
            n = n[3]
        elif k == "bin" and n[2] in ("+", "-"):
            n = n[3]
        elif k == "cast":
            n = n[4]
        elif k == "ctor" and len(n[4]) == 1:
            n = n[4][0]
        elif k == "cond":
            return base_field(n[3]) or base_field(n[4])
        else:
            return None
    return None


def root_var(n):
    """The local variable / parameter id at the root of an access path."""
    while n is not None and isnode(n):
        k = n[0]
        if k == "v":
            return n[2]
        if k == "m":
            n = n[2]
        elif k == "idx":
            n = n[2]
        elif k == "op":
            n = n[4][0] if n[4] else None
        elif k == "mcall":
            n = n[3]
        elif k == "un":
            n = n[3]
        elif k == "bin" and n[2] in ("+", "-"):
            n = n[3]
        elif k == "cast":
            n = n[4]
        elif k == "ctor" and len(n[4]) == 1:
            n = n[4][0]
        else:
            return None
    return None


def same(a, b):
    """Structural equality ignoring line numbers."""
    if isnode(a) and isnode(b):
        return a[0] == b[0] and len(a) == len(b) and all(same(x, y) for x, y in zip(a[2:], b[2:]))
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return a == b


def fingerprint(n):
    if isnode(n):
        return (n[0],) + tuple(fingerprint(x) for x in n[2:])
    if isinstance(n, list):
        return tuple(fingerprint(x) for x in n)
    return n


def show(n, depth=0):
    """Readable rendering of an expression for reports."""
    if not isnode(n):
        return "?"
    if depth > 6:
        return "..."
    k = n[0]
    s = lambda x: show(x, depth + 1)
    if k in ("v",):
        return n[3]
    if k == "g":
        return n[2].split("::")[-1]
    if k == "enum":
        return n[2].split("::")[-1]
    if k == "m":
        b = "" if n[2] and n[2][0] == "this" else s(n[2]) + "."
        return b + n[3].split("::")[-1]
    if k == "this":
        return "this"
    if k == "lit":
        return repr(n[3]) if n[2] == "s" else str(n[3])
    if k == "call":
        return short(n[2]) + "(" + ", ".join(map(s, n[3])) + ")"
    if k == "mcall":
        b = "" if n[3] and n[3][0] == "this" else s(n[3]) + "."
        return b + short(n[2]) + "(" + ", ".join(map(s, n[4])) + ")"
    if k == "op":
        a = n[4]
        if n[2] == "[]" and len(a) == 2:
            return s(a[0]) + "[" + s(a[1]) + "]"
        if n[2] == "()":
            return s(a[0]) + "(" + ", ".join(map(s, a[1:])) + ")"
        if len(a) == 2:
            return s(a[0]) + " " + n[2] + " " + s(a[1])
        return n[2] + " ".join(map(s, a))
    if k == "ctor":
        if len(n[4]) == 1:
            return s(n[4][0])
        return n[2].split("::")[-1] + "(" + ", ".join(map(s, n[4])) + ")"
    if k == "idx":
        return s(n[2]) + "[" + s(n[3]) + "]"
    if k == "un":
        return n[2].replace("post", "") + s(n[3])
    if k in ("bin", "asg"):
        return s(n[3]) + " " + n[2] + " " + s(n[4])
    if k == "cond":
        return s(n[2]) + " ? " + s(n[3]) + " : " + s(n[4])
    if k == "cast":
        return s(n[4])
    if k == "dm":
        return n[2]
    return k


# ------------------------------------------------------------------ call graph

class CallGraph:
    """Resolved callees per function; virtual calls go to every overrider in a
    subclass of the static receiver type (class-hierarchy analysis)."""

    def __init__(self, prog):
        self.p = prog
        self._out = {}

    def targets(self, node, recv=None):
        c = callee(node)
        if not c:
            return ()
        key = c[0]
        if node[0] == "mcall" and node[5]:
            return self.virtual_targets(key, recv or node[6])
        return (key,)

    def virtual_targets(self, key, recv):
        """Implementations reachable from a virtual call of `key` on static type recv."""
        p = self.p
        subs = p.subclasses(recv) | {recv} if recv else None
        cands = {key} | p.overriders.get(key, set())
        if not subs or recv not in p.classes:
            return tuple(cands)
        out = set()
        for s in subs:
            if p.classes.get(s, {}).get("abs") and s != recv:
                pass
            m = self.final_impl(key, s)
            if m:
                out.add(m)
        return tuple(out) or tuple(cands)

    def final_impl(self, key, cls):
        """The function that a virtual call of `key` runs on an object of dynamic class cls."""
        p = self.p
        cands = {key} | p.overriders.get(key, set())
        byc = {clsof(k): k for k in cands}
        for c in [cls] + p.bases(cls):
            if c in byc:
                return byc[c]
        return None

    def out(self, key):
        r = self._out.get(key)
        if r is None:
            f = self.p.fns.get(key)
            r = set()
            if f and f.hasbody:
                for src in [f.body] + [i[3] for i in f.inits]:
                    if src is None:
                        continue
                    for n in walk(src):
                        if n[0] in ("f", "mf"):
                            r.add(n[2])
                        else:
                            r.update(self.targets(n))
            self._out[key] = r
        return r

    def reach(self, roots, stop=lambda k: False):
        seen, q = set(), list(roots)
        while q:
            k = q.pop()
            if k in seen:
                continue
            seen.add(k)
            if stop(k):
                continue
            q.extend(self.out(k))
        return seen


# ------------------------------------------------------- structured dataflow

class Exits:
    __slots__ = ("ret", "brk", "cont", "thr")

    def __init__(self):
        self.ret, self.brk, self.cont, self.thr = [], [], [], []


class Flow:
    """Forward dataflow by structural recursion. Subclasses give:
       join(a, b); event(node, st) -> st for each expression node in evaluation
       order (children first); refine(cond, truth, st); and optionally hooks.
       A state of None means unreachable. run() returns the list of
       (kind, line, node, state) exits with kind in ret/end/throw."""

    MAXIT = 12
    noreturn = ()

    def join(self, a, b):
        raise NotImplementedError

    def event(self, n, st):
        return st

    def refine(self, cond, truth, st):
        return st

    def on_decl(self, d, st):
        return st

    def eq(self, a, b):
        return a == b

    def widen(self, a, b):
        return self.join(a, b)

    def may_throw(self, n):
        return n[0] in ("call", "mcall", "op", "ctor", "icall", "new")

    def J(self, a, b):
        if a is None:
            return b
        if b is None:
            return a
        return self.join(a, b)

    # -- expressions
    def ev(self, n, st):
        if st is None or n is None or not isinstance(n, list):
            return st
        if not isnode(n):
            for c in n:
                if isinstance(c, list):
                    st = self.ev(c, st)
            return st
        k = n[0]
        if k == "lambda":
            return self.event(n, st)
        if k == "bin" and n[2] in ("&&", "||") or k == "un" and n[2] == "!":
            t, f = self.cond(n, st)
            return self.J(t, f)
        if k == "cond":
            t, f = self.cond(n[2], st)
            t = self.ev(n[3], t)
            f = self.ev(n[4], f)
            st = self.J(t, f)
            return self.event(n, st) if st is not None else None
        if k == "asg":
            st = self.ev(n[4], st)
            st = self.ev(n[3], st)
        elif k == "op" and n[2] in ASSIGN_OPS and len(n[4]) == 2:
            st = self.ev(n[4][1], st)
            st = self.ev(n[4][0], st)
        else:
            for c in children(n):
                st = self.ev(c, st)
                if st is None:
                    return None
        if st is None:
            return None
        if self.may_throw(n) and self._try:
            self._try[-1].append(st)
        if k == "throw":
            st = self.event(n, st)
            self.x.thr.append((n[1], n, st))
            if self._try:
                self._try[-1].append(st)
            return None
        if k == "op" and n[2] == "()" and self.inline_lambdas:
            st = self.local_lambda(n, st)
            if st is None:
                return None
        st = self.event(n, st)
        if st is not None and self.may_throw(n) and self._try:
            self._try[-1].append(st)
        c = callee(n)
        if c and self.noreturn and c[0] in self.noreturn:
            self.x.thr.append((n[1], n, st))
            return None
        return st

    inline_lambdas = True

    def on_bind(self, lam, args, st):
        return st

    def local_lambda(self, n, st):
        """A call of a lambda held in a local variable runs its body here."""
        if not n[4] or not isnode(n[4][0]):
            return st
        o = peel(n[4][0])
        lam = self._lam.get(o[2]) if o[0] == "v" else o if o[0] == "lambda" else None
        if lam is None or lam[1] in self._inl or len(self._inl) > 3:
            return st
        self._inl.append(lam[1])
        sr, sb, sc = self.x.ret, self.x.brk, self.x.cont
        self.x.ret, self.x.brk, self.x.cont = [], [], []
        st = self.on_bind(lam, n[4][1:], st)
        out = self.ex(lam[5], st)
        for l, r, t in self.x.ret:
            out = self.J(out, t)
        self.x.ret, self.x.brk, self.x.cont = sr, sb, sc
        self._inl.pop()
        return out

    def cond(self, n, st):
        """(state if true, state if false)"""
        if st is None or n is None:
            return st, st
        if n[0] == "bin" and n[2] == "&&":
            t1, f1 = self.cond(n[3], st)
            t2, f2 = self.cond(n[4], t1)
            return t2, self.J(f1, f2)
        if n[0] == "bin" and n[2] == "||":
            t1, f1 = self.cond(n[3], st)
            t2, f2 = self.cond(n[4], f1)
            return self.J(t1, t2), f2
        if n[0] == "un" and n[2] == "!":
            t, f = self.cond(n[3], st)
            return f, t
        if n[0] == "lit":
            v = lit(n)
            if v is True or v == 1:
                return st, None
            if v is False or v == 0:
                return None, st
        st = self.ev(n, st)
        if st is None:
            return None, None
        return self.refine(n, True, st), self.refine(n, False, st)

    # -- statements
    def decl_ev(self, d, st):
        if len(d) > 3 and d[3] is not None:
            st = self.ev(d[3], st)
            i = peel(d[3]) if isnode(d[3]) else None
            if i is not None and i[0] == "lambda":
                self._lam[d[0]] = i
        if st is not None:
            st = self.on_decl(d, st)
        return st

    def ex(self, s, st):
        if s is None or st is None:
            return st
        k = s[0]
        if k == "{":
            for c in s[2:]:
                st = self.ex(c, st)
                if st is None:
                    # still scan unreachable labels/cases? structured code only
                    return None
            return st
        if k == "decl":
            for d in s[2:]:
                st = self.decl_ev(d, st)
                if st is None:
                    return None
            return st
        if k == "if":
            if s[2] is not None:
                st = self.ex(s[2], st)
            t, f = self.cond(s[3], st)
            t = self.ex(s[4], t)
            f = self.ex(s[5], f) if s[5] is not None else f
            return self.J(t, f)
        if k in ("for", "while", "do", "rfor"):
            return self.loop(s, st)
        if k == "switch":
            return self.switch(s, st)
        if k in ("case",):
            return self.ex(s[3], st)
        if k == "default":
            return self.ex(s[2], st)
        if k == "label":
            return self.ex(s[2], st)
        if k == "ret":
            if s[2] is not None:
                st = self.ev(s[2], st)
            if st is not None:
                st = self.on_return(s, st)
                self.x.ret.append((s[1], s, st))
            return None
        if k == "break":
            self.x.brk.append(st)
            return None
        if k == "cont":
            self.x.cont.append(st)
            return None
        if k == "try":
            self._try.append([st])
            body = self.ex(s[2], st)
            thr = self._try.pop()
            hs = None
            for t in thr:
                hs = self.J(hs, t)
            out = body
            for h in s[3]:
                e = self.on_catch(h, hs)
                out = self.J(out, self.ex(h[2], e))
            return out
        if k == "nop":
            return st
        if k == "goto":
            return None
        if k == "?s":
            for c in s[3:]:
                if isinstance(c, list):
                    st = self.ex(c, st)
            return st
        return self.ev(s, st)

    def on_return(self, s, st):
        return st

    def on_catch(self, h, st):
        return st

    def on_loopvar(self, s, st):
        return st

    def loop(self, s, st):
        k = s[0]
        if k == "for":
            st = self.ex(s[2], st)
            cond, inc, body = s[3], s[4], s[5]
        elif k == "while":
            cond, inc, body = s[3], None, s[4]
        elif k == "do":
            cond, inc, body = s[3], None, s[2]
        else:
            st = self.ev(s[3], st)
            cond, inc, body = None, None, s[4]
        head = st
        out = None
        for it in range(self.MAXIT):
            sb, sc = self.x.brk, self.x.cont
            self.x.brk, self.x.cont = [], []
            cur = head
            if k == "while" and s[2] is not None:
                cur = self.ex(s[2], cur)
            if k == "rfor":
                t, f = self.on_loopvar(s, cur), cur
            elif k == "do":
                t, f = cur, None
            elif cond is not None:
                t, f = self.cond(cond, cur)
            else:
                t, f = cur, None
            b = self.ex(body, t)
            for c in self.x.cont:
                b = self.J(b, c)
            if k == "do":
                b, f = self.cond(cond, b)
            elif inc is not None:
                b = self.ev(inc, b)
            out = f
            for c in self.x.brk:
                out = self.J(out, c)
            self.x.brk, self.x.cont = sb, sc
            new = self.J(head, b)
            if it >= 4 and new is not None and head is not None:
                new = self.widen(head, new)
            if head is not None and new is not None and self.eq(head, new):
                break
            if head is None and new is None:
                break
            head = new
        return out

    def switch(self, s, st):
        if s[2] is not None:
            st = self.ex(s[2], st)
        st = self.ev(s[3], st)
        sb = self.x.brk
        self.x.brk = []
        body = s[4]
        cur = None
        has_default = False
        items = body[2:] if body and body[0] == "{" else [body]
        for it in items:
            x = it
            while x is not None and x[0] in ("case", "default"):
                if x[0] == "default":
                    has_default = True
                    cur = self.J(cur, self.on_case(s, None, st))
                    x = x[2]
                else:
                    cur = self.J(cur, self.on_case(s, x, st))
                    x = x[3]
            cur = self.ex(x, cur)
        out = cur
        if not has_default:
            out = self.J(out, self.on_nomatch(s, st))
        for b in self.x.brk:
            out = self.J(out, b)
        self.x.brk = sb
        return out

    def on_case(self, s, case, st):
        return st

    def on_nomatch(self, s, st):
        return st

    def run(self, body, st):
        self.x = Exits()
        self._try = []
        self._lam, self._inl = {}, []
        end = self.ex(body, st)
        out = [("ret", l, n, s) for l, n, s in self.x.ret]
        out += [("throw", l, n, s) for l, n, s in self.x.thr]
        if end is not None:
            out.append(("end", 0, None, end))
        return out
