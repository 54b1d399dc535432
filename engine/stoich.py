"""Entrywise effects of the per-reaction stoichiometry classes: what a method adds to, multiplies into or stores in which
entry of its array arguments, as polynomials of entries. Guards that only keep negative concentrations out are dropped."""
from .poly import P, Poly, aid, atom
from .core import *


class Unk(Exception):
    pass


class Effects:
    def __init__(self, f):
        self.f = f
        self.pos = {pr[0]: i for i, pr in enumerate(f.params)}
        self.env, self.ix, self.eff = {}, {}, {}
        self.order = []
        self.block(f.body)

    # entries ---------------------------------------------------------------
    def idx(self, n):
        n = peel(n)
        if n[0] == "m":
            return short(n[3])
        if n[0] == "v" and n[2] in self.ix:
            return self.ix[n[2]]
        if n[0] in ("op", "idx"):
            b, i = (n[4][0], n[4][1]) if n[0] == "op" else (n[2], n[3])
            b = peel(b)
            if b[0] == "m":
                return (short(b[3]), self.idx(i))
        if n[0] == "v" and n[2] in self.env and isinstance(self.env[n[2]], tuple):
            return self.env[n[2]][1]
        raise Unk("index " + show(n)[:30])

    def entry(self, n):
        n = peel(n)
        if n[0] == "idx":
            b, i = peel(n[2]), n[3]
        elif n[0] == "op" and n[2] == "[]":
            b, i = peel(n[4][0]), n[4][1]
        else:
            return None
        if b[0] == "v" and b[2] in self.pos:
            return (self.pos[b[2]], self.idx(i))
        if b[0] == "m":
            return ("f", (short(b[3]), self.idx(i)))
        return None

    # values ----------------------------------------------------------------
    def val(self, n):
        n = peel(n)
        c = lit(n)
        if isinstance(c, (int, float)) and not isinstance(c, bool):
            from fractions import Fraction
            return P(Fraction(c))
        e = self.entry(n)
        if e is not None:
            return P(("e",) + e)
        k = n[0]
        if k == "v":
            if n[2] in self.env and not isinstance(self.env[n[2]], tuple):
                return self.env[n[2]]
            if n[2] in self.pos:
                return P(("arg", self.pos[n[2]]))
            raise Unk("variable")
        if k == "m":
            return P(("m", short(n[3])))
        if k == "un" and n[2] == "-":
            return -self.val(n[3])
        if k == "bin" and n[2] in "+-*":
            a, b = self.val(n[3]), self.val(n[4])
            return a + b if n[2] == "+" else a - b if n[2] == "-" else a * b
        if k == "call" and strip_tmpl(short(n[2])) == "pow":
            return P(("pow", self.val(n[3][0]).k, self.val(n[3][1]).k))
        raise Unk(show(n)[:40])

    # statements ------------------------------------------------------------
    def block(self, s):
        k = s[0]
        if k == "{":
            for c in s[2:]:
                if isnode(c):
                    self.block(c)
        elif k == "decl":
            for d in s[2:]:
                if isinstance(d, list) and d and isinstance(d[0], int) and isnode(d[3]):
                    if d[2].endswith("&") and not d[2].startswith("const"):
                        raise Unk("reference")
                    try:
                        self.env[d[0]] = self.val(d[3])
                    except Unk:
                        try:
                            self.env[d[0]] = ("i", self.idx(d[3]))
                        except Unk:
                            pass
        elif k == "if":
            a, b = s[4], s[5] if len(s) > 5 and isnode(s[5]) else None
            if not zeroing(a):
                if b is not None and not zeroing(b):
                    raise Unk("two ways")
                self.guard(s[3], a)
            elif b is not None:
                self.block(b)
        elif k == "for":
            self.loop(s)
        elif k == "asg":
            self.assign(s[2], s[3], s[4])
        elif k in ("nop", "brk", "ret", "cont"):
            pass
        else:
            raise Unk("statement " + k)

    def guard(self, c, a):
        c = peel(c)
        if c[0] == "bin" and c[2] == "!=" and peel(c[3])[0] == "v" and peel(c[3])[2] in self.ix and peel(c[4])[0] == "v" and peel(c[4])[2] in self.ix:
            self.ne = True
        self.block(a)

    def loop(self, s):
        init = s[2]
        if not isnode(init) or init[0] != "decl":
            raise Unk("loop")
        i = init[2][0]
        if lit(init[2][3]) not in (0, None):
            raise Unk("loop start")
        self.ix[i] = "n%d" % len(self.ix)
        keep = dict(self.env)
        written = {peel(n[3])[2] for n in walk(s[5]) if n[0] == "asg" and peel(n[3])[0] == "v"} & set(keep)
        for v in written:
            self.env[v] = P(1)
        self.ne = False
        self.block(s[5])
        for v in written:
            if self.ops.get(v) != "*=":
                raise Unk("accumulated local")
            self.env[v] = keep[v] * P(("each", "ne" if self.ne else "all", self.env[v].k))
        del self.ix[i]

    ops = {}

    def assign(self, op, l, r):
        lp = peel(l)
        v = self.val(r)
        if lp[0] == "v" and lp[2] in self.env:
            self.ops = dict(self.ops)
            self.ops[lp[2]] = op
            o = self.env[lp[2]]
            self.env[lp[2]] = v if op == "=" else o + v if op == "+=" else o - v if op == "-=" else o * v
            return
        e = self.entry(lp)
        if e is None and lp[0] == "m":
            e = ("f", short(lp[3]))
        if e is None:
            raise Unk("store " + show(lp)[:30])
        me = P(("e",) + e)
        if op == "=":
            d = v - me
            if not any(b == ("e",) + e for b in d.atoms()) and any(b == ("e",) + e for b in v.atoms()):
                op, v = "+=", d
        if op == "-=":
            op, v = "+=", -v
        old = self.eff.get(e)
        if old is None:
            self.eff[e] = (op, v)
        elif op == "+=" and old[0] in ("+=", "="):
            self.eff[e] = (old[0], old[1] + v)
        elif op == "*=" and old[0] in ("*=", "="):
            self.eff[e] = (old[0], old[1] * v)
        elif op == "=":
            self.eff[e] = (op, v)
        else:
            raise Unk("mixed stores")


def zeroing(s):
    l = [n for n in walk(s) if n[0] == "asg"]
    return bool(l) and all(n[2] == "=" and lit(peel(n[4])) == 0 for n in l)
