"""Decides what a range-check function does for each ordering of its argument and the
quantity it is compared with (a finite case analysis over comparisons, no execution)."""
from .core import *

OPS = {"<": lambda a: a < 0, ">": lambda a: a > 0, "<=": lambda a: a <= 0, ">=": lambda a: a >= 0,
       "==": lambda a: a == 0, "!=": lambda a: a != 0}
NEG = {"<": ">=", ">": "<=", "<=": ">", ">=": "<", "==": "!=", "!=": "=="}
SWAP = {"<": ">", ">": "<", "<=": ">=", ">=": "<=", "==": "==", "!=": "!="}


def offset(e):
    """(expression without constant offset, offset, subtracts?)"""
    e = peel(e)
    if isnode(e) and e[0] == "bin" and e[2] in ("+", "-"):
        c = lit(e[4])
        if isinstance(c, int) and not isinstance(c, bool):
            b, o, s = offset(e[3])
            return b, o + (c if e[2] == "+" else -c), s or e[2] == "-"
        c = lit(e[3])
        if isinstance(c, int) and e[2] == "+":
            b, o, s = offset(e[4])
            return b, o + c, s
    return e, 0, False


class Ordering(Flow):
    """Runs a check function under param - X == d for a fixed integer d."""

    def __init__(self, prog, f, pid, d):
        self.p, self.f, self.pid, self.d = prog, f, pid, d
        self.quant = []
        self.alias = {pid}
        self.under = False
        self.vals = {}

    def join(self, a, b):
        return True

    def on_decl(self, d, st):
        if d[3] is not None:
            e = peel(d[3])
            if isnode(e) and e[0] == "v" and e[2] in self.alias:
                self.alias.add(d[0])
            else:
                self.vals[d[0]] = d[3]
        return st

    def isparam(self, e):
        return isnode(e) and e[0] == "v" and e[2] in self.alias

    def truth(self, c):
        if c[0] == "v" and c[2] in self.vals:
            return self.truth(self.vals[c[2]])
        if c[0] == "un" and c[2] == "!":
            t = self.truth(c[3])
            return None if t is None else not t
        if c[0] != "bin" or c[2] not in OPS:
            return None
        (a, ao, asub), (b, bo, bsub) = offset(c[3]), offset(c[4])
        op = c[2]
        if self.isparam(b) and not self.isparam(a):
            (a, ao, asub), (b, bo, bsub), op = (b, bo, bsub), (a, ao, asub), SWAP[op]
        if not self.isparam(a) or lit(b) is not None:
            return None
        if bsub or asub:
            self.under = True       # unsigned subtraction wraps when the quantity is zero
        if isnode(b) and b[0] == "v" and b[2] in self.vals:
            b = peel(self.vals[b[2]])
        self.quant.append(b)
        return OPS[op](self.d + ao - bo)

    def refine(self, c, truth, st):
        t = self.truth(c)
        return st if t is None or t == truth else None


def resolve_quantity(prog, e, depth=0):
    """Follow trivial accessors to the underlying field / size expression."""
    e = peel(e)
    if isnode(e) and e[0] == "mcall" and depth < 4:
        f = prog.fns.get(e[2])
        if f and f.hasbody and not e[4]:
            st = [s for s in f.body[2:]]
            if len(st) == 1 and st[0][0] == "ret":
                return resolve_quantity(prog, st[0][2], depth + 1)
        if short(e[2]) == "size":
            return ("size", resolve_quantity(prog, e[3], depth + 1))
    if isnode(e) and e[0] == "m":
        return e[3]
    return show(e)


def behaviour(prog, f, pi=0):
    """{d: 'throw' | 'return' | 'both'}, quantities, wraps"""
    out, q, under = {}, [], False
    for d in (-3, -2, -1, 0, 1, 2, 3):
        o = Ordering(prog, f, f.params[pi][0], d)
        ex = o.run(f.body, True)
        kinds = {"throw" if x[0] == "throw" else "return" for x in ex}
        out[d] = "both" if len(kinds) == 2 else (kinds.pop() if kinds else "none")
        q += o.quant
        under |= o.under
    return out, [resolve_quantity(prog, x) for x in q], under
