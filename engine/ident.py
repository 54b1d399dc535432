"""Equality of terms: derivatives of polynomial normal forms, and identity testing.

Two normal forms that differ as polynomials may still denote the same function (exp(a+b) and exp(a) exp(b)). They are
compared by giving every atom a value from its domain and evaluating both terms in 60-digit arithmetic at several such
interpretations: terms that differ at one of them are different functions; terms that agree at all of them are taken to be
the same. Only terms are evaluated, never the program."""
import hashlib
import mpmath
from .poly import *
from .poly import subst as psubst

mpmath.mp.dps = 60


class NoValue(Exception):
    pass


def D(p, rule):
    """Derivative of p; rule(atom) is the derivative of an atom that is not a function of others, or None for 0."""
    p = P(p)
    r = P(0)
    for m, c in p.d.items():
        for i, e in m:
            d = Da(atom(i), rule)
            if d.d:
                rest = Poly({tuple(x for x in m if x[0] != i): c})
                r = r + rest * P(e) * (P(atom(i)) ** (e - 1)) * d
    return r


def Da(a, rule):
    v = rule(a)
    if v is not None:
        return P(v)
    k = a[0]
    if k == "inv":
        return -P(a) ** 2 * D(unkey(a[1]), rule)
    if k == "fn":
        xs = [unkey(x) for x in a[2:] if isinstance(x, tuple) and x and x[0] == "P"]
        ds = [D(x, rule) for x in xs]
        if not any(d.d for d in ds):
            return P(0)
        s, x = a[1], xs[0]
        if s == "exp":
            return P(a) * ds[0]
        if s == "log":
            return inv(x) * ds[0]
        if s == "log10":
            return inv(x) * ds[0] * inv(P(("fn", "log", P(10).k)))
        if s == "sqrt":
            return P((1)) * inv(P(a)) * ds[0] * P(mpq(1, 2))
        if s == "pow":
            return P(a) * (xs[1] * inv(x) * ds[0] + P(("fn", "log", x.k)) * ds[1])
        if s == "sin":
            return P(("fn", "cos", x.k)) * ds[0]
        if s == "cos":
            return -P(("fn", "sin", x.k)) * ds[0]
        raise NoValue("derivative of " + s)
    if k == "if":
        return P(0)
    if k == "rec":
        m, st, up = len(a[3]), [unkey(x) for x in a[3]], [unkey(x) for x in a[4]]
        ds = [D(x, rule) for x in st]

        def tangent(y):
            return P(("hole", m + y[1])) if y[0] == "hole" and isinstance(y[1], int) else rule(y)
        du = [D(x, tangent) for x in up]
        if not any(x.d for x in ds) and not any(D(x, rule).d for x in up):
            return P(0)
        return P(("rec", m + a[1], a[2], tuple(x.k for x in st + ds), tuple(x.k for x in up + du)))
    if k == "sum":
        tab, vs = {}, []
        for b, cn in a[1]:
            n = fresh_ix(replace(unkey(cn), tab))
            tab[b] = P(n)
            vs.append(n)
        body = D(replace(unkey(a[2]), tab), rule)
        for v in reversed(vs):
            body = mk_sum(v, body)
        return body
    return P(0)


def mpq(a, b):
    from fractions import Fraction
    return Fraction(a, b)


INTQ = {"nSpecies", "nTotalSpecies", "nReactions", "nElements", "nPhases", "size", "nPlogs", "nPoints", "nComponents"}


class Interp:
    """One interpretation of the atoms. dom(atom) may give a value (a number, 'bool', 'int', 'signed', 'pos') or None."""

    def __init__(self, seed, dom=None, types=None):
        self.seed, self.dom, self.types = seed, dom or (lambda a: None), types
        self.memo = {}
        self.vmemo = {}

    def h(self, *x):
        s = hashlib.sha256(repr((self.seed,) + x).encode()).digest()
        return int.from_bytes(s[:8], "big") / 2.0 ** 64

    def val(self, x, env):
        x = P(x)
        r = mpmath.mpf(0)
        for m, c in x.d.items():
            t = mpmath.mpf(c.numerator) / c.denominator
            zero = False
            # indicators first: a term they cancel may have no value
            for i, e in sorted(m, key=lambda z: atom(z[0])[0] != "if"):
                v = self.atom(atom(i), env)
                if v == 0:
                    if e < 0:
                        raise ZeroDivisionError
                    zero = True
                    break
                t = t * v ** e
            if not zero:
                r = r + t
        return r

    def key(self, y, env):
        if isinstance(y, tuple):
            if y and y[0] == "P":
                return mpmath.nstr(self.val(unkey(y), env), 25)
            if y and y[0] in ("ix", "bx"):
                return mpmath.nstr(self.atom(y, env), 25)
            return tuple(self.key(z, env) for z in y)
        return y

    def atom(self, a, env):
        if a in env:
            return mpmath.mpf(env[a])
        mk = (a, tuple(env.items()))
        if mk in self.vmemo:
            return self.vmemo[mk]
        r = self.vmemo[mk] = self.atom_(a, env)
        return r

    def atom_(self, a, env):
        k = a[0]
        if k == "inv":
            v = self.val(unkey(a[1]), env)
            if v == 0:
                raise ZeroDivisionError
            return 1 / v
        if k == "if" and a[1] in ("pos", "eq"):
            v = self.val(unkey(a[2]), env)
            if a[1] == "pos":
                return mpmath.mpf(int(v.real > mpmath.mpf(10) ** -35))
            return mpmath.mpf(int(abs(v) < mpmath.mpf(10) ** -35))
        if k == "fn":
            xs = [self.val(unkey(x), env) for x in a[2:]]
            f = {"exp": mpmath.exp, "log": mpmath.log, "log10": mpmath.log10, "sqrt": mpmath.sqrt, "sin": mpmath.sin, "cos": mpmath.cos,
                 "pow": mpmath.power, "fabs": abs, "abs": abs, "tanh": mpmath.tanh, "sinh": mpmath.sinh, "cosh": mpmath.cosh, "erf": mpmath.erf,
                 "infinity": lambda: mpmath.mpf(10) ** 5000, "max": max, "min": min, "cbrt": mpmath.cbrt, "floor": mpmath.floor, "tan": mpmath.tan, "acos": mpmath.acos, "atan": mpmath.atan}.get(a[1])
            if f is None:
                return self.hashed(("fn", a[1]) + tuple(mpmath.nstr(x, 25) for x in xs), a)
            if a[1] in ("log", "log10", "sqrt", "pow") and xs[0] <= 0:
                raise ZeroDivisionError    # outside the domain
            return f(*xs)
        if k == "sum":
            return self.sum(list(a[1]), unkey(a[2]), env)
        if k == "rec":
            n = self.val(unkey(a[2]), env)
            if n != int(n) or n > 40 or n < 0:
                raise NoValue("turns")
            v = [self.val(unkey(x), env) for x in a[3]]
            for j in range(int(n)):
                e2 = dict(env)
                e2.update({("hole", i): x for i, x in enumerate(v)})
                e2[("hole", "i")] = j
                v = [self.val(unkey(x), e2) for x in a[4]]
            return v[a[1]]
        if k == "psum":
            raise NoValue("prefix sum")
        if k == "unk":
            raise NoValue("unknown")
        if k in ("ix", "bx"):
            if k == "ix":
                n = int(self.val(unkey(a[1]), env))
                return mpmath.mpf(int(self.h("ix", a[2]) * n))
            raise NoValue("bound index")
        return self.hashed(tuple(self.key(y, env) for y in a), a)

    def sum(self, bs, body, env):
        if not bs:
            return self.val(body, env)
        (b, cn), rest = bs[0], bs[1:]
        n = self.val(unkey(cn), env)
        if n != int(n) or n > 40:
            raise NoValue("count")
        r = mpmath.mpf(0)
        for j in range(int(n)):
            r += self.sum(rest, body, dict(env, **{}) | {b: j})
        return r

    def hashed(self, k, a):
        if k in self.memo:
            return self.memo[k]
        d = self.dom(a)
        if d is None and self.types:
            d = self.types(a)
        if d is None:
            if a[0] in ("szfld", "size") or a[0] == "q" and a[1] in INTQ:
                d = "int"
            elif a[0] == "if":
                d = "bool"
        u = mpmath.mpf(repr(self.h(k)))
        if callable(d):
            d = d(u)
        if d == "bool":
            r = mpmath.mpf(int(u > 0.5))
        elif d == "int":
            r = mpmath.mpf(2 + int(u * 3))
        elif d == "signed":
            r = (u - 0.5) * 6
        elif d in (None, "pos"):
            r = mpmath.mpf("0.4") + 2 * u
        else:
            r = mpmath.mpf(d)
        self.memo[k] = r
        return r


def differ(l, r, dom=None, types=None, trials=8, seed=0):
    """None if the two terms agree on every interpretation tried; else a description of a difference. Raises NoValue when
    no interpretation gives a value."""
    l, r = P(l), P(r)
    if l == r:
        return None
    ok = 0
    why = None
    # a difference may show on one side of a comparison only
    if has(l, lambda z: z[0] == "if") or has(r, lambda z: z[0] == "if"):
        trials *= 24
    for t in range(trials * 4):
        it = Interp((seed, t), dom, types)
        try:
            a, b = it.val(l, {}), it.val(r, {})
        except ZeroDivisionError:
            continue
        except NoValue as e:
            why = e
            raise
        ok += 1
        if abs(a - b) > mpmath.mpf(10) ** -25 * (abs(a) + abs(b) + mpmath.mpf(10) ** -20):
            return "%s against %s" % (mpmath.nstr(a, 6), mpmath.nstr(b, 6))
        if ok >= trials:
            break
    if not ok:
        raise NoValue(str(why or "no point in the domain"))
    return None
