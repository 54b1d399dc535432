"""Polynomial normal forms over interned atoms: the value domain of engine/sym.py.

A Poly is a finite sum of monomials with rational coefficients; a monomial is a product of
atoms with integer exponents. Atoms are tuples whose nested values are written ("P", key).
Sums over an index are kept in a normal form (distributed over terms, invariant factors
pulled out, nested sums merged, bound indices renamed canonically)."""
from fractions import Fraction
from itertools import permutations

_ids = {}
_atoms = []


def aid(a):
    i = _ids.get(a)
    if i is None:
        i = _ids[a] = len(_atoms)
        _atoms.append(a)
    return i


def atom(i):
    return _atoms[i]


class Poly:
    __slots__ = ("d", "_k")

    def __init__(self, d=None):
        self.d = d or {}
        self._k = None

    @property
    def k(self):
        if self._k is None:
            self._k = ("P", tuple(sorted((m, (c.numerator, c.denominator)) for m, c in self.d.items())))
        return self._k

    def __eq__(self, o):
        return isinstance(o, Poly) and self.k == o.k

    def __hash__(self):
        return hash(self.k)

    def __add__(self, o):
        o = P(o)
        r = dict(self.d)
        for m, c in o.d.items():
            v = r.get(m, 0) + c
            if v:
                r[m] = v
            else:
                r.pop(m, None)
        return Poly(r)

    __radd__ = __add__

    def __neg__(self):
        return Poly({m: -c for m, c in self.d.items()})

    def __sub__(self, o):
        return self + (-P(o))

    def __rsub__(self, o):
        return P(o) - self

    def __mul__(self, o):
        o = P(o)
        r = {}
        for m1, c1 in self.d.items():
            for m2, c2 in o.d.items():
                m = mmul(m1, m2)
                v = r.get(m, 0) + c1 * c2
                if v:
                    r[m] = v
                else:
                    r.pop(m, None)
        return Poly(r)

    __rmul__ = __mul__

    def __truediv__(self, o):
        return self * inv(P(o))

    def __pow__(self, n):
        if n < 0:
            return inv(self) ** (-n)
        r = P(1)
        for _ in range(n):
            r = r * self
        return r

    def const(self):
        if not self.d:
            return Fraction(0)
        if len(self.d) == 1 and () in self.d:
            return self.d[()]
        return None

    def single(self):
        """The atom if the polynomial is exactly one atom."""
        if len(self.d) == 1:
            (m, c), = self.d.items()
            if c == 1 and len(m) == 1 and m[0][1] == 1:
                return _atoms[m[0][0]]
        return None

    def atoms(self):
        s = set()
        for m in self.d:
            for i, e in m:
                s.add(i)
        return [_atoms[i] for i in s]

    def __repr__(self):
        return pshow(self)


def mmul(a, b):
    if not a:
        return b
    if not b:
        return a
    r = dict(a)
    for i, e in b:
        v = r.get(i, 0) + e
        if v > 1 and _atoms[i][0] == "if":
            v = 1
        if v:
            r[i] = v
        else:
            del r[i]
    return tuple(sorted(r.items()))


def P(x):
    if isinstance(x, Poly):
        return x
    if isinstance(x, tuple):
        if x and x[0] == "P":
            return unkey(x)
        return Poly({((aid(x), 1),): Fraction(1)})
    if isinstance(x, float):
        x = Fraction(repr(x)) if x == x and abs(x) != float("inf") else None
        if x is None:
            return P(("nan",))
    x = Fraction(x)
    return Poly({(): x} if x else {})


_unk = {}


def unkey(k):
    r = _unk.get(k)
    if r is None:
        r = Poly({m: Fraction(*c) for m, c in k[1]})
        r._k = k
        _unk[k] = r
    return r


def inv(p):
    if len(p.d) == 1:
        (m, c), = p.d.items()
        if not any(_atoms[i][0] == "if" for i, e in m):
            return Poly({tuple((i, -e) for i, e in m): 1 / c})
    if not p.d:
        return P(("inv", p.k))
    lead = min(p.d.items())[1]
    return P(("inv", (p * (1 / lead)).k)) * (1 / lead)


# ------------------------------------------------------------- traversal

def has(x, pred, _m=None):
    """Does an atom satisfying pred occur anywhere in x (poly, key or atom)?"""
    if isinstance(x, Poly):
        x = x.k
    if _m is None:
        _m = {}
    if not isinstance(x, tuple):
        return False
    r = _m.get(x)
    if r is not None:
        return r
    if x and x[0] == "P":
        r = any(has(_atoms[i], pred, _m) for m, c in x[1] for i, e in m)
    else:
        r = bool(x and isinstance(x[0], str) and pred(x)) or any(has(y, pred, _m) for y in x if isinstance(y, tuple))
    _m[x] = r
    return r


def subst(x, f, _m=None):
    """Rebuild poly x with every atom a (innermost last) replaced by f(a) if that is not None."""
    if _m is None:
        _m = {}
    x = P(x)
    r = _m.get(x.k)
    if r is not None:
        return r
    r = P(0)
    for m, c in x.d.items():
        t = P(c)
        for i, e in m:
            a = _atoms[i]
            v = _sub_atom(a, f, _m)
            t = t * (v ** e)
        r = r + t
    _m[x.k] = r
    return r


def _sub_atom(a, f, _m):
    k = ("@", a)
    r = _m.get(k)
    if r is not None:
        return r
    v = f(a)
    if v is not None:
        r = P(v)
    else:
        b = sub_key(a, f, _m)
        if b == a:
            r = P(a)
        elif b[0] == "sum":
            r = resum(b)
        elif b[0] == "inv":
            r = inv(P(b[1]))
        else:
            r = P(b)
    _m[k] = r
    return r


def sub_key(t, f, _m=None):
    """Substitute inside a tuple that is not itself replaced."""
    if _m is None:
        _m = {}
    out = []
    for y in t:
        if isinstance(y, tuple):
            if y and y[0] == "P":
                out.append(subst(unkey(y), f, _m).k)
            elif y and isinstance(y[0], str) and y[0] in ATOMK:
                v = f(y)
                if v is not None:
                    s = P(v).single()
                    out.append(s if s is not None else P(v).k)
                else:
                    out.append(sub_key(y, f, _m))
            else:
                out.append(sub_key(y, f, _m))
        else:
            out.append(y)
    return tuple(out)


ATOMK = {"ix", "bx"}


def replace(x, table):
    """table: atom -> Poly or tuple"""
    return subst(x, lambda a: table.get(a))


# ------------------------------------------------------------- sums

_fresh = [0]


def fresh_ix(count):
    _fresh[0] += 1
    return ("ix", P(count).k, "t%d" % _fresh[0])


def ixcount(ix):
    return unkey(ix[1])


KRON = [lambda c, n: False]    # is c certainly an index below n?


def delta(a, ix):
    """c if atom a is the indicator of ix == c"""
    if a[0] == "if" and a[1] == "eq":
        d = unkey(a[2])
        e = d.d.get(((aid(ix), 1),))
        if e in (1, -1):
            c = (P(ix) * e - d) * (1 / e)
            if not has(c, lambda z: z == ix):
                return c
    return None


def mk_sum(ix, p):
    """Sum of p over the free index atom ix (which carries its count)."""
    r = P(0)
    dep = lambda a: has(a, lambda z: z == ix)
    for m, c in p.d.items():
        for i, e in m:
            z = delta(_atoms[i], ix)
            if z is not None and KRON[0](z, ixcount(ix)):
                break
        else:
            z = None
        if z is not None:
            r = r + replace(Poly({tuple(x for x in m if x[0] != i): c}), {ix: z})
            continue
        inn, out = [], []
        for i, e in m:
            (inn if dep(_atoms[i]) else out).append((i, e))
        outp = Poly({tuple(out): c})
        if not inn:
            r = r + outp * ixcount(ix)
            continue
        vs, mono = [ix], P(1)
        for i, e in inn:
            a = _atoms[i]
            if a[0] == "sum" and e == 1:
                tab = {}
                for q, (b, cn) in enumerate(a[1]):
                    n = fresh_ix(replace(unkey(cn), tab))
                    tab[b] = P(n)
                    vs.append(n)
                mono = mono * replace(unkey(a[2]), tab)
            else:
                mono = mono * Poly({((i, e),): Fraction(1)})
        r = r + outp * sum_norm(vs, mono)
    return r


def resum(a):
    """Renormalise a sum atom whose body changed under substitution."""
    tab, vs = {}, []
    for b, cn in a[1]:
        n = fresh_ix(replace(unkey(cn), tab))
        tab[b] = P(n)
        vs.append(n)
    body = replace(unkey(a[2]), tab)
    for v in reversed(vs):
        body = mk_sum(v, body)
    return body


def sum_norm(vs, mono):
    """Normal form of the sum over vs of the product mono (a poly; usually one monomial)."""
    if len(mono.d) != 1:
        r = P(0)
        for m, c in mono.d.items():
            r = r + sum_norm(vs, Poly({m: c}))
        return r
    (m, c), = mono.d.items()
    atoms_ = [(_atoms[i], e) for i, e in m]
    uses = []
    for a, e in atoms_:
        uses.append({v for v in vs if has(a, lambda z, v=v: z == v)})
    cntdep = {v: {w for w in vs if w != v and has(v[1], lambda z, w=w: z == w)} for v in vs}
    groups = []
    left = list(vs)
    while left:
        g = {left[0]}
        ch = True
        while ch:
            ch = False
            for u in uses:
                if u & g and not u <= g:
                    g |= u
                    ch = True
            for v in vs:
                if (v in g and not cntdep[v] <= g):
                    g |= cntdep[v]
                    ch = True
                if v not in g and cntdep[v] & g:
                    g.add(v)
                    ch = True
        groups.append([v for v in vs if v in g])
        left = [v for v in left if v not in g]
    r = P(c)
    rest = []
    for (a, e), u in zip(atoms_, uses):
        if not u:
            rest.append((aid(a), e))
    r = r * Poly({tuple(sorted(rest)): Fraction(1)})
    for g in groups:
        gs = set(g)
        fac = [(aid(a), e) for (a, e), u in zip(atoms_, uses) if u & gs]
        if not fac:
            if len(g) == 1:
                r = r * ixcount(g[0])
                continue
        body = Poly({tuple(sorted(fac)): Fraction(1)})
        r = r * P(canon_sum(g, body))
    return r


def maxbx(k):
    best = [-1]

    def pred(a):
        if a[0] == "bx":
            best[0] = max(best[0], a[1])
        return False
    has(k, pred, {})
    return best[0]


def canon_sum(vs, body):
    base = maxbx(body.k) + 1
    for v in vs:
        base = max(base, maxbx(v[1]) + 1)
    best = None
    perms = permutations(vs) if len(vs) <= 4 else [tuple(vs)]
    for pm in perms:
        seen = set()
        ok = True
        for v in pm:
            if any(w not in seen and w != v and has(v[1], lambda z, w=w: z == w) for w in vs):
                ok = False
                break
            seen.add(v)
        if not ok:
            continue
        tab = {v: P(("bx", base + q)) for q, v in enumerate(pm)}
        bs = tuple((("bx", base + q), replace(unkey(v[1]), tab).k) for q, v in enumerate(pm))
        a = ("sum", bs, replace(body, tab).k)
        key = canon_key(a)
        if best is None or key < best[0]:
            best = (key, a)
    return best[1]


_ck = {}


def canon_key(a):
    """Order-independent textual key."""
    return ashow(a)


# ------------------------------------------------------------- display

def ashow(a, d=0):
    if not isinstance(a, tuple):
        return str(a)
    if not a:
        return "()"
    k = a[0]
    if k == "P":
        return pshow(unkey(a), d + 1)
    if k == "ix":
        return "i%s<%s>" % (a[2], ashow(a[1], d + 1))
    if k == "bx":
        return "j%d" % a[1]
    if k == "sum":
        return "Sum[%s](%s)" % (", ".join("%s<%s" % (ashow(b), ashow(c, d + 1)) for b, c in a[1]), ashow(a[2], d + 1))
    if k == "psum":
        return "Upto(%s; %s)" % (ashow(a[1], d + 1), ashow(a[3], d + 1))
    if k == "fld":
        o = a[2]
        return (oshow(o) + "." if o != ("this",) else "") + a[1].split("::")[-1]
    if k == "arr":
        return "%s[%s]" % (oshow(a[1]), ashow(a[2], d + 1))
    if k == "q":
        return "%s.%s(%s)" % (oshow(a[2]), a[1], ", ".join(oshow(x) for x in a[4])) + ("@" + a[3] if isinstance(a[3], str) and a[3] else "")
    if k == "if":
        return "[" + " ".join(oshow(x) for x in a[1:]) + "]"
    if k == "inv":
        return "1/(%s)" % ashow(a[1], d + 1)
    if k == "unk":
        return "unknown(%s)" % (a[2],)
    return "%s(%s)" % (k, ", ".join(oshow(x) for x in a[1:]))


def oshow(o):
    if not isinstance(o, tuple):
        return str(o)
    if not o:
        return "()"
    if o[0] == "this":
        return "this"
    if o[0] == "ofld":
        return (oshow(o[2]) + "." if o[2] != ("this",) else "") + o[1].split("::")[-1]
    if o[0] == "elem":
        return "%s[%s]" % (oshow(o[1]), ashow(o[2]))
    if o[0] == "b":
        return "+".join(oshow(x) for x in o[1:])
    if o[0] in ("P", "ix", "bx", "sum", "psum", "fld", "arr", "q", "if", "inv", "unk"):
        return ashow(o)
    return "(" + " ".join(oshow(x) for x in o) + ")"


def pshow(p, d=0):
    if d > 12:
        return "..."
    out = []
    items = []
    for m, c in p.d.items():
        fs = []
        for i, e in m:
            s = ashow(_atoms[i], d)
            fs.append(s if e == 1 else "%s^%d" % (s, e))
        items.append((" * ".join(sorted(fs)), c))
    for s, c in sorted(items):
        if not s:
            out.append(str(c))
        elif c == 1:
            out.append(s)
        elif c == -1:
            out.append("-" + s)
        else:
            out.append("%s * %s" % (c, s))
    return " + ".join(out) if out else "0"
