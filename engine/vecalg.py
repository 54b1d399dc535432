"""Elementwise algebra of arrays over reactions and species: a small abstract interpreter for kinetics managers.

Every array is one element's value, a polynomial over atoms: fields, thermodynamic queries, other opaque results, and
("lin", op, transposed, monomial) for the stoichiometric operators applied to an array. Loops that run over all entries
are executed once for a general entry; a loop over a list of indices (reversible reactions) assigns on that subset only."""
from .poly import P, Poly, aid, atom
from .core import *
from .facts import Broken

REV = ("rev",)


class Unknown(Exception):
    pass


def clean(p):
    """rev is 0 or 1"""
    r = P(0)
    i = aid(REV)
    for m, c in P(p).d.items():
        r = r + Poly({tuple((a, 1 if a == i and e > 0 else e) for a, e in m): c})
    return r


def lin(op, v, t):
    """operator applied to an array: scalars move out, the reversible operator is the product operator on the reversible part"""
    r = P(0)
    if isinstance(op, dict):
        for o, c in op.items():
            r = r + P(c) * lin(o, v, t)
        return r
    if op == "revprod":
        if t:
            return clean(P(REV) * lin("prod", v, t))
        return lin("prod", clean(P(REV) * P(v)), t)
    for m, c in clean(P(v)).d.items():
        sc = tuple(x for x in m if scalar(atom(x[0])))
        ar = tuple(x for x in m if not scalar(atom(x[0])))
        r = r + Poly({sc: c}) * P(("lin", op, t, Poly({ar: P(1).d[()]}).k))
    return r


def scalar(a):
    return a[0] in ("sc", "const")


STOICH = {"m_reactantStoich": "reac", "m_productStoich": "prod", "m_revProductStoich": "revprod"}


class Interp:
    def __init__(self, prog, cls, flags=None):
        self.p, self.cls = prog, cls
        self.mem = {}           # location -> value
        self.flags = flags or {}
        self.depth = 0
        self.inloop = 0
        self.touched = set()

    # ------------------------------------------------------------- dispatch
    def resolve(self, key):
        """the function a call on `this` reaches in the concrete class"""
        name = key.split("::")[-1] if "(" not in key else key[key.rindex("::", 0, key.index("(")) + 2:]
        c = self.cls
        while c:
            g = self.p.fns.get(c + "::" + name)
            if g is not None and g.body is not None:
                return g
            b = self.p.classes.get(c, {}).get("bases") or []
            c = bname(b[0]) if b else None
        return self.p.fns.get(key)

    def run(self, key, args, env=None):
        f = self.resolve(key)
        if f is None or f.body is None:
            raise Unknown("no body for " + key)
        self.depth += 1
        if self.depth > 12:
            raise Unknown("depth")
        fr = {}
        for n in walk(f.body):          # running positions: ik++ over all species
            if n[0] == "un" and "++" in n[2] and peel(n[3])[0] == "v":
                fr[("count", peel(n[3])[2])] = True
        for i, pr in enumerate(f.params):
            if i < len(args):
                fr[pr[0]] = args[i]
        r = self.block(f.body, fr)
        self.depth -= 1
        return r[1] if r else None

    # ------------------------------------------------------------ locations
    def loc(self, n, fr):
        """location of an array expression"""
        n = peel(n)
        k = n[0]
        if k == "m":
            b = peel(n[2])
            if b[0] == "this":
                return ("F", short(n[3]))
            return None
        if k == "v":
            x = fr.get(n[2])
            return x[1] if isinstance(x, tuple) and x and x[0] == "loc" else ("L", id(fr), n[2])
        if k == "mcall" and short(n[2]) in ("data", "begin", "cbegin", "noalias", "array", "matrix", "end", "cend"):
            return self.loc(n[3], fr)
        if k in ("bin", "op") and n[2] == "+":
            a = n[3] if k == "bin" else n[4][0]
            b = peel(n[4] if k == "bin" else n[4][1])
            if "m_start" in show(b):
                return self.loc(a, fr)
            return None
        if k == "un" and n[2] == "&":
            m = peel(n[3])
            if m[0] == "op" and m[2] == "[]":
                ix = peel(m[4][1])
                if lit(ix) == 0 or "m_start" in show(ix):
                    return self.loc(m[4][0], fr)
        if k == "ctor" and "Eigen::Map" in n[2] and n[4]:
            return self.loc(n[4][0], fr)
        return None

    def load(self, l):
        if l is None:
            raise Unknown("array")
        if l in self.mem:
            return self.mem[l]
        if l[0] == "F":
            if l[1] == "m_ropr":
                return P(REV) * P(("f", "m_ropr"))
            return P(("f", l[1]))
        if l[0] == "P":
            return P(("in", l[1]))
        raise Unknown("uninitialised local")

    def store(self, l, v):
        if l is None:
            raise Unknown("array")
        self.touched.add(l)
        self.mem[l] = clean(v)

    # ----------------------------------------------------------- statements
    def block(self, s, fr):
        if not isnode(s):
            return None
        k = s[0]
        if k == "{":
            for c in s[2:]:
                r = self.block(c, fr)
                if r:
                    return r
            return None
        if k == "decl":
            for d in s[2:]:
                if isinstance(d, list) and d and isinstance(d[0], int):
                    self.declare(d, fr)
            return None
        if k == "ret":
            return ("ret", self.value(s[2], fr) if len(s) > 2 and isnode(s[2]) else None)
        if k == "if":
            return self.branch(s, fr)
        if k == "for":
            self.loop(s, fr)
            return None
        if k == "rfor":
            self.rangefor(s, fr)
            return None
        if k == "throw" or k == "nop":
            return None
        self.effect(s, fr)
        return None

    def rangefor(self, s, fr):
        vid, ty = s[2][0], s[2][2]
        rng = peel(s[3])
        l = self.loc(rng, fr)
        nm = short(rng[3]) if rng[0] == "m" else ""
        if nm in ("m_revindex", "m_irrev"):
            fr[vid] = ("ix", "rev" if nm == "m_revindex" else "irr")
        elif l is not None and "double" in ty:
            if "&" in ty:
                fr[vid] = ("ref", l, "all")
            else:
                fr[vid] = ("val", self.load(l))
        else:
            fr[vid] = ("unkref",)
        if self.block(s[4], fr):
            raise Unknown("leaves loop")

    def declare(self, d, fr):
        t, ini = d[2], d[3]
        p = peel(ini) if isnode(ini) else None
        if p is not None and self.oper(p, fr) is not None:
            fr[d[0]] = ("oper", self.oper(p, fr))
            return
        if p is not None and t.endswith("&") and ((p[0] == "op" and p[2] == "[]") or p[0] == "idx"):
            b, ix = (p[4][0], p[4][1]) if p[0] == "op" else (p[2], p[3])
            l = self.loc(b, fr)
            fr[d[0]] = ("ref", l, self.subset(ix, fr)) if l is not None else ("unkref",)
            return
        if p is not None and ("&" in t or "*" in t or "Eigen::Map" in t):
            l = self.loc(ini, fr) if isnode(ini) else None
            if l is None and isnode(ini):
                l = self.loc(p, fr)
            if l is not None:
                fr[d[0]] = ("loc", l)
                return
        if t.startswith("std::vector<double") or "Eigen::" in t:
            fr[d[0]] = ("loc", ("L", id(fr), d[0]))
            if p is not None and not (p[0] == "ctor" and "Eigen" not in t):
                try:
                    self.mem[("L", id(fr), d[0])] = self.value(ini, fr)
                except Unknown:
                    pass
            return
        if p is None:
            return
        if ("count", d[0]) in fr and lit(p) == 0:
            fr[d[0]] = ("ix", "all")
            return
        try:
            fr[d[0]] = ("val", self.value(ini, fr))
        except Unknown as e:
            fr[d[0]] = ("unk", str(e))

    def branch(self, s, fr):
        c, a = s[3], s[4]
        b = s[5] if len(s) > 5 and isnode(s[5]) else None
        v = self.truth(c, fr)
        if v is None and capped(c):
            v = False                   # the overflow limit is not reached
        if v is True:
            return self.block(a, fr)
        if v is False:
            return self.block(b, fr) if b else None
        onlyret = all(x[0] in ("{", "ret", "lit", "throw") for x in [a] + [y for y in a[2:] if isnode(y)])
        if b is None and (onlyret or leaves(a)):
            return None                 # the kept result is current, or an error: not this path
        if b is None:
            if any(x[0] == "v" and self.entrywise(fr.get(x[2])) for x in walk(c)) and not samething(c, a):
                raise Unknown("only some entries: " + show(c)[:60])
            return self.block(a, fr)    # an update that is due
        raise Unknown("two-sided condition " + show(c)[:60])

    def entrywise(self, x):
        if not isinstance(x, tuple):
            return False
        if x[0] == "val":
            return any(not scalar(b) for b in P(x[1]).atoms())
        return x[0] in ("ix", "ref") or x[0] in ("unk", "unkref") and self.inloop > 0

    def truth(self, c, fr):
        c = peel(c)
        if c[0] == "un" and c[2] == "!":
            v = self.truth(c[3], fr)
            return None if v is None else not v
        if c[0] == "m" and short(c[3]) in self.flags:
            return self.flags[short(c[3])]
        if c[0] == "v" and isinstance(fr.get(c[2]), tuple) and fr[c[2]][0] == "bool":
            return fr[c[2]][1]
        if c[0] in ("mcall", "call") and short(c[2]) in self.flags:
            return self.flags[short(c[2])]
        if c[0] == "lit" and isinstance(lit(c), bool):
            return lit(c)
        return None

    def loop(self, s, fr):
        init, cond, body = s[2], s[3], s[5]
        if not isnode(init) or init[0] != "decl":
            raise Unknown("loop")
        i = init[2][0]
        old = fr.get(i)
        t = show(cond)
        kind = ("ix", "all")
        if "m_revindex" in t:
            kind = ("ix", "pos", "rev")
        elif "m_irrev" in t:
            kind = ("ix", "pos", "irr")
        fr[i] = kind
        start = lit(init[2][3]) if isnode(init[2][3]) else None
        if start not in (0, None):
            raise Unknown("loop from %s" % start)
        self.inloop += 1
        r = self.block(body, fr)
        self.inloop -= 1
        if r:
            raise Unknown("leaves loop")
        fr[i] = old

    def subset(self, ix, fr):
        """which entries an index selects: None all, 'rev', 'irr'"""
        n = peel(ix)
        if n[0] == "v":
            x = fr.get(n[2])
            if isinstance(x, tuple) and x[0] == "ix":
                return x[1] if x[1] != "pos" else "position"
            if isinstance(x, tuple) and x[0] == "val":
                return self.fromval(x[1])
            if isinstance(x, tuple) and x[0] in ("unk", "unkref"):
                return "other"
            return "all"
        if n[0] == "op" and n[2] == "[]":
            try:
                return self.fromval(self.value(n, fr))
            except Unknown:
                return "other"
        if n[0] == "bin" and n[2] == "+" and "m_start" in show(n):
            return "all"
        if n[0] == "un" and "++" in n[2]:
            return "all"
        return "other"

    def fromval(self, v):
        a = P(v).single() if hasattr(P(v), "single") else None
        if a is not None and a[0] == "index":
            return a[1]
        return "other"

    # -------------------------------------------------------------- effects
    def effect(self, s, fr):
        k = s[0]
        if k == "asg" or (k == "op" and s[2] in ("=", "+=", "-=", "*=", "/=")):
            op, l, r = (s[2], s[3], s[4]) if k == "asg" else (s[2], s[4][0], s[4][1])
            self.assign(op, l, r, fr)
        elif k == "mcall":
            self.mcall(s, fr)
        elif k == "call":
            self.call(s, fr)
        elif k == "un":
            pass
        elif k in ("bin", "lit", "v", "m", "cast", "cond"):
            pass
        elif k in ("while", "do", "switch", "try"):
            raise Unknown(k)
        elif k == "op" and s[2] in ("()", "<<", ">>"):
            raise Unknown("call of " + show(s)[:40])

    def assign(self, op, l, r, fr):
        lp = peel(l)
        sub = "all"
        tgt = None
        if (lp[0] == "op" and lp[2] == "[]") or lp[0] == "idx":
            b, ix = (lp[4][0], lp[4][1]) if lp[0] == "op" else (lp[2], lp[3])
            tgt = self.loc(b, fr)
            sub = self.subset(ix, fr)
            if tgt is None or sub in ("other", "position"):
                if tgt is None and base_is_other(b):
                    return
                raise Unknown("assignment to selected entries %s" % show(lp)[:60])
        elif lp[0] == "m" and peel(lp[2])[0] == "this":
            fl = self.p.field.get(lp[3])
            if fl and ("Eigen" in fl["t"] or fl["t"].startswith("std::vector")):
                tgt = self.loc(lp, fr)
            else:
                return                    # flags and keys
        elif lp[0] == "v":
            x = fr.get(lp[2])
            if isinstance(x, tuple) and x[0] == "loc":
                tgt = x[1]
            elif isinstance(x, tuple) and x[0] == "ref":
                tgt, sub = x[1], x[2]
                if sub in ("other", "position"):
                    raise Unknown("assignment to selected entries")
            elif isinstance(x, tuple) and x[0] == "unkref":
                raise Unknown("assignment through a reference")
            else:
                try:
                    v = self.value(r, fr)
                    if op != "=":
                        v = comb(op, x[1] if x and x[0] == "val" else P(0), v)
                    fr[lp[2]] = ("val", v)
                except Unknown as e:
                    fr[lp[2]] = ("unk", str(e))
                return
        elif lp[0] == "mcall" and self.loc(lp, fr) is not None:
            tgt = self.loc(lp, fr)
        elif lp[0] == "m":
            return                        # a field of another object
        else:
            raise Unknown("assignment through " + show(lp)[:40])
        v = self.value(r, fr)
        if op != "=":
            v = comb(op, self.load(tgt), v)
        if sub in ("rev", "irr"):
            s = P(REV) if sub == "rev" else P(1) - P(REV)
            try:
                o = self.load(tgt)
            except Unknown:
                o = P(("old", tgt))
            v = s * v + (P(1) - s) * o
        self.store(tgt, v)

    def call(self, n, fr):
        nm = strip_tmpl(short(n[2]))
        a = n[3]
        if nm in ("fill", "fill_n") and len(a) == 3:
            self.store(self.loc(a[0], fr), self.value(a[2], fr))
        elif nm == "copy" and len(a) == 3:
            self.store(self.loc(a[2], fr), self.load(self.loc(a[0], fr)))
        elif nm in ("min", "max", "exp", "log", "swap", "move", "fmtCheck", "writelog", "warn_deprecated", "debuglog"):
            pass
        else:
            g = self.p.fns.get(n[2])
            if g is not None and g.body is not None:
                self.run(n[2], self.arguments(a, fr))
            else:
                self.spoil(a, fr, nm)

    def spoil(self, a, fr, nm):
        """a call that may write its array arguments in ways not followed"""
        for x in a:
            l = self.loc(x, fr)
            if l is not None:
                self.mem[l] = P(("old", l))
            for y in walk(x):
                if y[0] == "lambda":
                    raise Unknown("lambda passed to " + nm)

    def mcall(self, n, fr):
        nm = strip_tmpl(short(n[2]))
        obj, a = peel(n[3]), n[4]
        if obj[0] == "m" and short(obj[3]) in STOICH:
            op = STOICH[short(obj[3])]
            if nm in ("incrementSpecies", "decrementSpecies", "incrementReactions", "decrementReactions"):
                t = nm.endswith("Reactions")
                v = lin(op, self.load(self.loc(a[0], fr)), t)
                d = self.loc(a[1], fr)
                self.store(d, self.load(d) + (v if nm[0] == "i" else -v))
                return
            if nm == "multiply":
                d = self.loc(a[1], fr)
                x = P(("orders", op, clean(self.load(self.loc(a[0], fr))).k))
                self.store(d, self.load(d) * x)
                return
            if nm in ("resizeCoeffs",):
                return
            raise Unknown(nm)
        if obj[0] == "this" or (obj[0] == "un" and obj[2] == "*" and peel(obj[3])[0] == "this"):
            self.own(n, nm, a, fr)
            return
        if nm == "setZero" and self.loc(obj, fr):
            self.store(self.loc(obj, fr), P(0))
            return
        if nm == "assign" and len(a) == 2 and self.loc(obj, fr):
            self.store(self.loc(obj, fr), self.value(a[1], fr))
            return
        if self.loc(obj, fr) and nm not in ("resize", "clear", "push_back", "reserve", "size", "data", "begin", "end", "empty"):
            self.spoil([obj], fr, nm)
        if nm in ("resize", "assign", "clear", "validate", "push_back", "reserve", "saveState", "restoreState"):
            return
        if isthermo(obj) or "ThermoPhase" in clsof(n[2]) or clsof(n[2]).endswith("::Phase"):
            for x in a:
                l = self.loc(x, fr)
                if l is not None and nm.startswith("get"):
                    self.store(l, P(("th", nm)))
            return
        # another object fills the array
        for x in a:
            if "*" in show(x) or (peel(x)[0] == "mcall" and short(peel(x)[2]) == "data") or self.isarr(x, fr):
                l = self.loc(x, fr)
                if l is not None and nm in ("getRateConstants",):
                    self.store(l, P(("rate", nm)))
                elif l is not None and nm == "multiply":
                    self.store(l, self.load(l) * P(("thirdbody",)))
                    return
                elif l is not None and nm == "update":
                    self.store(l, P(("th", "third-body concentration")))
                elif l is not None:
                    self.spoil([x], fr, nm)

    def isarr(self, x, fr):
        x = peel(x)
        return x[0] == "v" and isinstance(fr.get(x[2]), tuple) and fr[x[2]][0] == "loc"

    OPAQUE = ("RatesOfProgress", )

    def own(self, n, nm, a, fr):
        if "RatesOfProgress_dd" in nm and nm not in self.flags.get("inline", ()):
            if a:
                which = "m_ropr" if "Rev" in nm else "m_ropf" if "Fwd" in nm else "m_ropnet"
                d = nm[nm.index("_dd") + 1:]
                self.store(self.loc(a[0], fr), opaque(which, d))
            return
        if nm in ("thermo", "nReactions", "nPhases", "nTotalSpecies", "invalidateCache"):
            return
        return self.run(n[2], self.arguments(a, fr))

    def arguments(self, a, fr):
        args = []
        for x in a:
            l = self.loc(x, fr)
            if l is not None and (l[0] != "L" or l in self.mem or self.isarr(x, fr)):
                args.append(("loc", l))
                continue
            b = lit(peel(x))
            if isinstance(b, bool):
                args.append(("bool", b))
                continue
            px = peel(x)
            if px[0] == "v" and isinstance(fr.get(px[2]), tuple) and fr[px[2]][0] in ("bool", "ix", "ref", "oper"):
                args.append(fr[px[2]])
                continue
            try:
                args.append(("val", self.value(x, fr)))
            except Unknown as e:
                args.append(("unk", str(e)))
        return args

    # --------------------------------------------------------------- values
    def value(self, n, fr):
        n = peel(n)
        if not isnode(n):
            raise Unknown("value")
        k = n[0]
        c = lit(n)
        if isinstance(c, (int, float)) and not isinstance(c, bool):
            from fractions import Fraction
            return P(Fraction(c).limit_denominator(10**12))
        if k == "g":
            return P(("const", n[2].split("::")[-1]))
        if k == "un" and n[2] == "-":
            return -self.value(n[3], fr)
        if k == "bin" and n[2] in "+-*/":
            return comb(n[2] + "=", self.value(n[3], fr), self.value(n[4], fr))
        if k == "op" and n[2] in ("+", "-", "*") and len(n[4]) == 2:
            l, r = peel(n[4][0]), n[4][1]
            if n[2] == "*":
                op = self.oper(l, fr)
                if op is not None:
                    return lin(op, self.value(r, fr), False)
            return comb(n[2] + "=", self.value(l, fr), self.value(r, fr))
        if (k == "op" and n[2] == "[]") or k == "idx":
            b, ix = (n[4][0], n[4][1]) if k == "op" else (n[2], n[3])
            bp = peel(b)
            if bp[0] == "m" and short(bp[3]) in ("m_revindex", "m_irrev"):
                return P(("index", "rev" if short(bp[3]) == "m_revindex" else "irr"))
            sub = self.subset(ix, fr)
            if sub in ("position", "other"):
                raise Unknown("entry " + show(n)[:50])
            return self.load(self.loc(b, fr))
        if k == "ctor" and n[4]:
            return self.value(n[4][0], fr)
        if k == "v":
            x = fr.get(n[2])
            if isinstance(x, tuple):
                if x[0] == "val":
                    return x[1]
                if x[0] == "loc":
                    return self.load(x[1])
                if x[0] == "ref" and x[2] not in ("other", "position"):
                    return self.load(x[1])
            raise Unknown("variable " + str(n[3]))
        if k == "m" and peel(n[2])[0] == "this":
            fl = self.p.field.get(n[3])
            op = self.oper(n, fr)
            if fl and ("Eigen" in fl["t"] or "vector" in fl["t"]):
                return self.load(("F", short(n[3])))
            return P(("sc", short(n[3])))
        if k == "call":
            nm = strip_tmpl(short(n[2]))
            a = n[3]
            if nm == "exp":
                return P(("exp", clean(self.value(a[0], fr)).k))
            if nm == "log":
                v = self.value(a[0], fr)
                if v == P(("sc", "standardConcentration")):
                    return P(("sc", "logStandardConcentration"))
                return P(("log", v.k))
            if nm in ("min", "max"):
                for i in (0, 1):
                    if peel(a[i])[0] in ("g", "lit"):
                        return self.value(a[1 - i], fr)
            raise Unknown("call " + nm)
        if k == "mcall":
            nm = strip_tmpl(short(n[2]))
            obj = peel(n[3])
            if obj[0] == "this":
                if "atesOfProgress_dd" in nm and not n[4]:
                    which = "m_ropr" if nm.startswith("rev") else "m_ropf" if nm.startswith("fwd") else "m_ropnet"
                    return opaque(which, nm[nm.index("_dd") + 1:])
                r = self.own(n, nm, n[4], fr)
                if r is None:
                    raise Unknown("value of " + nm)
                return r
            if isthermo(obj) or "ThermoPhase" in clsof(n[2]) or clsof(n[2]).endswith("::Phase"):
                if nm == "RT":
                    return P(("const", "GasConstant")) * P(("sc", "T"))
                if nm == "temperature":
                    return P(("sc", "T"))
                if nm in ("charge", "logStandardConc", "electricPotential"):
                    return P(("th", nm))
                return P(("sc", nm))
            raise Unknown("call " + nm)
        if k == "cond":
            if capped(n):
                for y in (n[4], n[3]):
                    if peel(y)[0] not in ("g", "lit"):
                        return self.value(y, fr)
            raise Unknown("conditional value")
        raise Unknown(k)

    def oper(self, n, fr):
        n = peel(n)
        if n[0] == "v" and isinstance(fr.get(n[2]), tuple) and fr[n[2]][0] == "oper":
            return fr[n[2]][1]
        if n[0] == "mcall" and short(n[2]) == "stoichCoeffs":
            o = peel(n[3])
            if o[0] == "m" and short(o[3]) in STOICH:
                return STOICH[short(o[3])]
        if n[0] == "m" and short(n[3]) == "m_stoichMatrix":
            return "net"
        return None


def opaque(which, d):
    """derivative of a rate of progress: linear in forward and reverse parts, zero where the reaction is irreversible"""
    if which == "m_ropnet":
        return P(("f", "m_ropf", d)) - P(REV) * P(("f", "m_ropr", d))
    v = P(("f", which, d))
    return P(REV) * v if which == "m_ropr" else v


def comb(op, a, b):
    a, b = P(a), P(b)
    if op == "+=":
        return a + b
    if op == "-=":
        return a - b
    if op == "*=":
        return a * b
    if len(b.d) != 1:
        raise Unknown("quotient")
    (m, c), = b.d.items()
    return a * Poly({tuple((x, -e) for x, e in m): 1 / c})


def leaves(s):
    l = [x for x in s[2:] if isnode(x)] if s[0] == "{" else [s]
    return bool(l) and l[-1][0] in ("ret", "throw")


def isthermo(o):
    o = peel(o)
    while isnode(o) and o[0] in ("op", "un") and len(o) > 3:
        o = peel(o[4][0] if o[0] == "op" else o[3])
    return isnode(o) and (o[0] in ("mcall", "call") and short(o[2]) == "thermo" or o[0] == "m" and short(o[3]) == "m_thermo")


def bname(b):
    return b if isinstance(b, str) else b[0] if isinstance(b, list) else b.get("q") or b.get("n")


def samething(c, a):
    """`if (x != y) y = x`: same as y = x"""
    c = peel(c)
    if c[0] not in ("bin", "op") or c[2] != "!=":
        return False
    l, r = (c[3], c[4]) if c[0] == "bin" else (c[4][0], c[4][1])
    sides = {show(peel(l)), show(peel(r))}
    for n in walk(a):
        if n[0] == "asg" and n[2] == "=" and {show(peel(n[3])), show(peel(n[4]))} == sides:
            return True
    return False


def base_is_other(b):
    """a field of something else than this object's arrays: table of tables, member of another object"""
    b = peel(b)
    return (b[0] == "op" and b[2] == "[]") or b[0] == "idx" or (b[0] == "m" and peel(b[2])[0] != "this")


def capped(c):
    return any(x[0] == "g" and short(x[2]) == "BigNumber" for x in walk(c))


def spoiled(p):
    """whether a value depends on something that was not followed"""
    def k(x):
        return any(q(atom(i)) for m, c in x[1] for i, e in m)

    def q(a):
        return a[0] == "old" or any(isinstance(y, tuple) and len(y) == 2 and y[0] == "P" and k(y) for y in a[1:])
    return k(P(p).k)
