"""C13: rate constants follow their documented expressions.

engine/sym.py gives the value a rate class computes (updateFromStruct followed by evalFromStruct) as a term over its
parameters, read through its own accessors, and the state in the rate data object. The term is compared with the documented
expression (doc/sphinx/reference/kinetics/rate-constants.md), written below over the same parameters, by engine/ident.py.
Temperature derivatives are compared with the derivative of the term of the rate itself."""
from ..sym import *
from ..ident import *
from ..facts import Broken
import mpmath

NS = "Cantera::"
THIS = ("this",)
DATA = ("data",)
DIRS = ("src/kinetics/", "include/cantera/kinetics/", "src/numerics/", "include/cantera/numerics/", "include/cantera/base/utilities.h",
        "include/cantera/base/Array.h", "src/base/Array")
R_ = P(("g", "GasConstant"))
SMALL = ("g", "SmallNumber")


def g(n):
    return P(("g", n))


def exp(x):
    return P(("fn", "exp", P(x).k))


def log(x):
    return P(("fn", "log", P(x).k))


def log10(x):
    return P(("fn", "log10", P(x).k))


def sqrt(x):
    return P(("fn", "sqrt", P(x).k))


def pow_(x, y):
    return P(("fn", "pow", P(x).k, P(y).k))


def pos(x):
    return P(("if", "pos", P(x).k))


def eq(x):
    return P(("if", "eq", P(x).k))


class Undecided(Exception):
    pass


class Ctx:
    def __init__(self, prog, cg):
        self.p, self.cg = prog, cg
        self.used = []
        self.ins = set()

    def sym(self, cls, inline=None, **kw):
        return Sym(self.p, NS + cls, inline=inline or (lambda f: f.file.startswith(DIRS)), cg=self.cg, **kw)

    def find(self, cls, m, sig=None, n=None):
        """The method m that objects of class cls run (sig: text its parameter types contain)."""
        c = NS + cls
        out = []
        for k, f in self.p.fns.items():
            if f.hasbody and short(k) == m and f.cls and (f.cls == c or c in self.p.subclasses(f.cls) | {f.cls}):
                if sig is not None and sig not in ",".join(x[2] for x in f.params):
                    continue
                if n is not None and len(f.params) != n:
                    continue
                out.append(f)
        if not out:
            raise Broken("%s::%s not found" % (cls, m))
        # the most derived definition
        out.sort(key=lambda f: len(self.p.subclasses(f.cls)))
        return out[0]

    def run(self, s, f, vals, st=None, ok=THIS):
        st, v = s.run(f, vals, st, ok)
        self.used.append(f)
        self.ins |= s.inlined
        return st, v

    def data(self, f):
        """Arguments for an update or evaluation method: its data object"""
        return [Obj(DATA) for x in f.params]

    def getter(self, cls, m, ok=THIS, st=None):
        s = self.sym(cls)
        f = self.find(cls, m, n=0)
        st, v = self.run(s, f, [], st.copy() if st is not None else None, ok)
        if not isinstance(v, Poly):
            raise Undecided("%s::%s" % (cls, m))
        return v


def dfields(p, name):
    """The data field called name, as an atom; found from the rate data classes."""
    for q in p.field:
        if q.split("::")[-1] == name and q.startswith(NS) and q.split("::")[-2].endswith("Data"):
            yield ("fld", q, DATA)


class Data:
    """The state a rate is evaluated at."""

    def __init__(self, c):
        self.p = c.p
        self.T = self.one("temperature")
        self.Te = self.one("electronTemp")

    def fields(self, n):
        return list(dfields(self.p, n))

    def one(self, n):
        fs = self.fields(n)
        if not fs:
            raise Broken("no rate data field %s" % n)
        return P(fs[0])

    def basic(self, x):
        """x with logarithms, reciprocals and roots kept in the data object replaced by what they stand for (the data
        objects' own update methods are checked for it)"""
        T, Te, Pr = self.T, self.Te, P(("pressure",))
        tab = {"logT": log(T), "recipT": inv(T), "sqrtT": sqrt(T), "logP": log(Pr), "log10P": log10(Pr), "pressure": Pr,
               "logTe": log(Te), "recipTe": inv(Te)}

        def f(a):
            if a[0] == "fld" and a[2] == DATA:
                return tab.get(a[1].split("::")[-1])
            if a[0] == "arr" and a[1][0] == "ofld" and a[1][2] == DATA and a[1][1].endswith("::logCoverages"):
                return log(P(("arr", ("ofld", a[1][1].replace("logCoverages", "coverages"), DATA), psubst(unkey(a[2]), f).k)))
            return None
        return psubst(x, f)


def types(p):
    def f(a):
        if a[0] in ("fld", "szfld"):
            t = p.field.get(a[1], {}).get("t", "").replace("const ", "").strip()
            if t == "bool":
                return "bool"
            if t in ("int", "unsigned long", "size_t", "unsigned int", "long") or a[0] == "szfld":
                return "int"
        if a[0] == "arr" and a[1][0] == "ofld" and "vector<bool>" in p.field.get(a[1][1], {}).get("t", ""):
            return "bool"
        if a == SMALL:
            return 0
        return None
    return f


# ------------------------------------------------------------------ documented expressions

def arrhenius(c, cls, T, ok=THIS):
    A, b, E = c.getter(cls, "preExponentialFactor", ok), c.getter(cls, "temperatureExponent", ok), c.getter(cls, "activationEnergy", ok)
    return A * pow_(T, b) * exp(-E * inv(R_ * T))


def value(c, cls, st=None, m="evalFromStruct", assume=None):
    """term of the rate at the data object's state, after its update if it has one"""
    s = c.sym(cls, assume=assume)
    try:
        u = c.find(cls, "updateFromStruct")
    except Broken:
        u = None
    if u is not None:
        st, _ = c.run(s, u, c.data(u), st)
        if st is None:
            raise Undecided("update throws")
    f = c.find(cls, m)
    st, v = c.run(s, f, c.data(f), st)
    if not isinstance(v, Poly) or bad(v):
        raise Undecided(unk_why(v) if isinstance(v, Poly) else "no value")
    return v, st


def ctor_of(c, cls, n):
    """The constructor of cls from n numbers"""
    fs = [x for k, x in c.p.fns.items() if x.hasbody and x.cls == NS + cls and short(k) == cls and len(x.params) == n and all(y[2] == "double" for y in x.params)]
    if not fs:
        raise Broken("no constructor of %s from %d numbers" % (cls, n))
    return fs[0]


BM = ("A", "b", "E0", "w")


def bm_state(c, s, dH=None):
    """State of a Blowers-Masel rate built from the numbers A, b, E0, w (and given an enthalpy change)"""
    st = ctor_run(c, s, ctor_of(c, "BlowersMaselRate", 4), [P(("par", n)) for n in BM])
    if dH is not None:
        st, _ = c.run(s, c.find("BlowersMaselRate", "setDeltaH"), [dH], st)
    return st


def blowers_masel(T, dH):
    A, b, E0, w = (P(("par", n)) for n in BM)
    V = 2 * w * (w + E0) * inv(w - E0)
    mid = (w + dH * mpq(1, 2)) * (V - 2 * w + dH) ** 2 * inv(V * V - 4 * w * w + dH * dH)
    low, high = pos(-4 * E0 - dH), pos(dH - 4 * E0)
    Ea = high * dH + (1 - high) * (1 - low) * mid
    return A * pow_(T, b) * exp(-Ea * inv(R_ * T))


def subrate(c, cls, m):
    """the Arrhenius expression an accessor returns, as an object key"""
    s = c.sym(cls)
    f = c.find(cls, m, n=0)
    st, v = c.run(s, f, [])
    if not isinstance(v, Obj):
        raise Undecided(m)
    return v.k


def falloff_F(c, cls, T, pr, co):
    one = P(1)
    if cls == "LindemannRate":
        return one
    if cls in ("TroeRate", "TsangRate"):
        if cls == "TroeRate":
            n, a, t3, t1, t2 = co
            cent = (1 - a) * exp(-T * inv(t3)) + a * exp(-T * inv(t1)) + (1 - eq(n - 3)) * exp(-t2 * inv(T))
        else:
            n, a, b = co
            cent = a + b * T
        lc = log10(cent)
        cc, nn = -mpq(2, 5) - mpq(67, 100) * lc, mpq(3, 4) - mpq(127, 100) * lc
        lp = log10(pr)
        f1 = (lp + cc) * inv(nn - mpq(14, 100) * (lp + cc))
        return pow_(10, lc * inv(1 + f1 * f1))
    n, a, b, cc, d, e = co
    lp = log10(pr)
    base = pow_(a * exp(-b * inv(T)) + exp(-T * inv(cc)), inv(1 + lp * lp))
    return base * ((1 - eq(n - 3)) * d * pow_(T, e) + eq(n - 3))


def coverage_terms(c, cls, T):
    """(product of coverage factors, in the order its formula documents)"""
    s = c.sym(cls)
    p = c.p
    q = lambda n: next(iter(x for x in p.field if x == NS + "InterfaceRateBase::" + n), None)
    for n in ("m_indices", "m_ac", "m_ec", "m_mc", "m_lindep"):
        if q(n) is None:
            raise Broken("coverage dependence fields of InterfaceRateBase not found")
    b = ("entries", ("ofld", q("m_indices"), THIS), None)
    pr = "std::pair<const unsigned long, unsigned long>::"
    cnt = P(("size", b))
    i = fresh_ix(cnt)
    el = ("elem", b, P(i).k)
    k, sp = P(("szfld", pr + "first", el)), P(("szfld", pr + "second", el))
    cov = [x for x in p.field if x.endswith("InterfaceData::coverages") or x.endswith("::coverages") and "Data" in x]
    th = P(("arr", ("ofld", cov[0], DATA), sp.k))
    a, m = P(("arr", ("ofld", q("m_ac"), THIS), k.k)), P(("arr", ("ofld", q("m_mc"), THIS), k.k))
    e = [P(("arr", ("row", ("ofld", q("m_ec"), THIS), k.k), P(j).k)) for j in range(5)]
    lin = P(("arr", ("ofld", q("m_lindep"), THIS), k.k))
    en = (1 - eq(lin)) * e[1] * th + eq(lin) * (e[0] + e[1] * th + e[2] * th ** 2 + e[3] * th ** 3 + e[4] * th ** 4)
    return exp(mk_sum(i, a * th * log(10) + m * log(th) - en * inv(T)))


def electro(c, T):
    p = c.p
    q = lambda n: NS + "InterfaceRateBase::" + n
    d = lambda n: next(x for x in p.field if x.endswith("InterfaceData::" + n))
    pr = "std::pair<unsigned long, double>::"

    def over(fieldname):
        b = ("ofld", q(fieldname), THIS)
        i = fresh_ix(P(("size", b)))
        el = ("elem", b, P(i).k)
        return i, P(("szfld", pr + "first", el)), P(("fld", pr + "second", el))
    i, n, z = over("m_netCharges")
    phi = P(("arr", ("ofld", d("electricPotentials"), DATA), n.k))
    dE = mk_sum(i, phi * z)
    i, k, nu = over("m_stoichCoeffs")
    mu0, c0 = P(("arr", ("ofld", d("standardChemPotentials"), DATA), k.k)), P(("arr", ("ofld", d("standardConcentrations"), DATA), k.k))
    dG = mk_sum(i, mu0 * nu)
    i, k, nu = over("m_stoichCoeffs")
    c0 = P(("arr", ("ofld", d("standardConcentrations"), DATA), k.k))
    prod = exp(mk_sum(i, pos(nu) * log(c0)))
    fb = lambda n: P(("fld", q(n), THIS))
    beta = fb("m_beta")
    bv = exp(-beta * dE * inv(R_ * T))
    ex = exp(-beta * dG * inv(R_ * T)) * inv(prod * g("Faraday"))
    ct, xc = 1 - eq(fb("m_chargeTransfer")), 1 - eq(fb("m_exchangeCurrentDensityFormulation"))
    return ct * bv * (xc * ex + 1 - xc) + 1 - ct


def obligations(c):
    """(rule, title, thunk returning (value, documented value, interpretation))"""
    d = Data(c)
    T, Te = d.T, d.Te
    out = []

    def add(rule, title, f):
        out.append((rule, title, f))

    def dT(x, extra=None):
        return D(d.basic(x), lambda a: P(1) if P(a) == T else None)

    # ---- plain expressions
    def simple(cls, m, want, vals=None):
        def f():
            s = c.sym(cls)
            fn = c.find(cls, m)
            st, v = c.run(s, fn, vals if vals is not None else c.data(fn))
            if not isinstance(v, Poly) or bad(v):
                raise Undecided("%s::%s" % (cls, m))
            return d.basic(v), want(), None
        return f
    add("rate", "ArrheniusRate::evalFromStruct is A T^b exp(-Ea/RT)", simple("ArrheniusRate", "evalFromStruct", lambda: arrhenius(c, "ArrheniusRate", T)))
    add("rate", "ArrheniusRate::evalRate is A T^b exp(-Ea/RT)", simple("ArrheniusRate", "evalRate", lambda: arrhenius(c, "ArrheniusRate", T), [log(T), inv(T)]))

    def evallog():
        s = c.sym("ArrheniusRate")
        fn = c.find("ArrheniusRate", "evalLog")
        st, v = c.run(s, fn, [log(T), inv(T)])
        A = c.getter("ArrheniusRate", "preExponentialFactor")
        la = [a for a in v.atoms() if a[0] == "fld" and P(a) not in (A,) and a[1].split("::")[-1] not in ("m_b", "m_Ea_R") and a[2] == THIS]
        # the logarithm of A kept beside it (constructors are checked to keep it)
        logA = P(("fld", NS + "ArrheniusBase::m_logA", THIS))
        return exp(replace(v, {logA.single(): log(A)})), arrhenius(c, "ArrheniusRate", T), None
    add("rate", "ArrheniusRate::evalLog is the logarithm of the rate", evallog)

    def twotemp():
        v, st = value(c, "TwoTempPlasmaRate")
        cls = "TwoTempPlasmaRate"
        A, b, E, Ee = (c.getter(cls, x) for x in ("preExponentialFactor", "temperatureExponent", "activationEnergy", "activationElectronEnergy"))
        return d.basic(v), A * pow_(Te, b) * exp(-E * inv(R_ * T)) * exp(Ee * (Te - T) * inv(R_ * T * Te)), None
    add("rate", "TwoTempPlasmaRate is A Te^b exp(-Ea/RT) exp(Ee (Te-T)/(R T Te))", twotemp)

    def bm_wide(a):
        if a == ("par", "dH"):
            return lambda u: (u - mpmath.mpf("0.5")) * 24
        return None

    def bm(m, vals=None):
        def f():
            s = c.sym("BlowersMaselRate")
            dH = P(("par", "dH"))
            st = bm_state(c, s, dH)
            fn = c.find("BlowersMaselRate", m)
            st, v = c.run(s, fn, vals if vals is not None else c.data(fn), st)
            if not isinstance(v, Poly) or bad(v):
                raise Undecided(m)
            return d.basic(v), blowers_masel(T, dH), bm_wide
        return f
    for m, vals in (("evalFromStruct", None), ("evalRate", [log(T), inv(T)])):
        add("rate", "BlowersMaselRate::%s is A T^b exp(-Ea(dH)/RT) with the three cases of Ea" % m, bm(m, vals))

    def bm_dh():
        s = c.sym("BlowersMaselRate")
        fn = c.find("BlowersMaselRate", "updateFromStruct")
        ready = [P(x) for x in d.fields("ready")]
        st, _ = c.run(s, fn, c.data(fn))
        v = s.load(("var", ("f", NS + "BlowersMaselRate::m_deltaH_R", THIS)), st)
        b = ("ofld", NS + "BlowersMaselRate::m_stoich_coeffs", THIS)
        i = fresh_ix(P(("size", b)))
        el = ("elem", b, P(i).k)
        pr = "std::pair<unsigned long, double>::"
        k, nu = P(("szfld", pr + "first", el)), P(("fld", pr + "second", el))
        h = P(("arr", ("ofld", next(x for x in c.p.field if x.endswith("BlowersMaselData::partialMolarEnthalpies")), DATA), k.k))
        rd = [x for x in ready if has(v, lambda z: P(z) == x if z[0] == "fld" else False)]
        old = P(("fld", NS + "BlowersMaselRate::m_deltaH_R", THIS))
        cnd = 1 - eq(rd[0]) if rd else P(1)
        return v, cnd * mk_sum(i, nu * h) * inv(R_) + (1 - cnd) * old, None
    add("rate", "the enthalpy change of a Blowers-Masel rate is the sum of nu_k h_k", bm_dh)

    # ---- falloff
    def falloff(cls, activated, rdy):
        def f():
            s = c.sym(cls)
            co = [P(("coef", i)) for i in range(5)]
            base = ("p", "c")
            n = P(("ncoef",))
            s.sizes_ = lambda b: n if b == base else None
            st = None
            if cls != "LindemannRate":
                fn = c.find(cls, "setFalloffCoeffs")
                st, _ = c.run(s, fn, [Ptr(base, 0, True)])
                if st is None:
                    raise Undecided("setFalloffCoeffs")
            st = st or St()
            fn = c.find(cls, "evalFromStruct")
            st, v = c.run(s, fn, c.data(fn), st)
            if not isinstance(v, Poly) or bad(v):
                raise Undecided(unk_why(v) if isinstance(v, Poly) else "no value")
            lo, hi = subrate(c, cls, "lowRate"), subrate(c, cls, "highRate")
            k0, k1 = arrhenius(c, "ArrheniusRate", T, lo), arrhenius(c, "ArrheniusRate", T, hi)
            conc = next(x for x in c.p.field if x.endswith("FalloffData::conc_3b"))
            at = (lambda i: P(("arr", ("ofld", conc, DATA), P(i).k)))
            # a single evaluation (data not filled by a kinetics manager) keeps its concentration in the first place
            idx = P(("szfld", NS + "ReactionRate::m_rate_index", THIS))
            M = at(idx) if rdy else at(0)
            pr = k0 * M * inv(k1)
            arrs = [P(("arr", base, P(i).k)) for i in range(5)]
            F = falloff_F(c, cls, T, pr, [n] + arrs[:{"LindemannRate": 0, "TroeRate": 4, "TsangRate": 2, "SriRate": 5}[cls]])
            want = k0 * inv(1 + pr) * F if activated else k1 * pr * inv(1 + pr) * F
            rd = {x for x in d.fields("ready")}

            def dom(a):
                if a in rd:
                    return 1 if rdy else 0
                if a == ("fld", NS + "FalloffRate::m_chemicallyActivated", THIS):
                    return 1 if activated else 0
                if a == ("ncoef",):
                    return {"TroeRate": lambda u: 3 + int(u > 0.5), "SriRate": lambda u: 3 + 2 * int(u > 0.5), "TsangRate": lambda u: 2}[cls]
                if a == idx.single():
                    return 2
                return None
            return d.basic(v), want, dom
        return f
    for cls in ("LindemannRate", "TroeRate", "SriRate", "TsangRate"):
        for act in (False, True):
            for rdy in (True, False):
                add("falloff", "%s, %s%s" % (cls, "chemically activated" if act else "falloff", "" if rdy else ", single evaluation"), falloff(cls, act, rdy))

    # ---- pressure dependence
    def plog():
        cls = "PlogRate"
        v, st = value(c, cls)
        ent = ("entries", ("ofld", NS + cls + "::pressures_", THIS), None)
        lp = [P(x) for x in d.fields("logP") if has(v, lambda z: z == x)]
        lp = lp[0] if lp else P(d.fields("logP")[0])
        j = P(("q", "upper_bound", ent, None, (lp.k,)))
        pr = "std::pair<const double, std::pair<unsigned long, unsigned long>>::"
        pp = "std::pair<unsigned long, unsigned long>::"

        def at(j):
            el = ("elem", ent, j.k)
            x = ("ofld", pr + "second", el)
            a, b = P(("szfld", pp + "first", x)), P(("szfld", pp + "second", x))
            i = fresh_ix(b - a)
            ob = ("elem", ("ofld", NS + cls + "::rates_", THIS), (a + P(i)).k)
            return P(("fld", pr + "first", el)), mk_sum(i, arrhenius(c, "ArrheniusRate", T, ob))
        (P1, k1), (P2, k2) = at(j - 1), at(j)
        want = exp(log(k1) + (log(k2) - log(k1)) * (lp - P1) * inv(P2 - P1))

        def dom(a):
            if a[0] == "fld" and a[2] == THIS and a[1] in (NS + cls + "::logP_", NS + cls + "::logP2_"):
                return -1000
            if a == ("fld", NS + cls + "::logP1_", THIS):
                return 1000
            if a[0] == "szfld" and a[1] == pp + "first":
                return lambda u: 2 + int(u > 0.5)
            if a[0] == "szfld" and a[1] == pp + "second":
                return lambda u: 4 + int(u > 0.5)
            return None
        return d.basic(v), d.basic(want), dom
    add("pressure", "PlogRate interpolates ln k linearly in ln P between the neighbouring pressures, rates at one pressure added", plog)

    def cheb():
        cls = "ChebyshevRate"
        s = c.sym(cls)
        lim = c.find(cls, "setLimits")
        names = ["Tmin", "Tmax", "Pmin", "Pmax"]
        Tn, Tx, Pn, Px = vals = [P(("par", n)) for n in names]
        st, _ = c.run(s, lim, vals)
        u, e = c.find(cls, "updateFromStruct"), c.find(cls, "evalFromStruct")
        # the state differs from the one kept
        lp = P(("pressure",))
        st.v[("f", NS + cls + "::m_log10P", THIS)] = P(-1000)
        st, _ = c.run(s, u, c.data(u), st)
        st, v = c.run(s, e, c.data(e), st)
        if not isinstance(v, Poly) or bad(v):
            raise Undecided(unk_why(v) if isinstance(v, Poly) else "value")
        co = ("ofld", NS + cls + "::m_coeffs", THIS)
        nT, nP = c.getter(cls, "nTemperature"), c.getter(cls, "nPressure")
        tr = (2 * inv(T) - inv(Tn) - inv(Tx)) * inv(inv(Tx) - inv(Tn))
        pr = (2 * log10(lp) - log10(Pn) - log10(Px)) * inv(log10(Px) - log10(Pn))

        def phi(n, x):    # T_0 = 1, T_1 = x, T_{n+1} = 2 x T_n - T_{n-1}
            return P(("rec", 0, P(n).k, (P(1).k, x.k), (P(("hole", 1)).k, (2 * x * P(("hole", 1)) - P(("hole", 0))).k)))
        i, j = fresh_ix(nT), fresh_ix(nP)
        a = P(("arr", ("row", co, P(i).k), P(j).k))
        want = pow_(10, mk_sum(i, mk_sum(j, a * phi(P(i), tr) * phi(P(j), pr))))
        return d.basic(v), want, lambda a: "int" if a[0] == "q" and a[1] in ("nRows", "nColumns") or a[0] in ("fld", "szfld") and a[1].split("::")[-1] in ("m_nrows", "m_ncols") else None
    add("pressure", "ChebyshevRate is 10^(sum over t, p of alpha_tp phi_t(T~) phi_p(P~)) of the reduced temperature and pressure", cheb)

    # ---- interface rates
    def iface(cls, base, sticking):
        full = "%s<Cantera::%s, Cantera::InterfaceData>" % (cls, base)

        def f():
            s = c.sym(full)
            u, e = c.find(full, "updateFromStruct"), c.find(full, "evalFromStruct")
            st = bm_state(c, s) if base == "BlowersMaselRate" else None
            st, _ = c.run(s, u, c.data(u), st)
            st, v = c.run(s, e, c.data(e), st)
            if not isinstance(v, Poly) or bad(v):
                raise Undecided(unk_why(v) if isinstance(v, Poly) else "value")
            if base == "ArrheniusRate":
                k = arrhenius(c, "ArrheniusRate", T)
            else:
                fn = c.find(full, "deltaH")
                _, dH = c.run(s, fn, [], st.copy())
                k = blowers_masel(T, dH)
            k = k * coverage_terms(c, full, T) * electro(c, T)
            if sticking:
                fb = lambda n: P(("fld", NS + "StickingCoverage::" + n, THIS))
                mw = 1 - eq(fb("m_motzWise"))
                W = c.getter(full, "stickingWeight")
                rd = P(next(x for x in d.fields("ready") if has(v, lambda z: z == x)))
                dens = next(P(x) for x in d.fields("density"))
                site = (1 - eq(rd)) * dens + eq(rd) * P(("fld", NS + "InterfaceRateBase::m_siteDensity", THIS))
                order = c.getter(full, "stickingOrder")
                k = k * (mw * inv(1 - k * mpq(1, 2)) + 1 - mw) * pow_(site, -order) * sqrt(R_ * T * inv(2 * g("Pi") * W))

            def dom(a):
                if a == ("size", ("ofld", NS + "InterfaceRateBase::m_cov", THIS)) or a == ("size", ("entries", ("ofld", NS + "InterfaceRateBase::m_indices", THIS), None)):
                    return 3
                if a[0] == "fld" and a[1].endswith("m_deltaH_R"):
                    return lambda u: (u - mpmath.mpf("0.5")) * 24
                if a[0] == "fld" and a[1].startswith("std::pair<") and a[1].endswith("::second"):
                    return "signed"
                return None
            return d.basic(v), d.basic(k), dom
        return f
    for base in ("ArrheniusRate", "BlowersMaselRate"):
        add("interface", "interface %s: coverage dependence and Butler-Volmer or exchange current correction" % base, iface("InterfaceRate", base, False))
        add("interface", "sticking %s: gamma / Gamma^m sqrt(RT / 2 pi W), Motz-Wise correction when enabled" % base, iface("StickingRate", base, True))

    def effective(cls, base, which):
        full = "%s<Cantera::%s, Cantera::InterfaceData>" % (cls, base)

        def f():
            """the accessors of a rate with coverage dependence give the effective expression"""
            s = c.sym(full)
            e = c.find(full, "evalFromStruct")
            st, v = c.run(s, e, c.data(e))
            A, b, E = (c.getter(full, x) for x in ("preExponentialFactor", "temperatureExponent", "activationEnergy"))
            want = A * pow_(T, b) * exp(-E * inv(R_ * T))

            def dom(a):
                if a[0] == "fld" and a[1].split("::")[-1] in ("m_chargeTransfer", "m_motzWise"):
                    return 0
                return None
            return d.basic(v), want, dom
        return f
    add("interface", "effective Arrhenius parameters of an interface rate give its value", effective("InterfaceRate", "ArrheniusRate", 0))

    # ---- derivatives
    def ddt(cls):
        def f():
            s = c.sym(cls)
            s0 = bm_state(c, s, P(("par", "dH"))) if cls == "BlowersMaselRate" else St()
            fn = c.find(cls, "ddTScaledFromStruct")
            st, v = c.run(s, fn, c.data(fn), s0.copy())
            e = c.find(cls, "evalFromStruct")
            st, k = c.run(s, e, c.data(e), s0.copy())
            if st is None or not isinstance(v, Poly) or bad(v) or not isinstance(k, Poly) or bad(k):
                raise Undecided("value")
            k = d.basic(k)
            return d.basic(v), dT(k) * inv(k), bm_wide
        return f
    for cls in ("ArrheniusRate", "BlowersMaselRate", "TwoTempPlasmaRate"):
        add("derivative", "%s::ddTScaledFromStruct is d(ln k)/dT" % cls, ddt(cls))

    # ---- constructors
    def built(cls, names, n):
        def f(i, m):
            def t():
                s = c.sym(cls)
                st = ctor_run(c, s, ctor_of(c, cls, n), [P(("par", j)) for j in range(n)])
                v = c.getter(cls, m, st=st)
                return v, P(("par", i)), None
            return t
        return [(("constructor", "%s::%s returns the value the rate was built from" % (cls, m)), f(i, m)) for i, m in enumerate(names) if m]
    arr = ["preExponentialFactor", "temperatureExponent", "activationEnergy"]
    for cls, names, n in (("ArrheniusBase", arr, 3), ("TwoTempPlasmaRate", arr + ["activationElectronEnergy"], 4), ("BlowersMaselRate", arr[:2] + [None, "bondEnergy"], 4)):
        for (rule, title), f in built(cls, names, n):
            add(rule, title, f)

    def logA():
        fs = [x for k, x in c.p.fns.items() if x.hasbody and x.cls == NS + "ArrheniusBase" and short(k) == "ArrheniusBase" and len(x.params) == 3 and x.params[0][2] == "double"]
        if not fs:
            raise Undecided("constructor")
        s = c.sym("ArrheniusBase")
        st = ctor_run(c, s, fs[0], [P(("par", j)) for j in range(3)])
        v = s.load(("var", ("f", NS + "ArrheniusBase::m_logA", THIS)), st)
        return v, log(P(("par", 0))), None
    add("constructor", "the logarithm kept beside A is that of A", logA)
    return out


def ctor_run(c, s, f, vals):
    st = St()
    return c.run(s, f, vals, st)[0]


def const_of(n):
    if isnode(n) and n[0] == "un" and n[2] == "-":
        v = const_of(n[3])
        return None if v is None else -v
    v = lit(n)
    return v if isinstance(v, (int, float)) and not isinstance(v, bool) else None


def THISF(n):
    return P(("fld", "::" + n, THIS))


def prog_ctor(p, k):
    return p.methods.get(k, (0, {}))[1].get("ctor") or "~" in k or "operator=" in k


def data_updates(c):
    """Every update of a rate data object leaves logT, 1/T and the like belonging to its temperature and pressure."""
    p = c.p
    meaning = {"logT": ("temperature", log), "recipT": ("temperature", inv), "sqrtT": ("temperature", sqrt),
               "logTe": ("electronTemp", log), "recipTe": ("electronTemp", inv)}
    out = []
    for k in sorted(p.fns):
        f = p.fns[k]
        if not f.hasbody or not f.cls or not f.cls.endswith("Data") or prog_ctor(p, k) or not f.file.startswith(("src/kinetics", "include/cantera/kinetics")):
            continue
        vals = []
        for x in f.params:
            t = x[2].replace("const ", "").replace("&", "").strip()
            vals.append(P(("par", x[1])) if t == "double" else Ptr(("p", x[1]), 0, True) if t.startswith("std::vector") else Obj(("p", x[1])))
        s = c.sym(f.cls[len(NS):])
        st, _ = c.run(s, f, vals)
        if st is None:
            continue
        fin = {q[1].split("::")[-1]: (q, v) for q, v in ((kk, v) for kk, v in st.v.items() if kk[0] == "f" and kk[2] == THIS)}
        name = lambda n: next((q for q in p.field if q.split("::")[-1] == n and (q.rsplit("::", 1)[0] == f.cls or f.cls in p.subclasses(q.rsplit("::", 1)[0]))), None)

        def final(n):
            q = name(n)
            return None if q is None else fin[n][1] if n in fin else P(("fld", q, THIS))
        for n, (of, fn) in sorted(meaning.items()):
            if name(n) is None or (n not in fin and of not in fin):
                continue
            out.append(("data", "%s: %s belongs to %s" % (sig_of(k), n, of), f, final(n), final(of), fn, name(n), name(of)))
        # the two logarithms of the pressure belong to the same value
        for n in ("logP", "log10P"):
            if n in fin and name("pressure") is not None:
                out.append(("data", "%s: %s belongs to pressure" % (sig_of(k), n), f, final(n), final("pressure"), log if n == "logP" else log10, name(n), name("pressure")))
            elif n in fin:
                out.append(("data", "%s: %s is a logarithm of the pressure" % (sig_of(k), n), f, final(n), None, log if n == "logP" else log10, name(n), None))
    return out


def restores(c, d):
    """Perturbing a rate data object and restoring it leaves the state it had."""
    p = c.p
    out = []
    for cls in sorted({f.cls for f in p.fns.values() if f.cls and f.cls.endswith("Data") and f.file.startswith(("src/kinetics", "include/cantera/kinetics"))}):
        chain = [cls] + list(p.bases(cls))
        names = {}
        for q, x in p.field.items():
            if q.rsplit("::", 1)[0] in chain and x.get("t") == "double":
                names[q] = x
        for m in sorted({short(x["k"]) for b in chain for x in p.classes.get(b, {}).get("methods", ()) if short(x["k"]).startswith("perturb")}):
            try:
                f, g = c.find(cls[len(NS):], m, n=1), c.find(cls[len(NS):], "restore", n=0)
            except Broken:
                continue
            s = c.sym(cls[len(NS):])
            st = St()
            for q, x in names.items():
                i = x.get("init")
                if x.get("acc") != "pub" and i is not None:
                    v = const_of(i)
                    if v is not None:
                        st.v[("f", q, THIS)] = P(v)
            st, _ = s.run(f, [P(("par", "delta"))], st)
            if st is None:
                continue
            st, _ = s.run(g, [], st)
            if st is None:
                continue
            for q, x in sorted(names.items()):
                v = st.v.get(("f", q, THIS))
                if x.get("acc") == "pub" and v is not None:
                    out.append(("restore", "%s::%s, restore: %s" % (cls[len(NS):], m, q.split("::")[-1]), g, v, q))
    return out


def sig_of(k):
    return k.replace(NS, "").replace("const ", "").replace(" &", "")


def run(prog, rep):
    rep.rule("rate", 5, "The value of a rate class without pressure dependence is its documented expression of the parameters its accessors return")
    rep.rule("falloff", 8, "A falloff or chemically activated rate is its documented blending of the low- and high-pressure limits, with the broadening function of its type")
    rep.rule("pressure", 1, "Pressure-dependent rates interpolate as documented")
    rep.rule("interface", 3, "Interface and sticking rates apply the documented coverage, electrochemical, site density and Motz-Wise factors")
    rep.rule("derivative", 2, "A rate's scaled temperature derivative is the derivative of the logarithm of its value")
    rep.rule("constructor", 4, "A rate built from numbers has them as its parameters")
    rep.rule("data", 6, "Logarithms, reciprocals and roots kept in rate data objects belong to the temperature and pressure stored with them")
    rep.rule("restore", 3, "A rate data object perturbed for a numerical derivative and restored holds its former state")
    rep.rule("coverage-lists", 2, "The lists of coverage parameters that an evaluation reads at the same place grow, and are cleared, together")
    cg = CallGraph(prog)
    und = []
    ty = types(prog)
    c = Ctx(prog, cg)
    for rule, title, f in obligations(c):
        c.used = []
        judge(prog, rep, rule, title, f, und, ty, c)
    c = Ctx(prog, cg)
    for rule, title, f, v, base, fn, q, qb in data_updates(c):
        c.used = [f]
        def thunk():
            if base is not None and isinstance(base, Poly) and has(base, lambda z: z[0] == "nan"):
                return P(0), P(0), None      # marked as holding no state
            if not isinstance(v, Poly) or bad(v) or base is not None and (not isinstance(base, Poly) or bad(base)):
                raise Undecided("stored value")
            if base is None:
                b = [z for z in v.atoms() if z[0] == "fn" and z[1] in ("log", "log10")]
                arg = [unkey(z[2]) for z in b]
                if not arg:
                    raise Undecided("stored value")
                want = fn(arg[0])
                old = P(("fld", q, THIS))
                x = replace(v, {old.single(): want})
                return x, want, None
            # before the update they belonged together
            v2 = replace(v, {("fld", q, THIS): fn(P(("fld", qb, THIS)))})
            return v2, fn(base), lambda a: None
        judge(prog, rep, rule, title, thunk, und, ty, c, f)
    coverage_lists(prog, rep, cg)
    d = Data(c)
    for rule, title, f, v, q in restores(c, d):
        def thunk():
            if not isinstance(v, Poly) or bad(v):
                raise Undecided("stored value")
            mean = {"logT": log(THISF("temperature")), "recipT": inv(THISF("temperature")), "logP": log(THISF("pressure")), "log10P": log10(THISF("pressure"))}

            def own(a):
                return mean.get(a[1].split("::")[-1]) if a[0] == "fld" and a[2] == THIS else None

            def gen(a):
                return P(("kept", a[1].split("::")[-1])) if a[0] == "fld" and a[2] == THIS else None
            return psubst(psubst(v, own), gen), psubst(psubst(P(("fld", q, THIS)), own), gen), None
        judge(prog, rep, rule, title, thunk, und, ty, c, f)
    rep.extra["undecided_total"] = len(und)
    rep.extra["undecided"] = und
    rep.assumption("Parameters and state are in their documented domain (positive temperature, pressure, site density and coverages); floors that keep "
                   "logarithms and quotients finite (SmallNumber, 1e-300) are not reached")


GROW = ("push_back", "emplace_back", "resize", "insert", "emplace", "assign")


def coverage_lists(prog, rep, cg):
    """The lists of coverage parameters that an evaluation reads at the same place grow together."""
    c = Ctx(prog, cg)
    f = c.find("InterfaceRateBase", "updateFromStruct")
    group, imap = set(), None
    fld = lambda n: n[3] if isnode(n) and n[0] == "m" and isnode(n[2]) and n[2][0] == "this" else None
    for n in walk(f.body):
        if n[0] != "rfor" or not fld(n[3]):
            continue
        key = n[2][6][0][0] if len(n[2]) > 6 and n[2][6] else None
        own = {fld(z[4][0]) for z in walk(n[4]) if z[0] == "op" and z[2] == "[]" and fld(z[4][0]) and any(y[0] == "v" and y[2] == key for y in walk(z[4][1]))}
        if len(own) > 1:
            group, imap = own, fld(n[3])
    if not group:
        raise Broken("no lists of coverage parameters found")
    # all methods of the class, with what each grows and clears, through the methods it calls on the same object
    ms = {k: x for k, x in prog.fns.items() if x.hasbody and x.cls == f.cls and not prog.methods.get(k, (0, {}))[1].get("ctor")}

    def changed(k, names, seen):
        out = set()
        if k in seen:
            return out
        # a loop may run no turn: what it clears is not counted
        inloop = {id(y) for n in walk(ms[k].body) if n[0] in ("for", "rfor", "while") for y in walk(n)} if "clear" in names else set()
        for n in walk(ms[k].body):
            if id(n) in inloop:
                continue
            if n[0] == "mcall" and short(n[2]) in names and fld(n[3]):
                out.add(fld(n[3]))
            if n[0] == "mcall" and n[2] in ms:
                out |= changed(n[2], names, seen | {k})
        return out
    for k in sorted(ms):
        md = prog.methods.get(k)
        if not md or md[1].get("acc") != "pub":
            continue
        for what, names, need in (("grows", GROW, group), ("clears", ("clear",), group | {imap})):
            got = changed(k, names, set())
            if not got & group:
                continue
            rep.ok("coverage-lists", "%s %s them" % (qn(k), what))
            for y in sorted(need - got):
                rep.bad("coverage-lists", ms[k].file, ms[k].line, k, "%s not %s" % (y, what), "%s %s %s but not %s, which evaluation reads at the same place" % (
                    qn(k), what, ", ".join(sorted(x.split("::")[-1] for x in got & group)), y.split("::")[-1]))


WHERE = ("evalFromStruct", "evalRate", "evalLog", "ddTScaledFromStruct", "updateFromStruct", "update")


def judge(prog, rep, rule, title, f, und, ty, c, anchor=None):
    try:
        l, r, dom = f()
        d = differ(l, r, dom, ty)
    except Exception as e:      # not expressible: listed, and the rule's floor bounds how many may be
        und.append("%s: %s" % (title, e))
        return
    if d is None:
        rep.ok(rule, title)
    else:
        fn = anchor
        for g in c.used:
            if fn is None or anchor is None and short(g.h["key"]) in WHERE:
                fn = g
        rep.bad(rule, fn.file, fn.line, fn.h["key"], title, "%s: the value differs from the expression: %s at one interpretation" % (title, d))
