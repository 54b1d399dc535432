"""C14: the properties that are derivatives of other properties.

Values of property methods come from engine/sym.py as in C12; engine/ident.py differentiates them and compares the result
with the value of the method that is documented as the derivative."""
from fractions import Fraction
import re
import mpmath
from ..ident import D, differ, NoValue
from ..poly import subst as psubst
from .C12 import *
from . import C12 as base

TA, RA = T.single(), RHO.single()
SPT = NS + "SpeciesThermoInterpType"


def qq(a, name):
    return P((a[0], name) + tuple(a[2:]))


# what the temperature derivative of a stored value is (each pair is checked where the two are computed: group "model")
STORED_T = {"lnActCoeff_Scaled_": "dlnActCoeffdT_Scaled_", "dlnActCoeffdT_Scaled_": "d2lnActCoeffdT2_Scaled_",
            "m_lnActCoeffMolal": "m_dlnActCoeffMolaldT", "m_dlnActCoeffMolaldT": "m_d2lnActCoeffMolaldT2",
            "m_lnActCoeffMolal_Scaled": "m_dlnActCoeffMolaldT_Scaled", "m_dlnActCoeffMolaldT_Scaled": "m_d2lnActCoeffMolaldT2_Scaled",
            "m_h_cov": "m_cp_cov"}
STORED_P = {"m_lnActCoeffMolal": "m_dlnActCoeffMolaldP", "m_lnActCoeffMolal_Scaled": "m_dlnActCoeffMolaldP_Scaled"}
UPDATES = ("updateMixingExpressions", "s_update_lnActCoeff", "s_update_dlnActCoeff_dT", "s_update_lnMolalityActCoeff",
           "s_update_dlnMolalityActCoeff_dT", "s_update_d2lnMolalityActCoeff_dT2", "s_update_dlnMolalityActCoeff_dP", "_updateCovDepThermo",
           "s_update_dlnActCoeff_dlnX_diag", "s_update_dlnActCoeff_dlnN_diag", "s_update_dlnActCoeff_dlnN")


def arr(a, name):
    return P(("arr", ("ofld", a[1][1].rsplit("::", 1)[0] + "::" + name, a[1][2]), a[2]))


def is_arr(a, table):
    return a[0] == "arr" and a[1][0] == "ofld" and a[1][2] == THIS and a[1][1].split("::")[-1] in table


def positive(x):
    """species have positive attraction and volume parameters in the equations of state"""
    def f(a):
        if a[0] == "if" and a[1] == "pos":
            y = unkey(a[2]).single()
            if y is not None and y[0] == "arr" and values(y) is not None and str(owner(y)).split("::")[-1] in SMALL:
                return P(1)
        return None
    return psubst(x, f)


def owner(a):
    n = a[1]
    while n[0] in ("row", "rows"):
        n = n[1]
    return n[1]


def cell(a, name):
    """(row, column) of an element of the matrix member, or None"""
    if a[0] != "arr":
        return None
    o = a[1]
    if o[0] == "row" and o[1][0] == "ofld" and o[1][1].endswith("::" + name):
        return unkey(o[2]), unkey(a[2])
    return None


def arr_of(mo, name, k):
    return P(("arr", ("ofld", mo.cls + "::" + name, THIS), P(k).k))


# the density does not change with temperature and pressure
CONSTANT_DENSITY = ("StoichSubstance", "SurfPhase", "EdgePhase")


class Calc:
    """Derivatives of values of one phase class."""

    def __init__(self, mo):
        self.mo = mo
        self.pr = None
        self.t_of_T = False

    # ---- rules
    def ruleT(self, a):
        if a == TA:
            return P(1)
        if self.eos():
            v = self.ruleEOS(a)
            if v is not None:
                return v
        if a[0] == "q":
            o = repr(a[2])
            if "m_spthermo" in o and a[1] in ("update#2", "update#3"):
                t = unkey(a[4][0])
                d = (qq(a, "update#1") - P(a)) / t if a[1] == "update#2" else qq(a, "update#1") / t
                return d * D(t, self.ruleT)
            if "m_PDSS_storage" in o:
                for s in ("", "_ref"):
                    if a[1] == "enthalpy_RT" + s:
                        return (qq(a, "cp_R" + s) - P(a)) / T
                    if a[1] == "entropy_R" + s:
                        return qq(a, "cp_R" + s) / T
            if "m_lattice" in o:
                if a[1] == "enthalpy_mole":
                    return qq(a, "cp_mole")
                if a[1] == "entropy_mole":
                    return qq(a, "cp_mole") / T
        if is_arr(a, STORED_T):
            return arr(a, STORED_T[a[1][1].split("::")[-1]])
        if is_arr(a, ("m_s_cov",)):
            return arr(a, "m_cp_cov") / T
        if a[0] == "q" and a[1] == "ADebye" and unkey(a[4][-1]).const() in (0, 1):
            return P((a[0], a[1], a[2], a[3], a[4][:-1] + (P(unkey(a[4][-1]).const() + 1).k,)))
        return None

    def ruleP(self, a):
        if a == self.pressure().single():
            return P(1)
        if a[0] == "q" and "m_PDSS_storage" in repr(a[2]) and a[1] in ("gibbs_RT", "enthalpy_RT"):
            # of g/RT = h/RT - s/R only the difference is used: d(g/RT)/dP = V/RT
            return qq(a, "molarVolume") / (R_ * T)
        if is_arr(a, STORED_P):
            return arr(a, STORED_P[a[1][1].split("::")[-1]])
        if a[0] == "q" and a[1] == "ADebye" and unkey(a[4][-1]).const() == 0:
            return P((a[0], a[1], a[2], a[3], a[4][:-1] + (P(3).k,)))
        return None

    def ruleR(self, a):
        return P(1) if a == RA else None

    def sub(self, a):
        """an equation of state object at constant pressure: its own derivative"""
        o = a[0] == "q" and "m_sub" in repr(a[2])
        if not o:
            return None
        beta = [P((a[0], n) + tuple(a[2:])) for n in ("thermalExpansionCoeff", "coeffThermExp")]
        return None

    def pressure(self):
        if self.pr is None:
            self.pr = self.res(self.mo.val("pressure"))
        return self.pr

    def res(self, x):
        x = positive(x)
        return x if self.eos() else resolve(self.mo, x, ("updateMixingExpressions",))

    def eos(self):
        """attraction parameters whose temperature dependence is taken from where they are computed (group "model")"""
        return self.mo.cls == NS + "PengRobinson"

    def ruleEOS(self, a):
        mo = self.mo
        if is_arr(a, ("m_alpha",)):
            c = mo.__dict__.setdefault("_dalpha", {})
            if a not in c:
                c[a] = D(stored(mo, "updateMixingExpressions", "m_alpha", unkey(a[2])), self.ruleT)
            return c[a]
        ij = cell(a, "m_aAlpha_binary")
        if ij:
            al = [arr_of(mo, "m_alpha", k) for k in ij]
            return P(Fraction(1, 2)) * P(a) * sum((self.ruleEOS(x.single()) * inv(x) for x in al), P(0))
        if a[0] == "fld" and a[1] == mo.cls + "::m_aAlpha_mix":
            A = ("ofld", mo.cls + "::m_aAlpha_binary", THIS)
            return attraction(mo, lambda i, j: self.ruleEOS(("arr", ("row", A, P(i).k), P(j).k)))
        return None

    def by_density(self):
        return has(self.pressure().k, lambda z: z == RA)

    def dT_P(self, x):
        x = self.res(x)
        if self.by_density():
            p = self.pressure()
            return D(x, self.ruleT) - D(x, self.ruleR) * D(p, self.ruleT) / D(p, self.ruleR)
        return D(self.no_density(x), self.ruleT)

    def dP_T(self, x):
        x = self.res(x)
        if self.by_density():
            return D(x, self.ruleR) / D(self.pressure(), self.ruleR)
        return D(self.no_density(x), self.ruleP)

    def dT_v(self, x):
        x = self.res(x)
        if self.by_density():
            return D(x, self.ruleT)
        # volume is a function of the species' volumes: held where they do not depend on temperature
        return D(self.no_density(x), self.ruleT)

    def no_density(self, x):
        y = with_density(x, self.mo)
        if has(y.k, lambda z: z == RA) and self.mo.cls.split("::")[-1] not in CONSTANT_DENSITY:
            raise Unknown("the density is stored")
        return y


def find_method(mo, m):
    for k in sorted(mo.p.fns):
        if short(k) == m and mo.p.fns[k].hasbody and mo.cls in set(mo.p.subclasses(mo.p.fns[k].cls)) | {mo.p.fns[k].cls}:
            return mo.p.fns[mo.cg.final_impl(k, mo.cls) or k]
    return None


def after(mo, m):
    """(Sym, state) after the update method m"""
    c = mo.__dict__.setdefault("_after", {})
    if m not in c:
        fn_ = find_method(mo, m)
        c[m] = None
        if fn_ is not None and fn_.hasbody:
            s = mo.sym()
            s.opaque = set()
            st, v = s.run(fn_, [None] * len(fn_.params)) if not fn_.params else (None, None)
            if st is not None:
                c[m] = (s, st, fn_)
    return c[m]


def stored(mo, m, name, *idx):
    """the value the update method leaves in the member array (idx: one or two indices)"""
    a = after(mo, m)
    if a is None:
        raise Missing(m)
    s, st, fn_ = a
    for b in st.m:
        o = b[1] if b[0] in ("rows", "row") else b
        if o[0] == "ofld" and o[1].endswith("::" + name):
            v = s.read(o, idx[0], st) if len(idx) == 1 else s.read(("row", o, P(idx[0]).k), idx[1], st)
            if not isinstance(v, Poly) or is_unk(v) or has(v.k, lambda z: z[0] == "unk"):
                raise Unknown("%s: %s" % (m, unk_why(v) if isinstance(v, Poly) else "value"))
            return positive(v)
    raise Missing(name)


def opened(x, g):
    """psubst with sums that may come in by the substitution"""
    def f(a):
        if a[0] == "sum":
            tab, vs = {}, []
            for b, cn in a[1]:
                n = fresh_ix(psubst(replace(unkey(cn), tab), f))
                tab[b] = P(n)
                vs.append(n)
            v = psubst(replace(unkey(a[2]), tab), f)
            for n in reversed(vs):
                v = mk_sum(n, v)
            return v
        return g(a)
    return psubst(x, f)


def stored_field(mo, m, name):
    a = after(mo, m)
    v = None if a is None else [x for k, x in a[1].v.items() if k[0] == "f" and k[1].endswith("::" + name)]
    if not v:
        raise Missing(name)
    if not isinstance(v[0], Poly) or is_unk(v[0]):
        raise Unknown("%s: %s" % (m, name))
    return positive(v[0])


def resolve(mo, x, methods):
    """Replace members that an update method recomputes by what it computes."""
    ups = [a for a in (after(mo, m) for m in methods) if a is not None]
    if not ups:
        return x

    def f(a):
        for s, st, fn_ in ups:
            v = None
            if a[0] == "fld" and a[2] == THIS:
                v = st.v.get(("f", a[1], THIS))
            elif a[0] == "arr" and a[1][0] == "rows" and a[1] in st.m:
                v = s.read(a[1], psubst(unkey(a[2]), f), st)
            elif a[0] == "arr" and (a[1] in st.m or a[1][0] == "row" and ("rows", a[1][1]) in st.m):
                v = s.read(a[1], psubst(unkey(a[2]), f), st)
            if isinstance(v, Poly) and not is_unk(v) and not has(v.k, lambda z: z == a):
                return v
        return None
    return opened(x, f)


# ------------------------------------------------------------------ obligations

def phase_obligations(mo):
    c, V, i = Calc(mo), mo.val, mo.i
    out = []

    def add(g, title, need, left, right):
        out.append((g, title, need, left, right))
    for h, cp in (("enthalpy_mole", "cp_mole"), ("getPartialMolarEnthalpies", "getPartialMolarCp")):
        add("heat-capacity", "%s = d(%s)/dT at constant pressure" % (cp, h), (cp, h), lambda h=h: c.dT_P(V(h)), lambda cp=cp: c.res(V(cp)))
    for s, cp in (("entropy_mole", "cp_mole"), ("getPartialMolarEntropies", "getPartialMolarCp")):
        add("heat-capacity", "%s = T d(%s)/dT at constant pressure" % (cp, s), (cp, s), lambda s=s: T * c.dT_P(V(s)), lambda cp=cp: c.res(V(cp)))
    for s in ("", "_ref"):
        add("species", "getCp_R%s = d(T getEnthalpy_RT%s)/dT" % (s, s), ("getCp_R" + s, "getEnthalpy_RT" + s),
            lambda s=s: c.dT_P(T * V("getEnthalpy_RT" + s)), lambda s=s: c.res(V("getCp_R" + s)))
        if s:
            add("species", "getCp_R_ref = T d(getEntropy_R_ref)/dT", ("getCp_R_ref", "getEntropy_R_ref"), lambda: T * c.dT_P(V("getEntropy_R_ref")), lambda: c.res(V("getCp_R_ref")))
        else:
            add("species", "getCp_R = T d(getEntropy_R)/dT", ("getCp_R", "getEntropy_R"), lambda: T * c.dT_P(V("getEntropy_R")), lambda: c.res(V("getCp_R")))
    add("entropy", "entropy_mole = -d(gibbs_mole)/dT at constant pressure", ("entropy_mole", "gibbs_mole"), lambda: -c.dT_P(V("gibbs_mole")), lambda: c.res(V("entropy_mole")))
    add("entropy", "getPartialMolarEntropies = -d(getChemPotentials)/dT at constant pressure", ("getPartialMolarEntropies", "getChemPotentials"),
        lambda: -c.dT_P(V("getChemPotentials")), lambda: c.res(V("getPartialMolarEntropies")))
    add("entropy", "getEntropy_R = -d(getStandardChemPotentials)/dT / R", ("getEntropy_R", "getStandardChemPotentials"),
        lambda: -c.dT_P(V("getStandardChemPotentials")), lambda: R_ * c.res(V("getEntropy_R")))
    add("volume", "molarVolume = d(gibbs_mole)/dP at constant temperature", ("molarVolume", "gibbs_mole"), lambda: c.dP_T(V("gibbs_mole")), lambda: c.res(vol(mo, c)))
    add("volume", "getPartialMolarVolumes = d(getChemPotentials)/dP at constant temperature", ("getPartialMolarVolumes", "getChemPotentials"),
        lambda: c.dP_T(V("getChemPotentials")), lambda: c.res(V("getPartialMolarVolumes")))
    add("volume", "getStandardVolumes = d(getStandardChemPotentials)/dP", ("getStandardVolumes", "getStandardChemPotentials"),
        lambda: c.dP_T(V("getStandardChemPotentials")), lambda: c.res(V("getStandardVolumes")))
    add("volume", "thermalExpansionCoeff = d(ln v)/dT at constant pressure", ("molarVolume", "thermalExpansionCoeff"),
        lambda: c.dT_P(V("molarVolume")), lambda: c.res(vol(mo, c) * V("thermalExpansionCoeff")))
    add("volume", "isothermalCompressibility = -d(ln v)/dP at constant temperature", ("molarVolume", "isothermalCompressibility"),
        lambda: -c.dP_T(V("molarVolume")), lambda: c.res(vol(mo, c) * V("isothermalCompressibility")))
    add("heat-capacity", "cv_mole = d(intEnergy_mole)/dT at constant volume", ("cv_mole", "intEnergy_mole"), lambda: c.dT_v(V("intEnergy_mole")), lambda: c.res(V("cv_mole")))
    return out


def vol(mo, c):
    v = mo.val("molarVolume")
    return v if c.by_density() else c.no_density(v)


def model_obligations(mo):
    """Stored activity coefficients and coverage contributions, and their stored derivatives, where they are computed."""
    c, i = Calc(mo), mo.i
    out = []
    if mo.cls == NS + "HMWSoln":
        return out    # the loops of the Pitzer model are not followed

    def add(title, left, right):
        out.append(("model", title, (), left, right))

    def first(name):
        for m in UPDATES:
            a = after(mo, m)
            if a is not None and any((b[1] if b[0] in ("rows", "row") else b)[1].endswith("::" + name) for b in a[1].m if b[0] == "ofld" or b[0] in ("rows", "row") and b[1][0] == "ofld"):
                return m
        return None
    for src, dst in sorted(STORED_T.items()) + [("m_s_cov", "m_cp_cov")]:
        m1, m2 = first(src), first(dst)
        if m1 and m2:
            f = T if src == "m_s_cov" else P(1)
            add("%s = d(%s)/dT" % (dst, src), lambda m1=m1, src=src, f=f: f * D(stored(mo, m1, src, i), c.ruleT), lambda m2=m2, dst=dst: stored(mo, m2, dst, i))
    for src, dst in sorted(STORED_P.items()):
        m1, m2 = first(src), first(dst)
        if m1 and m2:
            add("%s = d(%s)/dP" % (dst, src), lambda m1=m1, src=src: D(stored(mo, m1, src, i), c.ruleP), lambda m2=m2, dst=dst: stored(mo, m2, dst, i))
    if c.eos():
        up = "updateMixingExpressions"
        el = lambda i, j: stored(mo, up, "m_aAlpha_binary", i, j)
        k = P(("ix", KK.k, "J"))
        add("m_aAlpha_mix is the sum of x_i x_j m_aAlpha_binary(i,j)", lambda: attraction(mo, el), lambda: stored_field(mo, up, "m_aAlpha_mix"))

        def binary():
            al = [stored(mo, up, "m_alpha", x) for x in (i, k)]
            return P(Fraction(1, 2)) * el(i, k) * sum((D(x, c.ruleT) * inv(x) for x in al), P(0))
        add("d(ln m_aAlpha_binary(i,j))/dT is the mean of d(ln m_alpha)/dT of i and j", lambda: D(el(i, k), c.ruleT), binary)
    m = first("lnActCoeff_Scaled_")
    ds = find_method(mo, "getdlnActCoeffds")
    if m and ds is not None and ds.cls == mo.cls:
        # a direction along which the mole fractions keep adding up to one
        z = lambda k: P(("dir", P(k).k))
        s_ = ("ix", KK.k, "D")
        dx = lambda k: z(k) - X(k) * mk_sum(s_, z(P(s_)))
        dt = P(("dTds",))
        along = lambda a: dt if a == TA else dx(mole_fraction(a)) if mole_fraction(a) is not None else None

        def value():
            s = mo.sym()
            s.opaque = set()
            st, v = s.run(ds, [dt, Ptr(("p", "dXds")), Ptr(("p", "out"))])
            if st is None:
                raise Missing("getdlnActCoeffds")
            y = s.read(("p", "out"), i, st)
            if not isinstance(y, Poly) or is_unk(y):
                raise Unknown(unk_why(y))
            return opened(y, lambda a: dx(unkey(a[2])) if a[0] == "arr" and a[1] == ("p", "dXds") else None)
        add("getdlnActCoeffds is the derivative of ln(activity coefficient) along a direction in temperature and composition", lambda: D(stored(mo, m, "lnActCoeff_Scaled_", i), along), value)
    if m:
        add("sum of mole fraction times change of ln(activity coefficient) with the amount of a species is zero (Gibbs-Duhem)",
            lambda: duhem(mo, m), lambda: P(0))
        J = P(("ix", KK.k, "J"))
        for name, idx in (("dlnActCoeffdlnN_diag_", (i,)), ("dlnActCoeffdlnN_", (i, J))):
            m2 = first(name)
            if m2:
                j = idx[-1]
                add("%s = n_j d(ln activity coefficient of k)/dn_j" % name, lambda j=j: dlnN(mo, m, j), lambda m2=m2, name=name, idx=idx: stored(mo, m2, name, *idx))
        m2 = first("dlnActCoeffdlnX_diag_")
        if m2:
            # in a binary mixture of species 0 and 1 whose only pair is (0, 1): the other mole fraction makes up for the change
            other = lambda a: (P(2) * P(("if", "eq", (mole_fraction(a) - i).k)) - P(1)) if mole_fraction(a) is not None else None
            add("dlnActCoeffdlnX_diag_ = X_k d(ln activity coefficient of k)/dX_k in a binary mixture",
                lambda: binary_mixture(mo, X(i) * D(stored(mo, m, "lnActCoeff_Scaled_", i), other)), lambda: binary_mixture(mo, stored(mo, m2, "dlnActCoeffdlnX_diag_", i)))
    return out


def binary_mixture(mo, x):
    def f(a):
        if a[0] == "szfld" and a[1] == PH + "m_kk":
            return P(2)
        if a[0] == "arr" and a[1][0] == "ofld" and a[1][1].endswith(("::m_pSpecies_A_ij", "::m_pSpecies_B_ij")):
            return P(0) if "_A_" in a[1][1] else P(1)
        return None
    x = replace(normalise(mo, norm(P(x), mo)), {mo.i.single(): P(("bin",))})
    return psubst(x, f)


def mole_fraction(a):
    if a[0] == "x":
        return unkey(a[1])
    if is_arr(a, ("moleFractions_",)):
        return unkey(a[2])
    return None


def rule_n(j):
    """derivative with respect to n_j, times the total amount"""
    def r(a):
        k = mole_fraction(a)
        if k is not None:
            return P(("if", "eq", (k - j).k)) - X(k)
        return None
    return r


def dlnN(mo, m, j):
    return X(j) * D(stored(mo, m, "lnActCoeff_Scaled_", mo.i), rule_n(j))


def duhem(mo, m):
    J = P(("ix", KK.k, "J"))
    s = ("ix", KK.k, "S")
    v = D(stored(mo, m, "lnActCoeff_Scaled_", P(s)), rule_n(J))
    return mk_sum(s, X(P(s)) * v)


SMALL = ("m_b_coeffs", "b_vec_Curr_", "m_b_current", "m_b", "m_a_coeffs", "a_vec_Curr_", "a_coeff_vec", "m_speciesMolarVolume")


def values(a):
    """the range an atom's value is taken from"""
    if a[0] == "g" and a[1].split("::")[-1] == "Sqrt2":
        return mpmath.sqrt(2)
    if a[0] == "arr":
        n = a[1]
        while n[0] in ("row", "rows"):
            n = n[1]
        s = str(n[1]).split("::")[-1]
        if a[2] == ("bin",):
            return None
        if s == "m_pSpecies_A_ij":
            return lambda u: int(2 * u)
        if s == "m_pSpecies_B_ij":
            return 2
        if s in SMALL:
            return lambda u: 0.02 + 0.05 * u
    if a == ("bin",):
        return lambda u: int(2 * u)
    if a[0] == "szfld" and a[1] == "#columns":
        return 101    # more than any column number: different cells have different positions
    if a == ("szfld", PH + "m_kk", THIS):
        return lambda u: 3 + int(2 * u)
    if a[0] == "fld" and a[1].split("::")[-1] in SMALL:
        return lambda u: 0.02 + 0.05 * u
    if a[0] == "szfld" and a[1].endswith("Dependency::k") or a[0] == "szfld" and a[1].endswith("Dependency::j"):
        return lambda u: int(2 * u)
    return None


def normalise(mo, x):
    """mole fractions that add up to one, and the mean molecular weight that belongs to them"""
    s = ("ix", KK.k, "N")
    Y = lambda k: P(("share", P(k).k))
    tot = mk_sum(s, Y(P(s)))
    mw = inv(tot) * mk_sum(s, Y(P(s)) * q("W", THIS, P(s)))

    def f(a):
        k = mole_fraction(a)
        if k is not None:
            return Y(psubst(k, f)) * inv(tot)
        if a == M.single():
            return mw
        return None
    return x if mo.single else psubst(x, f)


def mixture(mo, x):
    """mixture parameters as the sums over the species that the update stores (checked in group "model")"""
    if mo.cls != NS + "PengRobinson":
        return x
    A = ("rows", ("ofld", mo.cls + "::m_aAlpha_binary", THIS))

    def f(a):
        if a == ("fld", mo.cls + "::m_aAlpha_mix", THIS):
            return attraction(mo, lambda i, j: P(("arr", ("row", A[1], P(i).k), P(j).k)))
        if a == ("fld", mo.cls + "::m_b", THIS):
            return stored_field(mo, "updateMixingExpressions", "m_b")
        return None
    return psubst(x, f)


def attraction(mo, el):
    i, j = ("ix", KK.k, "R"), ("ix", KK.k, "S")
    return mk_sum(i, mk_sum(j, X(P(i)) * X(P(j)) * el(P(i), P(j))))


def decide(mo, l, r):
    l, r = mixture(mo, P(l)), mixture(mo, P(r))
    d = norm(l - r, mo)
    if not d.d:
        return None
    l, r = norm(l, mo), norm(r, mo)
    return differ(normalise(mo, l), normalise(mo, r), values)


def species_obligations(p, cg):
    """SpeciesThermoInterpType: (class, method, title, function of file/line, thunk)"""
    out = []
    tt = P(("p", "T"))
    rule = lambda a: P(1) if a == tt.single() else None
    for c in sorted(p.subclasses(SPT)):
        for m in ("updatePropertiesTemp", "updateProperties"):
            ks = [k for k in p.fns if short(k) == m and p.fns[k].cls == SPT]
            fn_ = p.fns[cg.final_impl(ks[0], c) or ks[0]]
            if not fn_.hasbody:
                continue

            def vals(m=m, c=c, fn_=fn_):
                s = Sym(p, c, inline=lambda g: True, cg=cg)
                outs = [Ptr(("p", x)) for x in ("cp", "h", "s")]
                if m == "updatePropertiesTemp":
                    st, v = s.run(fn_, [tt] + outs)
                else:
                    kp = [k for k in p.fns if short(k) == "updateTemperaturePoly" and p.fns[k].cls == SPT]
                    st, v = s.run(p.fns[cg.final_impl(kp[0], c) or kp[0]], [tt, Ptr(("p", "tt"))])
                    if st is None:
                        raise Missing("updateTemperaturePoly")
                    st, v = s.run(fn_, [Ptr(("p", "tt"))] + outs, st)
                if st is None:
                    raise Missing(m)
                r = [s.read(("p", x), P(0), st) for x in ("cp", "h", "s")]
                for x in r:
                    if not isinstance(x, Poly) or is_unk(x):
                        raise Unknown(unk_why(x))
                return r
            name = c.split("::")[-1]
            out.append((name, fn_, "%s.%s: cp/R = d(T h/RT)/dT" % (name, m), lambda vals=vals: (D(tt * vals()[1], rule), vals()[0])))
            out.append((name, fn_, "%s.%s: cp/R = T d(s/R)/dT" % (name, m), lambda vals=vals: (tt * D(vals()[2], rule), vals()[0])))
            if m == "updateProperties":
                def other(vals=vals, c=c):
                    ks = [k for k in p.fns if short(k) == "updatePropertiesTemp" and p.fns[k].cls == SPT]
                    f2 = p.fns[cg.final_impl(ks[0], c) or ks[0]]
                    s = Sym(p, c, inline=lambda g: True, cg=cg)
                    st, v = s.run(f2, [tt] + [Ptr(("p", x)) for x in ("cp", "h", "s")])
                    return [s.read(("p", x), P(0), st) for x in ("cp", "h", "s")]
                for n, what in ((0, "cp"), (1, "h"), (2, "s")):
                    out.append((name, fn_, "%s: updateProperties and updatePropertiesTemp give the same %s" % (name, what),
                                lambda vals=vals, other=other, n=n: (vals()[n], other()[n])))
    return out


# ------------------------------------------------------------------ the check

# (class, title pattern, reason)
EXCEPT14 = [
    ("PureFluidPhase|WaterSSTP", ".*", "the properties come from the equation of state object, whose fitted functions are not differentiated here"),
    ("PlasmaPhase", ".*", "two temperatures: the electron's properties follow the electron temperature"),
    ("MetalPhase", "molarVolume|thermalExpansion|isothermal|cv_mole", "the density of a metal is not part of its model"),
    ("LatticeSolidPhase", "molarVolume|cv_mole", "volumes of the sublattices are not differentiated"),
]
GROUPS14 = (("heat-capacity", 40, "Heat capacities are the temperature derivatives of enthalpy, entropy and internal energy"),
            ("entropy", 25, "Entropies are minus the temperature derivative of the Gibbs function and of the chemical potentials"),
            ("species", 35, "Standard and reference state heat capacities are the derivatives of the species' enthalpies and entropies"),
            ("volume", 25, "Volumes are pressure derivatives of Gibbs functions; expansion coefficient and compressibility are derivatives of the volume"),
            ("model", 5, "Stored derivatives of activity coefficients and coverage contributions are the derivatives of what they are stored for"),
            ("polynomial", 20, "The heat capacity, enthalpy and entropy of a species parameterisation are one function's derivatives"))


def settle14(mo, l, r):
    for x in (l, r):
        if not isinstance(x, Poly) or is_unk(x) or has(x.k, lambda z: z[0] in ("unk", "pre")):
            raise Unknown("value")
    d = decide(mo, l, r)
    if d is not None:
        l2, r2 = (positive(resolve(mo, x, UPDATES[1:] if Calc(mo).eos() else UPDATES)) for x in (l, r))
        if l2 != l or r2 != r:
            d = decide(mo, l2, r2)
    return d


def recorded14(mo, g, title):
    c = mo.cls.split("::")[-1]
    if c == "MargulesVPSSTP":
        if title.startswith("cv_mole"):
            return {"cv_mole": R_}
    r = recorded(mo, title)
    if c == "IdealMolalSoln":
        r.pop("gibbs_mole", None)
    return r


def is_recorded(mo, g, title):
    m2 = Model(mo.p, mo.cg, mo.cls, mo.case.items())
    m2.memo = dict(mo.memo)
    hit = False
    for m, x in recorded14(mo, g, title).items():
        for y in [k for k in mo.memo if k[0] == "n" and k[1] == m]:
            m2.memo[y] = norm(mo.memo[y] + x, mo)
            hit = True
    if hit:
        for g2, t, need, left, right in phase_obligations(m2):
            if t == title and g2 == g:
                try:
                    return settle14(m2, left(), right()) is None
                except (Missing, Unknown, NoValue, ZeroDivisionError):
                    return False
    return False


def evaluate14(mo):
    res = []
    for g, title, need, left, right in phase_obligations(mo) + model_obligations(mo):
        try:
            res.append((g, title, need, settle14(mo, left(), right()), ""))
        except Missing:
            continue
        except (Unknown, NoValue, ZeroDivisionError) as e:
            res.append((g, title, need, None, str(e) or "undecided"))
    return res


def all_cases(p, cg, cls):
    cs = cases(p, cls)
    mo = Model(p, cg, cls)
    res = evaluate14(mo)
    used = {}
    for m, v in list(mo.memo.items()):
        v = v if isinstance(v, Poly) else v[0]
        if isinstance(v, Poly) and not is_unk(v):
            has(v.k, lambda z: used.setdefault(z[1], 1) and False if z[0] in ("fld", "szfld") and z[1] in cs else False)
    if not used:
        return [(mo, "", res)]
    out = []
    for combo in itertools.product(*[[(x, v) for v in cs[x]] for x in sorted(used)]):
        mo = Model(p, cg, cls, combo)
        out.append((mo, " [%s]" % ", ".join("%s = %d" % (x.split("::")[-1], v) for x, v in combo), evaluate14(mo)))
    return out


_ctx = None


def one14(cls):
    import engine.poly as poly
    poly.KRON[0] = index_ok
    p, cg = _ctx
    out = []
    if cls == "":
        for name, fn_, title, thunk in species_obligations(p, cg):
            try:
                d = differ(*thunk(), values)
                out.append(("polynomial", title, "", (fn_.file, fn_.line, fn_.q), "holds" if d is None else "differs", d or ""))
            except Missing:
                continue
            except (Unknown, NoValue, ZeroDivisionError) as e:
                out.append(("polynomial", title, "", (fn_.file, fn_.line, fn_.q), "undecided", str(e)))
        return out
    if any(re.fullmatch(c, cls) and t == ".*" for c, t, r in EXCEPT14):
        return out
    for mo, tag, res in all_cases(p, cg, NS + cls):
        for g, title, need, d, why in res:
            ks = [cg.final_impl(k, mo.cls) or k for m in need for k in by_name(p, m)]
            if ks:
                fn_ = ([p.fns[k] for k in ks if p.fns[k].hasbody] + [p.fns[ks[0]]])[0]
            else:
                names = re.findall(r"\w+", title)
                fs = [find_method(mo, m) for m in UPDATES + ("updateMixingExpressions",)]
                fn_ = [x for x in fs if x is not None and x.hasbody and x.cls == mo.cls][0]
            loc = (fn_.file, fn_.line, fn_.q)
            kind = "undecided" if why else "holds" if d is None else "recorded" if is_recorded(mo, g, title) else "differs"
            out.append((g, title, tag, loc, kind, why or ("the two sides take the values %s" % d if d else "")))
    return out


def run(prog, rep):
    global _ctx
    import multiprocessing as mp
    import engine.poly as poly
    poly.KRON[0] = index_ok
    for name, floor, text in GROUPS14:
        rep.rule(name, floor, text)
    _ctx = (prog, CallGraph(prog))
    cls = [c.split("::")[-1] for c in concrete(prog)]
    if len(cls) < 15:
        raise Broken("only %d phase classes found in the factory" % len(cls))
    first = ("HMWSoln", "PengRobinson", "RedlichKisterVPSSTP", "RedlichKwongMFTP", "IdealMolalSoln")
    cls.sort(key=lambda c: first.index(c) if c in first else 9)
    cls.append("")
    with mp.get_context("fork").Pool(min(8, mp.cpu_count())) as pool:
        res = dict(zip(cls, pool.map(one14, cls, chunksize=1)))
    und, exc = [], ["%s: %s" % (c, r) for c, t, r in EXCEPT14 if t == ".*"]
    for c in sorted(res):
        for g, title, tag, loc, kind, why in res[c]:
            ex = [r for cp, tp, r in EXCEPT14 if re.fullmatch(cp, c) and re.search(tp, title)]
            what = "%s: %s" % (c, title + tag) if c else title
            if kind == "holds":
                rep.ok(g, what)
            elif ex:
                exc.append("%s (%s)" % (what, ex[0]))
            elif kind == "undecided":
                und.append("%s: %s" % (what, why))
            else:
                rep.bad(g, loc[0], loc[1], "%s for %s" % (loc[2], c) if c else loc[2], title + (" (as recorded)" if kind == "recorded" else ""),
                        "%s%s does not hold: %s" % (title, tag, why))
    rep.extra["undecided_total"] = len(und)
    rep.extra["undecided"] = und[:60]
    rep.extra["not_applied"] = exc
    rep.extra["classes"] = sorted(c for c in cls if c)
    rep.assumption("As in C12; also: positive parameters of equations of state; Gibbs functions of standard states have the derivatives their own property methods give; "
                   "the densities of StoichSubstance and of surface phases do not change with temperature and pressure; the solution models hold their volume when the species' volumes do not depend on temperature")
