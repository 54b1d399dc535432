"""C12: thermodynamic properties of a phase agree with one another.

engine/sym.py gives the value of every property method of every phase class as a polynomial over the state (temperature,
pressure, density, mass fractions) and the model's parameters, sums over species kept symbolic. The relations of the
thermodynamic identities listed in identities() are then compared as polynomials. A method that throws on every path is
not part of any identity; a value the pass cannot express is undecided."""
from ..sym import *
import itertools

from ..facts import Broken

NS = "Cantera::"
TP = NS + "ThermoPhase"
PH = NS + "Phase::"
THIS = ("this",)
RK = NS + "RedlichKwongMFTP::"
DIRS = ("src/thermo/", "include/cantera/thermo/")
KK = P(("szfld", PH + "m_kk", THIS))
R_ = P(("g", "GasConstant"))
OPAQUE = {"s_update_lnActCoeff", "s_update_dlnActCoeff_dT", "s_update_d2lnActCoeff_dT2", "s_update_dlnActCoeff_dX_",
          "s_update_dlnActCoeff_dlnX_diag", "s_update_dlnActCoeff_dlnN_diag", "s_update_dlnActCoeff_dlnN", "s_update_lnMolalityActCoeff",
          "s_update_dlnMolalityActCoeff_dT", "s_update_d2lnMolalityActCoeff_dT2", "s_update_dlnMolalityActCoeff_dP",
          "s_updatePitzer_lnMolalityActCoeff", "s_updatePitzer_dlnMolalityActCoeff_dT", "s_updatePitzer_d2lnMolalityActCoeff_dT2",
          "s_updatePitzer_dlnMolalityActCoeff_dP", "_updateCovDepThermo", "s_updateScaling_pHScaling", "s_updateScaling_pHScaling_dT",
          "s_updateScaling_pHScaling_dT2", "s_updateScaling_pHScaling_dP", "update", "update_single"}
CLOSED = ("src/thermo/WaterProps", "include/cantera/thermo/WaterProps")


def f(name, ob=THIS):
    return P(("fld", name, ob))


T = f(PH + "m_temp")
RHO = f(PH + "m_dens")
M = f(PH + "m_mmw")


class Model:
    def __init__(self, prog, cg, cls, case=()):
        self.p, self.cg, self.cls, self.case = prog, cg, cls, dict(case)
        self.memo, self.why = {}, {}
        self.single = cls in prog.subclasses(NS + "SingleSpeciesTP") or cls == NS + "PureFluidPhase"
        self.kk = P(1) if self.single else KK
        self.i = P(0) if self.single else P(("ix", KK.k, "0"))
        self.ins = set()

    def sym(self):
        def alias(a):
            if a[0] in ("fld", "szfld") and a[1] == PH + "m_kk":
                return self.kk
            return None

        def sizes(b):
            if b[0] == "ofld" and b[2] == THIS and b[1] in speciesvecs(self.p):
                return self.kk
            return None

        def assume(a):
            r = decided(self, a)
            return recompute(a) if r is None else r
        return Sym(self.p, self.cls, inline=lambda fn: fn.file.startswith(DIRS) and not fn.file.startswith(CLOSED), cg=self.cg, alias=alias, sizes=sizes,
                   assume=assume, opaque=OPAQUE, fills=lambda s, ok: P(1) if s == "update_single" else None)

    def get(self, m, *args):
        k = (m,) + tuple(P(a).k for a in args)
        if k not in self.memo:
            self.memo[k] = self.eval(m, args)
        return self.memo[k]

    def impl(self, m):
        for k0 in sorted(self.p.fns):
            if qn(k0) in (TP + "::" + m, PH + m):
                yield k0

    def eval(self, m, args):
        best = None
        for k0 in by_name(self.p, m):
            k = self.cg.final_impl(k0, self.cls) or k0
            fn = self.p.fns[k]
            if not fn.hasbody:
                continue
            vals, a, out = [], list(args), None
            for (pid, name, t, *r) in fn.params:
                t = t.replace(" ", "")
                if t.endswith("*"):
                    out = out or ("p", name)
                    vals.append(Ptr(("p", name)))
                elif a:
                    vals.append(P(a.pop(0)))
                else:
                    vals.append(None)
            if None in vals or a:
                continue
            s = self.sym()
            st, v = s.run(fn, vals)
            self.ins |= s.inlined
            if st is None:
                return None, fn
            if out:
                v = s.read(out, self.i, st)
                if isinstance(v, Poly) and has(v.k, lambda z: z[0] == "arr" and z[1][0] == "p"):
                    return U("element not written"), fn
            return (v if isinstance(v, Poly) else U("value")), fn
        return None, None


_sv = {}


def speciesvecs(p):
    """member vectors resized to the number of species (or grown once per species)"""
    if id(p) in _sv:
        return _sv[id(p)]
    r = set()
    for k, fn in p.fns.items():
        if not fn.hasbody or not fn.file.startswith(DIRS):
            continue
        for n in walk(fn.body):
            if n[0] == "mcall" and short(n[2]) in ("resize", "push_back", "assign") and n[3][0] == "m" and isinstance(n[3][3], str):
                if short(n[2]) == "push_back":
                    if short(k) == "addSpecies":
                        r.add(n[3][3])
                elif n[4] and peel(n[4][0])[0] == "m" and str(peel(n[4][0])[3]).endswith("::m_kk"):
                    r.add(n[3][3])
    _sv[id(p)] = r
    return r


_bn = {}


def by_name(p, m):
    if id(p) not in _bn:
        d = {}
        for k in sorted(p.fns):
            q_ = qn(k)
            if q_.startswith((TP + "::", PH)):
                d.setdefault(q_.split("::")[-1], []).append(k)
        _bn[id(p)] = d
    return _bn[id(p)].get(m, [])


def decided(mo, a):
    """Indicators that the case under consideration and the number of species (at least one) settle."""
    if a[0] != "if" or a[1] not in ("eq", "pos"):
        return None
    d = unkey(a[2])
    vs = [m for m in d.d if m]
    if len(vs) != 1 or len(vs[0]) != 1 or vs[0][0][1] != 1:
        return None
    z, c, k = atom(vs[0][0][0]), d.d[vs[0]], d.d.get((), 0)
    if z[0] in ("fld", "szfld") and z[2] == THIS and z[1] in mo.case:
        v = c * mo.case[z[1]] + k
        return int(v == 0) if a[1] == "eq" else int(v > 0)
    if P(z) == KK and not mo.single and (2 * c + k) * c > 0:
        return 0 if a[1] == "eq" else int(c > 0)       # a mixture has two species at least
    return None


POSITIVE = ("IMS_X_o_cutoff_",)       # parameters documented as positive


def implied(a, b):
    """a > 0 implies b > 0: b - a is a positive number, or a positive multiple of a positive parameter"""
    d = unkey(b) - unkey(a)
    return all(c > 0 and (not m or len(m) == 1 and atom(m[0][0])[0] == "fld" and atom(m[0][0])[1].split("::")[-1] in POSITIVE)
               for m, c in d.d.items()) and bool(d.d)


STATE = ("m_temp", "m_Pcurrent", "m_press", "m_dens", "m_tlast", "m_Tlast_ss", "m_Plast_ss", "m_lastTemp")


def recompute(a):
    """The comparison of a remembered state with the present one that guards a recomputation: take the recomputing side
    (that the remembered values are the same is the subject of C05)."""
    if a[0] == "if" and a[1] == "eq" and any(z[:2] == ("q", "validate") for z in unkey(a[2]).atoms()):
        return 1                   # the stored result is not valid
    if a[0] == "if" and a[1] == "eq":
        t = repr(a)
        names = set()
        has(a, lambda z: names.add(z[1].split("::")[-1]) or False if z[0] == "fld" else False)
        low = {n for n in names if "last" in n.lower() or n in ("state1", "state2", "stateNum", "m_stateNum") or "cache" in t.lower()}
        if low:
            return 0
    if a[0] == "if" and a[1] == "pos":
        d = unkey(a[2])
        if d.d.get((), 0) <= -300:
            return 0               # clipping of exponents outside the range of a double
        names = set()
        has(a, lambda z: names.add(z[1].split("::")[-1]) or False if z[0] == "fld" else False)
        if names == {"m_n0"}:
            return 1
    return None



# ------------------------------------------------------------------ normal form

def X(k):
    return P(("x", P(k).k))


def q(name, ok, *idx):
    return P(("q", name, ok, None, tuple(P(i).k for i in idx)))


def last(a):
    return a[1].split("::")[-1] if isinstance(a[1], str) else ""


def norm1(mo, a):
    if a[0] == "if" and a[1] in ("eq", "pos"):
        d = unkey(a[2]).const()
        if d is not None:
            return P(int(d == 0) if a[1] == "eq" else int(d > 0))
        d = decided(mo, a)
        if d is None and a[1] == "pos":
            d = unkey(a[2])
            if len(d.d) == 1 and list(d.d.values())[0] > 0 and (d.single() or ("",))[0] == "ix":
                return P(1) - P(("if", "eq", min(d.k, (-d).k, key=lambda x: pshow(unkey(x)))))
            return None
        return P(d) if d is not None else None
    if a[0] == "arr" and a[1][0] == "row" and a[1][1] == ("ofld", RK + "a_coeff_vec", THIS) and unkey(a[1][2]).const() == 1 \
            and mo.case.get(RK + "m_formTempParam") == 0:
        return P(0)                # m_formTempParam is set where a coefficient of the second row may be nonzero
    if a[0] == "arr" and a[1][0] == "ofld" and a[1][2] == THIS:
        s, i = a[1][1].split("::")[-1], unkey(a[2])
        if s == "m_mu_cov":        # as left by _updateCovDepThermo
            z = a[1][1].rsplit("::", 1)[0]
            return P(("arr", ("ofld", z + "::m_h_cov", THIS), a[2])) - T * P(("arr", ("ofld", z + "::m_s_cov", THIS), a[2]))
        if s == "m_ym":
            return X(i) / M
        if s == "m_y":
            return X(i) * q("W", THIS, i) / M
        if s == "m_molwts":
            return q("W", THIS, i)
        if s == "m_rmolwts":
            return q("W", THIS, i) ** -1
        if s == "moleFractions_":
            return X(i)
        if s == "m_logsize":
            return fn("log", P(("arr", ("ofld", NS + "SurfPhase::m_speciesSize", THIS), a[2])))
    if a[0] == "fld" and a[2] == THIS:
        s = last(a)
        if s == "m_mw" and mo.single:
            return q("W", THIS, 0)
        if s == "m_mmw" and mo.single:
            return q("W", THIS, 0)
        if s == "m_logn0":
            return fn("log", f(NS + "SurfPhase::m_n0"))
        if len(a) > 3:
            return norm1(mo, a[:3]) or P(a[:3])
    if a[0] == "x" and mo.single:
        return P(1)
    if a[0] in ("fn", "inv"):
        z = split(a)
        if z is not None:
            return z
    if a[0] == "q" and a[2] is not None:
        nm, ok, ver, idx = a[1:]
        if nm.startswith("update_single#") and len(idx) == 3:
            return q("update#%d" % (int(nm[-1]) - 1), ok, unkey(idx[1]), unkey(idx[0]))
        if ok[0] == "elem" and "PDSS" in repr(ok) or ok[0] == "pdss":
            RT = R_ * T
            rel = {"gibbs_RT": lambda: q("enthalpy_RT", ok) - q("entropy_R", ok), "gibbs_RT_ref": lambda: q("enthalpy_RT_ref", ok) - q("entropy_R_ref", ok),
                   "enthalpy_mole": lambda: RT * q("enthalpy_RT", ok), "entropy_mole": lambda: R_ * q("entropy_R", ok),
                   "gibbs_mole": lambda: RT * (q("enthalpy_RT", ok) - q("entropy_R", ok)), "cp_mole": lambda: R_ * q("cp_R", ok)}
            if nm in rel:
                return rel[nm]()
        sub = ok[0] == "ofld" and ok[1].split("::")[-1] == "m_sub" or ok == ("fld", NS + "PureFluidPhase::m_sub", THIS) or "m_sub" in repr(ok)
        if sub or ok[0] == "elem" and nm.endswith("_mole") or "m_lattice" in repr(ok):
            # the equation of state object and the phases of a lattice are themselves consistent
            z = lambda n: P(("q", n, ok, None, idx))
            rel = {"g": lambda: z("h") - T * z("s"), "u": lambda: z("h") - z("P") / RHO, "gibbs_mass": lambda: z("enthalpy_mass") - T * z("entropy_mass"),
                   "intEnergy_mass": lambda: z("enthalpy_mass") - z("pressure") / RHO, "gibbs_mole": lambda: z("enthalpy_mole") - T * z("entropy_mole"),
                   "gibbs_RT_ref": lambda: z("enthalpy_RT_ref") - z("entropy_R_ref")}
            if nm in rel:
                return rel[nm]()
        if ver is not None:
            return P(("q", nm, ok, None, idx))
    if a[0] == "fn" and a[1] in ("max",) and len(a) == 4:
        for u, v in ((a[2], a[3]), (a[3], a[2])):
            if unkey(u) == P(("g", "SmallNumber")) or unkey(u) == P(("g", "Tiny")) or (unkey(u).const() is not None and 0 <= unkey(u).const() < 1e-18) \
                    or "MIN" in repr(unkey(u).single()):
                return P(unkey(v))
    if a[0] == "fn" and a[1] == "log":
        return fn("log", unkey(a[2])) if fn("log", unkey(a[2])) != P(a) else None
    if a[0] == "fn" and a[1] == "exp":
        z = unkey(a[2])
        if len(z.d) == 1:
            (m, c), = z.d.items()
            if c == 1 and len(m) == 1 and m[0][1] == 1 and atom(m[0][0])[:2] == ("fn", "log"):
                return unkey(atom(m[0][0])[2])
        return None
    if a[0] == "sum" and len(a[1]) == 1:
        (b, cn), = a[1]
        body = unkey(a[2])
        if cn == KK.k:
            if body == X(P(b)):
                return P(1)
            if body == X(P(b)) * q("W", THIS, P(b)):
                return M
    return None


def split(a):
    """A function of a value that depends on an indicator, as the two cases."""
    if a[0] not in ("fn", "inv", "sum") and a[0] != "arr":
        return None
    for y in a[1:] if a[0] != "sum" else ():
        if isinstance(y, tuple) and y and y[0] == "P":
            for m, c in y[1]:
                for i, e in m:
                    if atom(i)[0] == "if":
                        z = atom(i)
                        one = subst(P(a), lambda b: P(1) if b == z else None)
                        two = subst(P(a), lambda b: P(0) if b == z else None)
                        return P(z) * one + (P(1) - P(z)) * two
    return None


def cancel(p):
    """(A x) / x = A for the inverses of sums"""
    for i in sorted({i for m in p.d for i, e in m if e > 0 and atom(i)[0] == "inv"}):
        x = unkey(atom(i)[1])
        if len(x.d) < 2:
            continue
        co = P(0)
        for m, c in p.d.items():
            e = dict(m)
            if e.get(i) == 1:
                del e[i]
                co = co + Poly({tuple(sorted(e.items())): c})
        if len(co.d) < 2:
            continue
        (t, a), (s, b) = primitive(co), primitive(x)
        z = divide(a, b)
        if z is not None:
            p = p - co * P(atom(i)) + z * t * s ** -1
    return p


def fn(s, x):
    """log of a product as a sum of logs, log(exp(x)) = x"""
    x = P(x)
    if s == "log":
        if len(x.d) > 1:
            x = cancel(x)
        if not x.d:
            return P(("fn", "log", x.k))
        if x.const() == 1:
            return P(0)
        if len(x.d) == 1:
            (m, c), = x.d.items()
            r = P(("fn", "log", P(c).k)) if c != 1 else P(0)
            for i, e in m:
                a = atom(i)
                r = r + P(e) * (unkey(a[2]) if a[:2] == ("fn", "exp") else P(("fn", "log", P(a).k)))
            return r
    return P(("fn", s, x.k))


def norm(p, mo):
    for _ in range(5):
        r = subst(p, lambda a: norm1(mo, a))
        if r == p:
            break
        p = r
    return exclusive(exclusive(p))


def exclusive(p):
    """Indicators are idempotent; two equalities of one value with different constants exclude each other."""
    r = P(0)
    for m, c in p.d.items():
        out, eqs, dead = [], [], False
        for i, e in m:
            a = atom(i)
            if a[0] == "if" and e > 1:
                e = 1
            if a[0] == "if" and a[1] == "eq":
                for z in eqs:
                    for d in (unkey(a[2]) - unkey(z), unkey(a[2]) + unkey(z)):
                        if d.const() not in (None, 0):
                            dead = True
                eqs.append(a[2])
            out.append((i, e))
        if dead:
            continue
        ps = [(i, atom(i)[2]) for i, e in out if atom(i)[:2] == ("if", "pos")]
        for i, y in ps:
            if any(j != i and implied(z, y) for j, z in ps):
                out = [w for w in out if w[0] != i]
        x = Poly({tuple(w for w in out if not (atom(w[0])[:2] == ("if", "eq"))): c})
        done = P(1)
        for z in eqs:
            k = P(("if", "eq", z))
            for a in unkey(z).atoms():
                if a[0] in ("ix", "fld"):
                    v = delta(("if", "eq", z), a)
                    if v is not None:
                        x = replace(x, {a: v})
                        break
            done = done * k
        x = done * x
        r = r + x
    return r


def index_ok(c, n):
    a = c.single() or ("",)
    return n == KK and (c.const() == 0 or a[0] == "szfld" or a[0] == "arr" and a[1][0] == "ofld" and a[1][1].endswith(("::m_pSpecies_A_ij", "::m_pSpecies_B_ij")))



METHODS = ["enthalpy_mole", "intEnergy_mole", "entropy_mole", "gibbs_mole", "cp_mole", "cv_mole", "enthalpy_mass", "intEnergy_mass",
           "entropy_mass", "gibbs_mass", "cp_mass", "cv_mass", "pressure", "molarVolume", "getPartialMolarEnthalpies",
           "getPartialMolarEntropies", "getPartialMolarIntEnergies", "getPartialMolarCp", "getPartialMolarVolumes", "getChemPotentials",
           "getElectrochemPotentials", "getStandardChemPotentials", "getEnthalpy_RT", "getEntropy_R", "getGibbs_RT", "getPureGibbs",
           "getIntEnergy_RT", "getCp_R", "getStandardVolumes", "getEnthalpy_RT_ref", "getGibbs_RT_ref", "getGibbs_ref", "getEntropy_R_ref",
           "getIntEnergy_RT_ref", "getCp_R_ref", "getStandardVolumes_ref", "getActivityCoefficients", "getLnActivityCoefficients",
           "getActivities", "getActivityConcentrations", "standardConcentration", "logStandardConc"]


def concrete(p):
    """the classes ThermoFactory creates"""
    r = set()
    for k, fn_ in p.fns.items():
        if fn_.hasbody and fn_.cls == NS + "ThermoFactory":
            r |= {n[2] for n in walk(fn_.body) if n[0] == "new"}
    return sorted(c for c in p.subclasses(TP) if c in r)


_cs = {}


def cases(p, cls):
    """Members that select between formulations: {member: values}, for those that are only ever given constants."""
    if id(p) not in _cs:
        d = {}
        for k, fn_ in sorted(p.fns.items()):
            if not fn_.hasbody or not fn_.file.startswith(DIRS):
                continue
            for n in walk(fn_.body):
                if n[0] == "asg" and n[3][0] == "m" and n[3][2][0] == "this":
                    v = lit(n[4]) if n[2] == "=" else None
                    d.setdefault(n[3][3], set()).add(v if type(v) is int else None)
        for x in d:
            i = p.field.get(x, {}).get("init")
            if i is not None:
                v = lit(i)
                d[x].add(v if type(v) is int else None)
        _cs[id(p)] = {x: sorted(v) for x, v in d.items() if None not in v and len(v) > 1}
    return {x: v for x, v in _cs[id(p)].items() if cls in p.subclasses(x.rsplit("::", 1)[0]) or cls == x.rsplit("::", 1)[0]}


# ------------------------------------------------------------------ the identities

def uninv(p):
    r = P(0)
    for m, c in p.d.items():
        t, out = P(1), []
        for i, e in m:
            a = atom(i)
            if a[0] == "inv" and e < 0:
                t = t * unkey(a[1]) ** (-e)
            else:
                out.append((i, e))
        r = r + Poly({tuple(out): c}) * t
    return r


def density(mo):
    """what the phase's calcDensity() makes of the density, if it has one"""
    for k in sorted(mo.p.fns):
        if short(k) == "calcDensity" and mo.cls in set(mo.p.subclasses(mo.p.fns[k].cls)) | {mo.p.fns[k].cls}:
            fn_ = mo.p.fns[mo.cg.final_impl(k, mo.cls) or k]
            if not fn_.hasbody:
                continue
            st, v = mo.sym().run(fn_, [])
            d = st.v.get(("f", PH + "m_dens", THIS)) if st is not None else None
            if isinstance(d, Poly) and not is_unk(d):
                return norm(d, mo)
            return None
    return None


def with_density(p, mo):
    if not hasattr(mo, "rho"):
        mo.rho = density(mo)
    if mo.rho is None:
        return p
    rho = RHO.single()
    return norm(uninv(subst(p, lambda a: mo.rho if a == rho else None)), mo)


# members that updateMixingExpressions sets to sums over the species: what is summed (with mole fractions) -> the member
MIXTURE = {"RedlichKwongMFTP": {"b_vec_Curr_": "m_b_current", "a_vec_Curr_": "m_a_current"},
           "PengRobinson": {"m_b_coeffs": "m_b", "m_aAlpha_binary": "m_aAlpha_mix"}}


def lemma(mo, a):
    t = MIXTURE.get(mo.cls.split("::")[-1])
    if t is None or a[0] != "sum" or any(n != KK.k for b, n in a[1]):
        return None
    body = unkey(a[2])
    if len(body.d) != 1:
        return None
    (m, c), = body.d.items()
    xs = [atom(i) for i, e in m if atom(i)[0] == "x" and e == 1]
    rest = [atom(i) for i, e in m if atom(i)[0] != "x"]
    if c == 1 and len(rest) == 1 and len(xs) == len(a[1]) == len(m) - 1 and {x[1] for x in xs} == {P(b).k for b, n in a[1]} and rest[0][0] == "arr":
        for src, dst in t.items():
            if src in repr(rest[0][1]) and len(xs) == (1 if "b_" in src and "inary" not in src else 2):
                return f(mo.cls + "::" + dst)
    return None


def divide(a, b):
    """a / b if b divides a exactly (polynomials without negative powers), else None"""
    key = lambda m: sorted(m, reverse=True)
    lb = max(b.d, key=key)
    q_, r = P(0), a
    for _ in range(4000):
        if not r.d:
            return q_
        la = max(r.d, key=key)
        e = dict(la)
        for i, n in lb:
            e[i] = e.get(i, 0) - n
        if any(n < 0 for n in e.values()):
            return None
        t = Poly({tuple(sorted((i, n) for i, n in e.items() if n)): r.d[la] / b.d[lb]})
        q_, r = q_ + t, r - t * b
    return None


def primitive(p):
    """(common monomial with coefficient, remaining polynomial with positive leading coefficient)"""
    ms = list(p.d)
    com = dict(ms[0])
    for m in ms[1:]:
        e = dict(m)
        com = {i: min(n, e.get(i, 0)) for i, n in com.items()}
        for i, n in e.items():
            if n < 0:
                com[i] = min(com.get(i, 0), n)
    c = p.d[max(ms, key=lambda m: pshow(Poly({m: 1})))]
    t = Poly({tuple(sorted((i, n) for i, n in com.items() if n)): c})
    return t, p * t ** -1


def logr(p):
    """ln of a quotient as a sum of logarithms of its factors"""
    def logm(p, sign):
        t, rest = primitive(p)
        (m, c), = t.d.items()
        r = P(("fn", "log", P(abs(c)).k)) if abs(c) != 1 else P(0)
        for i, e in m:
            r = r + P(e) * P(("fn", "log", P(atom(i)).k))
        if rest.const() != 1:
            if c < 0:
                rest = -rest
            r = r + P(("fn", "log", rest.k))
        return P(sign) * r
    num, den, out = P(0), {}, P(0)
    num, _ = rational(p)
    ds = {}
    for m, c in p.d.items():
        t = {}
        for i, e in m:
            if atom(i)[0] == "inv" and e > 0:
                t[i] = t.get(i, 0) + e
        for i, e in t.items():
            ds[i] = max(ds.get(i, 0), e)
    _, d = rational(p)
    facs = [(unkey(atom(i)[1]), e) for i, e in ds.items()]
    if any(has(x.k, lambda z: z[0] == "inv") for x, e in facs):
        return None
    mono = d
    for x, e in facs:
        num_x, den_x = rational(x)
        for _ in range(e):
            mono = divide(mono, num_x) if mono is not None else None
    if mono is None or len(mono.d) != 1:
        return None
    for x, e in facs:
        x = primitive(rational(x)[0])
        out = out - P(e) * logm(x[0], 1)
        k = e
        while k:
            z = divide(primitive(num)[1], x[1])
            if z is None:
                break
            num, k = z * primitive(num)[0], k - 1
        if k:
            out = out - P(k) * logm(x[1], 1)
    return out + logm(num, 1) - logm(mono, 1)


def rational(p, depth=0):
    """p as a quotient of two polynomials without inverses"""
    num, den = P(0), {}
    terms = []
    for m, c in p.d.items():
        t, ds = P(1), {}
        rest = []
        for i, e in m:
            a = atom(i)
            if a[0] == "inv":
                n, d = rational(unkey(a[1]), depth + 1)
                if e < 0:
                    n, d, e = d, n, -e
                t = t * d ** e
                ds[n.k] = ds.get(n.k, 0) + e
            elif e < 0:
                ds[P(a).k] = ds.get(P(a).k, 0) - e
            else:
                rest.append((i, e))
        terms.append((Poly({tuple(rest): c}) * t, ds))
        for k, e in ds.items():
            den[k] = max(den.get(k, 0), e)
    for t, ds in terms:
        for k, e in den.items():
            if e > ds.get(k, 0):
                t = t * unkey(k) ** (e - ds.get(k, 0))
        num = num + t
    d = P(1)
    for k, e in den.items():
        d = d * unkey(k) ** e
    return num, d


def identities(mo):
    """(title, methods that have to exist, left, right)"""
    i, RT = mo.i, R_ * T
    V = lambda m, *a: mo.val(m, *a)
    p, v = "pressure", "molarVolume"

    def tot(val):
        if mo.single:
            return val
        ix = ("ix", KK.k, "S")
        i0 = i.single()
        return mk_sum(ix, X(P(ix)) * replace(val, {i0: P(ix)}))
    out = []

    def add(title, need, left, right):
        out.append((title, need, left, right))
    for m, pm, what in (("enthalpy_mole", "getPartialMolarEnthalpies", "enthalpy"), ("entropy_mole", "getPartialMolarEntropies", "entropy"),
                        ("intEnergy_mole", "getPartialMolarIntEnergies", "internal energy"), ("gibbs_mole", "getChemPotentials", "Gibbs function"),
                        ("cp_mole", "getPartialMolarCp", "heat capacity"), ("molarVolume", "getPartialMolarVolumes", "volume")):
        add("molar %s = sum of mole fraction times partial molar %s" % (what, what), (m, pm), lambda m=m: V(m), lambda pm=pm: tot(V(pm)))
    add("g = h - T s", ("gibbs_mole", "enthalpy_mole", "entropy_mole"), lambda: V("gibbs_mole"), lambda: V("enthalpy_mole") - T * V("entropy_mole"))
    add("u = h - p v", ("intEnergy_mole", "enthalpy_mole", p, v), lambda: V("intEnergy_mole"), lambda: V("enthalpy_mole") - V(p) * V(v))
    add("chemical potential = partial molar enthalpy - T partial molar entropy", ("getChemPotentials", "getPartialMolarEnthalpies", "getPartialMolarEntropies"),
        lambda: V("getChemPotentials"), lambda: V("getPartialMolarEnthalpies") - T * V("getPartialMolarEntropies"))
    add("partial molar u = partial molar h - p partial molar v", ("getPartialMolarIntEnergies", "getPartialMolarEnthalpies", "getPartialMolarVolumes", p),
        lambda: V("getPartialMolarIntEnergies"), lambda: V("getPartialMolarEnthalpies") - V(p) * V("getPartialMolarVolumes"))
    for suf, what in (("", "standard"), ("_ref", "reference")):
        h, s, g, u = ("getEnthalpy_RT" + suf, "getEntropy_R" + suf, "getGibbs_RT" + suf, "getIntEnergy_RT" + suf)
        add("%s g/RT = h/RT - s/R" % what, (g, h, s), lambda g=g: V(g), lambda h=h, s=s: V(h) - V(s))
        vv = "getStandardVolumes"
        if not suf:
            add("standard u/RT = h/RT - p v/RT", (u, h, vv, p), lambda u=u: V(u), lambda h=h, vv=vv: V(h) - V(p) * V(vv) / RT)
    add("reference Gibbs function = RT times its dimensionless value", ("getGibbs_ref", "getGibbs_RT_ref"), lambda: V("getGibbs_ref"), lambda: RT * V("getGibbs_RT_ref"))
    add("pure-species Gibbs function = RT times its dimensionless value", ("getPureGibbs", "getGibbs_RT"), lambda: V("getPureGibbs"), lambda: RT * V("getGibbs_RT"))
    add("standard chemical potential = RT times standard g/RT", ("getStandardChemPotentials", "getGibbs_RT"), lambda: V("getStandardChemPotentials"), lambda: RT * V("getGibbs_RT"))
    add("chemical potential = standard value + RT ln(activity)", ("getChemPotentials", "getStandardChemPotentials", "getActivities"),
        lambda: V("getChemPotentials"), lambda: V("getStandardChemPotentials") + RT * fn("log", V("getActivities")))
    add("activity = activity concentration / standard concentration", ("getActivities", "getActivityConcentrations", "standardConcentration"),
        lambda: V("getActivities") * V("standardConcentration", i), lambda: V("getActivityConcentrations"))
    add("ln(activity coefficient)", ("getLnActivityCoefficients", "getActivityCoefficients"), lambda: V("getLnActivityCoefficients"), lambda: fn("log", V("getActivityCoefficients")))
    add("ln(standard concentration)", ("logStandardConc", "standardConcentration"), lambda: V("logStandardConc", i), lambda: fn("log", V("standardConcentration", i)))
    add("activity = activity coefficient times mole fraction", ("getActivities", "getActivityCoefficients", "activityConvention"),
        lambda: V("getActivities") if V("activityConvention").const() == 0 else None, lambda: V("getActivityCoefficients") * X(i))
    add("electrochemical potential = chemical potential + charge F phi", ("getElectrochemPotentials", "getChemPotentials"),
        lambda: V("getElectrochemPotentials"), lambda: V("getChemPotentials") + P(("g", "Faraday")) * f(TP + "::m_phi") * P(("arr", ("ofld", PH + "m_speciesCharge", THIS), i.k)))
    for m in ("enthalpy", "intEnergy", "entropy", "gibbs", "cp", "cv"):
        add("mass-specific %s = molar value / mean molecular weight" % m, (m + "_mass", m + "_mole"), lambda m=m: V(m + "_mass"), lambda m=m: V(m + "_mole") / M)
    add("cp - cv = T v beta^2 / kappa", ("cp_mole", "cv_mole", v, "thermalExpansionCoeff", "isothermalCompressibility"),
        lambda: (V("cp_mole") - V("cv_mole")) * V("isothermalCompressibility"), lambda: T * V(v) * V("thermalExpansionCoeff") ** 2)
    return out


class Missing(Exception):
    pass


def val(self, m, *a):
    v, fn_ = self.get(m, *a)
    if v is None:
        raise Missing(m)
    if is_unk(v):
        raise Unknown("%s: %s" % (m, unk_why(v)))
    k = ("n", m) + tuple(P(x).k for x in a)
    if k not in self.memo:
        self.memo[k] = norm(v, self)
    return self.memo[k]


class Unknown(Exception):
    pass


Model.val = val


def same(mo, l, r):
    """the difference of two values in normal form"""
    l, r = norm(l, mo), norm(r, mo)
    d = exclusive(l - r)
    if d.d:
        d = with_density(l, mo) - with_density(r, mo)
        d = exclusive(norm(uninv(d), mo))
        if d.d and mo.cls.split("::")[-1] in MIXTURE:
            back = lambda x: norm(subst(x, lambda a: lemma(mo, a)), mo)
            logs = lambda a: logr(unkey(a[2])) if a[:2] == ("fn", "log") and (len(unkey(a[2]).d) > 1 or has(a[2], lambda z: z[0] == "inv")) else None
            root = lambda a: P(("fn", "sqrt", T.k)) ** 2 if a == T.single() else P(a) if a == ("fn", "sqrt", T.k) else None
            d = back(d)
            if d.d:
                d = subst(d, logs)
                d = subst(back(norm(rational(d)[0], mo)), root)
    return d


def evaluate(mo):
    res = []
    for title, need, left, right in identities(mo):
        try:
            l, r = left(), right()
        except Missing as e:
            continue
        except Unknown as e:
            res.append((title, need, None, str(e)))
            continue
        if l is None:
            continue
        res.append((title, need, same(mo, l, r), (l, r)))
    return res


def evaluate_all(p, cg, cls):
    """The identities of one class, in every formulation it can be set to: [(model, case, results)]"""
    cs = cases(p, cls)
    mo = Model(p, cg, cls)
    res = evaluate(mo)
    used = {}
    for m, v in list(mo.memo.items()):
        v = v if isinstance(v, Poly) else v[0]
        if isinstance(v, Poly) and not is_unk(v):
            has(v.k, lambda z: used.setdefault(z[1], 1) and False if z[0] in ("fld", "szfld") and z[1] in cs else False)
    if not used:
        return [(mo, "", res)]
    out = []
    for combo in itertools.product(*[[(x, v) for v in cs[x]] for x in sorted(used)]):
        mo = Model(p, cg, cls, combo)
        out.append((mo, " [%s]" % ", ".join("%s = %d" % (x.split("::")[-1], v) for x, v in combo), evaluate(mo)))
    return out


# ------------------------------------------------------------------ the check

# Values the identities do not apply to, or that the normal form cannot bring together
EXCEPT = [
    ("PlasmaPhase", ".*", "the electrons have a temperature of their own: reference values and mixture sums are not taken at one temperature"),
    ("PureFluidPhase|WaterSSTP", "cp - cv", "cp, cv and the compressibilities come from the equation of state object, which is taken as it is"),
    ("BinarySolutionTabulatedThermo", "molar volume =|g = h - T s|molar Gibbs function =", "needs the interpolated molar volume and x0 + x1 = 1"),
    ("CoverageDependentSurfPhase", "chemical potential = standard value", "the coverage used for the entropy of mixing includes the number of sites a species occupies"),
]
# Properties of objects the pass takes as they are
WORDS = {"m_spthermo": {"update#1", "update#2", "update#3"}, "m_waterProps": {"ADebye"},
         "m_sub": {"P", "h", "s", "cp", "cv", "coeffThermExp", "thermalExpansionCoeff", "isothermalCompressibility", "cp_mass", "cv_mass", "enthalpy_mass",
                   "entropy_mass", "pressure"},
         "m_PDSS_storage": {"cp_R", "enthalpy_RT", "enthalpy_RT_ref", "entropy_R", "entropy_R_ref", "molarVolume"},
         "m_lattice": {"cp_mole", "enthalpy_mole", "entropy_mole", "intEnergy_mole"}}
GROUPS = (("mixture-sum", 40, "sum of mole fraction", "A molar property of the phase is the mole fraction weighted sum of the partial molar values"),
          ("gibbs-relation", 60, "h - T s|u = h - p v|entropy$|partial molar v$", "g = h - T s and u = h - p v, for the phase and for its partial molar properties"),
          ("species-state", 80, "g/RT|u/RT|dimensionless|standard chemical", "Standard state and reference state values of the species satisfy the same relations"),
          ("activity", 60, "activity|ln\\(", "Chemical potentials, activities, activity coefficients, activity concentrations and standard concentrations agree"),
          ("electrochemical", 8, "electrochemical", "Electrochemical potential = chemical potential + charge times Faraday constant times electric potential"),
          ("mass-basis", 50, "mass-specific", "Properties per unit mass are the molar ones divided by the mean molecular weight"),
          ("heat-capacities", 1, "cp - cv", "cp - cv = T v beta^2 / kappa"))


def foreign(d):
    """a property of an object, or of the phase itself, that is not in the vocabulary"""
    out = []

    def see(z):
        if z[0] == "q" and not (z[1] == "W" and z[2] == THIS):
            t = repr(z[2])
            if not any(o in t and z[1] in w for o, w in WORDS.items()):
                out.append(z[1])
        if z[0] in ("unk", "loc"):
            out.append(z[0])
        return False
    has(d.k, see)
    return out


def recorded(mo, title):
    """{method: what the recorded defect leaves out of its value}: see known_findings.txt"""
    c = mo.cls.split("::")[-1]
    if c == "IdealMolalSoln":
        sr = (R_ - P(1)) * mo.val("getEntropy_R")
        ix = ("ix", KK.k, "S")
        tot = mk_sum(ix, X(P(ix)) * replace(sr, {mo.i.single(): P(ix)}))
        return {"getPartialMolarEntropies": sr, "entropy_mole": tot, "gibbs_mole": -T * tot if "mole fraction" not in title and "g = h" not in title else P(0)}
    if c == "LatticePhase":
        dp, V = f(NS + "LatticePhase::m_Pcurrent") - f(NS + "LatticePhase::m_Pref"), mo.val("getStandardVolumes")
        ix = ("ix", KK.k, "S")
        tot = mk_sum(ix, X(P(ix)) * replace(V, {mo.i.single(): P(ix)}))
        dv = tot - f(NS + "LatticePhase::m_site_density") ** -1
        return {"getStandardChemPotentials": dp * V, "enthalpy_mole": dp * dv, "gibbs_mole": dp * dv, "molarVolume": dv}
    if c == "MargulesVPSSTP":
        arr = lambda name, k: P(("arr", ("ofld", mo.cls + "::" + name, THIS), P(k).k))
        b = P(("ix", P(("szfld", mo.cls + "::numBinaryInteractions_", THIS)).k, "B"))
        A, B = arr("m_pSpecies_A_ij", b), arr("m_pSpecies_B_ij", b)
        xa, xb = X(A), X(B)
        g0, g1 = arr("m_VHE_b_ij", b) - T * arr("m_VSE_b_ij", b), arr("m_VHE_c_ij", b) - T * arr("m_VSE_c_ij", b)
        t = g0 + g1 * xb
        eq = lambda k: P(("if", "eq", (k - mo.i).k))
        return {"getPartialMolarVolumes": -mk_sum(b.single(), eq(A) * xb * t + eq(B) * (xa * t + xa * xb * g1) - xa * xb * t - xa * xb * xb * g1)}
    if c == "LatticeSolidPhase":
        u, h = mo.val("intEnergy_mole"), mo.val("enthalpy_mole")
        if all(pshow(z) == "Sum[j0<size(m_lattice)](m_lattice[j0].%s() * theta_[j0])" % n for n, z in (("intEnergy_mole", u), ("enthalpy_mole", h))):
            return {"intEnergy_mole": h - u - f(NS + "LatticeSolidPhase::m_press") * M / RHO}
    return {}


RECORDED = ("MargulesVPSSTP", "IdealMolalSoln", "LatticePhase", "LatticeSolidPhase")


def one(cls):
    import engine.poly as poly
    poly.KRON[0] = index_ok
    p, cg = _ctx
    out = []
    for mo, tag, res in evaluate_all(p, cg, NS + cls):
        for title, need, d, w in res:
            ks = [cg.final_impl(k, mo.cls) or k for m in need for k in by_name(p, m)]
            fn_ = ([p.fns[k] for k in ks if p.fns[k].hasbody] + [p.fns[ks[0]]])[0]
            loc = (fn_.file, fn_.line, fn_.q)
            if d is None:
                out.append((title, tag, loc, "undecided", w[:200]))
            elif not d.d:
                out.append((title, tag, loc, "holds", ""))
            else:
                fo = foreign(d)
                kind = "undecided" if fo else "differs"
                if kind == "differs" and equal_terms(mo, d):
                    kind = "holds"
                if kind == "differs" and cls in RECORDED:
                    try:
                        e = same(mo, *with_recorded(mo, title))
                        if e is not None and (not e.d or equal_terms(mo, e)):
                            kind = "recorded"
                    except (Missing, Unknown):
                        pass
                out.append((title, tag, loc, kind, "differs in %s" % (", ".join(sorted(set(fo))[:3]) if fo else pshow(d)[:300])))
    return out


def equal_terms(mo, d):
    """do the two sides take the same value at every interpretation of their atoms that is tried?"""
    from ..ident import NoValue
    from . import C14
    try:
        return C14.decide(mo, d, P(0)) is None
    except (NoValue, Unknown, Missing, ZeroDivisionError):
        return False


def with_recorded(mo, title):
    m2 = Model(mo.p, mo.cg, mo.cls, mo.case.items())
    m2.memo, base = dict(mo.memo), mo
    for m, x in recorded(mo, title).items():
        k = [k for k in mo.memo if k[0] == "n" and k[1] == m]
        for y in k:
            m2.memo[y] = norm(mo.memo[y] + x, mo)
    for t, need, left, right in identities(m2):
        if t == title:
            return left(), right()


_ctx = None


def run(prog, rep):
    global _ctx
    import multiprocessing as mp
    import re
    import engine.poly as poly
    poly.KRON[0] = index_ok
    for name, floor, pat, text in GROUPS:
        rep.rule(name, floor, text)
    _ctx = (prog, CallGraph(prog))
    cls = [c.split("::")[-1] for c in concrete(prog)]
    if len(cls) < 15:
        raise Broken("only %d phase classes found in the factory" % len(cls))
    cls.sort(key=lambda c: ["IdealMolalSoln", "PengRobinson", "BinarySolutionTabulatedThermo"].index(c) if c in ("IdealMolalSoln", "PengRobinson", "BinarySolutionTabulatedThermo") else 9)
    with mp.get_context("fork").Pool(min(8, mp.cpu_count())) as pool:
        res = dict(zip(cls, pool.map(one, cls, chunksize=1)))
    und, exc = [], []
    for c in sorted(res):
        for title, tag, loc, kind, why in res[c]:
            g = [n for n, fl, pat, tx in GROUPS if re.search(pat, title)][0]
            ex = [r for cp, tp, r in EXCEPT if re.fullmatch(cp, c) and re.search(tp, title)]
            what = "%s: %s" % (c, title + tag)
            if kind == "holds":
                rep.ok(g, what)
            elif ex:
                exc.append("%s (%s)" % (what, ex[0]))
            elif kind == "undecided":
                und.append("%s: %s" % (what, why))
            else:
                rep.bad(g, loc[0], loc[1], "%s for %s" % (loc[2], c), title + (" (as recorded)" if kind == "recorded" else ""), "%s%s does not hold: %s" % (title, tag, why))
    rep.extra["undecided_total"] = len(und)
    rep.extra["undecided"] = und[:60]
    rep.extra["not_applied"] = exc
    rep.extra["classes"] = sorted(cls)
    rep.assumption("Mixtures have at least two species; mole fractions add up to one; values guarded by a floor for logarithms (SmallNumber, Tiny) are above it; "
                   "stored values that a method refreshes before use are fresh (C07); species thermodynamics, standard state objects and equation of state objects agree within themselves")
