"""C09: the state vector of a reactor has one layout, used alike by getState, updateState, componentName, componentIndex
and neq, and reading the vector back reproduces the state it was written from.

Each function is evaluated into polynomial normal forms (engine/sym.py); the entries stored by getState, the state set by
updateState (the chain of state setters of the phase, the mass, volume and surface coverages) and the names and counts are
compared with the layout table below."""
from ..sym import *
from ..facts import Broken
from . import C10
from .C10 import (NS, Z, THIS, RB, TH, KIN, NSP, fld, q, f, elem, species, make, norm, norm1, Cmp, sth, skin, W_, Y)

YV = ("p", "y")
LAYOUT = {
    "Reactor": (["mass", "volume", "int_energy"], "Y"),
    "IdealGasReactor": (["mass", "volume", "temperature"], "Y"),
    "ConstPressureReactor": (["mass", "enthalpy"], "Y"),
    "IdealGasConstPressureReactor": (["mass", "temperature"], "Y"),
    "MoleReactor": (["int_energy", "volume"], "n"),
    "IdealGasMoleReactor": (["temperature", "volume"], "n"),
    "ConstPressureMoleReactor": (["enthalpy"], "n"),
    "IdealGasConstPressureMoleReactor": (["temperature"], "n"),
    "FlowReactor": (["density", "speed", "pressure", "temperature"], "Y"),
}
ALLNAMES = ["mass", "volume", "int_energy", "temperature", "enthalpy", "density", "speed", "pressure"]
NSURF = P(("size", fld(THIS, RB + "m_surfaces")))


def sizes(b):
    if b[0] == "ofld" and b[1].endswith("ReactorSurface::m_cov"):
        return q("nSpecies", ("ofld", NS + "ReactorSurface::m_thermo", b[2]))
    if b[0] == "ofld" and b[2] == THIS and b[1].split("::")[-1] in ("m_sdot", "m_wdot", "m_hk", "m_uk"):
        return NSP
    return None


class Lay:
    def __init__(self, prog, rep, cmp, cg):
        self.p, self.rep, self.cmp, self.cg = prog, rep, cmp, cg

    def ev(self, cls, key, vals, energy=None, chem=None, opaque=(), assume=None, unroll=None, more=None):
        s = make(self.p, NS + cls, chem, energy, cg=self.cg, opaque=opaque, more=more)
        s.sizes_ = sizes
        if assume:
            base = s.assume
            s.assume = lambda a: assume(a) if assume(a) is not None else base(a)
        if unroll:
            s.unroll = unroll
        k = s.cg.final_impl(NS + key, NS + cls)
        fn = self.p.fns.get(k)
        if fn is None or not fn.hasbody:
            raise Broken("%s of %s not found" % (key, cls))
        st, v = s.run(fn, vals)
        return fn, s, st, v


def chain(ver):
    """The state setters of a version chain, latest first; None if the chain holds anything else."""
    out = []
    while ver is not None:
        if isinstance(ver, str):
            out.append(("restore", ver))
            return out
        if not isinstance(ver, tuple) or not ver or not isinstance(ver[0], str):
            return None
        if ver[0] in ("loop", "loopver", "cond"):
            return None
        last = ver[-1]
        if last == "?":
            return None
        out.append((ver[0],) + ver[1:-1])
        ver = last
    out.append(("none",))
    return out


COMP = {"setMassFractions_NoNorm": "Y", "setMassFractions": "Y~", "setMolesNoTruncate": "n", "setMoleFractions": "n~",
        "setMoleFractions_NoNorm": "n~"}


def final(ver):
    """(kind, a, b, composition, problem) of the state a chain of setters leaves behind."""
    c = chain(ver)
    if c is None:
        return None
    comp = kind = None
    T = rho = None
    for e in c:          # latest first
        nm = e[0]
        if nm in COMP:
            if comp is None:
                comp = (COMP[nm], e[1])
            continue
        if nm == "restore":
            return ("restored", kind, T, rho, comp)
        if nm == "none":
            break
        if kind is not None:
            continue
        if nm in ("setState_TD", "setState_TR"):
            kind, T, rho = "TD", T if T is not None else e[1], rho if rho is not None else e[2]
        elif nm in ("setState_TP", "setState_HP", "setState_UV", "setState_SP", "setState_SV", "setState_DP", "setState_PV"):
            if T is not None or rho is not None:
                return None
            if comp is not None and nm != "setState_TD":
                return ("order", nm, None, None, comp)
            kind, T, rho = nm[9:], e[1], e[2]
        elif nm == "setTemperature":
            T = T if T is not None else e[1]
        elif nm == "setDensity":
            rho = rho if rho is not None else e[1]
        else:
            return None
        if kind is None and T is not None and rho is not None:
            kind = "TD"
    return ("set", kind, T, rho, comp)


def surfaces(off):
    j = P(("ix", NSURF.k, "0"))
    jp = ("ix", NSURF.k, "ps")
    before = P(("psum", j.k, jp, q("nSpecies", sth(P(jp))).k))
    nk = q("nSpecies", sth(j))
    k = P(("ix", nk.k, "0"))
    return j, k, off + NSP + before + k


def poly(k):
    return unkey(k) if isinstance(k, tuple) and k and k[0] == "P" else None


def getters(L, c, names, sp):
    rep, cmp = L.rep, L.cmp
    off = len(names)
    dae = c == "FlowReactor"
    if dae:
        return
    fn, s, st, _ = L.ev(c, "Reactor::getState(double *)", [Ptr(YV)])
    rho = q("density", TH)
    rd = lambda i: s.read(YV, P(i), st)
    V = f(RB + "m_vol")
    mass = rho * V
    want = {"mass": mass, "volume": V, "int_energy": q("intEnergy_mass", TH) * mass, "enthalpy": q("enthalpy_mass", TH) * mass,
            "temperature": q("temperature", TH)}
    for i, nm in enumerate(names):
        r = cmp.eq("get", fn, "%s::getState entry %d (%s)" % (c, i, nm), rd(i), want[nm], construct="%s %s" % (c, nm))
        if r is not None:
            C10.fresh(rep, cmp, fn, c, "getState " + nm, rd(i))
    k = P(("ix", NSP.k, "0"))
    w = Y(k) if sp == "Y" else mass * Y(k) / W_(k)
    cmp.eq("get", fn, "%s::getState species entries" % c, rd(off + k), w, construct="%s species" % c)
    j, kk, at = surfaces(off)
    cov = P(("arr", ("ofld", NS + "ReactorSurface::m_cov", elem("m_surfaces", j)), kk.k))
    if sp == "n":
        cov = cov * f(NS + "ReactorSurface::m_area", elem("m_surfaces", j)) * q("siteDensity", sth(j)) / q("size", sth(j), kk)
    cmp.eq("get", fn, "%s::getState surface entries" % c, rd(at), cov, construct="%s surfaces" % c)
    m = st.v.get(("f", NS + "Reactor::m_mass", THIS))
    if m is not None and sp == "n":
        cmp.eq("get", fn, "%s::getState mass" % c, m, mass, construct="%s m_mass" % c)


def setters(L, c, names, sp):
    rep, cmp = L.rep, L.cmp
    off = len(names)
    y = lambda i: P(("arr", YV, P(i).k))
    pos = {n: i for i, n in enumerate(names)}
    V, Pm = f(RB + "m_vol"), f(RB + "m_pressure")
    for energy in (1, 0):
        fn, s, st, _ = L.ev(c, "Reactor::updateState(double *)", [Ptr(YV)], energy=energy)
        mode = "%s::updateState [energy %s]" % (c, "on" if energy else "off")
        got = lambda n: st.v.get(("f", n, THIS))
        ver = st.ver.get(TH)
        if sp == "Y" and "mass" in pos:
            mass = y(pos["mass"])
        elif sp == "n":
            mass = species(lambda k: y(off + P(k)) * W_(P(k)))
        else:
            mass = None
        if mass is not None:
            cmp.eq("set", fn, mode + " mass", got(NS + "Reactor::m_mass"), mass, construct=c + " m_mass")
        if "volume" in pos:
            cmp.eq("set", fn, mode + " volume", got(RB + "m_vol"), y(pos["volume"]), construct=c + " m_vol")
        if c == "FlowReactor":
            for n, fl in (("density", "m_rho"), ("speed", "m_u"), ("pressure", "m_P"), ("temperature", "m_T")):
                cmp.eq("set", fn, mode + " " + n, got(NS + "FlowReactor::" + fl), y(pos[n]), construct=c + " " + fl)
        fin = final(ver)
        if fin is None:
            cmp.undecided.append(mode + " state setters")
            continue
        how, kind, a, b, comp = fin
        bad = None
        if how == "order":
            bad = "composition set after %s, which changes the pressure" % kind
        elif how == "restored":
            bad = "the state restored from m_state is left in place of the one in the vector"
        elif comp is None or kind is None:
            bad = "the phase's state is not fully set: %s missing (what it held before, possibly for another reactor, is used)" % (
                "composition" if comp is None else "temperature, density or pressure")
        elif comp[1] != ("ptr", YV, P(off).k):
            bad = "composition is taken from %s instead of entry %d on" % (oshow(comp[1]), off)
        elif comp[0] != {"Y": "Y", "n": "n"}[sp]:
            bad = "composition entries are %s, but are set with another setter (or one that renormalises)" % (
                "mass fractions" if sp == "Y" else "moles")
        else:
            A, B = poly(a), poly(b)
            if A is None or B is None or has(A, lambda z: z[0] == "unk") or is_unk(B):
                if A is None or B is None or is_unk(B):
                    cmp.undecided.append(mode + " state arguments")
                    continue
            B = norm(B)
            vol = "volume" in pos
            if vol:
                if kind != "TD":
                    bad = "state set from %s; volume is given, so temperature and density have to be" % kind
                elif (B - norm(mass / y(pos["volume"]))).d:
                    bad = "density is set to %s, not to mass / volume" % pshow(B)
            else:
                if kind not in ("TP", "HP"):
                    bad = "state set from %s; this is a constant pressure reactor" % kind
                else:
                    want = y(pos["pressure"]) if "pressure" in pos else Pm
                    if (B - norm(want)).d:
                        bad = "pressure is set to %s" % pshow(B)
            if bad is None:
                if "temperature" in pos:
                    if kind[0] != "T" or (norm(A) - y(pos["temperature"])).d:
                        bad = "temperature is set to %s, not to entry %d" % (pshow(norm(A)), pos["temperature"])
                elif not energy:
                    t0 = P(("arr", fld(THIS, RB + "m_state"), P(0).k))
                    if kind[0] != "T" or (norm(A) - t0).d:
                        bad = "with the energy equation off the reactor's own temperature has to be kept; it is set to %s" % pshow(norm(A))
                elif kind == "HP":
                    if (norm(A) * norm(mass) - y(pos["enthalpy"])).d:
                        bad = "enthalpy is set to %s, not to entry %d / mass" % (pshow(norm(A)), pos["enthalpy"])
                elif kind == "TD" and "int_energy" in pos:
                    bad = residual(L, c, s, st, mass, y, pos, fn, mode, A)
                else:
                    cmp.undecided.append(mode + " temperature")
        if bad:
            rep.bad("set", fn.file, fn.line, fn.name, "%s phase state" % c, "%s: %s" % (mode, bad))
        else:
            rep.ok("set", mode + " phase state")
        # what connected reactors and the next restoreState() see
        def current(v):
            vs = [z[3] for z in v.atoms() if z[0] == "q" and len(z) == 5 and z[2] == TH and z[1] not in STATELESS]
            return all(x == (ver,) for x in vs) and vs
        saved = [l for l in s.log if l[0] == "saveState" and l[1] == TH]
        if not saved:
            rep.bad("saved", fn.file, fn.line, fn.name, "%s saveState" % c, mode + " does not save the new state of the phase")
        elif saved[-1][7] != ver or not any(isinstance(x, Ptr) and x.base == fld(THIS, RB + "m_state") for x in saved[-1][2]):
            rep.bad("saved", fn.file, fn.line, fn.name, "%s saveState" % c, mode + " saves a state that is not the final one")
        else:
            rep.ok("saved", mode + " m_state")
        if c != "FlowReactor":
            for fl, nm in (("m_enthalpy", "enthalpy_mass"), ("m_intEnergy", "intEnergy_mass"), ("m_pressure", "pressure")):
                v = got(RB + fl)
                if fl == "m_pressure" and "volume" not in pos:
                    if v is not None and (norm(v) - norm(Pm)).d:
                        rep.bad("saved", fn.file, fn.line, fn.name, "%s %s" % (c, fl), mode + " changes the pressure of a constant pressure reactor")
                    else:
                        rep.ok("saved", mode + " keeps m_pressure")
                    continue
                if v is None:
                    rep.bad("saved", fn.file, fn.line, fn.name, "%s %s" % (c, fl), mode + " leaves %s at its old value" % fl)
                    continue
                r = cmp.eq("saved", fn, mode + " " + fl, v, q(nm, TH), construct="%s %s" % (c, fl))
                if r and not current(v):
                    rep.bad("saved", fn.file, fn.line, fn.name, "%s %s" % (c, fl), mode + " takes %s before the state is complete" % fl)
            if "volume" not in pos:
                v = got(RB + "m_vol")
                d = norm_keep(v) if isinstance(v, Poly) else None
                if d is None or is_unk(v):
                    cmp.undecided.append(mode + " m_vol")
                else:
                    w = mass / q("density", TH)
                    cmp.eq("set", fn, mode + " volume", strip(v), strip(w), construct=c + " m_vol")
                    if not current(v):
                        rep.bad("saved", fn.file, fn.line, fn.name, c + " m_vol", mode + " computes the volume before the state is complete")
        # devices
        for lst in ("m_inlet", "m_outlet"):
            if c == "FlowReactor":
                continue
            u = [l for l in s.log if l[0] == "updateMassFlowRate" and l[1] and l[1][0] == "elem" and l[1][1] == fld(THIS, RB + lst)]
            full = [l for l in u if l[3] == P(1) and len(l[6]) == 1 and unkey(l[6][0][1]) == P(("size", fld(THIS, RB + lst)))]
            if full:
                rep.ok("saved", mode + " flow rates of " + lst)
                t = full[-1][2]
                tm = [P(("fld", NS + "ReactorNet::m_time", ("ofld", NS + "Reactor::m_net", THIS)))]
                if t and isinstance(t[0], Poly) and not is_unk(t[0]) and not C10.foreign(t[0]) and \
                        not has(t[0], lambda z: z[0] == "fld" and z[1].endswith("::m_time")):
                    rep.bad("saved", fn.file, fn.line, fn.name, "%s %s time" % (c, lst),
                            mode + " evaluates flow rates at %s instead of the time of the network" % pshow(t[0]))
            elif u:
                cmp.undecided.append(mode + " flow rates")
            else:
                rep.bad("saved", fn.file, fn.line, fn.name, "%s %s" % (c, lst), mode + " does not update the flow rates of " + lst)
        # surfaces
        j, kk, at = surfaces(off)
        cov = s.read(("ofld", NS + "ReactorSurface::m_cov", elem("m_surfaces", j)), kk, st)
        w = y(at)
        if sp == "n":
            w = w / f(NS + "ReactorSurface::m_area", elem("m_surfaces", j)) / q("siteDensity", sth(j)) * q("size", sth(j), kk)
        cmp.eq("set", fn, mode + " coverages", cov, w, construct=c + " coverages")


def norm_keep(v):
    return v


def strip(p):
    """Version-free atoms without replacing the density by mass / volume (the volume is what is being computed)."""
    def g(a):
        if a[0] == "q" and a[1] == "density" and a[2] == TH:
            return q("density*", TH)
        return norm1(a)
    for _ in range(4):
        r = subst(p, g)
        if r == p:
            return r
        p = r
    return p


def residual(L, c, s, st, mass, y, pos, fn, mode, A):
    """The function handed to the root finder vanishes exactly where m u(T, rho) = U, for the density that is set at the end."""
    cb = s.callbacks
    if not cb:
        if has(A, lambda z: z[0] in ("call", "unk")):
            L.cmp.undecided.append(mode + " energy residual")
            return None
        return "temperature is set to %s, not to the root of the energy residual" % pshow(norm(A))
    if not is_unk(A) and not has(A, lambda z: z[0] in ("call", "fn") or (z[0] in ("fld", "mem") and z[1].startswith("std::"))):
        return "temperature is set to %s, not to the root of the energy residual" % pshow(norm(A))
    for who, val, vers in cb:
        if not isinstance(val, Poly) or is_unk(val):
            L.cmp.undecided.append(mode + " energy residual")
            continue
        want = norm(mass) * q("intEnergy_mass", TH) - y(pos["int_energy"])
        g = norm(val)
        if (g - want).d and (g + want).d:
            if C10.foreign(g):
                L.cmp.undecided.append(mode + " energy residual")
                continue
            return "the energy residual solved for the temperature is %s, expected %s" % (pshow(g), pshow(want))
        fin = final(vers.get(TH))
        if fin is None or fin[0] != "set" or fin[1] is None:
            L.cmp.undecided.append(mode + " state in the energy residual")
            continue
        B, T = poly(fin[3]), poly(fin[2])
        if fin[1] != "TD" or B is None or T is None:
            return "the energy residual is evaluated in a state set from %s" % fin[1]
        if (norm(B) - norm(mass / y(pos["volume"]))).d:
            return "the energy residual is evaluated at density %s" % pshow(norm(B))
        if (T - P(("par", "callback", 0))).d:
            return "the energy residual is evaluated at temperature %s, not at its argument" % pshow(T)
    return None


def counts(L, c, names, sp):
    rep, cmp = L.rep, L.cmp
    off = len(names)
    fn, s, st, _ = L.ev(c, "Reactor::initialize(double)", [P(("par", "t0"))])
    nv = st.v.get(("f", NS + "Reactor::m_nv", THIS))
    js = ("ix", NSURF.k, "S")
    if isinstance(nv, Poly):    # a sum over an empty list of surfaces is zero
        nv = psubst(nv, lambda z: P(0) if z[:2] == ("if", "eq") and has(z, lambda w: w == NSURF.single()) else None)
    cmp.eq("names", fn, "%s::initialize number of equations" % c, nv, off + NSP + mk_sum(js, q("nSpecies", sth(P(js)))),
           construct=c + " m_nv")
    # names by index
    for i, nm in enumerate(names):
        fn, s, st, v = L.ev(c, "Reactor::componentName(unsigned long)", [P(i)])
        if v == nm:
            rep.ok("names", "%s component %d is %s" % (c, i, nm))
        elif isinstance(v, str) or isinstance(v, Obj):
            rep.bad("names", fn.file, fn.line, fn.name, "%s name %d" % (c, i), "component %d of %s holds %s, but is named %s" % (i, c, nm, v))
        else:
            cmp.undecided.append("%s componentName(%d)" % (c, i))
    k = P(("ix", NSP.k, "0"))
    fn, s, st, v = L.ev(c, "Reactor::componentName(unsigned long)", [off + k])
    if isinstance(v, Obj) and v.k[:3] == ("call", "speciesName", TH):
        if v.k[3] == (k.k,):
            rep.ok("names", "%s species components" % c)
        else:
            rep.bad("names", fn.file, fn.line, fn.name, c + " species name", "component %d + k of %s holds species k, but is named after species %s" % (
                off, c, oshow(v.k[3])))
    else:
        cmp.undecided.append("%s componentName of species" % c)
    # surface species: first and second surface
    SURF = fld(THIS, RB + "m_surfaces")
    un = lambda b: 2 if b == SURF else None
    for n in (0, 1):
        nk = q("nSpecies", sth(P(n)))
        kk = P(("ix", nk.k, "0"))
        at = off + NSP + kk + (q("nSpecies", sth(P(0))) if n else 0)
        fn, s, st, v = L.ev(c, "Reactor::componentName(unsigned long)", [at], unroll=un, assume=lambda a: 1 if below_neq(a) else None)
        if isinstance(v, Obj) and v.k[:2] == ("call", "speciesName"):
            if v.k[2] == sth(P(n)) and v.k[3] == (kk.k,):
                rep.ok("names", "%s surface %d species components" % (c, n))
            else:
                rep.bad("names", fn.file, fn.line, fn.name, c + " surface name", "component of species k of surface %d of %s is named %s(%s)" % (
                    n, c, oshow(v.k[2]), oshow(v.k[3])))
        else:
            cmp.undecided.append("%s componentName of surface %d" % (c, n))
    # index by name
    key = "Reactor::componentIndex(const std::string &) const"
    isnp = lambda a: a[0] == "if" and a[1] == "eq" and has(a, lambda z: z == ("g", "npos")) and has(a, lambda z: z[0] == "q" and z[1] == "speciesIndex")
    for nm in ALLNAMES:
        fn, s, st, v = L.ev(c, key, [nm], opaque={"speciesIndex"}, assume=lambda a: 1 if isnp(a) else None)
        want = P(names.index(nm)) if nm in names else P(("g", "npos"))
        cmp.eq("names", fn, "%s::componentIndex(%s)" % (c, nm), v, want, construct="%s index %s" % (c, nm))
    fn, s, st, v = L.ev(c, key, ["a species"], opaque={"speciesIndex"}, assume=lambda a: 0 if isnp(a) else None)
    if isinstance(v, Poly) and not is_unk(v):
        d = v - off
        a = d.single()
        if a and a[0] == "q" and a[1] == "speciesIndex":
            rep.ok("names", "%s::componentIndex of a species" % c)
        elif not C10.foreign(psubst(d, lambda z: P(0) if z[0] == "q" and z[1] == "speciesIndex" else None)):
            rep.bad("names", fn.file, fn.line, fn.name, c + " species index", "componentIndex of a species is %s; the species entries of %s start at %d" % (pshow(v), c, off))
        else:
            cmp.undecided.append("%s componentIndex of a species" % c)
    else:
        cmp.undecided.append("%s componentIndex of a species" % c)
    # speciesIndex: gas, first surface, second surface, unknown
    key = "Reactor::speciesIndex(const std::string &) const"
    for n in (-1, 0, 1, 2):
        own = [TH, sth(P(0)), sth(P(1))]

        def asm(a):
            if a[0] == "if" and a[1] == "eq" and has(a, lambda z: z == ("g", "npos")):
                for m, o in enumerate(own):
                    if has(a, lambda z, o=o: z[0] == "q" and z[1] == "speciesIndex" and z[2] == o):
                        return 0 if m == n + 1 else 1
            return None
        try:
            fn, s, st, v = L.ev(c, key, ["X"], unroll=un, assume=asm)
        except Broken:
            break
        if n == 2:
            want = P(("g", "npos"))
        else:
            want = P(("q", "speciesIndex", own[n + 1], None, ("X",)))
            if n >= 0:
                want = want + NSP + (q("nSpecies", sth(P(0))) if n == 1 else 0)
        if not isinstance(v, Poly) or is_unk(v):
            cmp.undecided.append("%s speciesIndex case %d" % (c, n))
            continue
        g = norm(v)
        if not (g - want).d:
            rep.ok("names", "%s::speciesIndex case %d" % (c, n))
        elif {z[1] for z in atoms_q(g)} <= {"speciesIndex", "nSpecies"}:
            rep.bad("names", fn.file, fn.line, fn.name, c + " speciesIndex", "%s::speciesIndex for a species of %s is %s, expected %s" % (
                c, "the reactor's phase" if n < 0 else ("surface %d" % n if n < 2 else "no phase"), pshow(g), pshow(want)))
        else:
            cmp.undecided.append("%s speciesIndex case %d" % (c, n))


def atoms_q(p):
    out = []

    def pred(a):
        if a[0] == "q":
            out.append(a)
        return False
    has(p, pred, {})
    return out


def below_neq(a):
    """k < neq() for an index inside the vector"""
    return a[0] == "if" and a[1] == "pos" and has(a, lambda z: (z[0] in ("fld", "szfld") and z[1].endswith("::m_nv")) or (z[0] == "q" and z[1] == "neq"))


def run(prog, rep):
    cg = CallGraph(prog)
    cmp = Cmp(rep)
    rep.rule("get", 18, "getState stores in each entry the quantity the layout names")
    rep.rule("set", 38, "updateState sets mass, volume, phase state and coverages from the entries the layout names")
    rep.rule("saved", 50, "after updateState the saved state and the quantities connected reactors read are those of the new state")
    rep.rule("names", 80, "neq, componentName and componentIndex follow the layout")
    rep.rule("state", 8, "getState describes the reactor's own saved state")
    L = Lay(prog, rep, cmp, cg)
    for c, (names, sp) in LAYOUT.items():
        if NS + c not in prog.classes:
            raise Broken("class %s not found" % c)
        getters(L, c, names, sp)
        setters(L, c, names, sp)
        counts(L, c, names, sp)
    rep.extra["undecided"] = cmp.undecided[:80]
    rep.extra["undecided_total"] = len(cmp.undecided)
