"""C10: reactors integrate the balance equations they document.

engine/sym.py gives every entry of RHS and LHS that a reactor's eval() stores as a polynomial over the state, the
thermodynamic properties, the rates and the flow rates (sums over species, inlets, outlets, walls and surfaces kept
symbolic). That polynomial is compared with the balance written down here from doc/sphinx/reference/reactors:
RHS * LHS_expected == RHS_expected * LHS as polynomials, for each of the settings of chemistry and energy.
Values the pass cannot express are undecided and raise nothing."""
from ..sym import *
from ..facts import Broken

NS = "Cantera::"
Z = ("src/zeroD/", "include/cantera/zeroD/")
THIS = ("this",)
RB = NS + "ReactorBase::"


def fld(o, q):
    return ("ofld", q, o)


TH = fld(THIS, RB + "m_thermo")
KIN = fld(THIS, NS + "Reactor::m_kin")


def q(name, ok, *idx):
    return P(("q", name, ok, None, tuple(P(i).k for i in idx)))


def f(name, ok=THIS):
    return P(("fld", name, ok))


NSP = q("nSpecies", TH)


def elem(lst, ix):
    return ("elem", fld(THIS, RB + lst), P(ix).k)


def total(lst, body):
    """Sum over the connected inlets / outlets / walls / surfaces."""
    n = P(("size", fld(THIS, RB + lst)))
    ix = ("ix", n.k, "L")
    return mk_sum(ix, body(ix))


def species(body):
    ix = ("ix", NSP.k, "S")
    return mk_sum(ix, body(ix))


# thermodynamic and kinetic quantities whose mutual relations are settled by the normalisation below
VOCAB = {"pressure", "temperature", "enthalpy_mass", "intEnergy_mass", "cp_mass", "cv_mass", "massFractions", "molecularWeights",
         "meanMolecularWeight", "getPartialMolarEnthalpies", "getPartialMolarIntEnergies", "getPartialMolarCp", "nSpecies",
         "getNetProductionRates", "getCreationRates", "getDestructionRates", "bulkOffset", "siteDensity", "size", "expansionRate",
         "heatRate", "outletSpeciesMassFlowRate", "velocity", "heatFlux", "eval", "entropy_mass", "gibbs_mass",
         "getChemPotentials", "getPartialMolarEntropies", "getPartialMolarVolumes", "refPressure", "minTemp", "maxTemp",
         "nTotalSpecies", "nReactions", "charge", "getCoverages"}


def flip(nm):
    m = {"enthalpy_mole": ("enthalpy_mass", 1), "intEnergy_mole": ("intEnergy_mass", 1), "cp_mole": ("cp_mass", 1),
         "cv_mole": ("cv_mass", 1), "entropy_mole": ("entropy_mass", 1), "gibbs_mole": ("gibbs_mass", 1)}
    return m.get(nm)


def norm1(a):
    """Version-free atoms; relations between thermodynamic properties that hold for every phase."""
    if a[0] == "fld":
        s = a[1].split("::")[-1]
        if a[2] == THIS:
            if s == "m_pressure":
                return q("pressure", TH)
            if s == "m_enthalpy":
                return q("enthalpy_mass", TH)
            if s == "m_intEnergy":
                return q("intEnergy_mass", TH)
        if len(a) > 3:
            return P(a[:3])
    if a[0] == "arr" and a[1][0] == "qarr":
        _, nm, ok, ver, ins = a[1]
        return norm1(("q", nm, ok, ver, ins + (a[2],))) or P(("q", nm, ok, None, ins + (a[2],)))
    if a[0] == "q":
        nm, ok, idx = a[1], a[2], a[4]
        if nm == "inverseMolecularWeights":
            return P(("q", "molecularWeights", ok, None, idx)) ** -1
        if nm == "molecularWeight":
            return P(("q", "molecularWeights", ok, None, idx))
        if nm in ("massFraction", "getMassFractions"):
            return P(("q", "massFractions", ok, None, idx))
        if ok == TH:
            rho = f(NS + "Reactor::m_mass") / f(RB + "m_vol")
            if nm == "density":
                return rho
            if nm == "molarDensity":
                return rho / q("meanMolecularWeight", ok)
            if nm in ("moleFraction", "getMoleFractions", "moleFractions"):
                return P(("q", "massFractions", ok, None, idx)) * q("meanMolecularWeight", ok) / P(("q", "molecularWeights", ok, None, idx))
            if nm in ("concentration", "getConcentrations"):
                return rho * P(("q", "massFractions", ok, None, idx)) / P(("q", "molecularWeights", ok, None, idx))
        fl = flip(nm)
        if fl:
            return q(fl[0], ok) * q("meanMolecularWeight", ok)
        if nm in ("kineticsSpeciesIndex", "speciesIndex"):
            s = repr(idx) + repr(a)
            for i in idx:
                n = unkey(i).single() if isinstance(i, tuple) and i and i[0] == "P" else i
                if isinstance(n, tuple) and bulkname(n):
                    return q("bulkOffset", ok)
        if a[3] is not None:
            return P(("q", nm, ok, None, idx))
    return None


def bulkname(n):
    """the name of species 0 of the reactor's phase"""
    return (n[0] in ("call", "q") and n[1] == "speciesName" and TH in n and any(k == P(0).k or k == (P(0).k,) for k in n[2:]))


def norm(p):
    for _ in range(4):
        r = subst(p, norm1)
        if r == p:
            return r
        p = r
    return p


def foreign(p, vocab=()):
    """Something the oracle has no relation for occurs in p."""
    out = []

    def pred(a):
        if a[0] == "q" and len(a) == 5 and a[1] not in VOCAB and a[1] not in vocab:
            out.append(a[1])
        elif a[0] == "call" and isinstance(a[1], str) and a[1] not in vocab:
            out.append(a[1])
        return False
    has(p, pred, {})
    return out


def make(prog, cls, chem, energy, opaque=("outletSpeciesMassFlowRate",), more=None, cg=None, init=None, **kw):
    def inline(fn):
        return fn.file.startswith(Z)

    def assume(a):
        if a[:2] == ("if", "obj"):
            return 1
        return None

    def fieldval(qn_, ob):
        s = qn_.split("::")[-1]
        if ob == THIS and s == "m_chem" and chem is not None:
            return P(chem)
        if ob == THIS and s == "m_energy" and energy is not None:
            return P(energy)
        return more(qn_, ob) if more else None

    def related(ok):
        if ok == KIN:
            return (TH,)
        if ok[0] == "ofld" and ok[1].endswith("ReactorSurface::m_kinetics"):
            return (TH, ("ofld", NS + "ReactorSurface::m_thermo", ok[2]))
        return ()

    def alias(a):
        if a[0] == "szfld" and a[1].endswith("::m_nsp"):
            return NSP
        if a[0] == "fld" and a[1].endswith("::m_nsp") and a[2] == THIS:
            return NSP
        return None

    def sizes(b):
        if b[0] == "ofld" and b[2] == THIS and b[1].split("::")[-1] in ("m_sdot", "m_wdot", "m_hk", "m_uk"):
            return NSP
        return None

    def init0(b, i):
        if b == ("p", "LHS"):
            return 1
        if b == ("p", "RHS"):
            return 0
        return init(b, i) if init else None
    return Sym(prog, cls, inline=inline, assume=assume, alias=alias, sizes=sizes, fieldval=fieldval, related=related, init=init0,
               opaque=set(opaque), cg=cg, **kw)


# ------------------------------------------------------------------ the balances

MDOT = NS + "FlowDevice::m_mdot"


def mdot(lst):
    return total(lst, lambda i: f(MDOT, elem(lst, P(i))))


def hin():
    return total("m_inlet", lambda i: f(MDOT, elem("m_inlet", P(i))) *
                 f(RB + "m_enthalpy", ("ofld", NS + "FlowDevice::m_in", elem("m_inlet", P(i)))))


def spec(k):
    return total("m_inlet", lambda i: q("outletSpeciesMassFlowRate", elem("m_inlet", P(i)), k))


def wall(what):
    lr = lambda i: P(("arr", fld(THIS, RB + "m_lr"), P(i).k))
    return total("m_wall", lambda i: (1 - 2 * lr(i)) * q(what, elem("m_wall", P(i))))


def skin(i):
    return ("ofld", NS + "ReactorSurface::m_kinetics", elem("m_surfaces", P(i)))


def sth(i):
    return ("ofld", NS + "ReactorSurface::m_thermo", elem("m_surfaces", P(i)))


def sdot(k):
    return total("m_surfaces", lambda i: f(NS + "ReactorSurface::m_area", elem("m_surfaces", P(i))) *
                 q("getNetProductionRates", skin(i), q("bulkOffset", skin(i)) + P(k)))


def W_(k):
    return q("molecularWeights", TH, k)


def Y(k):
    return q("massFractions", TH, k)


def balances(kind, chem, energy):
    V, m, p, h = f(RB + "m_vol"), f(NS + "Reactor::m_mass"), q("pressure", TH), q("enthalpy_mass", TH)
    w = (lambda k: q("getNetProductionRates", KIN, k)) if chem else (lambda k: P(0))
    Vdot, Q = wall("expansionRate"), -wall("heatRate")
    surf = species(lambda k: sdot(P(k)) * W_(P(k)))
    if kind == "mass":
        return mdot("m_inlet") - mdot("m_outlet") + surf, P(1)
    if kind == "volume":
        return Vdot, P(1)
    if kind == "Y":
        return (lambda k: (spec(k) - mdot("m_inlet") * Y(k) + W_(k) * (V * w(k) + sdot(k)) - Y(k) * surf, m))
    if kind == "n":
        return (lambda k: (V * w(k) + sdot(k) + spec(k) / W_(k) - mdot("m_outlet") * Y(k) / W_(k), P(1)))
    if not energy:
        return P(0), P(1)
    if kind == "U":
        return -p * Vdot + Q + hin() - h * mdot("m_outlet"), P(1)
    if kind == "H":
        return Q + hin() - h * mdot("m_outlet"), P(1)
    e = "getPartialMolarIntEnergies" if kind == "Tv" else "getPartialMolarEnthalpies"
    u = lambda k: q(e, TH, k)
    r = Q + hin() - species(lambda k: u(P(k)) * (spec(P(k)) / W_(P(k)) + V * w(P(k)) + sdot(P(k))))
    if kind == "Tv":
        return r - p * Vdot - p * V / m * mdot("m_outlet"), m * q("cv_mass", TH)
    return r, m * q("cp_mass", TH)


CLASSES = {
    "Reactor": (["mass", "volume", "U"], "Y"),
    "IdealGasReactor": (["mass", "volume", "Tv"], "Y"),
    "ConstPressureReactor": (["mass", "H"], "Y"),
    "IdealGasConstPressureReactor": (["mass", "Tp"], "Y"),
    "MoleReactor": (["U", "volume"], "n"),
    "IdealGasMoleReactor": (["Tv", "volume"], "n"),
    "ConstPressureMoleReactor": (["H"], "n"),
    "IdealGasConstPressureMoleReactor": (["Tp"], "n"),
}
WHAT = {"mass": "total mass", "volume": "volume", "U": "internal energy", "H": "enthalpy", "Tv": "temperature (constant volume)",
        "Tp": "temperature (constant pressure)", "Y": "species mass fraction", "n": "species moles", "cov0": "first surface species",
        "cov": "surface species"}


class Cmp:
    """Comparison of evaluated expressions with their oracle, one rule at a time."""

    def __init__(self, rep):
        self.rep, self.undecided = rep, []

    def eq(self, rule, fn, what, got, want, construct=None, lhs=None, wantlhs=None, vocab=()):
        rep = self.rep
        if not isinstance(got, Poly) or is_unk(got) or (lhs is not None and (not isinstance(lhs, Poly) or is_unk(lhs))):
            self.undecided.append("%s %s: %s" % (fn.name, what, unk_why(got) or (unk_why(lhs) if lhs is not None else "")))
            return None
        g, w = norm(got), norm(want)
        if lhs is not None:
            d = g * norm(wantlhs) - w * norm(lhs)
        else:
            d = g - w
        if not d.d:
            rep.ok(rule, "%s %s" % (fn.name, what))
            return True
        fr = foreign(d, vocab)
        if fr:
            self.undecided.append("%s %s: not related by the oracle: %s" % (fn.name, what, ", ".join(sorted(set(fr))[:4])))
            return None
        t = pshow(d)
        rep.bad(rule, fn.file, fn.line, fn.name, construct or what,
                "%s: the code gives %s%s; documented balance %s%s; difference %s" % (
                    what, pshow(g)[:700], "" if lhs is None else " with left-hand side " + pshow(norm(lhs))[:200],
                    pshow(w)[:700], "" if lhs is None else " with left-hand side " + pshow(norm(wantlhs))[:200], t[:400]))
        return False


def stale(p):
    """q atoms of the reactor's phase whose value was computed in some other state than the reactor's saved one."""
    out = []

    def pred(a):
        if a[0] == "q" and len(a) == 5:
            nm, ok, ver = a[1], a[2], a[3]
            if ok == TH and ver is not None and not inits(ver):
                out.append(nm)
            if ok == KIN and ver is not None and not any(inits((v,)) for v in ver if v is not None):
                out.append("kinetics " + nm)
            if ok[0] == "ofld" and ok[1].endswith("ReactorSurface::m_kinetics") and nm == "getNetProductionRates":
                s = repr(ver)
                if "setTemperature" not in s or "setCoveragesNoNorm" not in s or "R((ptr m_state 0))" not in s:
                    out.append("surface " + nm)
        return False

    def inits(ver):
        return all(isinstance(v, str) and v.startswith("R(") and "m_state" in v for v in ver if v is not None)
    has(p, pred, {})
    return sorted(set(out))


def switched(s, cg, c, chem, energy):
    """State of the reactor after chemistry and energy equation have been switched on or off."""
    st = None
    for nm, v in (("setChemistry", chem), ("setEnergy", energy)):
        ks = [k for k in cg.p.fns if k.startswith(RB + nm + "(")]
        fn = cg.p.fns.get(cg.final_impl(ks[0], NS + c) or ks[0]) if ks else None
        if fn is None or not fn.hasbody:
            raise Broken("%s of %s not found" % (nm, c))
        st, _ = s.run(fn, [P(v)], st)
        if st is None:
            raise Broken("%s of %s does not return" % (nm, c))
    return st


def reactors(prog, rep, cmp, cg):
    ANY = NS + "Reactor::eval(double,double *,double *)"
    for c, (rows, sp) in CLASSES.items():
        cls = NS + c
        if cls not in prog.classes:
            raise Broken("class %s not found" % cls)
        key = cg.final_impl(ANY, cls)
        fn = prog.fns.get(key)
        if fn is None or not fn.hasbody:
            raise Broken("eval of %s not found" % cls)
        for chem in (1, 0):
            for energy in (1, 0):
                s = make(prog, cls, None, None, cg=cg)
                st, _ = s.run(fn, [P(("par", "time")), Ptr(("p", "LHS")), Ptr(("p", "RHS"))], switched(s, cg, c, chem, energy))
                mode = " [%s, %s]" % ("chemistry on" if chem else "chemistry off", "energy on" if energy else "energy off")
                R = lambda i: s.read(("p", "RHS"), P(i), st)
                L = lambda i: s.read(("p", "LHS"), P(i), st)
                off = len(rows)
                for i, kind in enumerate(rows):
                    w, wl = balances(kind, chem, energy)
                    r = R(i)
                    ok = cmp.eq("balance", fn, "%s: %s%s" % (c, WHAT[kind], mode), r, w, construct="%s %s" % (c, kind), lhs=L(i), wantlhs=wl)
                    if ok is not None:
                        fresh(rep, cmp, fn, c, kind, r + L(i))
                k = P(("ix", NSP.k, "0"))
                w, wl = balances(sp, chem, energy)(k)
                r = R(off + k)
                ok = cmp.eq("balance", fn, "%s: %s%s" % (c, WHAT[sp], mode), r, w, construct="%s %s" % (c, sp), lhs=L(off + k), wantlhs=wl)
                if ok is not None:
                    fresh(rep, cmp, fn, c, sp, r + L(off + k))
                # surface species
                ns = P(("size", fld(THIS, RB + "m_surfaces")))
                j = P(("ix", ns.k, "0"))
                nk = q("nSpecies", sth(j))
                jp = ("ix", ns.k, "ps")
                before = P(("psum", j.k, jp, q("nSpecies", sth(P(jp))).k))
                area = f(NS + "ReactorSurface::m_area", elem("m_surfaces", j))
                rate = lambda kk: q("getNetProductionRates", skin(j), kk)
                base = off + NSP + before
                if sp == "Y":
                    cov = lambda kk: rate(kk) * q("size", sth(j), kk) / q("siteDensity", sth(j))
                    k1 = P(("ix", (nk - 1).k, "0")) + 1
                    ks = ("ix", (nk - 1).k, "S")
                    cmp.eq("surface", fn, "%s: %s%s" % (c, WHAT["cov"], mode), R(base + k1), cov(k1), construct=c + " coverage",
                           lhs=L(base + k1), wantlhs=P(1))
                    cmp.eq("surface", fn, "%s: %s%s" % (c, WHAT["cov0"], mode), R(base), -mk_sum(ks, cov(P(ks) + 1)),
                           construct=c + " first coverage", lhs=L(base), wantlhs=P(1))
                else:
                    k0 = P(("ix", nk.k, "0"))
                    cmp.eq("surface", fn, "%s: %s%s" % (c, WHAT["cov"], mode), R(base + k0), rate(k0) * area,
                           construct=c + " surface moles", lhs=L(base + k0), wantlhs=P(1))


def fresh(rep, cmp, fn, c, kind, p):
    st = stale(p)
    if st:
        rep.bad("state", fn.file, fn.line, fn.name, "%s %s" % (c, kind),
                "%s balance of %s uses %s computed in another state than the reactor's own (no restoreState(m_state) / surface "
                "syncState() before it)" % (kind, c, ", ".join(st)))
    else:
        rep.ok("state", "%s %s" % (c, kind))


# ------------------------------------------------------------------ walls and flow devices

FD = NS + "FlowDevice::"
WL = NS + "Wall::"
WB = NS + "WallBase::"


def only(cg, cls, base, name):
    """The function of that name which an object of the class runs."""
    ks = [k for k in cg.p.fns if k.startswith(NS + base + "::" + name + "(")]
    if len(ks) != 1:
        raise Broken("%s::%s: %d functions" % (base, name, len(ks)))
    k = cg.final_impl(ks[0], NS + cls) or ks[0]
    fn = cg.p.fns.get(k)
    if fn is None or not fn.hasbody:
        raise Broken("%s::%s of %s has no body" % (base, name, cls))
    return fn


def asobj(zero, more=None):
    """Pointers are set except the ones named in zero."""
    def a(x):
        if x[:2] == ("if", "obj"):
            return 0 if any(has(x, lambda z, o=o: z == o) for o in zero) else 1
        return more(x) if more else None
    return a


def vals(p, n, *args):
    return [P(("par", n))]


def devices(prog, rep, cmp, cg):
    A = f(WB + "m_area")
    left, right = ("ofld", WB + "m_left", THIS), ("ofld", WB + "m_right", THIS)
    T0 = lambda o: P(("arr", fld(o, RB + "m_state"), P(0).k))
    pr = lambda o: f(RB + "m_pressure", o)
    fun = lambda fl, x: q("eval", fld(THIS, fl), x)
    tm = f(WB + "m_time")
    vf, qf = WL + "m_vf", WL + "m_qf"
    for on in (1, 0):
        fn = only(cg, "Wall", "WallBase", "expansionRate")
        s = make(prog, NS + "Wall", None, None, cg=cg, opaque=())
        s.assume = asobj([] if on else [fld(THIS, vf)])
        _, v = s.run(fn, [])
        w = f(WL + "m_k") * A * (pr(left) - pr(right)) + (A * fun(vf, tm) if on else 0)
        cmp.eq("device", fn, "Wall::expansionRate" + ("" if on else " [no velocity function]"), v, w, construct="expansionRate")
        fn = only(cg, "Wall", "WallBase", "heatRate")
        for em in (1, 0):
            e = WL + "m_emiss"
            s = make(prog, NS + "Wall", None, None, cg=cg, opaque=(),
                     more=None if em else (lambda qn_, ob: P(0) if qn_ == e and ob == THIS else None))
            s.assume = asobj([] if on else [fld(THIS, qf)],
                             lambda x: 1 if em and x[:2] == ("if", "pos") and unkey(x[2]) == f(e) else None)
            _, v = s.run(fn, [])
            w = f(WL + "m_rrth") * A * (T0(left) - T0(right)) + (A * fun(qf, tm) if on else 0)
            if em:
                w = w + f(e) * A * P(("g", "StefanBoltz")) * (T0(left) ** 4 - T0(right) ** 4)
            if isinstance(v, Poly):
                v = psubst(v, lambda z: P(("g", "StefanBoltz")) if z[0] == "g" and z[1].endswith("StefanBoltz") else None)
            cmp.eq("device", fn, "Wall::heatRate" + ("" if on else " [no heat flux function]") + ("" if em else " [no radiation]"), v, w,
                   construct="heatRate")
    # flow devices
    I, O = ("ofld", FD + "m_in", THIS), ("ofld", FD + "m_out", THIS)
    dp = pr(I) - pr(O)
    co, tf, pf = f(FD + "m_coeff"), FD + "m_tfunc", FD + "m_pfunc"
    prim = None
    for c in ("MassFlowController", "PressureController", "Valve"):
        fn = only(cg, c, "FlowDevice", "updateMassFlowRate")
        t = P(("par", "time"))
        for useT in (1, 0):
            for useP in (1, 0):
                zero = ([] if useT else [fld(THIS, tf)]) + ([] if useP else [fld(THIS, pf)])
                w = co
                if c != "PressureController" and useT:
                    w = w * fun(tf, t)
                if c != "MassFlowController":
                    w = w * (fun(pf, dp) if useP else dp)
                s0 = make(prog, NS + c, None, None, cg=cg, opaque=())
                s0.assume = asobj(zero)
                st, _ = s0.run(fn, [t])
                raw = st.v.get(("f", MDOT, THIS))
                mode = "%s flow rate [%s time function, %s pressure function]" % (c, "a" if useT else "no", "a" if useP else "no")
                if not isinstance(raw, Poly) or is_unk(raw):
                    cmp.undecided.append(mode)
                    continue
                if c == "PressureController":
                    w = w + f(MDOT, ("ofld", NS + "PressureController::m_primary", THIS))
                # the clipped quantity, in the two cases in which it is positive and negative
                for sign in (1, -1):
                    def clip(z, sign=sign, w=w):
                        if z[0] == "fn" and z[1] in ("max", "min") and len(z) == 4:
                            a, b = norm(unkey(z[2])), norm(unkey(z[3]))
                            for x, y in ((a, b), (b, a)):
                                if x == w and y.const() == 0:
                                    return x if (sign > 0) == (z[1] == "max") else P(0)
                        if z[:2] == ("if", "pos"):
                            d = norm(unkey(z[2]))
                            if d == w:
                                return P(int(sign > 0))
                            if d == -w:
                                return P(int(sign < 0))
                        if z[:2] == ("if", "eq") and norm(unkey(z[2])) in (w, -w):
                            return P(0)
                        return None
                    g = psubst(raw, clip)
                    cmp.eq("device", fn, mode + (" when positive" if sign > 0 else " when negative"), g, w if sign > 0 else P(0),
                           construct="%s flow rate" % c)
                if c == "PressureController":
                    upd = [l for l in s0.log if l[0] == "updateMassFlowRate" and l[1] == ("ofld", NS + "PressureController::m_primary", THIS)]
                    if not upd or upd[0][2][:1] != (t,):
                        rep.bad("device", fn.file, fn.line, fn.name, "PressureController primary", "the flow rate of the primary device is "
                                "used without having been updated for the time asked for")
                    elif has(raw, lambda z: z[0] == "fld" and z[1] == MDOT and z[2] != THIS and len(z) == 3):
                        rep.bad("device", fn.file, fn.line, fn.name, "PressureController primary", "the flow rate of the primary device is read before it is updated")
                    else:
                        rep.ok("device", mode + " primary updated first")
    # species and enthalpy carried
    for c in ("MassFlowController", "PressureController", "Valve"):
        fn = only(cg, c, "FlowDevice", "outletSpeciesMassFlowRate")
        k = P(("par", "k"))
        o2i = P(("arr", fld(THIS, FD + "m_out2in"), k.k))
        for known in (1, 0):
            s = make(prog, NS + c, None, None, cg=cg, opaque=())

            def asm(x):
                if x[:2] == ("if", "eq") and has(x, lambda z: z == ("g", "npos")) and has(x, lambda z: z == o2i.single()):
                    return 1 - known
                if x[:2] == ("if", "pos") and has(x, lambda z: z[-1] == THIS and str(z[1]).endswith("::m_nspout")):
                    return 1 if unkey(x[2]).d.get(((aid(k.single()), 1),), 0) < 0 else 0
                return None
            s.assume = asobj([], asm)
            _, v = s.run(fn, [k])
            w = f(MDOT) * P(("arr", fld(I, RB + "m_state"), (o2i + 2).k)) if known else P(0)
            cmp.eq("device", fn, "%s::outletSpeciesMassFlowRate [species %s upstream]" % (c, "known" if known else "unknown"), v, w,
                   construct="outletSpeciesMassFlowRate")
        fn = only(cg, c, "FlowDevice", "enthalpy_mass")
        s = make(prog, NS + c, None, None, cg=cg, opaque=())
        s.assume = asobj([])
        _, v = s.run(fn, [])
        cmp.eq("device", fn, c + "::enthalpy_mass", v, f(RB + "m_enthalpy", I), construct="enthalpy_mass")
    # species of the two reactors are matched by name
    for key in [k for k in prog.fns if k.startswith((FD + "FlowDevice(", FD + "install("))]:
        fn = prog.fns[key]
        if not fn.hasbody or len(fn.params) < 2 or fn.params[0][2].startswith("const Cantera::FlowDevice"):
            continue
        s = make(prog, NS + "FlowDevice", None, None, cg=cg, opaque=())
        if fn.name == "install":
            s.assume = asobj([fld(THIS, FD + "m_in"), fld(THIS, FD + "m_out")])
        else:
            s.assume = asobj([])
        b0 = s.sizes_
        s.sizes_ = lambda b, b0=b0: P(0) if b[0] == "ofld" and b[1] in (FD + "m_in2out", FD + "m_out2in") else b0(b)
        i, o = [Obj(("p", x[1])) for x in fn.params[:2]]
        st, _ = s.run(fn, [i, o] + [Obj(("p", x[1])) for x in fn.params[2:]])
        if st is None:
            cmp.undecided.append("%s species maps" % fn.name)
            continue
        th = lambda r: ("ofld", RB + "m_thermo", r.k)
        for arr, src, dst in ((FD + "m_in2out", i, o), (FD + "m_out2in", o, i)):
            n = q("nSpecies", th(src))
            ix = P(("ix", n.k, "0"))
            w = P(("q", "speciesIndex", th(dst), None, (("call", "speciesName", th(src), (ix.k,)),)))
            cmp.eq("device", fn, "%s %s" % (fn.name, arr.split("::")[-1]), s.read(fld(THIS, arr), ix, st), w, construct=arr.split("::")[-1],
                   vocab=("speciesIndex", "speciesName"))
            cmp.eq("device", fn, "%s size of %s" % (fn.name, arr.split("::")[-1]), s.size(fld(THIS, arr), st), n, construct=arr.split("::")[-1] + " size")
        for fl, r in ((FD + "m_in", i), (FD + "m_out", o)):
            if st.v.get(("f", fl, THIS)) == r:
                rep.ok("device", "%s %s" % (fn.name, fl))
            else:
                rep.bad("device", fn.file, fn.line, fn.name, fl, "%s is not the reactor given" % fl)
        for fl, w in ((FD + "m_nspin", q("nSpecies", th(i))), (FD + "m_nspout", q("nSpecies", th(o)))):
            cmp.eq("device", fn, "%s %s" % (fn.name, fl.split("::")[-1]), st.v.get(("f", fl, THIS)), w, construct=fl)


# ------------------------------------------------------------------ the network

def network(prog, rep, cmp, cg):
    RN = NS + "ReactorNet::"
    REA, START, TIME = fld(THIS, RN + "m_reactors"), fld(THIS, RN + "m_start"), ("f", RN + "m_time", THIS)
    r_ = lambda i: ("elem", REA, P(i).k)
    nv = lambda n: q("neq", r_(n))
    before = lambda n: sum((nv(k) for k in range(n)), P(0))
    PY, PD = ("p", "y"), ("p", "ydot")

    def go(name, vals, nr, laid=True):
        fs = [k for k in prog.fns if k.startswith(RN + name + "(") and len(prog.fns[k].params) == len(vals)]
        if len(fs) != 1:
            raise Broken("ReactorNet::%s: %d functions" % (name, len(fs)))
        seen = []

        def hook(n, ok, vs, st):
            j = P(("ix", q("neq", ok).k, "g")) if ok is not None else P(0)
            seen.append((n, ok, vs, st.v.get(TIME), [s.read(v.base, v.off + j, st) if isinstance(v, Ptr) and v.base not in (PY, ("p", "par")) else None for v in vs]))
        s = make(prog, NS + "ReactorNet", None, None, cg=cg, opaque={"neq", "applySensitivity", "resetSensitivity"}, hook=hook,
                 init=(lambda b, i: before(int(i.const())) if b == START and i.const() is not None else None) if laid else None,
                 fills=lambda n, ok: q("neq", ok) if n == "eval" else None,
                 more=(lambda qn_, ob: before(nr) if qn_ == RN + "m_nv" and ob == THIS else None) if laid else None)
        s.unroll = lambda b: nr if b == REA else None
        b0 = s.sizes_
        s.sizes_ = lambda b: P(nr) if b == REA else b0(b)
        fn = prog.fns[fs[0]]
        st, v = s.run(fn, vals)
        return fn, s, st, seen
    t = P(("par", "t"))
    for nr in (1, 2, 3):
        mode = " [%d reactor%s]" % (nr, "s" if nr > 1 else "")
        fn, s, st, _ = go("initialize", [], nr, laid=False)
        cmp.eq("network", fn, "number of equations" + mode, st.v.get(("f", RN + "m_nv", THIS)), before(nr), construct="m_nv")
        for n in range(nr):
            cmp.eq("network", fn, "start of reactor %d%s" % (n, mode), s.read(START, P(n), st), before(n), construct="m_start")
        fn, s, st, seen = go("eval", [t, Ptr(PY), Ptr(PD), Ptr(("p", "par"))], nr)
        ev = [x for x in seen if x[0] == "eval" and x[1] in [r_(n) for n in range(nr)]]
        us = [x for x in seen if x[0] == "updateState" and x[1] in [r_(n) for n in range(nr)]]
        order = [(x[0], x[1]) for x in seen]
        for n in range(nr):
            u = [x for x in us if x[1] == r_(n)]
            e = [x for x in ev if x[1] == r_(n)]
            what = "reactor %d%s" % (n, mode)
            if len(u) != 1 or len(e) != 1:
                rep.bad("network", fn.file, fn.line, fn.name, "calls", "%s is updated %d times and evaluated %d times in ReactorNet::eval" % (what, len(u), len(e)))
                continue
            u, e = u[0], e[0]
            bad = None
            if u[2] != [Ptr(PY, before(n))]:
                bad = "gets its state from %s" % (u[2],)
            elif u[3] != t:
                bad = "is updated before the time of the network is set, so flow rates are those of another time"
            elif e[2][0] != t:
                bad = "is evaluated at %s" % (e[2][0],)
            elif any(order.index(("updateState", r_(m))) > order.index(("eval", r_(n))) for m in range(nr) if ("updateState", r_(m)) in order):
                bad = "is evaluated before the reactors it may be connected to have been updated"
            elif len(e[2]) != 3 or not isinstance(e[2][1], Ptr) or not isinstance(e[2][2], Ptr):
                cmp.undecided.append(what)
                continue
            elif n == 0 and [pp if not is_unk(pp) else None for pp in e[4][1:]] not in ([P(1), P(0)], [None, None]):
                bad = "is evaluated with initial LHS and RHS %s" % (e[4][1:],)
            so = [x for x in order if x[1] == r_(n) and x[0] in ("applySensitivity", "eval", "resetSensitivity")]
            if bad is None and [x[0] for x in so] != ["applySensitivity", "eval", "resetSensitivity"]:
                bad = "is evaluated outside applySensitivity() / resetSensitivity(): %s" % ", ".join(x[0] for x in so)
            if bad:
                rep.bad("network", fn.file, fn.line, fn.name, "reactor evaluation", what + " " + bad)
            else:
                rep.ok("network", what + " updated and evaluated")
            j = P(("ix", nv(n).k, "0"))
            w = P(("q", "eval#2", r_(n), None, (t.k, j.k))) / P(("q", "eval#1", r_(n), None, (t.k, j.k)))
            got = s.read(PD, before(n) + j, st)
            if isinstance(got, Poly) and not is_unk(got):
                if (norm(got) - norm(w)).d:
                    rep.bad("network", fn.file, fn.line, fn.name, "ydot", "%s: its derivatives are %s, expected %s" % (what, pshow(got), pshow(w)))
                else:
                    rep.ok("network", what + " derivatives")
            else:
                cmp.undecided.append(what + " derivatives: " + unk_why(got))
        for nm, args in (("updateState", [Ptr(PY)]), ("getState", [Ptr(PY)]), ("getStateDae", [Ptr(PY), Ptr(PD)]), ("getConstraints", [Ptr(PY)])):
            fn, s, st, seen = go(nm, args, nr)
            for n in range(nr):
                c = [x for x in seen if x[0] == nm and x[1] == r_(n)]
                if len(c) == 1 and c[0][2] == [Ptr(a.base, before(n)) for a in args]:
                    rep.ok("network", "%s reactor %d%s" % (nm, n, mode))
                else:
                    rep.bad("network", fn.file, fn.line, fn.name, nm, "ReactorNet::%s hands reactor %d %s instead of its own part of the vector" % (
                        nm, n, ", ".join(str(x[2]) for x in c) or "nothing"))
    fn, s, st, seen = go("evalDae", [t, Ptr(PY), Ptr(PD), Ptr(("p", "par")), Ptr(("p", "res"))], 1)
    so = [x[0] for x in seen if x[1] == r_(0)]
    c = [x for x in seen if x[0] == "evalDae"]
    if so != ["updateState", "applySensitivity", "evalDae", "resetSensitivity"] or c[0][2] != [t, Ptr(PY), Ptr(PD), Ptr(("p", "res"))] or seen[0][3] != t:
        rep.bad("network", fn.file, fn.line, fn.name, "evalDae", "the reactor is not updated and evaluated at the given time and state: %s" % ", ".join(so))
    else:
        rep.ok("network", "evalDae")


# ------------------------------------------------------------------ plug flow reactor

def flow(prog, rep, cmp, cg):
    cls = NS + "FlowReactor"
    FR = cls + "::"
    fn = only(cg, "FlowReactor", "FlowReactor", "evalDae")
    PY, PD, RES = ("p", "y"), ("p", "ydot"), ("p", "residual")
    y = lambda i: P(("arr", PY, P(i).k))
    d = lambda i: P(("arr", PD, P(i).k))
    rho, u = f(FR + "m_rho"), f(FR + "m_u")
    names = ["density", "mass (velocity)", "momentum (pressure)", "energy (temperature)"]
    for chem in (1, 0):
        for energy in (1, 0):
            s = make(prog, cls, None, None, cg=cg, opaque=("outletSpeciesMassFlowRate", "surfaceAreaToVolumeRatio"))
            nsurf = P(("size", fld(THIS, RB + "m_surfaces")))
            asm = s.assume      # entries of a surface exist only if there is one
            s.assume = lambda a: 0 if a[:2] == ("if", "eq") and unkey(a[2]) in (nsurf, -nsurf) else asm(a)
            st, _ = s.run(fn, [P(("par", "time")), Ptr(PY), Ptr(PD), Ptr(RES)], switched(s, cg, "FlowReactor", chem, energy))
            mode = " [%s, %s]" % ("chemistry on" if chem else "chemistry off", "energy on" if energy else "energy off")
            H = q("surfaceAreaToVolumeRatio", THIS)
            w = (lambda k: q("getNetProductionRates", KIN, k)) if chem else (lambda k: P(0))
            ms = H * species(lambda k: sdot(P(k)) * W_(P(k)))
            hk = lambda k: q("getPartialMolarEnthalpies", TH, k)
            want = [rho - q("density*", TH), u * d(0) + rho * d(1) - ms, rho * u * d(1) + u * ms + d(2),
                    rho * u * q("cp_mass", TH) * d(3) + species(lambda k: hk(P(k)) * (w(P(k)) + H * sdot(P(k)))) if energy else d(3)]
            R = lambda i: s.read(RES, P(i), st)

            def plain(v):
                if not isinstance(v, Poly):
                    return v
                return psubst(v, lambda z: q("density*", TH) if z[:3] == ("q", "density", TH) else None)
            for i, nm in enumerate(names):
                r = cmp.eq("flow", fn, "FlowReactor: %s%s" % (nm, mode), plain(R(i)), want[i], construct="FlowReactor " + nm)
                if r is not None:
                    fresh(rep, cmp, fn, "FlowReactor", nm, R(i))
            k = P(("ix", NSP.k, "0"))
            cmp.eq("flow", fn, "FlowReactor: species%s" % mode, R(4 + k), rho * u * d(4 + k) + y(4 + k) * ms - W_(k) * (w(k) + H * sdot(k)),
                   construct="FlowReactor species")
            ns = P(("size", fld(THIS, RB + "m_surfaces")))
            j = P(("ix", ns.k, "0"))
            nk = q("nSpecies", sth(j))
            jp = ("ix", ns.k, "ps")
            base = 4 + NSP + P(("psum", j.k, jp, q("nSpecies", sth(P(jp))).k))
            k1 = P(("ix", (nk - 1).k, "0")) + 1
            ks = ("ix", (nk - 1).k, "S")
            cmp.eq("flow", fn, "FlowReactor: surface species%s" % mode, R(base + k1), q("getNetProductionRates", skin(j), k1),
                   construct="FlowReactor surface species")
            cmp.eq("flow", fn, "FlowReactor: sum of coverages%s" % mode, R(base), y(base) + mk_sum(ks, y(base + P(ks) + 1)) - 1,
                   construct="FlowReactor coverages")


def run(prog, rep):
    cg = CallGraph(prog)
    cmp = Cmp(rep)
    rep.rule("balance", 48, "each entry of RHS and LHS stored by eval() equals the documented balance")
    rep.rule("surface", 24, "each surface species entry equals the documented balance")
    rep.rule("state", 50, "properties in a balance are those of the reactor's own saved state")
    rep.rule("device", 28, "heat and volume exchanged through a wall, mass, species and enthalpy carried by a flow device")
    rep.rule("network", 20, "the network evaluates each reactor on its own part of the vector at the time and state asked for")
    rep.rule("flow", 12, "residuals of the plug flow reactor")
    reactors(prog, rep, cmp, cg)
    devices(prog, rep, cmp, cg)
    network(prog, rep, cmp, cg)
    flow(prog, rep, cmp, cg)
    rep.extra["undecided"] = cmp.undecided[:60]
    rep.extra["undecided_total"] = len(cmp.undecided)
