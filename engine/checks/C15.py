"""C15: rates of production, reaction deltas, equilibrium constants and rates of progress of a kinetics manager are the
documented combinations of one another.

engine/vecalg.py interprets each method of BulkKinetics and InterfaceKinetics (and of their base class, per concrete class)
over one general entry of each array; stoichiometric managers are linear operators. The outcome is compared with the
definition: for instance creation = nu'' F + nu' R, destruction = nu' F + nu'' R, net = creation - destruction."""
from ..vecalg import *
from ..stoich import Effects, Unk

NS = "Cantera::"
CLASSES = ("BulkKinetics", "InterfaceKinetics")
OUT = ("loc", ("P", "out"))


def run(prog, rep):
    rep.rule("species-rates", 10, "Creation, destruction and net production rates, and their derivatives, are the stoichiometric sums of the rates of progress")
    rep.rule("reaction-delta", 8, "The change of a property over a reaction is products minus reactants of that species property")
    rep.rule("equilibrium", 1, "Equilibrium constants are exp(-dG0/RT) with the standard concentrations, their reciprocals are used for reversible reactions and zero for others")
    rep.rule("rate-constants", 2, "Reported forward and reverse rate constants are those of the mechanism times multiplier, and reverse = forward / Kc")
    rep.rule("rates-of-progress", 2, "Rates of progress are rate constant times multiplier times concentrations to the orders; net = forward - reverse")
    rep.rule("assembly", 3, "Stoichiometric managers and the net stoichiometric matrix are filled from the reaction's reactants and products")
    rep.rule("managers", 12, "Each per-reaction stoichiometry class adds, subtracts, multiplies and differentiates with every species and coefficient of its reaction, and managers serve all classes alike")
    rep.assumption("entries are kept up to date (property C07); all phases of an interface exist; overflow limits (std::min with BigNumber) are not reached; legacy rate constants are not selected")
    und = []
    F, R = P(("f", "m_ropf")), P(REV) * P(("f", "m_ropr"))
    net = {"prod": 1, "reac": -1}

    def L(op, v):
        return lin(op, v, False)

    def D(v, rev=False):
        w = lin("prod", v, True) - lin("reac", v, True)
        return w

    for c in CLASSES:
        cls = NS + c
        if cls not in prog.classes:
            raise Broken("class %s not found" % cls)

        def ev(meth, args=(OUT,), want=None, setup=None, flags=None):
            key = [k for k in prog.fns if k.startswith((NS + "Kinetics::" + meth + "(", cls + "::" + meth + "("))]
            if not key:
                raise Broken("%s::%s not found" % (c, meth))
            key = sorted(key, key=lambda k: not k.startswith(cls))[0]
            fl = {"m_phaseExistsCheck": False, "legacy_rate_constants_used": False}
            fl.update(flags or {})
            it = Interp(prog, cls, fl)
            f = it.resolve(key)
            if f is None:
                raise Broken("%s::%s has no body" % (c, meth))
            for k, v in (setup or {}).items():
                it.mem[k] = v
            try:
                r = it.run(key, list(args))
                return f, it, r
            except (Unknown, RecursionError, IndexError, TypeError, KeyError) as e:
                und.append("%s::%s: %s" % (c, meth, e))
                return f, None, None

        def judge(rule, meth, got, want, f, what):
            got, want = canon(got), canon(want)
            if got == want:
                rep.ok(rule, "%s::%s %s" % (c, meth, what))
            elif spoiled(got) or spoiled(want):
                und.append("%s::%s: not all entries" % (c, meth))
            else:
                rep.bad(rule, f.h["file"], f.h["line"], "%s%s for %s" % (NS, f.h["q"].replace(NS, ""), c), what,
                        "%s gives %s, not %s" % (what, pretty(got), pretty(want)))

        def vec(rule, meth, want, what, args=(OUT,), setup=None, flags=None, loc=("P", "out")):
            f, it, r = ev(meth, args, setup=setup, flags=flags)
            if it is None:
                return None
            try:
                got = it.load(loc) if loc else r
                if got is None:
                    raise Unknown("no value")
            except Unknown as e:
                und.append("%s::%s: %s" % (c, meth, e))
                return None
            if want is not None:
                judge(rule, meth, got, want, f, what)
            return f, got

        # ---- species rates: rates of progress as they are kept
        keep = Keep(prog, cls)
        for meth, want in (("getCreationRates", L("prod", F) + L("reac", R)), ("getDestructionRates", L("reac", F) + L("prod", R)),
                           ("getNetProductionRates", None)):
            f, it, r = keep.ev(meth, und)
            if it is None:
                continue
            got = subst_net(it.load(("P", "out")))
            if want is None:
                want = L("prod", F - R) - L("reac", F - R)
            judge("species-rates", meth, got, want, f, {"getCreationRates": "creation rates = nu'' forward + nu' reverse",
                  "getDestructionRates": "destruction rates = nu' forward + nu'' reverse", "getNetProductionRates": "net production rates = creation - destruction"}[meth])
        for d in ("ddT", "ddP", "ddC"):
            dF, dR = opaque("m_ropf", d), opaque("m_ropr", d)
            for meth, want in (("getCreationRates_", L("prod", dF) + L("reac", dR)), ("getDestructionRates_", L("reac", dF) + L("prod", dR)),
                               ("getNetProductionRates_", L("prod", dF - dR) - L("reac", dF - dR))):
                vec("species-rates", meth + d, want, "derivative of the same sum of rates of progress", setup=None)
        for d in ("ddX", "ddCi"):
            dF, dR = opaque("m_ropf", d), opaque("m_ropr", d)
            for meth, want in (("creationRates_", L("prod", dF) + L("reac", dR)), ("destructionRates_", L("reac", dF) + L("prod", dR)),
                               ("netProductionRates_", L("prod", dF - dR) - L("reac", dF - dR))):
                vec("species-rates", meth + d, want, "derivative of the same sum of rates of progress", args=(), loc=None)
        for meth, want in (("getFwdRatesOfProgress", P(("f", "m_ropf"))), ("getRevRatesOfProgress", P(REV) * P(("f", "m_ropr"))), ("getNetRatesOfProgress", P(("f", "m_ropnet")))):
            f, it, r = keep.ev(meth, und)
            if it is not None:
                judge("rates-of-progress", meth, it.load(("P", "out")), want, f, "reported rate of progress")
        # ---- deltas
        vin = P(("in", "prop"))
        vec("reaction-delta", "getReactionDelta", D(vin), "products minus reactants", args=(("loc", ("P", "prop")), OUT))
        f, got = vec("reaction-delta", "getRevReactionDelta", None, "", args=(("loc", ("P", "prop")), OUT)) or (None, None)
        if f:
            judge("reaction-delta", "getRevReactionDelta", P(REV) * got, P(REV) * D(vin), f, "products minus reactants for reversible reactions")
        RTc, Rc = P(("const", "GasConstant")) * P(("sc", "T")), P(("const", "GasConstant"))
        for meth, v in (("getDeltaGibbs", P(("th", "getChemPotentials"))), ("getDeltaEnthalpy", P(("th", "getPartialMolarEnthalpies"))),
                        ("getDeltaEntropy", P(("th", "getPartialMolarEntropies"))), ("getDeltaSSGibbs", P(("th", "getStandardChemPotentials"))),
                        ("getDeltaSSEnthalpy", RTc * P(("th", "getEnthalpy_RT"))), ("getDeltaSSEntropy", Rc * P(("th", "getEntropy_R")))):
            vec("reaction-delta", meth, D(v), "products minus reactants of " + pretty(v))
        if c == "InterfaceKinetics":
            vec("reaction-delta", "getDeltaElectrochemPotentials", D(P(("th", "getElectrochemPotentials"))), "products minus reactants of electrochemical potentials")
        # ---- equilibrium constants and rates of progress
        f, it, r = ev("updateROP", ())
        if it is not None:
            mu = P(("th", "getStandardChemPotentials"))
            inv = comb("/=", P(1), RTc)
            if c == "BulkKinetics":
                arg = D(mu) * inv - P(("f", "m_dn")) * P(("sc", "logStandardConcentration"))
                kf, conc = P(("rate", "getRateConstants")) * P(("f", "m_perturb")), P(("th", "getActivityConcentrations"))
                tb = P(("thirdbody",))
            else:
                mu = mu + P(("const", "Faraday")) * P(("th", "electricPotential")) * P(("th", "charge")) - RTc * P(("th", "logStandardConc"))
                arg = D(mu) * inv
                kf, conc = P(("rate", "getRateConstants")) * P(("f", "m_perturb")), P(("th", "getActivityConcentrations"))
                tb = P(1)
            krc = P(REV) * P(("exp", clean(arg).k))
            try:
                judge("equilibrium", "updateROP", it.load(("F", "m_rkcn")), krc, f, "reciprocal equilibrium constant of reversible reactions")
                fw = kf * tb * P(("orders", "reac", clean(conc).k))
                rv = kf * tb * krc * P(("orders", "revprod", clean(conc).k))
                judge("rates-of-progress", "updateROP", it.load(("F", "m_ropf")), fw, f, "forward rate of progress")
                judge("rates-of-progress", "updateROP", it.load(("F", "m_ropr")), rv, f, "reverse rate of progress")
                judge("rates-of-progress", "updateROP", it.load(("F", "m_ropnet")), it.load(("F", "m_ropf")) - it.load(("F", "m_ropr")), f, "net = forward - reverse")
            except Unknown as e:
                und.append("%s::updateROP: %s" % (c, e))
            kc = P(("exp", clean(-arg).k))
            vec("equilibrium", "getEquilibriumConstants", kc, "exp(-dG0/RT) with standard concentrations")
            vec("rate-constants", "getFwdRateConstants", kf, "rate constant times multiplier")
            vec("rate-constants", "getRevRateConstants", kf * krc, "forward rate constant over equilibrium constant, zero if irreversible", args=(OUT, ("bool", False)))
            vec("rate-constants", "getRevRateConstants", comb("/=", kf, kc), "forward rate constant over equilibrium constant", args=(OUT, ("bool", True)))
    assembly(prog, rep, und)
    managers(prog, rep, und)
    rep.extra["undecided_total"] = len(und)
    rep.extra["undecided"] = und[:100]


class Keep:
    """methods evaluated with the rates of progress taken as kept (updateROP not followed)"""
    def __init__(self, prog, cls):
        self.p, self.cls = prog, cls

    def ev(self, meth, und):
        it = Interp(self.p, self.cls)
        old = it.own
        it.own = lambda n, nm, a, fr: None if nm in ("updateROP",) else old(n, nm, a, fr)
        key = [k for k in self.p.fns if k.startswith(NS + "Kinetics::" + meth + "(")]
        if not key:
            raise Broken("Kinetics::%s not found" % meth)
        f = it.resolve(key[0])
        try:
            it.run(key[0], [OUT])
            it.load(("P", "out"))
            return f, it, None
        except (Unknown, RecursionError, IndexError, TypeError, KeyError) as e:
            und.append("%s::%s: %s" % (self.cls, meth, e))
            return f, None, None


def subst_net(p):
    """m_ropnet = m_ropf - m_ropr inside operators"""
    def g(a):
        if a == ("f", "m_ropnet"):
            return P(("f", "m_ropf")) - P(REV) * P(("f", "m_ropr"))
        if a[0] == "lin":
            v = mono(a[3])
            w = apply(v, g)
            return lin(a[1], w, a[2]) if w != v else None
        return None
    return apply(p, g)


def mono(k):
    from fractions import Fraction
    return Poly({m: Fraction(*c) for m, c in k[1]})


def apply(p, g):
    r = P(0)
    for m, c in P(p).d.items():
        t = Poly({(): c})
        for i, e in m:
            w = g(atom(i))
            b = P(atom(i)) if w is None else w
            if e > 0:
                for _ in range(e):
                    t = t * b
            else:
                t = t * Poly({((i, e),): 1})
        r = r + t
    return r


def canon(p):
    """net operator spelt out; exponentials of one another's negatives joined; reversible concentrations orders"""
    def g(a):
        if a[0] == "lin":
            if a[1] == "net":
                return lin({"prod": 1, "reac": -1}, mono(a[3]), a[2])
            return None
        if a[0] == "orders" and a[1] in ("revprod", "prod"):
            return P(("orders", "products", a[2]))
        if a[0] == "exp":
            # a factor that is one on the subset it is used for
            return None
        return None
    p = clean(apply(clean(p), g))
    # exp(x rev + ...) under rev: drop rev inside when outside has it; quotients of exponentials
    r = P(0)
    ri = aid(REV)
    for m, c in p.d.items():
        has = any(i == ri for i, e in m)
        arg = P(0)
        rest = []
        n = 0
        for i, e in m:
            a = atom(i)
            if a[0] == "exp":
                x = mono(a[1])
                if has:
                    x = apply(x, lambda b: P(1) if b == REV else None)
                arg = arg + P(e) * x
                n += 1
            else:
                rest.append((i, e))
        t = Poly({tuple(rest): c})
        if n and arg.d:
            t = t * P(("exp", arg.k))
        r = r + t
    return r


def assembly(prog, rep, und):
    f = next((g for k, g in prog.fns.items() if k.startswith(NS + "Kinetics::addReaction(") and g.body is not None), None)
    if f is None:
        raise Broken("Kinetics::addReaction not found")
    src = sources(f)
    seen = {}
    for n in walk(f.body):
        if n[0] == "mcall" and short(n[2]) == "add" and peel(n[3])[0] == "m" and short(peel(n[3])[3]) in STOICH:
            nm = STOICH[short(peel(n[3])[3])]
            seen.setdefault(nm, []).append(n)
    for nm, side in (("reac", "reactants"), ("prod", "products"), ("revprod", "products")):
        l = seen.get(nm)
        if not l:
            und.append("Kinetics::addReaction: %s manager not filled directly" % nm)
            continue
        for n in l:
            for i in (1, 3):
                if i >= len(n[4]):
                    continue
                v = peel(n[4][i])
                s = src.get(v[2], set()) if v[0] == "v" else set()
                s = s & {"reactants", "products"}
                if not s:
                    und.append("Kinetics::addReaction:%d argument %d not resolved" % (n[1], i))
                elif s == {side}:
                    rep.ok("assembly", "%s manager argument %d from %s" % (nm, i, side))
                else:
                    rep.bad("assembly", f.h["file"], n[1], f.h["q"], "%s manager argument %d" % (nm, i),
                            "the %s manager is filled from the reaction's %s" % (nm, ", ".join(sorted(s))))
    reversible(prog, rep, und)
    moles(prog, rep, und)
    # net matrix
    val = None
    for k, g in prog.fns.items():
        if not k.startswith(NS + "Kinetics::resizeReactions(") or g.body is None:
            continue
        for n in walk(g.body):
            if n[0] == "op" and n[2] in ("=", "+=", "-=") and peel(n[4][0])[0] == "m" and short(peel(n[4][0])[3]) == "m_stoichMatrix":
                try:
                    v = opval(n[4][1])
                except Unknown as e:
                    und.append("m_stoichMatrix: %s" % e)
                    return
                val = v if n[2] == "=" else P(val if val is not None else 0) + (v if n[2] == "+=" else -v)
        if val is not None:
            rep.check("assembly", val == P(("op", "prod")) - P(("op", "reac")), g.h["file"], g.h["line"], g.h["q"], "m_stoichMatrix",
                      "the net stoichiometric matrix is %s, not products - reactants" % pretty(val))


def opval(n):
    n = peel(n)
    while n[0] == "ctor" and n[4]:
        n = peel(n[4][0])
    if n[0] == "mcall" and short(n[2]) == "stoichCoeffs" and peel(n[3])[0] == "m" and short(peel(n[3])[3]) in STOICH:
        return P(("op", STOICH[short(peel(n[3])[3])]))
    if n[0] == "op" and n[2] in ("+", "-") and len(n[4]) == 2:
        a, b = opval(n[4][0]), opval(n[4][1])
        return a + b if n[2] == "+" else a - b
    raise Unknown("matrix")


def sources(f):
    """which of the reaction's maps each local list is filled from"""
    src = {}
    for n in walk(f.body):
        if n[0] == "rfor":
            names = {short(x[3]) for x in walk(n) if x[0] == "m" and short(x[3]) in ("reactants", "products", "orders")}
            rng = {short(x[3]) for y in n[2:-1] if isnode(y) for x in walk(y) if x[0] == "m" and short(x[3]) in ("reactants", "products", "orders")}
            for x in walk(n[-1]):
                if x[0] == "mcall" and strip_tmpl(short(x[2])) in ("push_back", "emplace_back") and peel(x[3])[0] == "v":
                    src.setdefault(peel(x[3])[2], set()).update(rng or names)
    for n in walk(f.body):
        if n[0] == "decl":
            for d in n[2:]:
                if isinstance(d, list) and d and isinstance(d[0], int) and isnode(d[3]):
                    for x in walk(d[3]):
                        if x[0] == "v" and x[2] in src:
                            src.setdefault(d[0], set()).update(src[x[2]])
    return src


def pretty(p, depth=0):
    out = []
    for m, c in P(p).d.items():
        t = []
        for i, e in m:
            a = atom(i)
            if a[0] == "lin":
                s = "%s%s(%s)" % (a[1], "^T" if a[2] else "", pretty(mono(a[3]), depth + 1) if depth < 2 else "..")
            elif a[0] in ("exp", "log"):
                s = "%s(%s)" % (a[0], pretty(mono(a[1]), depth + 1) if depth < 2 else "..")
            elif a[0] == "orders":
                s = "conc^orders(%s)" % a[1]
            elif a[0] == "f" and len(a) == 3:
                s = "%s_%s" % (a[1], a[2])
            else:
                s = str(a[-1])
            t.append(s if e == 1 else "%s^%d" % (s, e))
        s = " ".join(t) or "1"
        out.append(("+" if c > 0 else "-") + (s if abs(c) == 1 else "%s %s" % (abs(c), s)))
    return (" ".join(out) or "0").lstrip("+")[:220]


def under(n, target, cond=None, out=None):
    """(node, value of `reversible` it is reached with) for nodes accepted by target"""
    out = [] if out is None else out
    if target(n):
        out.append((n, cond))
    if n[0] == "if":
        v = revcond(n[3])
        for i, c in ((4, True), (5, False)):
            if len(n) > i and isnode(n[i]):
                under(n[i], target, cond if v is None else (c == v), out)
        return out
    for c in n[2:]:
        for x in (c if isinstance(c, list) and not isnode(c) else [c]):
            if isnode(x):
                under(x, target, cond, out)
    return out


def revcond(c):
    c = peel(c)
    if c[0] == "un" and c[2] == "!":
        v = revcond(c[3])
        return None if v is None else not v
    if c[0] == "m" and short(c[3]) == "reversible":
        return True
    return None


def reversible(prog, rep, und):
    """index lists and reverse managers hold exactly the reversible reactions"""
    want = {"m_revindex": True, "m_irrev": False, "m_revProductStoich": True}
    for k, f in sorted(prog.fns.items()):
        if f.body is None or not any(k.startswith(NS + c + "::addReaction(") for c in CLASSES + ("Kinetics",)):
            continue

        def target(n):
            if n[0] != "mcall" or strip_tmpl(short(n[2])) not in ("push_back", "emplace_back", "add"):
                return False
            o = peel(n[3])
            return o[0] == "m" and short(o[3]) in want
        for n, c in under(f.body, target):
            nm = short(peel(n[3])[3])
            if c is None:
                und.append("%s:%d %s filled under a condition not resolved" % (f.h["q"], n[1], nm))
            else:
                rep.check("assembly", c == want[nm], f.h["file"], n[1], f.h["q"], nm + " entries",
                          "%s receives the %s reactions" % (nm, "reversible" if c else "irreversible"))


def moles(prog, rep, und):
    """m_dn: products minus reactants of the reaction"""
    for k, f in sorted(prog.fns.items()):
        if f.body is None or not k.startswith(NS + "BulkKinetics::addReaction("):
            continue
        acc = {}
        bad = set()
        for n in walk(f.body):
            if n[0] == "rfor":
                side = [short(x[3]) for x in walk(n[3]) if x[0] == "m" and short(x[3]) in ("products", "reactants")]
                for x in walk(n[4]):
                    if x[0] == "asg" and peel(x[3])[0] == "v":
                        v = peel(x[3])[2]
                        if x[2] in ("+=", "-=") and len(side) == 1 and peel(x[4])[0] in ("v", "m", "bind"):
                            acc.setdefault(v, {}).setdefault(side[0], 0)
                            acc[v][side[0]] += 1 if x[2] == "+=" else -1
                        else:
                            bad.add(v)
        for n in walk(f.body):
            if n[0] == "mcall" and strip_tmpl(short(n[2])) in ("push_back", "emplace_back") and peel(n[3])[0] == "m" and short(peel(n[3])[3]) == "m_dn":
                v = peel(n[4][0])
                s = 1
                if v[0] == "un" and v[2] == "-":
                    s, v = -1, peel(v[3])
                if v[0] != "v" or v[2] in bad or v[2] not in acc:
                    und.append("m_dn at line %d not resolved" % n[1])
                    continue
                g = {a: s * b for a, b in acc[v[2]].items()}
                rep.check("assembly", g == {"products": 1, "reactants": -1}, f.h["file"], n[1], f.h["q"], "m_dn",
                          "the mole change of a reaction is %s, not products - reactants" % g)


LISTS = ("m_c1_list", "m_c2_list", "m_c3_list", "m_cn_list")


def managers(prog, rep, und):
    """the operators themselves: per-reaction classes and the manager that calls them"""
    def fn(c, m):
        l = [f for k, f in prog.fns.items() if k.startswith("%s%s::%s(" % (NS, c, m)) and f.body is not None]
        return l[0] if l else None

    def E(*a):
        return P(("e",) + a)
    for c, n in (("C1", 1), ("C2", 2), ("C3", 3), ("C_AnyN", 0)):
        f = fn(c, "incrementSpecies")
        if f is None:
            und.append(c + " not found")
            continue
        try:
            e0 = Effects(f).eff
        except Unk as e:
            und.append("%s::incrementSpecies: %s" % (c, e))
            continue
        ics = sorted([k[1] for k in e0 if k[0] == 1], key=str)
        rx = "m_rxn"
        any_ = n == 0
        if any_:
            ics = [("m_ic", "n0")]
            st, sp = P(("e", "f", ("m_stoich", "n0"))), None
        else:
            st = P(1)
        if not any_ and len(ics) != n:
            rep.bad("managers", f.h["file"], f.h["line"], f.h["q"], "species written",
                    "a reaction of %d species adds to %d entries" % (n, len(ics)))
            continue
        jc = {}
        g = fn(c, "resizeCoeffs")
        for x in walk(g.body) if g is not None else ():
            if x[0] == "asg" and x[2] == "=":
                t = peel(x[3])
                t = short(t[3]) if t[0] == "m" else short(peel(t[4][0])[3]) if t[0] == "op" and peel(t[4][0])[0] == "m" else None
                ms = [short(y[3]) for y in walk(x[4]) if y[0] == "m" and short(y[3]).startswith("m_ic")]
                if t and len(set(ms)) == 1:
                    jc[ms[0]] = t
        S = [E(0, i) for i in ics]
        prodS, sumS = P(1), P(0)
        for x in S:
            prodS, sumS = prodS * x, sumS + st * x
        want = {"incrementSpecies": {(1, i): ("+=", st * E(0, rx)) for i in ics},
                "decrementSpecies": {(1, i): ("+=", -st * E(0, rx)) for i in ics},
                "incrementReaction": {(1, rx): ("+=", sumS)}, "decrementReaction": {(1, rx): ("+=", -sumS)},
                "multiply": {(1, rx): ("*=", prodS)},
                "scale": {(1, rx): ("=", (P(("m", "m_sum_order")) if any_ else P(n)) * E(0, rx) * P(("arg", 2)))}}
        if any_:
            o = P(("e", "f", ("m_order", "n0")))
            want["multiply"] = {(1, rx): ("*=", P(("pow", S[0].k, o.k)))}
            oj, Sj = P(("e", "f", ("m_order", "n1"))), E(0, ("m_ic", "n1"))
            if "m_ic" in jc:
                want["derivatives"] = {(2, (jc["m_ic"], "n0")): ("+=", E(1, rx) * o * P(("pow", S[0].k, (o - P(1)).k)) * P(("each", "ne", P(("pow", Sj.k, oj.k)).k)))}
        elif all(i in jc for i in ics):
            d = {}
            for a, i in enumerate(ics):
                p = E(1, rx)
                for b, x in enumerate(S):
                    p = p * x if a != b else p
                d[(2, jc[i])] = ("+=", p)
            want["derivatives"] = d
        for m, w in want.items():
            f = fn(c, m)
            if f is None:
                und.append("%s::%s not found" % (c, m))
                continue
            try:
                got = Effects(f).eff
            except (Unk, IndexError, TypeError, KeyError) as e:
                und.append("%s::%s: %s" % (c, m, e))
                continue
            if set(got) != set(w) and not set(got) & set(w):
                und.append("%s::%s: stores not followed" % (c, m))
                continue
            rep.check("managers", got == w, f.h["file"], f.h["line"], f.h["q"], m,
                      "%s of a reaction is %s, not %s" % (m, spell(got), spell(w)))
    for m in ("multiply", "incrementSpecies", "decrementSpecies", "incrementReactions", "decrementReactions", "derivatives", "scale"):
        f = fn("StoichManagerN", m)
        if f is None:
            und.append("StoichManagerN::%s not found" % m)
            continue
        used = {short(x[3]) for x in walk(f.body) if x[0] == "m" and short(x[3]) in LISTS}
        helpers = {strip_tmpl(short(x[2])) for x in walk(f.body) if x[0] == "call" and isinstance(x[2], str) and any(y[0] == "m" and short(y[3]) in LISTS for y in walk(x))}
        if not used:
            und.append("StoichManagerN::%s does not name the lists" % m)
            continue
        rep.check("managers", used == set(LISTS), f.h["file"], f.h["line"], f.h["q"], m + " lists",
                  "%s leaves out the reactions in %s" % (m, ", ".join(sorted(set(LISTS) - used))))
        if helpers:
            rep.check("managers", len(helpers) == 1, f.h["file"], f.h["line"], f.h["q"], m + " operation",
                      "%s does different things for different reactions: %s" % (m, ", ".join(sorted(helpers))))


def spell(d):
    def at(a):
        if a[0] == "e":
            return "%s[%s]" % ("arg%s" % a[1] if a[1] != "f" else "", a[2])
        return str(a[1])
    out = []
    for k, (op, v) in sorted(d.items(), key=str):
        t = " + ".join("%s %s" % (c, " ".join(at(atom(i)) for i, e in m)) for m, c in P(v).d.items())
        out.append("%s %s %s" % (k[1], op, t))
    return "; ".join(out)[:200]
