"""C03: indices and handles are validated before they select an element."""
import re
from ..core import *
from ..facts import Broken
from ..bounds import Bounds, UNS, INTS
from ..guards import behaviour, resolve_quantity

# Accessors that look up an element without checking, and the dimension of each index
# (confirmed from the declared meaning of the accessor; see the class documentation).
ACC = {
    ("Cantera::Domain1D::atol", 0): "Component", ("Cantera::Domain1D::componentName", 0): "Component",
    ("Cantera::Domain1D::lowerBound", 0): "Component", ("Cantera::Domain1D::rtol", 0): "Component",
    ("Cantera::Domain1D::setBounds", 0): "Component", ("Cantera::Domain1D::setSteadyTolerances", 2): "Component",
    ("Cantera::Domain1D::setTransientTolerances", 2): "Component", ("Cantera::Domain1D::upperBound", 0): "Component",
    ("Cantera::Domain1D::z", 0): "Point", ("Cantera::Kinetics::isReversible", 0): "Reaction",
    ("Cantera::Kinetics::kineticsSpeciesIndex", 1): "Phase", ("Cantera::Kinetics::multiplier", 0): "Reaction",
    ("Cantera::Kinetics::productStoichCoeff", 0): "Species", ("Cantera::Kinetics::productStoichCoeff", 1): "Reaction",
    ("Cantera::Kinetics::reactantStoichCoeff", 0): "Species", ("Cantera::Kinetics::reactantStoichCoeff", 1): "Reaction",
    ("Cantera::Kinetics::reaction", 0): "Reaction", ("Cantera::Kinetics::setMultiplier", 0): "Reaction",
    ("Cantera::Kinetics::thermo", 0): "Phase", ("Cantera::MultiPhase::elementMoles", 0): "Element",
    ("Cantera::MultiPhase::moleFraction", 0): "Species", ("Cantera::MultiPhase::nAtoms", 0): "Species",
    ("Cantera::MultiPhase::nAtoms", 1): "Element", ("Cantera::MultiPhase::phaseCharge", 0): "Phase",
    ("Cantera::MultiPhase::phaseMoles", 0): "Phase", ("Cantera::MultiPhase::setPhaseMoles", 0): "Phase",
    ("Cantera::MultiPhase::speciesIndex", 1): "Phase", ("Cantera::MultiPhase::speciesMoles", 0): "Species",
    ("Cantera::MultiPhase::speciesPhaseIndex", 0): "Species", ("Cantera::OneDim::domain", 0): "Domain",
    ("Cantera::Sim1D::setFlatProfile", 0): "Domain", ("Cantera::Sim1D::setFlatProfile", 1): "Component",
    ("Cantera::Sim1D::setProfile", 0): "Domain", ("Cantera::Sim1D::setProfile", 1): "Component",
    ("Cantera::Sim1D::setValue", 0): "Domain", ("Cantera::Sim1D::setValue", 1): "Component",
    ("Cantera::Sim1D::value", 0): "Domain", ("Cantera::Sim1D::value", 1): "Component",
    ("Cantera::Sim1D::workValue", 0): "Domain", ("Cantera::Sim1D::workValue", 1): "Component",
    ("Cantera::ThermoPhase::maxTemp", 0): "Species", ("Cantera::ThermoPhase::minTemp", 0): "Species",
    ("Cantera::Phase::atomicWeight", 0): "Element", ("Cantera::Phase::nAtoms", 1): "Element",
    ("Cantera::Phase::nAtoms", 0): "Species",
}
# Arrays and the dimension of their first index.
ARR = {
    "Cantera::Phase::m_elementNames": "Element", "Cantera::Phase::m_entropy298": "Element",
    "Cantera::Phase::m_atomicWeights": "Element", "Cantera::Phase::m_atomicNumbers": "Element",
    "Cantera::Phase::m_elem_type": "Element",
    "Cantera::Phase::m_molwts": "Species", "Cantera::Phase::m_rmolwts": "Species", "Cantera::Phase::m_y": "Species",
    "Cantera::Phase::m_ym": "Species", "Cantera::Phase::m_speciesNames": "Species", "Cantera::Phase::m_speciesCharge": "Species",
    "Cantera::InterfaceKinetics::m_phaseExists": "Phase", "Cantera::InterfaceKinetics::m_phaseIsStable": "Phase",
    "Cantera::Kinetics::m_reactions": "Reaction", "Cantera::Kinetics::m_thermo": "Phase", "Cantera::Kinetics::m_start": "Phase",
    "Cantera::Kinetics::m_perturb": "Reaction",
    "Cantera::GasTransport::m_condcoeffs": "Species", "Cantera::GasTransport::m_visccoeffs": "Species",
    "Cantera::GasTransport::m_poly": "Species", "Cantera::GasTransport::m_star_poly_uses_actualT": "Species",
}
# Check functions: (class, dimension) -> what the argument must be compared with (an accessor of the class).
COUNT = {
    ("Cantera::Phase", "Element"): "nElements", ("Cantera::Phase", "Species"): "nSpecies",
    ("Cantera::Domain1D", "Component"): "nComponents", ("Cantera::Domain1D", "Point"): "nPoints",
    ("Cantera::OneDim", "Domain"): "nDomains", ("Cantera::Transport", "Species"): None,
    ("Cantera::MultiPhase", "Element"): "nElements", ("Cantera::MultiPhase", "Species"): "nSpecies",
    ("Cantera::MultiPhase", "Phase"): "nPhases", ("Cantera::Kinetics", "Reaction"): "nReactions",
    ("Cantera::Kinetics", "Species"): "nTotalSpecies", ("Cantera::Kinetics", "Phase"): "nPhases",
}
# Public accessors documented or confirmed to reject an index that is out of range themselves.
GUARDED = """
Phase::elementName Phase::entropyElement298 Phase::massFraction Phase::moleFraction Phase::molecularWeight
Phase::nAtoms Phase::species Phase::speciesName Phase::modifySpecies Phase::concentration
Kinetics::reaction Kinetics::modifyReaction BulkKinetics::modifyReaction InterfaceKinetics::modifyReaction
InterfaceKinetics::setPhaseExistence InterfaceKinetics::phaseExistence InterfaceKinetics::phaseStability
InterfaceKinetics::setPhaseStability
GasTransport::getViscosityPolynomial GasTransport::setViscosityPolynomial GasTransport::getConductivityPolynomial
GasTransport::setConductivityPolynomial GasTransport::getBinDiffusivityPolynomial GasTransport::setBinDiffusivityPolynomial
GasTransport::getCollisionIntegralPolynomial GasTransport::setCollisionIntegralPolynomial
Reactor::addSensitivityReaction Reactor::addSensitivitySpeciesEnthalpy ReactorSurface::addSensitivityReaction
ReactorBase::massFraction ReactorNet::componentName ReactorNet::sensitivity[1,2]
Solution::adjacentName
Sim1D::value[1,2] Sim1D::workValue[1,2] Sim1D::getRefineCriteria Sim1D::maxGridPoints Sim1D::setMaxGridPoints
Reactor::componentName ConstPressureReactor::componentName MoleReactor::componentName IdealGasReactor::componentName
IdealGasConstPressureReactor::componentName ConstPressureMoleReactor::componentName IdealGasMoleReactor::componentName
IdealGasConstPressureMoleReactor::componentName FlowReactor::componentName
""".split()


def run(prog, rep):
    cg = CallGraph(prog)
    b = Bounds(prog, cg)
    ext = sorted((f for f in prog.fns.values() if f.hasbody and f.extc
                  and f.file.startswith(("src/clib/", "src/fortran/"))), key=lambda f: (f.file, f.line))
    rep.rule("api-index", 550, "each integer argument of each C / Fortran interface function: on no path does it select an element of a "
             "container owned by the library (through any callee, virtual dispatch included) before a range check of it")
    for f in ext:
        s = b.summary(f.key)
        for i, (raw, chk) in sorted(s.items()):
            nm = f.params[i][1]
            rep.check("api-index", not raw, f.file, f.line, f.q, nm,
                      "argument '%s' reaches an unchecked element access: %s" % (nm, raw))

    rep.rule("guarded", 45, "public accessors that take an index and reject one that is out of range: no path to an element access without the check")
    seen = set()
    for q in GUARDED:
        q, _, only = q.partition("[")
        only = {int(x) for x in only.rstrip("]").split(",")} if only else None
        fs = prog.by_q.get("Cantera::" + q, [])
        for f in fs:
            if not f.hasbody:
                continue
            for i, (raw, chk) in sorted(b.summary(f.key).items()):
                if only is not None and i not in only:
                    continue
                nm = f.params[i][1]
                rep.check("guarded", not raw, f.file, f.line, f.q, "argument %d" % i,
                          "argument '%s' reaches an unchecked element access: %s" % (nm, raw))

    rep.rule("dimension", 60, "an index validated by check<D>Index is used only to select an element along dimension D")
    for f in prog.fns.values():
        if not f.hasbody or "Index(" not in f.raw or f.dep:
            continue
        dims = {}
        for n in walk(f.body):
            c = callee(n)
            m = c and re.match(r"check(\w+)Index$", short(c[0]))
            if m and c[2]:
                a = peel(c[2][0])
                if isnode(a) and a[0] == "v":
                    dims.setdefault(a[2], set()).add(m.group(1))
        if not dims:
            continue

        def use(var, want, n, what):
            if var in dims:
                rep.check("dimension", want in dims[var], f.file, n[1], f.q, what,
                          "index checked as %s but used to select a %s (%s)" % ("/".join(sorted(dims[var])), want, what))
        for n in walk(f.body):
            if n[0] == "idx" or n[0] == "op" and n[2] == "[]" and len(n[4]) == 2:
                a, i = (n[2], n[3]) if n[0] == "idx" else n[4]
                a, i = peel(a), peel(i)
                if isnode(a) and a[0] == "m" and a[3] in ARR and isnode(i) and i[0] == "v":
                    use(i[2], ARR[a[3]], n, a[3].split("::")[-1])
            c = callee(n)
            if c:
                for k, x in enumerate(c[2]):
                    x = peel(x)
                    if isnode(x) and x[0] == "v" and (qn(c[0]), k) in ACC:
                        use(x[2], ACC[(qn(c[0]), k)], n, "%s argument %d" % (short(c[0]), k))

    rep.rule("check-functions", 20, "each check<D>Index(i) throws exactly when i >= count(D), each check<D>ArraySize(n) exactly when n < count(D); "
             "decided for every ordering of argument and count, where count is the value of the accessor of the class")
    for f in prog.fns.values():
        m = re.match(r"check(\w+?)(Index|ArraySize)$", short(f.key))
        if not m or not f.hasbody or (f.cls, m.group(1)) not in COUNT:
            continue
        beh, quant, under = behaviour(prog, f)
        want = {d: ("throw" if (d >= 0 if m.group(2) == "Index" else d < 0) else "return") for d in beh}
        acc = COUNT[(f.cls, m.group(1))]
        wrong = [d for d in beh if beh[d] != want[d]]
        rep.check("check-functions", not wrong and not under, f.file, f.line, f.q, "ordering",
                  "argument - count = %s: %s, required: %s%s" % (wrong, [beh[d] for d in wrong], [want[d] for d in wrong],
                                                                " (count - 1 wraps for an empty set)" if under else ""))
        if acc:
            af = [g for g in prog.by_q.get(f.cls + "::" + acc, []) if g.hasbody]
            if af:
                target = resolve_quantity(prog, ["mcall", 0, af[0].key, ["this", 0], [], 0, f.cls])
                rep.check("check-functions", all(q == target for q in quant), f.file, f.line, f.q, "quantity",
                          "argument is compared with %s, the count is %s" % (quant, target))

    rep.rule("handle", 20, "every object handed out for a handle by Cabinet::at was range-checked and found non-null (deleted handles are rejected); "
             "Cabinet::as returns only after a successful dynamic cast")
    for f in prog.fns.values():
        if f.cls and f.cls.startswith("Cantera::Cabinet<") and f.hasbody and strip_tmpl(short(f.key)) in ("at", "as", "parent", "del"):
            nm = strip_tmpl(short(f.key))
            raw = b.summary(f.key).get(0, (None, True))[0]
            rep.check("handle", not raw, f.file, f.line, "Cantera::Cabinet::" + nm, "range", "handle reaches an unchecked element access: %s" % raw)
            if nm in ("at", "as"):
                fl = NonNull()
                fl.run(f.body, frozenset())
                rep.check("handle", not fl.badret, f.file, f.line, "Cantera::Cabinet::" + nm, "null",
                          "a handle whose object was deleted or has another type is returned without a null test")

    rep.rule("fortran-base", 14, "an index argument of a Fortran interface function is decremented by one before it selects a species, element or reaction")
    for f in ext:
        if not f.file.startswith("src/fortran/"):
            continue
        ptr = {q[0] for q in f.params if q[2] in ("int *", "const int *")}
        for n in walk(f.body):
            c = callee(n)
            if not c:
                continue
            for k, x in enumerate(c[2]):
                d = ACC.get((qn(c[0]), k)) or FORT.get((qn(c[0]), k))
                if d in (None, "Phase"):
                    continue
                e, off, _ = resolve_off(f, x)
                e = peel(e)
                if isnode(e) and e[0] == "un" and e[2] == "*" and peel(e[3])[0] == "v" and peel(e[3])[2] in ptr:
                    rep.check("fortran-base", off == -1, f.file, n[1], f.q, "%s argument %d" % (short(c[0]), k),
                              "one-based %s index passed with offset %d" % (d, off))


FORT = {("Cantera::Phase::moleFraction", 0): "Species", ("Cantera::Phase::massFraction", 0): "Species",
        ("Cantera::Phase::speciesName", 0): "Species", ("Cantera::Phase::elementName", 0): "Element",
        ("Cantera::Kinetics::checkReactionIndex", 0): "Reaction"}


def resolve_off(f, x):
    from ..guards import offset
    e, o, s = offset(x)
    if isnode(e) and e[0] == "v":
        for n in walk(f.body):
            if n[0] == "decl":
                for d in n[2:]:
                    if d[0] == e[2] and d[3] is not None:
                        e2, o2, _ = resolve_off(f, d[3])
                        return e2, o + o2, s
    return e, o, s


class NonNull(Flow):
    """Set of expressions known non-null; every return must return one."""

    def __init__(self):
        self.badret = []

    def join(self, a, b):
        return a & b

    def norm(self, e):
        e = peel(e)
        if isnode(e) and e[0] == "mcall" and short(e[2]) in ("operator bool", "get"):
            e = peel(e[3])
        return e

    def refine(self, c, truth, st):
        op = None
        if c[0] == "op" and c[2] in ("==", "!=") and len(c[4]) == 2:
            op, l, r = c[2], c[4][0], c[4][1]
        elif c[0] == "bin" and c[2] in ("==", "!="):
            op, l, r = c[2], c[3], c[4]
        if op:
            if (op == "!=") == truth:
                return st | {fingerprint2(self.norm(l)), fingerprint2(self.norm(r))}
            return st
        if truth:
            return st | {fingerprint2(self.norm(c))}
        return st

    def on_return(self, s, st):
        if s[2] is not None and fingerprint2(self.norm(s[2])) not in st:
            self.badret.append(s)
        return st


def fingerprint2(e):
    return fingerprint(e) if isnode(e) else None
