"""C07: memoised values. No value computed from a state or parameter is handed out after that state or parameter changed."""
import re
from ..core import *
from ..facts import Broken
from ..fresh import *

NS = "Cantera::"
ATOM = {NS + k: v for k, v in {
    "Phase::m_temp": "T", "Phase::m_y": "X", "Phase::m_ym": "X", "Phase::m_mmw": "X", "Phase::m_dens": "D", "Phase::m_stateNum": "X",
    "PlasmaPhase::m_electronTemp": "Te", "LatticeSolidPhase::m_press": "P", "LatticePhase::m_Pcurrent": "P",
    "IdealSolidSolnPhase::m_Pcurrent": "P", "VPStandardStateTP::m_Pcurrent": "P", "StoichSubstance::m_press": "P"}.items()}
# what a query on another object's thermo model depends on
QUERY = {"temperature": "T", "RT": "T", "pressure": "P", "density": "D", "molarDensity": "DX", "molarVolume": "DX",
         "stateMFNumber": "X", "meanMolecularWeight": "X", "getMoleFractions": "X", "moleFraction": "X", "massFraction": "X",
         "massFractions": "X", "getMassFractions": "X", "concentration": "DX", "getConcentrations": "DX", "electronTemperature": "E",
         "thermalExpansionCoeff": "TPX", "electricPotential": "F", "standardConcentration": "TP", "getCoverages": "X", "siteDensity": "S",
         "distributionNumber": "e", "levelNumber": "e", "getElectronEnergyDistribution": "e", "getElectronEnergyLevels": "e"}
STATIC = {"nSpecies", "molecularWeights", "molecularWeight", "speciesName", "name", "nElements", "speciesIndex", "refPressure",
          "isIdeal", "species", "thermo", "nAtoms", "charge", "critTemperature", "critPressure", "type", "phaseOfMatter"}
MUTATOR = {"T": "setTemperature", "P": "setPressure", "X": "setMoleFractions"}


def query_atoms(key):
    s = short(key)
    if s in QUERY:
        return set(QUERY[s])
    if s in STATIC or not re.match(r"get|.*_(RT|R|mole|mass)", s):
        return set()
    if s.endswith("_ref"):
        return {"T"}
    if re.search(r"Standard|_RT$|_R$", s) and "Partial" not in s:
        return {"T", "P"}
    return {"T", "P", "X"}


def normal(a):
    """Temperature, pressure and composition determine the density (the converse fails for incompressible phases)."""
    return a | {"D"} if {"T", "P", "X"} <= a else a


class Memo:
    pass


class M07:
    def __init__(self, prog, rep):
        self.p, self.r = prog, rep
        self.cg = CallGraph(prog)
        self.pw = ParamWrites(prog)
        self.views = {}
        self._loc = {}

    def view(self, cls):
        if cls not in self.views:
            v = ClassView(self.p, self.cg, cls, self.pw)
            chain = [cls] + self.p.bases(cls)
            v.chain = chain
            v.alias = {}
            fin, allm = set(), set()
            for b in chain:
                for m in self.p.classes.get(b, {}).get("methods", ()):
                    k = (self.cg.final_impl(m["k"], cls) or m["k"]) if m.get("virt") else m["k"]
                    for s, x in ((fin, k), (allm, m["k"])):
                        if x in self.p.fns and self.p.fns[x].hasbody:
                            s.add(x)
            v.final, v.all = fin, allm
            self.views[cls] = v
        return self.views[cls]

    def concrete(self, root):
        out = []
        for c in sorted({root} | self.p.subclasses(root)):
            k = self.p.classes.get(c)
            if k is not None and not k.get("abs") and "<" not in c:
                out.append(c)
        if not out:
            raise Broken("no concrete subclass of " + root)
        return out

    # ---------------------------------------------------------------- atoms
    def locals_of(self, f):
        """local id -> initialiser expressions and later assigned ones"""
        if f.key not in self._loc:
            d = {}
            for n in walk(f.body):
                if n[0] == "decl":
                    for x in n[2:]:
                        if len(x) > 3 and isnode(x[3]):
                            d.setdefault(x[0], []).append(x[3])
                elif n[0] == "asg" and isnode(n[3]) and n[3][0] == "v":
                    d.setdefault(n[3][2], []).append(n[4])
            self._loc[f.key] = d
        return self._loc[f.key]

    def atoms(self, view, f, nodes, seen=None, deep=True):
        """State variables read by nodes of f (calls on this followed in view)."""
        seen = seen if seen is not None else set()
        out = set()
        loc = self.locals_of(f)
        for top in nodes:
            put = {id(n[3]) for n in walk(top) if n[0] == "asg" and n[2] == "="}
            for n in walk(top):
                if id(n) in put:
                    continue
                if n[0] == "m" and OBJ(n[2]) and n[3] in ATOM:
                    out.add(ATOM[n[3]])
                elif n[0] == "m" and OBJ(n[2]) and view and n[3] in view.alias:
                    out |= view.alias[n[3]]
                elif n[0] == "v" and ("v", f.key, n[2]) not in seen:
                    seen.add(("v", f.key, n[2]))
                    for e in loc.get(n[2], ()):
                        out |= self.atoms(view, f, [e], seen)
                elif n[0] == "mcall":
                    t = view.target(n) if view else None
                    if t:
                        if t not in seen and not SETUP.match(short(t)):
                            seen.add(t)
                            g = self.p.fns.get(t)
                            if g and g.hasbody:
                                out |= self.atoms(view, g, [g.body], seen)
                    elif self.p.isa(clsof(n[2]), NS + "Phase") and not OBJ(n[3]) and not (view and self.p.isa(view.cls, NS + "Phase")):
                        out |= query_atoms(n[2])
        return out

    # --------------------------------------------------------------- guards
    def guard(self, f, n):
        """If statement n of f is a memo guard: Memo with compared keys and region, else None."""
        cond = n[3]
        loc = self.locals_of(f)
        exprs, seen = [cond], set()
        for x in list(walk(cond)):
            if x[0] == "v" and len(loc.get(x[2], ())) == 1 and x[2] not in seen:
                seen.add(x[2])
                e = loc[x[2]][0]
                if any(y[0] in ("bin", "op") and y[2] in ("==", "!=") or y[0] == "mcall" and short(y[2]) == "validate" for y in walk(e)) \
                        and not any(y[0] == "lambda" for y in walk(e)):
                    exprs.append(e)
        keys, cur, changed, pairs = set(), [], None, []
        for e in exprs:
            pol = {}
            stack = [(e, True)]
            while stack:
                y, pos = stack.pop()
                if not isnode(y):
                    continue
                if y[0] == "un" and y[2] == "!":
                    stack.append((y[3], not pos))
                    continue
                pol[id(y)] = pos
                for c in children(y):
                    stack.append((c, pos))
            for y in walk(e):
                if y[0] == "mcall" and short(y[2]) == "validate" and "CachedValue" in y[2]:
                    keys.add(("cache", f.key, str(root_var(y[3]))))
                    cur.extend(y[4])
                    changed = not pol.get(id(y), True)
                elif y[0] in ("bin",) and y[2] in ("==", "!="):
                    for a, b in ((y[3], y[4]), (y[4], y[3])):
                        a, b = peel(a), peel(b)
                        kf = this_field(a) if isnode(a) and a[0] in ("m", "op", "idx") else None
                        if isnode(a) and a[0] == "m" and isnode(a[2]) and not OBJ(a[2]) and re.search(r"CachedValue.*::(state\d|stateNum)", a[3]):
                            keys.add(("cache", f.key, str(root_var(a))))
                            cur.append(b)
                            changed = (y[2] == "!=") == pol.get(id(y), True)
                        elif kf and kf not in ATOM and isnode(b) and b[0] != "lit":
                            keys.add(("field", kf))
                            cur.append(b)
                            pairs.append((kf, b))
                            changed = (y[2] == "!=") == pol.get(id(y), True)
        if not keys:
            return None
        m = Memo()
        m.f, m.keys, m.cur, m.cond, m.line, m.node = f, keys, cur, cond, n[1], n
        m.pairs = pairs
        then, els = n[4], n[5]
        if changed:
            m.region = [then]
        elif els is not None:
            m.region = [els]
        elif any(z[0] == "ret" for z in walk(then)):
            m.region = self.after(f.body, n)
        else:
            return None
        return m

    def after(self, body, n):
        """Statements of the block that contains n, after n."""
        for b in walk(body):
            if b[0] == "{":
                for i, s in enumerate(b[2:]):
                    if s is n:
                        return b[2 + i + 1:]
        return []

    def memos(self, view):
        out = []
        for k in sorted(view.all):
            f = self.p.fns[k]
            for n in walk(f.body):
                if n[0] == "if":
                    m = self.guard(f, n)
                    if not m:
                        continue
                    m.catoms = self.atoms(view, f, m.cur)
                    if not m.catoms:
                        continue
                    m.ratoms = self.atoms(view, f, m.region)
                    m.out = view.region_writes(m.region)
                    kf = {x[1] for x in m.keys if x[0] == "field"}
                    # a key is a field of the object that the region brings up to date
                    m.own = m.out & kf
                    m.out = m.out - kf
                    m.kf = kf
                    out.append(m)
        return out


def flagset(n):
    """(field, bool) when n assigns a boolean constant to a field of this."""
    if n[0] == "asg" and n[2] == "=" and isnode(n[3]) and n[3][0] == "m" and OBJ(n[3][2]):
        v = lit(n[4])
        if isinstance(v, bool):
            return n[3][3], v
    return None


LOOKUP = ("find", "upper_bound", "lower_bound", "begin", "end", "rbegin", "rend", "at", "front", "back", "data", "size")
SETUP = re.compile(r"init|setup|add[A-Z]|resize|operator=|install|set_?up|modifySpecies|~|swap")


class Unit:
    """A memo whose validity is a flag, or a comparison with key fields, and the fields its computation reads."""


class Inv(Flow):
    """state: (inputs changed while the memo stays marked as current, memo is marked as outdated on this path)."""

    def __init__(self, an, key):
        self.an, self.key, self.quiet = an, key, 0

    def join(self, a, b):
        return (a[0] | b[0], a[1] and b[1])

    def ex(self, s, st):
        q = s is not None and id(s) in self.an.u.quiet
        self.quiet += q
        r = Flow.ex(self, s, st)
        self.quiet -= q
        return r

    def cond(self, n, st):
        if n is self.an.u.test and st is not None:
            self.an.at_test |= st[0]
        t, f = Flow.cond(self, n, st)
        ys = self.an.u.compared.get(id(n))
        if ys and f is not None:
            f = (frozenset(x for x in f[0] if x[0] not in ys), f[1])
        return t, f

    def loop(self, s, st):
        """Loops over all elements run at least once, and a comparison of every element covers the array."""
        out = Flow.loop(self, s, st)
        if out is not None and s[0] in ("for", "rfor"):
            for n in walk(s[5] if s[0] == "for" else s[4]):
                ys = self.an.u.compared.get(id(n[3])) if n[0] == "if" else None
                if ys:
                    out = (frozenset(x for x in out[0] if x[0] not in ys), out[1])
        return out

    def event(self, n, st):
        w, i = st
        an = self.an
        new = set()
        s = flagset(n)
        if s and s[0] == an.u.flag:
            return (frozenset(), not s[1])
        if s and s[1] is False and s[0] in an.u.inputs:
            new.add((s[0], self.key, n[1]))
        t = an.view.target(n) if callee(n) else None
        if t:
            x = an.summary(t)
            if x is not None:
                if x[1]:
                    w, i = frozenset(), True
                new |= x[0]
        if not s:
            for x in stored(n, an.view.pw):
                y = this_field(x)
                if y in an.u.reset and (y, self.key) not in an.u.owner:
                    w, i = frozenset(), True
                elif y in an.u.inputs:
                    new.add((y, self.key, n[1]))
        if an.u.counter:
            return (w | new, i and not new)
        if not i and not self.quiet:
            w = w | new
        return (w, i)


def looks_up(z):
    """A call that finds an entry or compares; a step of the iterator such a call returned."""
    if callee(z) and (short(callee(z)[0]) in LOOKUP or z[0] == "op" and z[2] in ("==", "!=", "<", ">")):
        return True
    return z[0] in ("un", "op") and z[2].replace("post", "") in ("++", "--") and looks_up(peel(z[3] if z[0] == "un" else z[4][0]))


class InvRate(Inv):
    def event(self, n, st):
        return st if looks_up(n) else Inv.event(self, n, st)


class InvAn:
    flow = Inv

    def __init__(self, view, u):
        self.view, self.u, self.memo, self.act = view, u, {}, set()
        self.at_test = frozenset()

    def summary(self, key):
        if key in self.memo:
            return self.memo[key]
        f = self.view.p.fns.get(key)
        if f is None or not f.hasbody or key in self.act:
            return None
        if key in self.u.skip:
            return (frozenset(), False)
        self.act.add(key)
        w, i, some = frozenset(), True, False
        for kind, line, n, st in self.flow(self, key).run(f.body, (frozenset(), False)):
            if kind == "throw":
                continue
            some = True
            w |= st[0]
            i = i and st[1]
        self.act.discard(key)
        self.memo[key] = (w, i and some)
        return self.memo[key]


def _m(cls):
    return cls.replace(NS, "")


class Rules(M07):
    # --------------------------------------------------------------- helpers
    def keyed_fns(self, view):
        return {m.f.key for m in self.memos_of(view)}

    def memos_of(self, view):
        if not hasattr(view, "_memos"):
            # a key field holds the state it was last compared with (only where that field is not also a result)
            for m in self.memos(view):
                for kf, b in m.pairs:
                    a = self.atoms(view, m.f, [b])
                    if len(a) == 1:
                        view.alias[kf] = view.alias.get(kf, set()) | a
            view._memos = self.memos(view)
        return view._memos

    def cut(self, view, nodes, stop, f=None):
        """(fields read, fields written) by nodes and what they call on this, not entering functions in stop."""
        rd, wr, seen = set(), set(), set()
        work = list(nodes)
        while work:
            top = work.pop()
            if top is None:
                continue
            for n in walk(top):
                if n[0] == "m" and OBJ(n[2]):
                    rd.add(n[3])
                for x in stored(n, view.pw):
                    y = this_field(x)
                    if y:
                        wr.add(y)
                t = view.target(n)
                if t and t not in seen and t not in stop and not SETUP.match(short(t)):
                    seen.add(t)
                    g = self.p.fns.get(t)
                    if g and g.hasbody:
                        work.append(g.body)
        return rd, wr, seen

    def always(self, m):
        """The guard of memo m has an alternative '|| flag' and flag is set true unconditionally before it."""
        alts, st = [], [m.cond]
        while st:
            y = st.pop()
            y = peel(y) if isnode(y) else y
            if isnode(y) and y[0] == "bin" and y[2] == "||":
                st += [y[3], y[4]]
            elif isnode(y) and y[0] == "m" and OBJ(y[2]):
                alts.append(y[3])
        body = m.f.body
        for s in body[2:]:
            if s[1] == m.line and s[0] == "if":
                break
            for n in ([s] if s[0] == "asg" else []):
                fs = flagset(n)
                if fs and fs[1] and fs[0] in alts:
                    return True
        return False

    def pushed(self, view, atoms):
        """Atoms that the class hands on to subordinate phases whenever they change."""
        out = set()
        for a in atoms:
            mu = MUTATOR.get(a)
            if not mu:
                continue
            for k in view.final:
                if short(k) == mu:
                    f = self.p.fns[k]
                    if any(n[0] == "mcall" and not OBJ(n[3]) and self.p.isa(clsof(n[2]), NS + "Phase") and short(n[2]).startswith("set")
                           for g in self.reach(view, k) for n in walk(self.p.fns[g].body)):
                        out.add(a)
        return out

    def reach(self, view, key):
        seen, q = set(), [key]
        while q:
            k = q.pop()
            f = self.p.fns.get(k)
            if k in seen or not f or not f.hasbody:
                continue
            seen.add(k)
            for n in walk(f.body):
                t = view.target(n) if callee(n) else None
                if t:
                    q.append(t)
        return seen

    # ------------------------------------------------------------------ R1/R2
    def cover(self, view):
        for m in self.memos_of(view):
            fn = m.f.q
            c = "%s: guard %s" % (_m(view.cls), show(m.cond)[:80])
            if self.always(m):
                self.r.ok("guard-covers-inputs", c + " (always recomputed)")
                continue
            cat = set(m.catoms)
            miss = normal(m.ratoms) - normal(cat)
            if miss:
                cat |= self.pushed(view, miss)
                miss = normal(m.ratoms) - normal(cat)
            self.r.check("guard-covers-inputs", not miss, m.f.file, m.line, fn, c,
                         "values kept while %s is unchanged also depend on %s" % (
                             "".join(sorted(m.catoms)), ", ".join(sorted(miss))))

    def owner(self, view):
        ms = self.memos_of(view)
        for m in ms:
            for K in sorted(m.kf):
                reg = self.cut(view, m.region, set())[2] | {m.f.key}
                for k in sorted(view.final | view.all):
                    f = self.p.fns[k]
                    if k in reg or SETUP.match(short(k)):
                        continue
                    for n in walk(f.body):
                        if n[0] != "asg" or n[2] != "=" or this_field(n[3]) != K or not self.atoms(view, f, [n[4]]):
                            continue
                        if not (m.f.key in view.final or self.called(view, m.f.key)):
                            continue
                        if not (k in view.final or self.called(view, k)):
                            continue
                        ok = m.out <= view.writes(k)
                        self.r.check("key-set-with-values", ok, f.file, n[1], f.q, "%s of %s in %s" % (_m(K), m.f.q, _m(view.cls)),
                                     "marks the values of %s as current without computing them" % m.f.q)
                self.r.ok("key-set-with-values", "%s %s" % (_m(view.cls), _m(K)))

    def called(self, view, key):
        if not hasattr(view, "_called"):
            view._called = set()
            for k in view.final:
                view._called |= self.reach(view, k)
        return key in view._called

    # --------------------------------------------------------------------- R4
    def flag_guards(self, view):
        """(function, if, flag, region) of every flag memo in view."""
        keyed = self.keyed_fns(view)
        true_in = {}
        for k in view.all | view.final:
            for n in walk(self.p.fns[k].body):
                s = flagset(n)
                if s and s[1]:
                    true_in.setdefault(s[0], set()).add(k)
        out = []
        for k in sorted(view.all | view.final):
            f = self.p.fns[k]
            if not self.called(view, k):
                continue
            for n in walk(f.body):
                if n[0] != "if":
                    continue
                c = n[3]
                neg = isnode(c) and c[0] == "un" and c[2] == "!"
                x = peel(c[3] if neg else c)
                if not (isnode(x) and x[0] == "m" and OBJ(x[2]) and x[3] in true_in):
                    continue
                b = x[3]
                if neg:
                    region = [n[4]]
                elif any(z[0] == "ret" for z in walk(n[4])):
                    region = self.after(f.body, n)
                else:
                    continue
                rd, wr, fns = self.cut(view, region, keyed)
                if not any(flagset(z) == (b, True) for t in region for z in walk(t)) and not (true_in[b] & fns):
                    continue
                out.append((f, n, b, region, rd, wr, fns))
        return out

    def unit(self, view, f, n, flag, reset, region, rd, wr, fns, keyed, guards):
        u = Unit()
        u.flag, u.f, u.line, u.test, u.reset = flag, f, n[1], n[3], set(reset)
        u.inputs = {x for x in rd - wr - {flag} - set(reset)
                    if x in self.p.field and re.search(r"\b(double|int|long|bool|Array2D|DenseMatrix)\b", self.p.field[x]["t"])}
        u.skip = fns - keyed - {f.key}
        u.owner, u.quiet, u.compared, u.counter = set(), set(), {}, False
        u.label = _m(flag) if flag else "/".join(sorted(_m(x) for x in reset))
        mine = [m for m in self.memos_of(view) if m.node is n]
        resetters = [set(m.catoms) for m in mine]
        for m in self.memos_of(view):
            inner = self.cut(view, m.region, set())[2] | {m.f.key}
            if flag and any(flagset(y) == (flag, False) for t in m.region for y in walk(t)) or flag and any(
                    flagset(y) == (flag, False) for g in inner - {m.f.key} for y in walk(self.p.fns[g].body)):
                u.reset |= m.kf
                resetters.append(set(m.catoms))
            if m.kf & u.reset or m in mine:
                for K in m.kf:
                    for g in inner:
                        u.owner.add((K, g))
        for m in self.memos_of(view):
            # recomputed only when something changed that also outdates this memo
            if m not in mine and any(normal(set(m.catoms)) <= normal(r) for r in resetters):
                u.quiet |= {id(t) for t in m.region}
        extra = set()
        for g, gn, b, reg, r2, w2, f2 in guards:
            if gn is n:
                continue
            if (w2 - r2) & u.inputs or w2 & u.inputs:
                extra.add(b)
            u.quiet |= {id(t) for t in reg}
        u.inputs |= extra - {flag}
        # per-element comparison that clears the flag
        for k in view.all | view.final:
            for y in walk(self.p.fns[k].body):
                if y[0] == "if" and flag and any(flagset(z) == (flag, False) for z in walk(y[4])):
                    ys = set()
                    for c in walk(y[3]):
                        if c[0] == "bin" and c[2] in ("==", "!="):
                            fa, fb = this_field(c[3]), this_field(c[4])
                            if fa and fb:
                                ys |= {fa, fb}
                    if ys:
                        u.compared[id(y[3])] = ys
        return u

    def units(self, view):
        keyed = self.keyed_fns(view)
        guards = self.flag_guards(view)
        out = []
        for f, n, b, region, rd, wr, fns in guards:
            u = self.unit(view, f, n, b, (), region, rd, wr, fns, keyed, guards)
            u.before = self.before(view, f, n, b)
            out.append(u)
        for m in self.memos_of(view):
            if not m.kf or not self.called(view, m.f.key):
                continue
            rd, wr, fns = self.cut(view, m.region, keyed - {m.f.key})
            u = self.unit(view, m.f, m.node, None, m.kf, m.region, rd, wr, fns, keyed, guards)
            u.skip.add(m.f.key)
            u.inputs -= set(ATOM)
            u.before = self.always(m)
            out.append(u)
        return out

    def rewritten(self, view, u):
        """Inputs that the function of u writes on every path before it tests whether the memo is current."""
        x = self

        class W(Flow):
            def join(self, a, c):
                return a & c

            def cond(self, y, st):
                if y is u.test:
                    hit.append(st)
                return Flow.cond(self, y, st)

            def event(self, y, st):
                t = view.target(y) if callee(y) else None
                if t and t in x.p.fns and x.p.fns[t].hasbody and t not in busy:
                    busy.add(t)
                    r = [e[3] for e in W().run(x.p.fns[t].body, st) if e[0] != "throw"]
                    busy.discard(t)
                    if r:
                        st = frozenset.intersection(*r)
                return st | {this_field(z) for z in stored(y, view.pw)}
        hit, busy = [], {u.f.key}
        W().run(u.f.body, frozenset())
        return frozenset.intersection(*hit) if hit else frozenset()

    def before(self, view, f, n, b):
        """Flag b is set false on every path from the entry of f to its test n."""
        x = self

        class B(Flow):
            def join(self, a, c):
                return a and c

            def event(self, y, st):
                s = flagset(y)
                if s and s[0] == b:
                    return not s[1]
                t = view.target(y) if callee(y) else None
                if t and t in x.p.fns and x.p.fns[t].hasbody and t not in busy:
                    busy.add(t)
                    g = x.p.fns[t]
                    r = [e[3] for e in B().run(g.body, st) if e[0] != "throw"]
                    busy.discard(t)
                    return all(r) if r else st
                return st

            def cond(self, y, st):
                if y is n[3]:
                    hit.append(st)
                return Flow.cond(self, y, st)
        busy, hit = {f.key}, []
        B().run(f.body, False)
        return bool(hit) and all(hit)

    def invalidation(self, view, roots):
        for u in self.units(view):
            if u.before:
                self.r.ok("input-change-invalidates", "%s %s (always recomputed)" % (_m(view.cls), u.label))
                continue
            an = InvAn(view, u)
            bad = {}
            again = self.rewritten(view, u)
            an.summary(u.f.key)
            for (y, fn, l) in an.at_test:
                bad.setdefault((y, fn, l), u.f.key)
            for k in sorted(view.final):
                md = self.p.methods.get(k)
                if not md or md[1].get("ctor") or md[1].get("acc") != "pub" or SETUP.match(short(k)):
                    continue
                s = an.summary(k)
                for (y, fn, l) in (s[0] if s else ()):
                    if y not in again:
                        bad.setdefault((y, fn, l), k)
            self.r.ok("input-change-invalidates", "%s %s: %d inputs" % (_m(view.cls), u.label, len(u.inputs)))
            for (y, fn, l), k in sorted(bad.items()):
                g = self.p.fns[fn]
                self.r.bad("input-change-invalidates", g.file, l, g.q, "%s changes %s" % (u.label, _m(y)),
                           "%s leaves the value kept under %s marked as current (class %s)" % (qn(k), u.label, _m(view.cls)))


ENTRY = {"T": ("setTemperature",), "X": ("compositionChanged",), "D": ("setDensity",), "P": ("setPressure",), "E": ("setElectronTemperature",),
         "Te": ("setElectronTemperature",)}
VALUE = re.compile(r"\b(double|Array2D|DenseMatrix)\b")


# documented as returning what the last rate evaluation left
RAW = {"thirdBodyConcentrations"}


class Rules2(Rules):
    # --------------------------------------------------------------------- R5
    def updaters(self, view):
        """{function: (fields it brings up to date, state they follow)}"""
        out = {}
        for m in self.memos_of(view):
            w, a = out.get(m.f.key, (set(), set()))
            out[m.f.key] = (w | self.cut(view, m.region, set())[1], a | m.ratoms)
        for k in view.all | view.final:
            md = self.p.methods.get(k)
            if not md or md[1].get("ctor") or k in out or not re.match(r"_?(s_)?update|calc", short(k)):
                continue
            f = self.p.fns[k]
            if f.h["params"] and "double *" in str(f.h["params"]):
                continue
            a = self.atoms(view, f, [f.body])
            if a:
                out[k] = (self.cut(view, [f.body], set())[1], a)
        return out

    def freshness(self, view):
        ups = self.updaters(view)
        keys = set().union(*[m.kf for m in self.memos_of(view)]) if self.memos_of(view) else set()
        inside = set()
        for k in ups:
            inside |= self.cut(view, [self.p.fns[k].body], set())[2] | {k}
        tracked = set().union(*[w for w, a in ups.values()]) if ups else set()
        tracked = {o for o in tracked if o in self.p.field and VALUE.search(self.p.field[o]["t"])} - set(ATOM) - keys - set(view.alias)
        # fields also assigned by other operations are parameters
        for k in view.all | view.final:
            md = self.p.methods.get(k)
            if k in inside or not md or md[1].get("ctor"):
                continue
            f = self.p.fns[k]
            const = k.rstrip().endswith(" const")
            for n in walk(f.body):
                for x in stored(n, view.pw):
                    y = this_field(x)
                    if y in tracked and not const and not (callee(n) and short(callee(n)[0]) in ("resize", "push_back", "clear")):
                        # set up once: still a result; a value assigned elsewhere: a parameter
                        tracked.discard(y)
        eager, lazy = set(), {}
        # values that an operation marks outdated are not current just because the state was set
        undone = set()
        for m in self.memos_of(view):
            for k in view.final:
                md = self.p.methods.get(k)
                if m.kf and short(k) == "invalidateCache" and m.kf & view.writes(k) and m.f.key not in self.reach(view, k):
                    undone.add(m.f.key)
        for k, (w, a) in ups.items():
            w = w & tracked
            if not w:
                continue
            reach = {}
            for t in a:
                ent = [e for e in view.final if short(e) in ENTRY.get(t, ())]
                reach[t] = bool(ent) and any(k in self.reach(view, e) for e in ent)
            if a and all(reach.values()) and k not in undone:
                eager |= w
            lazy[k] = frozenset(w)
        for o in sorted(eager):
            self.r.ok("value-read-after-update", "%s %s (brought up to date when the state changes)" % (_m(view.cls), _m(o)))
        tracked -= eager
        lazy = {k: frozenset(w & tracked) for k, w in lazy.items() if w & tracked}
        if not tracked:
            return
        fg = {}
        for f, n, b, region, rd, wr, fns in self.flag_guards(view):
            fg[id(n)] = (region[:1] == [n[4]], frozenset(wr))
        an = Analysis(view, tracked, lazy, lambda k: bool(view.writes(k) & set(ATOM)), fg)
        for k in sorted(view.final):
            md = self.p.methods.get(k)
            if not md or md[1].get("acc") != "pub" or md[1].get("ctor") or SETUP.match(short(k)):
                continue
            if short(k) in RAW:
                continue
            need = an.summary(k)[0]
            self.r.ok("value-read-after-update")
            for o, w in sorted(need.items()):
                if k in inside:
                    continue
                self.r.bad("value-read-after-update", w[0].file, w[1], w[0].q, "%s reads %s" % (k.replace(NS, ""), _m(o)),
                           "%s (class %s) reads %s without bringing it up to date with the state" % (qn(k), _m(view.cls), _m(o)))


    # --------------------------------------------------------------------- R6
    def bump(self, view):
        """Composition and electric potential: every change advances the state number that other objects compare."""
        u = Unit()
        u.flag, u.test, u.reset, u.counter = None, None, {NS + "Phase::m_stateNum"}, True
        u.inputs = {NS + "Phase::m_y", NS + "Phase::m_ym", NS + "Phase::m_mmw", NS + "ThermoPhase::m_phi"}
        u.skip, u.owner, u.quiet, u.compared = set(), set(), set(), {}
        an = InvAn(view, u)
        for k in sorted(view.final):
            md = self.p.methods.get(k)
            if not md or md[1].get("ctor") or md[1].get("acc") != "pub" or SETUP.match(short(k)):
                continue
            if not (view.writes(k) & u.inputs):
                continue
            s = an.summary(k)
            bad = sorted(s[0]) if s else []
            self.r.check("composition-change-advances-state-number", not bad, self.p.fns[k].file, bad[0][2] if bad else self.p.fns[k].line,
                         qn(k), "%s in %s" % (k.replace(NS, ""), _m(view.cls)),
                         bad and "%s (class %s) returns after changing %s without advancing the state number" % (qn(k), _m(view.cls), _m(bad[0][0])))

    def density(self, view):
        """A phase that computes its density from the state does so whenever that state changes."""
        for k in sorted(view.final):
            if short(k) != "calcDensity":
                continue
            f = self.p.fns[k]
            if not any(NS + "Phase::m_dens" in view.writes(g) for g in [k]):
                continue
            a = self.atoms(view, f, [f.body]) & {"T", "P", "X"}
            for t in sorted(a):
                ent = [e for e in view.final if short(e) in ENTRY[t]]
                ok = any(k in self.reach(view, e) for e in ent)
                self.r.check("density-follows-state", ok, f.file, f.line, f.q, "%s %s" % (_m(view.cls), t),
                             "density of %s depends on %s but %s does not recompute it" % (_m(view.cls), t, ENTRY[t][0]))

        # density assigned from the composition elsewhere (a parameter setter): the composition change must assign it too
        asg = {}
        for k in view.all | view.final:
            for n in walk(self.p.fns[k].body):
                if n[0] == "mcall" and short(n[2]) == "assignDensity" and OBJ(n[3]):
                    asg[k] = n
        for k, n in sorted(asg.items()):
            if k not in view.final or short(k) in ("calcDensity", "setDensity", "setConcentrations", "setConcentrationsNoNorm", "setMolarDensity", "restoreState"):
                continue
            a = self.atoms(view, self.p.fns[k], n[4]) & {"X"}
            for t in a:
                ent = [e for e in view.final if short(e) in ENTRY[t]]
                ok = any(self.reach(view, e) & set(asg) for e in ent)
                self.r.check("density-follows-state", ok, self.p.fns[k].file, n[1], k.split("(")[0], "%s %s" % (_m(view.cls), t),
                             "density of %s is assigned from the composition but a change of composition does not assign it" % _m(view.cls))

    # --------------------------------------------------------------------- R7
    def q7(self, f, nodes, loc, seen=None):
        """State read from phases by nodes of a rate-data update; '*' marks every phase of the kinetics object."""
        seen = set() if seen is None else seen
        out = set()
        for top in nodes:
            for n in walk(top):
                if n[0] == "v" and n[2] not in seen:
                    seen.add(n[2])
                    for e in loc.get(n[2], ()):
                        if isnode(e):
                            out |= self.q7(f, [e], loc, seen)
                elif n[0] == "mcall" and self.p.isa(clsof(n[2]), NS + "Phase"):
                    star = "*" if self.from_kin(n[3], loc) else ""
                    s = short(n[2])
                    q = {"X", "F"} if s == "stateMFNumber" else query_atoms(n[2])
                    out |= {star + t for t in q}
                elif n[0] == "mcall" and self.p.isa(clsof(n[2]), NS + "Kinetics") and short(n[2]) == "thirdBodyConcentrations":
                    out |= {"D", "X"}
        return out

    def from_kin(self, o, loc, d=0):
        for n in walk(o) if isnode(o) else ():
            if n[0] == "mcall" and self.p.isa(clsof(n[2]), NS + "Kinetics") and short(n[2]) == "thermo":
                return True
            if n[0] == "v" and d < 3 and any(self.from_kin(e, loc, d + 1) for e in loc.get(n[2], ())):
                return True
        return False

    def rate_data(self):
        base = NS + "ReactionData"
        for cls in sorted(self.p.subclasses(base)):
            if cls not in self.p.classes:
                continue
            for m in self.p.classes[cls]["methods"]:
                f = self.p.fns.get(m["k"])
                if not f or not f.hasbody or short(m["k"]) != "update" or "ThermoPhase" not in m["k"] or "Delegator" in cls:
                    continue
                loc = dict(self.locals_of(f))
                for n in walk(f.body):
                    if n[0] == "asg" and isnode(n[3]) and n[3][0] == "v":
                        loc.setdefault(n[3][2], []).append(n[4])
                cmpd = set()
                for n in walk(f.body):
                    if n[0] in ("bin", "op") and n[2] in ("!=", "=="):
                        a, b = (n[3], n[4]) if n[0] == "bin" else n[4][:2]
                        for x, y in ((a, b), (b, a)):
                            if this_field(peel(x) if isnode(x) else x):
                                cmpd |= self.q7(f, [y], loc)
                read = self.q7(f, [f.body], loc)
                nrm = lambda s: s | ({"D"} if {"T", "P", "X"} <= s else set()) | ({"*D"} if {"*T", "*P", "*X"} <= s else set())
                miss = nrm(read) - nrm(cmpd)
                for line, got, want in self.guarded_reads(f, loc):
                    miss = miss | (nrm(want) - nrm(got))
                # a summed state number covers each phase
                self.r.check("rate-data-compares-inputs", not miss, f.file, f.line, f.q, "compared %s read %s" % ("".join(sorted(cmpd)), "".join(sorted(read))),
                             "rate data also depends on %s, which is not compared" % ", ".join(sorted(miss)))
                bad = self.signals(f)
                self.r.check("rate-data-change-is-signalled", not bad, f.file, bad[0] if bad else f.line, f.q, "return",
                             "returns without reporting a change after storing new values")

    def cond_atoms(self, f, c, loc, flags):
        """State compared with stored values by condition c; None if it compares none."""
        out, any_ = set(), False
        for n in walk(c):
            if n[0] in ("bin", "op") and n[2] in ("!=", "=="):
                a, b = (n[3], n[4]) if n[0] == "bin" else n[4][:2]
                for x, y in ((a, b), (b, a)):
                    if this_field(peel(x) if isnode(x) else x):
                        q = self.q7(f, [y], loc)
                        any_ = any_ or bool(q)
                        out |= q
            elif n[0] == "v" and n[2] in flags:
                any_ = True
                out |= flags[n[2]]
        return out if any_ else None

    def guarded_reads(self, f, loc):
        """(line, state compared, state read) of each block that runs only on a difference."""
        flags, out = {}, []

        def lits(n):
            return isnode(n) and n[0] == "asg" and isnode(n[3]) and n[3][0] == "v" and lit(n[4]) is True

        def collect(s, g):
            if not isnode(s):
                return
            if s[0] == "if":
                c = self.cond_atoms(f, s[3], loc, flags)
                collect(s[4], g | (c or set()))
                collect(s[5], g)
                return
            for n in s[2:]:
                for t in (n if isinstance(n, list) and not isnode(n) else [n]):
                    if isnode(t):
                        if lits(t):
                            flags[t[3][2]] = flags.get(t[3][2], set()) | g
                        collect(t, g)
        collect(f.body, set())
        # a flag initialised by a comparison
        for k, es in loc.items():
            for e in es:
                q = self.cond_atoms(f, e, loc, flags) if isnode(e) else None
                if q:
                    flags[k] = flags.get(k, set()) | q

        def ends(s):
            return isnode(s) and (s[0] == "ret" or s[0] == "{" and any(ends(t) for t in s[2:]))

        def blocks(s):
            if not isnode(s):
                return
            if s[0] == "if":
                c = self.cond_atoms(f, s[3], loc, flags)
                if c is not None and isnode(s[4]) and not ends(s[4]):
                    out.append((s[1], c, self.q7(f, [s[4]], loc)))
            if s[0] == "{":
                for i, t in enumerate(s[2:]):
                    if isnode(t) and t[0] == "if" and ends(t[4]) and t[5] is None:
                        c = self.cond_atoms(f, t[3], loc, flags)
                        if c is not None:
                            out.append((t[1], c, self.q7(f, s[3 + i:], loc)))
            for t in s[2:]:
                for y in (t if isinstance(t, list) and not isnode(t) else [t]):
                    blocks(y)
        blocks(f.body)
        return out

    def signals(self, f):
        """Lines of returns that may report 'unchanged' after new values were stored. States: (stored, locals known true)."""
        x = self

        class S(Flow):
            def join(self, a, b):
                return a | b

            def upd(self, st, fn):
                return frozenset(fn(s) for s in st)

            def event(self, n, st):
                if n[0] == "asg" and isnode(n[3]) and n[3][0] == "v":
                    v = lit(n[4])
                    return self.upd(st, lambda s: (s[0], s[1] | {n[3][2]} if v is True else s[1] - {n[3][2]}))
                w = any(this_field(z) for z in stored(n, x.pw))
                if n[0] == "mcall" and OBJ(n[3]) and short(n[2]) not in ("resize",):
                    t = x.p.fns.get(n[2])
                    w = w or bool(t and t.hasbody and any(this_field(z) for y in walk(t.body) for z in stored(y, x.pw)))
                if callee(n) and short(callee(n)[0]) == "resize":
                    w = False
                return self.upd(st, lambda s: (True, s[1])) if w else st

            def refine(self, n, pos, st):
                y = peel(n) if isnode(n) else n
                if isnode(y) and y[0] == "v":
                    st = frozenset(s for s in st if (y[2] in s[1]) == pos or not (not pos and y[2] in s[1]))
                return st or None
        bad = []
        for kind, line, n, st in S().run(f.body, frozenset({(False, frozenset())})):
            if kind == "throw":
                continue
            r = peel(n[2]) if n is not None and len(n) > 2 and isnode(n[2]) else None
            for w, t in st:
                if w and not (r is not None and (lit(r) is True or r[0] == "v" and r[2] in t)):
                    bad.append(line)
        return bad


    # --------------------------------------------------------------------- rate objects
    def rate_objects(self):
        """A rate that skips its update while the shared data's state equals the one it recorded marks that record (or the
        range within which it skips) outdated whenever its own parameters change."""
        for cls in self.concrete(NS + "ReactionRate"):
            view = self.view(cls)
            for k in sorted(view.final):
                f = self.p.fns[k]
                if not any(t[2].rstrip("& ").endswith("Data") for t in f.params):
                    continue
                data = {t[0] for t in f.params}
                for n in walk(f.body):
                    if n[0] != "if":
                        continue
                    keys = set()
                    for c in walk(n[3]):
                        if c[0] == "bin" and c[2] in ("!=", "=="):
                            for a, b in ((c[3], c[4]), (c[4], c[3])):
                                a, b = peel(a), peel(b)
                                y = this_field(a)
                                if y and b[0] == "m" and peel(b[2])[0] == "v" and peel(b[2])[2] in data:
                                    keys.add(y)
                    rd, wr, fns = self.cut(view, [n[4]], set())
                    keys &= wr
                    if not keys:
                        continue
                    # looking entries up does not change a container
                    wr = {this_field(y) for z in walk(n[4]) if not looks_up(z) for y in stored(z, view.pw)}
                    wr &= set(self.p.field)
                    rng = set()
                    for b in walk(n[4]):
                        if b[0] == "if" and any(z[0] == "ret" for z in walk(b[4])):
                            rng |= {this_field(z) for z in walk(b[3]) if z[0] == "m" and this_field(z)} & wr
                    rng -= keys
                    for reset in ([keys, rng] if rng else [keys]):
                        u = Unit()
                        u.f, u.flag, u.inputs, u.reset, u.owner = f, None, (rd & set(self.p.field)) - wr, reset, ()
                        u.quiet, u.test, u.compared, u.counter, u.skip = {}, None, {}, False, {f.key}
                        u.label = "/".join(sorted(_m(y) for y in reset))
                        an = InvAn(view, u)
                        an.flow = InvRate
                        self.r.ok("rate-parameter-change-invalidates", "%s %s: %d inputs" % (_m(cls), u.label, len(u.inputs)))
                        for m in sorted(view.final):
                            md = self.p.methods.get(m)
                            if not md or md[1].get("ctor") or md[1].get("acc") != "pub" or SETUP.match(short(m)) or m == f.key:
                                continue
                            s = an.summary(m)
                            for (y, fn, l) in sorted(s[0] if s else ()):
                                g = self.p.fns[fn]
                                self.r.bad("rate-parameter-change-invalidates", g.file, l, g.q, "%s changes %s" % (u.label, _m(y)),
                                           "%s leaves the values kept under %s marked as current (class %s)" % (qn(m), u.label, _m(cls)))


def run(prog, rep):
    x = Rules2(prog, rep)
    rep.rule("rate-parameter-change-invalidates", 1, "A rate object's parameter changes outdate what it computed for the recorded state")
    rep.rule("guard-covers-inputs", 40, "A block skipped while its key is unchanged reads no state beyond the compared one (every class it runs in)")
    rep.rule("key-set-with-values", 40, "A key field is set to the present state only where the values kept under it are computed")
    rep.rule("input-change-invalidates", 60, "Every public operation that changes what a kept value was computed from marks it outdated before returning")
    rep.rule("value-read-after-update", 3000, "A kept value is read only after the update that brings it to the present state")
    rep.rule("composition-change-advances-state-number", 200, "Every public operation that changes composition or electric potential advances the state number")
    rep.rule("density-follows-state", 8, "A density computed from the state is recomputed when that state is set")
    rep.rule("rate-data-compares-inputs", 7, "Rate data copied from the phases is refreshed on a change of anything it was computed from")
    rep.rule("rate-data-change-is-signalled", 7, "A refresh of rate data is reported to the rate evaluator on every path")
    for root in ("Phase", "Transport", "Kinetics"):
        for cls in x.concrete(NS + root):
            v = x.view(cls)
            x.cover(v)
            x.owner(v)
            x.invalidation(v, root)
            x.freshness(v)
            if root == "Phase":
                x.bump(v)
                x.density(v)
    x.rate_data()
    x.rate_objects()
    return x
