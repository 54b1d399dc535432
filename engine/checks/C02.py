"""C02: the C interface stays inside the buffers its callers declare."""
import re
from ..core import *
from ..facts import Broken
from ..bounds import UNS, INTS
from ..guards import offset

# Number of values a library routine reads from / writes to its array argument
# (the dimension documented for the routine).
SP, RX, EL = "Species", "Reaction", "Element"
DIM = {}
for names, d in (("""getMoleFractions getMassFractions setMoleFractions setMassFractions setMoleFractions_NoNorm
    setMassFractions_NoNorm getCharges getConcentrations setConcentrations getChemPotentials getElectrochemPotentials
    getEnthalpy_RT_ref getEntropy_R_ref getCp_R_ref getEnthalpy_RT getEntropy_R getCp_R getGibbs_RT getGibbs_ref
    getPartialMolarEnthalpies getPartialMolarEntropies getPartialMolarIntEnergies getPartialMolarCp getPartialMolarVolumes
    getActivities getActivityCoefficients getActivityConcentrations getStandardChemPotentials getPureGibbs getIntEnergy_RT
    getMolecularWeights molecularWeights getStandardVolumes getCreationRates getDestructionRates getNetProductionRates
    getThermalDiffCoeffs getMixDiffCoeffs getBinaryDiffCoeffs getMultiDiffCoeffs setMoles getCoverages setCoverages
    setCoveragesNoNorm""", SP),
    ("""getFwdRatesOfProgress getRevRatesOfProgress getNetRatesOfProgress getFwdRateConstants getRevRateConstants
    getEquilibriumConstants getDeltaEnthalpy getDeltaGibbs getDeltaEntropy getDeltaSSEnthalpy getDeltaSSGibbs
    getDeltaSSEntropy getReactionDelta""", RX),
        ("atomicWeights", EL)):
    for n in names.split():
        DIM[n] = d
# Library routines that take a length with the array but whose own bound is kept through an object
# invariant (setupGrid: resize makes the point count equal to n; findMajorPaths: all node numbers are
# compared with the leading dimension first). The hand-over of the matching length is still checked.
CONTRACT = {"Cantera::Domain1D::setupGrid", "Cantera::ReactionPathDiagram::findMajorPaths"}
COUNTS = {"nSpecies": SP, "nTotalSpecies": SP, "nReactions": RX, "nElements": EL}


def scalar_ptr(t):
    return t.endswith("*") and not t.endswith("**") and t.replace("const ", "").rstrip(" *") in (
        "double", "int", "char", "float", "long", "unsigned long")


class Buf(Flow):
    """State: frozenset of facts
         ("lt"/"le", a, b)       a < b, a <= b over names of locals/parameters
         ("dim", receiver, D, len)   count(D) of receiver <= len"""

    def __init__(self, prog, f, pairs, rep, bind=None, depth=0):
        self.p, self.f, self.pairs, self.rep = prog, f, pairs, rep
        self.init = {}
        self.found = []
        self.depth = depth
        self.muts = {}

    def join(self, a, b):
        return a & b

    # names -------------------------------------------------------------
    def name(self, e):
        e = peel(e)
        if isnode(e) and e[0] == "v":
            return e[2]
        return None

    def res(self, e, d=0):
        """Fingerprint of an expression with single-definition locals expanded."""
        e = peel(e)
        if isnode(e) and e[0] == "op" and e[2] in ("->", "*") and len(e[4]) == 1:
            return self.res(e[4][0], d)
        if isnode(e) and e[0] == "un" and e[2] == "*":
            return self.res(e[3], d)
        if isnode(e) and e[0] == "mcall" and short(e[2]) == "get" and not e[4]:
            return self.res(e[3], d)
        if isnode(e) and e[0] == "v" and e[2] in self.init and d < 6:
            return self.res(self.init[e[2]], d + 1)
        if isnode(e):
            return (e[0],) + tuple(self.res(x, d) if isnode(x) else (tuple(self.res(y, d) for y in x if isnode(y)) if isinstance(x, list) else x)
                                   for x in e[2:])
        return e

    def contains(self, big, small):
        if big == small:
            return True
        return isinstance(big, tuple) and any(self.contains(x, small) for x in big)

    def term(self, e):
        """(term, offset): a local/parameter id or an opaque pure expression, plus a constant."""
        b, o, _ = offset(e)
        b = peel(b)
        if isnode(b) and b[0] == "v":
            return b[2], o
        if isnode(b) and b[0] == "mcall" and short(b[2]) in ("size", "length") and not b[4]:
            return ("size", self.res(b[3], 6)), o
        if isnode(b) and lit(b) is not None and isinstance(lit(b), int):
            return 0, lit(b) + o
        return None, o

    def on_decl(self, d, st):
        if d[3] is not None:
            self.init[d[0]] = d[3]
            e = peel(d[3])
            if isnode(e) and e[0] == "call" and qn(e[2]).startswith("std::min"):
                for a in e[3]:
                    t, o = self.term(a)
                    if t is not None:
                        st = st | {("le", d[0], t, o)}
            else:
                t, o = self.term(d[3])
                if t is not None:
                    st = st | {("le", d[0], t, o), ("le", t, d[0], -o)}
        return st

    def facts_cmp(self, op, l, r):
        (a, ao), (b, bo) = self.term(l), self.term(r)
        out = set()
        for x, y, o2 in ((l, r, op), (r, l, {"<": ">", ">": "<"}.get(op))):
            t = self.term(x)
            y = peel(y)
            if o2 == "<" and t[0] is not None and t[1] == 0 and isnode(y) and y[0] == "mcall" and short(y[2]) in COUNTS:
                out.add(("ltdim", t[0], self.res(y[3]), COUNTS[short(y[2])]))
        if a is None and b is not None and bo == 0:
            out |= self.dimfact(l, {"<": "lt", "<=": "le", "==": "le"}.get(op), b)
        if b is None and a is not None and ao == 0:
            out |= self.dimfact(r, {">": "lt", ">=": "le", "==": "le"}.get(op), a)
        if a is None or b is None:
            return out
        c = bo - ao             # a op b + c
        if op in ("<", "<=", "=="):
            out.add(("le", a, b, c - (op == "<")))
        if op in (">", ">=", "=="):
            out.add(("le", b, a, -c - (op == ">")))
        return out

    def dimfact(self, e, rel, name):
        """count <= name (or, for a loop variable, name < count is recorded by ltdim)"""
        if rel is None:
            return set()
        e = peel(e)
        if isnode(e) and e[0] == "mcall" and short(e[2]) in COUNTS:
            return {("dim", self.res(e[3]), COUNTS[short(e[2])], name)}
        return set()

    def refine(self, c, truth, st):
        if c[0] == "bin" and c[2] in ("<", ">", "<=", ">=", "==", "!="):
            op = c[2]
            if not truth:
                op = {"<": ">=", ">": "<=", "<=": ">", ">=": "<", "==": "!=", "!=": "=="}[op]
            return st | self.facts_cmp(op, c[3], c[4])
        return st

    def le(self, st, a, b, strict=False):
        """a <= b (or a < b) from the difference facts."""
        return self.dist(st, a, b) <= (-1 if strict else 0)

    def dist(self, st, a, b):
        """smallest derivable c with a <= b + c"""
        best = {a: 0}
        q = [a]
        while q:
            x = q.pop()
            for f in st:
                if f[0] == "le" and f[1] == x:
                    c = best[x] + f[3]
                    if c < best.get(f[2], 10 ** 9) and c > -100:
                        best[f[2]] = c
                        q.append(f[2])
        return best.get(b, 10 ** 9)

    def dim_ok(self, st, recv, d, ln):
        for f in st:
            if f[0] == "dim" and f[2] == d and (self.contains(recv, f[1]) or recv is None) and self.le(st, f[3], ln):
                return True
        return False

    def kill(self, st, var):
        return frozenset(f for f in st if not (f[0] == "le" and var in f[1:3] or f[0] == "dim" and f[3] == var))

    def ok(self, n, ptr, what):
        self.found.append((True, n, ptr, what))

    def no(self, n, ptr, what):
        self.found.append((False, n, ptr, what))

    def prove_lt(self, st, e, ln):
        """value of e (an index) < ln"""
        t, o = self.term(e)
        if t is None:
            return False
        if t == 0:
            # constant index: the declared length must be known to exceed it
            return self.dist(st, 0, ln) + o < 0
        if self.dist(st, t, ln) + o < 0:
            return True
        # t < count of an object whose count was checked against the length
        for f in st:
            if f[0] == "le" and f[1] == t and f[3] + o < 0 and f[2] in self.init:
                c = peel(self.init[f[2]])
                if isnode(c) and c[0] == "mcall" and short(c[2]) in COUNTS and \
                        self.dim_ok(st, self.res(c[3]), COUNTS[short(c[2])], ln):
                    return True
            if f[0] == "ltdim" and f[1] == t and o <= 0 and self.dim_ok(st, f[2], f[3], ln):
                return True
        return False

    def prove_extent(self, st, e, ln):
        """an element count e <= ln"""
        t, o = self.term(e)
        if t is not None and self.dist(st, t, ln) + o <= 0:
            return True
        v = peel(e)
        if isnode(v) and v[0] == "v" and v[2] in self.init:
            v = peel(self.init[v[2]])
        if isnode(v) and v[0] == "mcall" and short(v[2]) in COUNTS:
            return self.dim_ok(st, self.res(v[3]), COUNTS[short(v[2])], ln)
        if isnode(v) and v[0] == "mcall" and short(v[2]) == "size":
            s = self.source_dim(v[3])
            return bool(s) and self.dim_ok(st, s[0], s[1], ln)
        return False

    def source_dim(self, e, d=0):
        """(receiver, dimension) of a container expression such as p->molecularWeights()."""
        e = peel(e)
        if isnode(e) and e[0] == "v" and e[2] in self.init and d < 4:
            return self.source_dim(self.init[e[2]], d + 1)
        if isnode(e) and e[0] == "mcall" and short(e[2]) in DIM:
            return self.res(e[3]), DIM[short(e[2])]
        return None

    def ptr(self, e):
        e = peel(e)
        if isnode(e) and e[0] == "v" and e[2] in self.pairs:
            return e[2]
        if isnode(e) and e[0] == "v" and e[2] in self.init:
            return self.ptr(self.init[e[2]])
        return None

    def event(self, n, st):
        k = n[0]
        if k == "asg" and n[3][0] == "v":
            st = self.kill(st, n[3][2])
        elif k == "un" and n[2].endswith(("++", "--")) and n[3][0] == "v":
            st = self.kill(st, n[3][2])
        elif k == "idx":
            p = self.ptr(n[2])
            if p is not None:
                ln = self.pairs[p]
                if self.prove_lt(st, n[3], ln):
                    self.ok(n, p, show(n))
                else:
                    self.no(n, p, show(n) + ": index not bounded by the declared length")
        elif k == "un" and n[2] == "*" and self.ptr(n[3]) is not None:
            self.no(n, self.ptr(n[3]), show(n) + ": element access without a length check")
        c = callee(n)
        if not c:
            return st
        key, obj, args = c
        s = strip_tmpl(short(key))
        m = re.match(r"check(\w+?)ArraySize$", s)
        if m and args:
            nm = self.name(args[0])
            if nm is not None:
                st = st | {("dim", self.res(obj), m.group(1), nm)}
        for i, a in enumerate(args):
            p = self.ptr(a)
            if p is None:
                # pointer arithmetic such as p + len
                continue
            ln = self.pairs[p]
            what = "%s(..)" % s
            q = qn(key)
            if s == "copyString" and i == 1:
                if self.prove_extent(st, args[2], ln):
                    self.ok(n, p, what)
                else:
                    self.no(n, p, what + ": copies up to a length other than the declared one")
            elif q.startswith("std::copy") and len(args) == 3 and i == 2:
                ext = None
                if strip_tmpl(q) == "std::copy_n":
                    good = self.prove_extent(st, args[1], ln)
                else:
                    b0, e0 = peel(args[0]), peel(args[1])
                    good = False
                    if isnode(e0) and e0[0] in ("bin",) and e0[2] == "+" and self.res(e0[3]) == self.res(b0):
                        good = self.prove_extent(st, e0[4], ln)
                    elif isnode(b0) and b0[0] == "mcall" and short(b0[2]) in ("begin", "cbegin", "data") \
                            and self.prove_extent(st, ["mcall", n[1], "std::string::size() const", b0[3], [], 0, ""], ln):
                        good = True
                    elif isnode(e0) and e0[0] == "op" and e0[2] == "+":
                        good = self.prove_extent(st, e0[4][1], ln)
                    elif isnode(b0) and b0[0] == "mcall" and short(b0[2]) in ("begin", "cbegin", "data"):
                        src = self.source_dim(b0[3])
                        good = bool(src) and self.dim_ok(st, src[0], src[1], ln)
                (self.ok if good else self.no)(n, p, what + ("" if good else ": copied range not bounded by the declared length"))
            elif s in DIM and clsof(key).startswith("Cantera::"):
                if self.dim_ok(st, self.res(obj), DIM[s], ln):
                    self.ok(n, p, "%s needs %s count <= length" % (s, DIM[s]))
                else:
                    self.no(n, p, "%s accesses one value per %s of the object; the declared length was not checked against that count"
                            % (s, DIM[s]))
            else:
                # the declared length is handed over together with the buffer
                lens = [j for j, x in enumerate(args) if self.name(x) is not None and self.le(st, self.name(x), ln)
                        and self.name(x) != p]
                f = self.p.fns.get(key)
                if lens:
                    self.ok(n, p, what + " receives the length")
                    if f is not None and f.hasbody and f.q not in CONTRACT and self.depth < 3 and not f.dep and f.file.startswith(("src/", "include/")):
                        j = min(lens, key=lambda j: abs(j - i))
                        if i < len(f.params) and j < len(f.params) and scalar_ptr(f.params[i][2]):
                            sub = Buf(self.p, f, {f.params[i][0]: f.params[j][0]}, self.rep, depth=self.depth + 1)
                            sub.run(f.body, frozenset())
                            for good, n2, p2, w2 in sub.found:
                                if good:
                                    self.ok(n, p, what + " -> " + w2)
                                else:
                                    self.no(n, p, "%s -> %s (%s:%d)" % (what, w2, f.file, n2[1]))
                elif key.startswith(("std::vector", "std::basic_string", "std::string")) and k == "ctor":
                    pass
                elif f is not None and f.extc is None and clsof(key).startswith("Cantera::") or f is not None and f.hasbody:
                    self.no(n, p, what + ": buffer passed on without its length")
        # iterator pair construction [p, p + n)
        if k == "ctor" and len(n[4]) >= 2 and self.ptr(n[4][0]) is not None:
            p = self.ptr(n[4][0])
            e = peel(n[4][1])
            if isnode(e) and e[0] == "bin" and e[2] == "+" and self.ptr(e[3]) == p:
                good = self.prove_extent(st, e[4], self.pairs[p])
                (self.ok if good else self.no)(n, p, "range construction" + ("" if good else " exceeds the declared length"))
        return st


def pairs_of(f):
    """{pointer parameter id: id of the parameter that declares its length}"""
    out = {}
    P = f.params
    fort = f.file.startswith("src/fortran/")
    if fort:
        chars = [q for q in P if q[2] in ("char *", "const char *")]
        # hidden CHARACTER lengths follow all arguments, in order
        lens = [q for q in P if q[2] in ("int", "long", "unsigned long")][-len(chars):] if chars else []
        if len(lens) == len(chars):
            for a, b in zip(chars, lens):
                if a[2] == "char *":
                    out[a[0]] = b[0]
        return out
    for i, q in enumerate(P):
        t = q[2]
        if not scalar_ptr(t) or t == "const char *":
            continue
        if i and P[i - 1][2] in INTS and i - 1 > 0 or i and P[i - 1][2] in ("unsigned long",):
            out[q[0]] = P[i - 1][0]
    return out


def run(prog, rep):
    ext = sorted((f for f in prog.fns.values() if f.hasbody and f.extc
                  and f.file.startswith(("src/clib/", "src/fortran/"))), key=lambda f: (f.file, f.line))
    rep.rule("buffer", 60, "every read or write through a caller's buffer in the C (and CHARACTER buffers in the Fortran) interface is bounded by the "
             "length declared for that buffer: routine extents per dimension need a prior check of that length against that dimension of the same object")
    nb = 0
    for f in ext:
        pr = pairs_of(f)
        if not pr:
            continue
        nb += len(pr)
        names = {q[0]: q[1] for q in f.params}
        fl = Buf(prog, f, pr, rep)
        fl.run(f.body, frozenset())
        seen = set()
        for good, n, p, what in fl.found:
            if good:
                rep.ok("buffer", "%s:%d %s %s" % (f.file, n[1], names[p], what))
            elif (p, what) not in seen:
                seen.add((p, what))
                rep.bad("buffer", f.file, n[1], f.q, names[p], "buffer '%s' with declared length '%s': %s" % (names[p], names[pr[p]], what))
    rep.rule("copyString", 3, "copyString writes at most `length` characters and terminates the result inside the buffer")
    for f in prog.fn("Cantera::copyString"):
        if not f.hasbody:
            continue
        fl = Buf(prog, f, {f.params[1][0]: f.params[2][0]}, rep)
        fl.minlen = True
        fl.run(f.body, frozenset())
        for good, n, p, what in fl.found:
            rep.check("copyString", good, f.file, n[1], f.q, what.split(":")[0], what)
        rep.check("copyString", any("[" in w for g, n, p, w in fl.found), f.file, f.line, f.q, "terminator", "no terminating character is stored")
    rep.extra["buffers"] = nb
