"""Value numbering into polynomial normal forms.

One forward pass over a function body (helpers looked into) gives each stored location a
polynomial over its inputs. Branches whose condition is not settled are joined with an
indicator atom; a loop is summarised from one generic iteration: accumulations become sums
over the loop index, affine stores become families of stores, running offsets become prefix
sums. Nothing is executed and no path is handed to a solver. What the pass cannot express
becomes an 'unk' atom, and a value that contains one is reported as undecided."""
from .core import *
from .poly import *
from .poly import subst as psubst

SIZEQ = {"nSpecies", "nTotalSpecies", "nReactions", "nElements", "nPhases", "size", "nPlogs"}
POSQ = {"nSpecies", "nTotalSpecies"}
STATELESS = {"molecularWeights", "inverseMolecularWeights", "molecularWeight", "nSpecies", "nTotalSpecies", "nReactions",
             "speciesName", "speciesIndex", "size", "siteDensity", "kineticsSpeciesIndex", "minTemp", "maxTemp",
             "refPressure", "name", "type", "phaseIndex", "nElements", "nPhases", "charge", "nAtoms"}
NOWRITE = {"checkFinite"}     # take a pointer to non-const data they do not change
NONMUT = {"getNetProductionRates", "getCreationRates", "getDestructionRates", "getFwdRatesOfProgress",
          "getRevRatesOfProgress", "getNetRatesOfProgress", "saveState", "invalidateCache"}


class Obj:
    __slots__ = ("k",)

    def __init__(self, k):
        self.k = k

    def __eq__(self, o):
        return isinstance(o, Obj) and o.k == self.k

    def __hash__(self):
        return hash(self.k)

    def __repr__(self):
        return "Obj" + oshow(self.k)


class Ptr:
    __slots__ = ("base", "off", "vec")

    def __init__(self, base, off=None, vec=False):
        self.base, self.off, self.vec = base, P(0) if off is None else P(off), vec

    def __eq__(self, o):
        return isinstance(o, Ptr) and o.base == self.base and o.off == self.off

    def __hash__(self):
        return hash((self.base, self.off))

    def __repr__(self):
        return "Ptr(%s+%r)" % (oshow(self.base), self.off)


class Ref:
    __slots__ = ("loc",)

    def __init__(self, loc):
        self.loc = loc

    def __eq__(self, o):
        return isinstance(o, Ref) and o.loc == self.loc


class Lam:
    __slots__ = ("n", "frame")

    def __init__(self, n, frame):
        self.n, self.frame = n, frame

    def __eq__(self, o):
        return isinstance(o, Lam) and o.n is self.n


_n = [0]


def U(why=""):
    _n[0] += 1
    return P(("unk", _n[0], str(why)))


def is_unk(v):
    if isinstance(v, Poly):
        return has(v, lambda a: a[0] in ("unk", "pre"))
    if isinstance(v, Ptr):
        return has(v.off, lambda a: a[0] in ("unk", "pre"))
    return v is None


def bad(v):
    """Holds something the pass could not express (values carried into a loop body are not, yet)."""
    return has(v, lambda a: a[0] == "unk") if isinstance(v, Poly) else is_unk(v)


def is_overlap(v):
    a = v.single()
    return a is not None and a[0] == "unk" and a[2].startswith("overlap")


def unk_why(v):
    out = []

    def pred(a):
        if a[0] in ("unk", "pre"):
            out.append(str(a[2]) if a[0] == "unk" else "loop-carried value")
        return False
    has(v, pred)
    return out[0] if out else ""


class W:
    """mem write: base[idx] = val for all bound index atoms in b (each carries its count)."""
    __slots__ = ("idx", "val", "b")

    def __init__(self, idx, val, b=()):
        self.idx, self.val, self.b = idx, val, tuple(b)

    def sig(self):
        return (self.idx.k, self.b)

    def __eq__(self, o):
        return isinstance(o, W) and self.sig() == o.sig() and self.val == o.val


class Acc:
    """base[idx] += val for all bound index atoms in b, idx being looked up in data (any of them may coincide)."""
    __slots__ = ("idx", "val", "b")

    def __init__(self, idx, val, b=()):
        self.idx, self.val, self.b = idx, val, tuple(b)

    def sig(self):
        return (self.idx.k, self.b, "+")

    def __eq__(self, o):
        return isinstance(o, Acc) and self.sig() == o.sig() and self.val == o.val


class Pre:
    __slots__ = ("id", "base", "outer")

    def __init__(self, i, base, outer):
        self.id, self.base, self.outer = i, base, outer

    def __eq__(self, o):
        return isinstance(o, Pre) and o.id == self.id


class Havoc:
    __slots__ = ("why",)

    def __init__(self, why):
        self.why = why

    def __eq__(self, o):
        return isinstance(o, Havoc)



class Fill(Havoc):
    """every element gets one value"""
    __slots__ = ("val",)

    def __init__(self, val):
        self.why, self.val = "filled", val

    def __eq__(self, o):
        return isinstance(o, Fill) and o.val == self.val

class St:
    __slots__ = ("v", "m", "ver", "pc")

    def __init__(self):
        self.v, self.m, self.ver, self.pc = {}, {}, {}, P(1)

    def copy(self):
        s = St()
        s.v, s.m, s.ver, s.pc = dict(self.v), dict(self.m), dict(self.ver), self.pc
        return s


INF = ("P", (((), (10 ** 12, 1)),))


# ------------------------------------------------------------- order facts

def nonneg_atom(a):
    return a[0] in ("ix", "bx", "size", "psum", "szfld", "szpar") or (a[0] == "q" and a[1] in SIZEQ) or (
        a[0] == "sum" and ge0(unkey(a[2])))


def pos_atom(a):
    return a[0] == "q" and a[1] in POSQ


def ge0(p, depth=0):
    """p >= 0 for all admissible index values, using only syntactic bounds."""
    p = P(p)
    if not p.d:
        return True
    c = p.const()
    if c is not None:
        return c >= 0
    if depth > 6:
        return False
    # eliminate an index that occurs with a negative coefficient: worst case is its maximum
    for m, c in p.d.items():
        for i, e in m:
            a = atom(i)
            if c < 0 and a[0] == "psum" and e == 1:
                ix = a[1]
                tot = mk_total(a)
                body = unkey(a[3])
                here = replace(body, {a[2]: unkey(ix)})
                return ge0(psubst(p, lambda z: (tot - here) if z == a else None), depth + 1)
    for m, c in p.d.items():
        for i, e in m:
            a = atom(i)
            if a[0] == "ix" and e == 1 and len(m) == 1:
                if c < 0:
                    return ge0(psubst(p, lambda z: (ixcount(a) - 1) if z == a else None), depth + 1)
    r = 0
    for m, c in p.d.items():
        if not m:
            r += c
        elif c < 0 or not all(nonneg_atom(atom(i)) or e % 2 == 0 for i, e in m):
            return False
        elif all(pos_atom(atom(i)) and e > 0 for i, e in m):
            r += c
    return r >= 0


def gt0(p):
    return ge0(P(p) - 1)


def mk_total(a):
    """Full sum belonging to a prefix-sum atom ("psum", P idx, ix, P body)."""
    return mk_sum(a[2], unkey(a[3]))


def mk_psum(ix, body):
    """Sum of body over j < ix."""
    body = P(body)
    if not has(body, lambda z: z == ix):
        return body * P(ix)
    return P(("psum", P(ix).k, ("ix", ix[1], "ps"), replace(body, {ix: P(("ix", ix[1], "ps"))}).k))


class Sym:
    MAXDEPTH = 14

    def __init__(self, prog, cls=None, inline=None, assume=None, alias=None, init=None, sizes=None, cg=None, unroll=None,
                 fieldval=None, opaque=(), related=None, fills=None, hook=None):
        """inline(f) -> look into f?; assume(atom) -> 0/1/None; alias(atom) -> Poly/None;
        init(base, idx) -> value of a location not written so far or None; sizes(base) -> Poly/None."""
        self.p, self.cls = prog, cls
        self.cg = cg or CallGraph(prog)
        self.inline = inline or (lambda f: False)
        self.assume = assume or (lambda a: None)
        self.alias_ = alias or (lambda a: None)
        self.init_ = init or (lambda b, i: None)
        self.sizes_ = sizes or (lambda b: None)
        self.fieldval = fieldval or (lambda q, obj: None)
        self.unroll = unroll or (lambda base: None)
        self.opaque = set(opaque)
        self.related = related or (lambda k: ())
        self.fills = fills or (lambda s, ok: None)   # calls that store output arrays of known length
        self.hook = hook or (lambda s, ok, vals, st: None)
        self.nframe = 0
        self.nloop = 0
        self.frames = []
        self.btype = {}
        self.active = []          # active loop index atoms
        self.log = []             # (name, objkey, args, pc, node, file)
        self.notes = []
        self.elemcls = {}
        self.inlined = set()
        self.callbacks = []       # (called function, value, versions after it) of function objects handed out

    # ------------------------------------------------ helpers
    def A(self, a):
        r = self.alias_(a)
        return P(a) if r is None else P(r)

    def fresh_frame(self):
        self.nframe += 1
        return self.nframe

    def index(self, count):
        """A generic loop index for the given trip count."""
        ck = P(count).k
        lv = sum(1 for a in self.active if a[1] == ck)
        return ("ix", ck, str(lv))

    def vkey(self, i):
        return ("v", self.frames[-1]["id"], i)

    def is_scalar_type(self, t):
        t = t.replace("const ", "").replace("&", "").strip()
        return t in ("double", "float", "int", "unsigned long", "unsigned int", "long", "bool", "long double", "char",
                     "unsigned char", "short") or t.startswith("Cantera::Domain") and False

    def is_array_type(self, t):
        t = t.replace("const ", "").strip()
        if t.startswith(("std::vector<", "std::array<", "std::span<", "Eigen::Matrix<", "Eigen::Array<", "Eigen::Map<")):
            return True
        return bool(t.replace(" ", "") in ("double*", "int*", "unsignedlong*", "float*", "double*const"))

    def elem_type(self, t):
        t = t.replace("const ", "").replace("&", "").strip()
        if t.startswith(("std::vector<", "std::array<")):
            d, s = 0, t.index("<") + 1
            e = s
            for j in range(s, len(t)):
                if t[j] == "<":
                    d += 1
                elif t[j] == ">":
                    if d == 0:
                        e = j
                        break
                    d -= 1
                elif t[j] == "," and d == 0:
                    e = j
                    break
            return t[s:e].strip()
        if t.endswith("*"):
            return t[:-1].strip()
        if t.startswith("Eigen::"):
            return "double"
        return t

    def size(self, base, st):
        v = st.v.get(("size", base))
        if v is not None:
            return v
        v = self.sizes_(base)
        if v is not None:
            return P(v)
        return self.A(("size", base))

    # ------------------------------------------------ memory
    def read(self, base, idx, st):
        t = self.btype.get(base)
        if t is not None:
            e = self.elem_type(t)
            if not self.is_scalar_type(e) and not self.is_array_type(e):
                ec = e.replace("*", "").strip()
                if ec.startswith("std::shared_ptr<") or ec.startswith("std::unique_ptr<"):
                    ec = ec[ec.index("<") + 1:-1]
                o = Obj(("elem", base, P(idx).k))
                self.elemcls[("elem", base)] = ec
                return o
            if self.is_array_type(e):
                b = ("row", base, P(idx).k)
                self.btype[b] = e
                return Ptr(b, 0, True)
        if base[0] == "row" and base not in st.m and ("rows", base[1]) in st.m:
            r = self._read(st.m[("rows", base[1])], ("rows", base[1]), self.cellix(base, P(idx)), st)
            a = r.single() if isinstance(r, Poly) else None
            if a is None or a[:2] != ("arr", ("rows", base[1])):
                return r
        return self._read(st.m.get(base, ()), base, P(idx), st)

    def cellix(self, row, j):
        return unkey(row[2]) * P(("szfld", "#columns", row[1])) + j

    def _read(self, writes, base, idx, st, depth=0):
        for n, w in enumerate(reversed(writes)):
            if isinstance(w, Pre):
                return P(("pre", w.id, base, idx.k))
            if isinstance(w, Fill):
                return P(w.val)
            if isinstance(w, Havoc):
                return U(w.why)
            if isinstance(w, Acc):
                rest = self._read(writes[:len(writes) - n - 1], base, idx, st, depth)
                if not isinstance(w.val, Poly):
                    return U("added value")
                tab, bs = {}, []
                for b in w.b:    # own names: the index asked for may be named like one of them
                    n = fresh_ix(replace(unkey(b[1]), tab)) if b[0] == "ix" else b
                    tab[b] = P(n)
                    bs.append(n)
                d = self.compare("==", replace(w.idx, tab), idx, None) * replace(w.val, tab)
                for b in reversed(bs):
                    d = mk_sum(b, d)
                return rest + d if isinstance(rest, Poly) else U("added to no number")
            r = self.match(w, idx)
            if r is None:
                continue
            if isinstance(r, Poly) and depth < 3 and isinstance(w.val, Poly) and is_overlap(r):
                s = self.select(w, idx)
                if s is not None:
                    c, v = s
                    return self.mixv(c, v, self._read(writes[:len(writes) - n - 1], base, idx, st, depth + 1))
            return r
        v = self.init_(base, idx)
        if v is not None:
            return P(v) if isinstance(v, (int, float, Poly)) else v
        return self.A(("arr", base, idx.k))

    def select(self, w, q):
        """(condition that store w wrote location q, the value stored there), for whole-number indices"""
        if not w.b:
            return self.compare("==", q, w.idx, None), w.val
        if len(w.b) != 1 or w.b[0][1] == INF:
            return None
        b = w.b[0]
        lo = w.idx - P(b)
        if has(lo, lambda z: z == b) or w.idx.d.get(((aid(b), 1),)) != 1:
            return None
        j = q - lo
        c = self.natural(j) * self.natural(lo + ixcount(b) - 1 - q)
        return c, replace(w.val, {b: j})

    def natural(self, d):
        """Indicator of d >= 0 for a whole number d."""
        if ge0(d):
            return P(1)
        if gt0(-d):
            return P(0)
        if ge0(d + 1):
            return P(1) - self.compare("==", d, P(-1), None)
        return self.pos(d + 1)

    def match(self, w, q):
        """Value if w certainly wrote location q, None if it certainly did not, unk otherwise."""
        if not w.b:
            d = q - w.idx
            if not d.d:
                return w.val
            if gt0(d) or gt0(-d):
                return None
            return U("overlap")
        cands = self.assign(w, q)
        for tab in cands:
            if (replace(w.idx, tab) - q).d:
                continue
            ok = True
            for b in w.b:
                s, n = tab[b], replace(ixcount(b), tab)
                a = s.single()
                if a is not None and a[0] == "ix" and (a[1] == n.k or b[1] == INF):
                    continue
                if b[1] == INF and ge0(s):
                    continue
                if not (ge0(s) and gt0(n - s)):
                    ok = False
            if ok:
                return replace(w.val, tab) if isinstance(w.val, Poly) else w.val
        lo, hi = w.idx, w.idx
        for b in reversed(w.b):
            lo = psubst(lo, lambda z: P(0) if z == b or (z[0] == "psum" and z[1] == P(b).k) else None)
            hi = self.upper(hi, b)
        if gt0(lo - q):
            return None
        if hi is not None and gt0(q - hi):
            return None
        if self.segments(w, q):
            return None
        return U("overlap %s / %s" % (pshow(w.idx), pshow(q)))

    def segments(self, w, q):
        """w and q lie in consecutive segments (prefix sums of the same lengths); True if they never meet."""
        ws = [a for a in w.idx.atoms() if a[0] == "psum" and w.idx.d.get(((aid(a), 1),)) == 1]
        for a in ws:
            b0 = unkey(a[1]).single()
            if b0 not in w.b or has(w.idx - P(a), lambda z: z == b0 or z[0] == "psum"):
                continue
            for c in q.atoms():
                if c[0] != "psum" or c[2:] != a[2:] or q.d.get(((aid(c), 1),)) != 1:
                    continue
                f = unkey(c[1]).single()
                if f is None or f[0] != "ix" or f[1] != b0[1]:
                    continue
                tab = {b0: P(f)}
                ln = replace(unkey(a[3]), {a[2]: P(f)})
                ow, oq = replace(w.idx - P(a), tab), q - P(c)
                lo, hi = ow, ow
                for b in reversed(w.b):
                    if b == b0:
                        continue
                    b = replace(P(b), tab).single() or b
                    lo = psubst(lo, lambda z: P(0) if z == b else None)
                    hi = self.upper(hi, b)
                if hi is None:
                    continue
                apart = gt0(lo - oq) or gt0(oq - hi)
                if not apart:
                    continue
                for z in (lo, oq):
                    if ge0(lo - z) and ge0(oq - z) and gt0(ln + z - hi) and gt0(ln + z - oq):
                        return True
        return False

    def upper(self, p, b):
        if p is None or b[1] == INF:
            return None
        for i, a in enumerate(p.atoms()):
            if a[0] == "psum" and a[1] == P(b).k:
                tot = mk_total(a)
                here = replace(unkey(a[3]), {a[2]: P(b)})
                p = psubst(p, lambda z: (tot - here) if z == a else None)
        p = psubst(p, lambda z: (ixcount(b) - 1) if z == b else None)
        return p

    def assign(self, w, q):
        """Candidate substitutions bound index -> value."""
        outs = [{}]
        free = set()

        def pred(a):
            if a[0] == "ix":
                free.add(a)
            return False
        has(q, pred)
        for n, b in enumerate(w.b):
            nxt = []
            for tab in outs:
                cnt = replace(ixcount(b), tab)
                for a in free:
                    if a[1] == cnt.k:
                        t = dict(tab)
                        t[b] = P(a)
                        nxt.append(t)
                if n == len(w.b) - 1:
                    idx = replace(w.idx, tab)
                    m = ((aid(b), 1),)
                    if idx.d.get(m) == 1 and not has(idx - P(b), lambda z: z == b):
                        t = dict(tab)
                        t[b] = q - (idx - P(b))
                        if not has(t[b], lambda z: z == b):
                            nxt.append(t)
            outs = nxt
        return outs

    def write(self, base, idx, val, st, b=()):
        w = W(P(idx), val, b)
        l = st.m.get(base, ())
        s = w.sig()
        l = tuple(x for x in l if not (isinstance(x, W) and x.sig() == s))
        st.m[base] = l + (w,)

    # ------------------------------------------------ locations
    def lv(self, n, st):
        """Location of an lvalue expression: ("var", key) | ("cell", base, off) | None"""
        k = n[0]
        if k == "v":
            key = self.vkey(n[2])
            v = st.v.get(key)
            if isinstance(v, Ref):
                return v.loc
            return ("var", self.look(n[2], st)[0])
        if k == "m":
            ob = self.objkey(n[2], st)
            if ob is None:
                return None
            t = self.p.field.get(n[3], {}).get("t", "")
            if self.is_scalar_type(t) or not self.is_array_type(t):
                return ("var", ("f", n[3], ob))
            return None
        if k == "cast":
            return self.lv(n[4], st)
        if k == "idx" or (k == "op" and n[2] == "[]" and len(n[4]) == 2):
            a, i = (n[2], n[3]) if k == "idx" else n[4]
            b = self.val(a, st)
            j = self.val(i, st)
            if isinstance(b, Ptr) and isinstance(j, Poly):
                return ("cell", b.base, b.off + j)
            return None
        if k in ("un", "op") and n[2] == "*":
            b = self.val(n[3] if k == "un" else n[4][0], st)
            if isinstance(b, Ptr):
                return ("cell", b.base, b.off)
            if isinstance(b, Ref):
                return b.loc
            return None
        if k == "un" and n[2] in ("++", "--"):
            self.val(n, st)
            return self.lv(n[3], st)
        if k == "asg":
            self.val(n, st)
            return self.lv(n[3], st)
        if k == "op" and n[2] == "()" and len(n[4]) == 3:
            b = self.val(n[4][0], st)
            i, j = self.val(n[4][1], st), self.val(n[4][2], st)
            if isinstance(i, Poly) and isinstance(j, Poly):
                if isinstance(b, Obj):
                    return ("cell", ("row", b.k, i.k), j)
                if isinstance(b, Ptr):
                    return ("cell", ("row", b.base, i.k), j)
            return None
        if k == "mcall" and short(n[2]) in ("front", "back", "at"):
            b = self.val(n[3], st)
            if isinstance(b, Ptr):
                s = short(n[2])
                if s == "front":
                    return ("cell", b.base, b.off)
                if s == "at":
                    j = self.val(n[4][0], st)
                    return ("cell", b.base, b.off + j) if isinstance(j, Poly) else None
                return ("cell", b.base, b.off + self.size(b.base, st) - 1)
        return None

    def look(self, i, st):
        """Variable lookup through lambda capture: (key, value)"""
        f = self.frames[-1]
        while f is not None:
            key = ("v", f["id"], i)
            if key in st.v or f.get("outer") is None:
                return key, st.v.get(key)
            f = f["outer"]

    def objkey(self, n, st):
        if n is None:
            return None
        v = self.val(n, st)
        if isinstance(v, Obj):
            return v.k
        if isinstance(v, Ptr):
            if v.base[0] == "entries":
                x = self.read(v.base, v.off, st)
                return x.k if isinstance(x, Obj) else v.base
            return v.base
        return None

    def load(self, loc, st):
        if loc is None:
            return U("location")
        if loc[0] == "var":
            key = loc[1]
            v = st.v.get(key)
            if isinstance(v, Ref):
                return self.load(v.loc, st)
            if v is not None:
                return v
            if key[0] == "f":
                return self.field_init(key, st)
            return U("uninitialised " + str(key))
        return self.read(loc[1], loc[2], st)

    def field_init(self, key, st):
        _, q, ob = key
        v = self.fieldval(q, ob)
        if v is not None:
            return P(v) if not isinstance(v, (Obj, Ptr)) else v
        t = self.p.field.get(q, {}).get("t", "")
        i = self.p.field.get(q, {}).get("init")
        if not t and q.startswith("std::pair<"):
            t = tmplargs(q.rsplit("::", 1)[0])["first second".split().index(q.rsplit("::", 1)[1])]
        if t.startswith("const ") and i is not None and lit(i) is not None and not isinstance(lit(i), str):
            return P(lit(i))
        if self.is_scalar_type(t):
            ver = st.ver.get(ob)
            if "unsigned" in t:
                return self.A(("szfld", q, ob))
            return self.A(("fld", q, ob) if ver is None else ("fld", q, ob, ver))
        if self.is_array_type(t):
            b = ("ofld", q, ob)
            self.btype.setdefault(b, t)
            return Ptr(b, 0, True)
        return Obj(("ofld", q, ob))

    def store(self, loc, v, st, why=""):
        if loc is None:
            return
        if loc[0] == "var":
            o = st.v.get(loc[1])
            if isinstance(o, Ref) and not isinstance(v, Ref):
                return self.store(o.loc, v, st)
            st.v[loc[1]] = v
        else:
            self.write(loc[1], loc[2], v, st)

    # ------------------------------------------------ expressions
    def num(self, n, st):
        v = self.val(n, st)
        return v if isinstance(v, Poly) else U("number " + show(n))

    def val(self, n, st):
        if n is None or not isnode(n):
            return U("none")
        k = n[0]
        m = getattr(self, "x_" + {"{": "blk"}.get(k, k), None)
        if m is not None:
            return m(n, st)
        if k in ("call", "mcall", "op", "ctor"):
            return self.call(n, st)
        return U("construct " + k)

    def x_lit(self, n, st):
        if n[2] == "s":
            return n[3]
        if n[2] == "n":
            return Obj(("null",))
        v = lit(n)
        return P(int(v)) if isinstance(v, bool) else P(v)

    def x_v(self, n, st):
        key, v = self.look(n[2], st)
        if isinstance(v, Ref):
            return self.load(v.loc, st)
        if v is None:
            return U("variable " + n[3])
        return v

    def x_g(self, n, st):
        if self.is_scalar_type(n[3]):
            return self.A(("g", n[2].split("::")[-1]))
        if self.is_array_type(n[3]):
            return Ptr(("g", n[2]), 0, True)
        return Obj(("g", n[2]))

    def x_enum(self, n, st):
        return P(int(n[3])) if len(n) > 3 and n[3] is not None else self.A(("g", n[2]))

    def x_this(self, n, st):
        f = self.frames[-1]
        while f.get("obj") is None and f.get("outer") is not None:
            f = f["outer"]
        return Obj(f["obj"])

    def x_m(self, n, st):
        ob = self.objkey(n[2], st)
        if ob is None:
            b = self.val(n[2], st)
            return self.A(("mem", n[3], b.k)) if isinstance(b, Poly) and not is_unk(b) else U("member " + n[3])
        return self.load(("var", ("f", n[3], ob)), st)

    def x_cast(self, n, st):
        return self.val(n[4], st)

    def x_idx(self, n, st):
        return self.load(self.lv(n, st), st)

    def x_asg(self, n, st):
        r = add = self.val(n[4], st)
        loc = self.lv(n[3], st)
        if n[2] != "=":
            l = self.load(loc, st) if loc is not None else U("lhs")
            r = self.arith(n[2][:-1], l, r)
        if loc is None:
            t = self.val(n[3], st)
            if isinstance(t, Ptr) and isinstance(r, Ptr) and n[3][0] == "m":
                st.v[("f", n[3][3], self.objkey(n[3][2], st))] = r
                return r
            if isinstance(t, Ptr):
                st.m[t.base] = (Havoc("assignment " + show(n)),)
            self.notes.append("assignment to %s not modelled" % show(n[3]))
            return r
        if loc[0] == "var" and loc[1][0] == "v" and isinstance(r, Lam):
            pass
        if n[2] in ("+=", "-=") and loc[0] == "cell" and isinstance(loc[2], Poly) and isinstance(add, Poly) and self.looked_up(loc[2]):
            st.m[loc[1]] = st.m.get(loc[1], ()) + (Acc(loc[2], add if n[2] == "+=" else -add),)
            return r
        self.store(loc, r, st)
        return r

    def looked_up(self, idx):
        """an index that depends on the turn of a loop through data"""
        return any(z[0] in ("arr", "szfld", "fld") and any(has(z, lambda y: y == ix) for ix in self.active) for z in idx.atoms())

    def arith(self, o, a, b):
        if isinstance(a, Ptr) and isinstance(b, Poly) and o in ("+", "-"):
            return Ptr(a.base, a.off + b if o == "+" else a.off - b)
        if isinstance(b, Ptr) and isinstance(a, Poly) and o == "+":
            return Ptr(b.base, b.off + a)
        if isinstance(a, Ptr) and isinstance(b, Ptr) and o == "-" and a.base == b.base:
            return a.off - b.off
        if isinstance(a, Poly) and isinstance(b, Poly):
            if o == "+":
                return a + b
            if o == "-":
                return a - b
            if o == "*":
                return a * b
            if o == "/":
                return a / b if b.d else U("division by zero")
        return U("operator " + o)

    def x_bin(self, n, st):
        o = n[2]
        if o in ("&&", "||", "<", ">", "<=", ">=", "==", "!="):
            return self.cond(n, st)
        a, b = self.val(n[3], st), self.val(n[4], st)
        if o == "/" and n[3][0] == "lit" and n[3][2] == "i" and n[4][0] == "lit" and n[4][2] == "i":
            return P(int(n[3][3]) // int(n[4][3]))
        return self.arith(o, a, b)

    def x_un(self, n, st):
        o = n[2]
        if o == "!":
            return P(1) - self.cond(n[3], st)
        if o == "&":
            loc = self.lv(n[3], st)
            if loc and loc[0] == "cell":
                v = self.read(loc[1], loc[2], st)
                if isinstance(v, Obj):
                    return v
                return Ptr(loc[1], loc[2])
            if loc and loc[0] == "var":
                v = self.load(loc, st)
                if isinstance(v, (Obj, Ptr)):
                    return v
                if loc[1][0] == "v":        # a local number whose address is taken becomes a cell
                    b = ("loc",) + tuple(loc[1][1:]) + ("adr",)
                    if isinstance(v, Poly) and not is_unk(v):
                        self.write(b, P(0), v, st)
                    else:
                        st.m[b] = (Havoc("uninitialised"),)
                    st.v[loc[1]] = Ref(("cell", b, P(0)))
                    return Ptr(b, 0)
                return Ref(loc)
            return self.val(n[3], st)
        if o == "*":
            v = self.val(n[3], st)
            if isinstance(v, (Obj,)):
                return v
            return self.load(self.lv(n, st), st)
        if o == "-":
            v = self.val(n[3], st)
            return -v if isinstance(v, Poly) else U("neg")
        if o == "+":
            return self.val(n[3], st)
        if o.replace("post", "") in ("++", "--"):
            loc = self.lv(n[3], st)
            old = self.load(loc, st)
            new = self.arith("+" if "++" in o else "-", old, P(1))
            self.store(loc, new, st)
            return old if o.startswith("post") else new
        return U("unary " + o)

    def x_cond(self, n, st):
        c = self.cond(n[2], st)
        k = c.const()
        if k is not None:
            return self.val(n[3] if k else n[4], st)
        a = st.copy()
        x = self.val(n[3], a)
        b = st.copy()
        y = self.val(n[4], b)
        return self.mixv(c, x, y)

    def x_init(self, n, st):
        l = [x for x in children(n)]
        if len(l) == 1:
            return self.val(l[0], st)
        return U("initialiser list")

    def x_lambda(self, n, st):
        return Lam(n, self.frames[-1])

    def x_new(self, n, st):
        return Obj(("new", n[1], self.frames[-1]["id"]))

    def x_throw(self, n, st):
        return U("throw")

    def mixv(self, c, x, y):
        if x is y or (type(x) == type(y) and x == y):
            return x
        if isinstance(x, Poly) and isinstance(y, Poly):
            if bad(x) or bad(y):
                return U("join of " + (unk_why(x) or unk_why(y)))
            return c * x + (P(1) - c) * y
        return U("join")

    # ------------------------------------------------ conditions
    def ind(self, *a):
        t = ("if",) + a
        v = self.assume(t)
        if v is not None:
            return P(v)
        return P(t)

    def cond(self, n, st):
        k = n[0]
        if k == "cast":
            return self.cond(n[4], st)
        if k == "un" and n[2] == "!":
            return P(1) - self.cond(n[3], st)
        if k == "bin" and n[2] in ("&&", "||"):
            a = self.cond(n[3], st)
            ka = a.const()
            if ka is not None:
                if n[2] == "&&":
                    return self.cond(n[4], st) if ka else P(0)
                return P(1) if ka else self.cond(n[4], st)
            b = self.cond(n[4], st)
            return a * b if n[2] == "&&" else a + b - a * b
        if k in ("bin", "op") and n[2] in ("<", ">", "<=", ">=", "==", "!="):
            l, r = (n[3], n[4]) if k == "bin" else n[4]
            return self.compare(n[2], self.val(l, st), self.val(r, st), n)
        v = self.val(n, st)
        return self.truth(v, n)

    def truth(self, v, n):
        if isinstance(v, Poly):
            c = v.const()
            if c is not None:
                return P(1 if c else 0)
            if bad(v):
                return self.ind("unkc", show(n))
            if all(a[0] == "if" for a in v.atoms()):
                return v
            if gt0(v):
                return P(1)
            return self.compare("!=", v, P(0), n)
        if isinstance(v, Obj):
            if v.k == ("null",):
                return P(0)
            return self.ind("obj", v.k)
        if isinstance(v, Ptr):
            return P(1)
        return self.ind("unkc", show(n))

    def compare(self, o, a, b, n):
        if isinstance(a, str) and isinstance(b, str):
            return P(int((a == b) == (o == "=="))) if o in ("==", "!=") else U("string order")
        if isinstance(a, Poly) and isinstance(b, Poly):
            d = a - b
            c = d.const()
            if c is not None:
                return P(int({"<": c < 0, ">": c > 0, "<=": c <= 0, ">=": c >= 0, "==": c == 0, "!=": c != 0}[o]))
            if bad(d):
                return self.ind("unkc", show(n))
            if o in ("==", "!="):
                if gt0(d) or gt0(-d):
                    return P(int(o == "!="))
                k = min(d.k, (-d).k, key=lambda x: pshow(unkey(x)))
                e = self.ind("eq", k)
                return e if o == "==" else P(1) - e
            if o in ("<", ">="):
                d = -d           # a < b  <=>  b - a > 0
                r = self.pos(d)
                return r if o == "<" else P(1) - r
            r = self.pos(d)
            return r if o == ">" else P(1) - r
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.base == b.base:
            return self.compare(o, a.off, b.off, n)
        if o in ("==", "!="):
            for x, y in ((a, b), (b, a)):
                if isinstance(x, Obj) and (y == Obj(("null",)) or isinstance(y, Poly) and y.const() == 0):
                    e = P(1) - self.truth(x, n)
                    return e if o == "==" else P(1) - e
                if isinstance(x, Ptr) and (y == Obj(("null",)) or isinstance(y, Poly) and y.const() == 0):
                    return P(int(o == "!="))
            ka = a.k if isinstance(a, Obj) else a
            kb = b.k if isinstance(b, Obj) else b
            if isinstance(ka, (str, tuple)) and isinstance(kb, (str, tuple)):
                if ka == kb:
                    return P(int(o == "=="))
                e = self.ind("same", ka, kb)
                return e if o == "==" else P(1) - e
        return self.ind("unkc", show(n))

    def pos(self, d):
        """Indicator of d > 0."""
        if gt0(d):
            return P(1)
        if ge0(-d):
            return P(0)
        return self.ind("pos", d.k)

    # ------------------------------------------------ merging
    def mix(self, c, a, b):
        """State that is a where c and b where not c."""
        r = St()
        r.pc = a.pc
        for k in set(a.v) | set(b.v):
            x, y = a.v.get(k), b.v.get(k)
            if k[0] == "f":
                x = self.field_init(k, a) if x is None else x
                y = self.field_init(k, b) if y is None else y
            if x is None or y is None:
                if k[0] == "v":
                    continue
                if k[0] == "size":
                    r.v[k] = U("size join")
                    continue
                r.v[k] = U("join")
                continue
            r.v[k] = self.mixv(c, x, y)
        for k in set(a.m) | set(b.m):
            x, y = a.m.get(k, ()), b.m.get(k, ())
            if x == y:
                r.m[k] = x
                continue
            n = 0
            while n < len(x) and n < len(y) and x[n] == y[n]:
                n += 1
            out = list(x[:n])
            sx, sy = x[n:], y[n:]
            if any(isinstance(w, Acc) for w in sx + sy):
                if all(isinstance(w, Acc) for w in sx + sy):
                    r.m[k] = tuple(out) + tuple(Acc(w.idx, c * w.val, w.b) for w in sx) + tuple(Acc(w.idx, (P(1) - c) * w.val, w.b) for w in sy)
                else:
                    r.m[k] = tuple(out) + (Havoc("join"),)
                continue
            if any(isinstance(w, (Havoc, Pre)) for w in sx + sy):
                r.m[k] = tuple(out) + (Havoc("join"),)
                continue
            done = set()
            for w in sx + sy:
                if w.sig() in done:
                    continue
                done.add(w.sig())
                va = self._read(x, k, w.idx, a)
                vb = self._read(y, k, w.idx, b)
                out.append(W(w.idx, self.mixv(c, va, vb), w.b))
            r.m[k] = tuple(out)
        for k in set(a.ver) | set(b.ver):
            x, y = a.ver.get(k), b.ver.get(k)
            r.ver[k] = x if x == y else ("cond", c.k, x, y)
        return r

    # ------------------------------------------------ statements
    def ex(self, s, st):
        if st is None or s is None:
            return st
        k = s[0]
        if k == "{":
            for c in s[2:]:
                st = self.ex(c, st)
                if st is None:
                    return None
            return st
        if k == "decl":
            for d in s[2:]:
                self.decl(d, st)
                if self.dead:
                    self.dead = False
                    return None
            return st
        if k == "if":
            return self.if_(s, st)
        if k in ("for", "rfor"):
            return self.loop(s, st)
        if k == "while":
            f = self.asfor(s)
            return self.loop(f, st) if f is not None else self.wild(s, st)
        if k == "do":
            return self.wild(s, st)
        if k == "ret":
            v = None
            if s[2] is not None:
                v = self.val(s[2], st)
                if self.dead:
                    self.dead = False
                    return None
            self.frames[-1]["ret"].append((st.pc, st, v))
            return None
        if k == "cont":
            self.frames[-1]["cont"][-1].append((st.pc, st, None))
            return None
        if k == "break":
            self.frames[-1]["brk"][-1].append((st.pc, st, None))
            return None
        if k == "throw":
            return None
        if k == "try":
            return self.ex(s[2], st)
        if k in ("nop", "goto"):
            return st
        if k in ("case", "default"):
            return self.ex(s[3] if k == "case" else s[2], st)
        if k == "switch":
            return self.switch(s, st)
        self.val(s, st)
        if self.dead:
            self.dead = False
            return None
        return st

    dead = False

    def nexits(self):
        f = self.frames[-1]
        return len(f["ret"]) + sum(map(len, f["cont"])) + sum(map(len, f["brk"]))

    def if_(self, s, st):
        if s[2] is not None:
            st = self.ex(s[2], st)
            if st is None:
                return None
        c = self.cond(s[3], st)
        if self.dead:
            self.dead = False
            return None
        k = c.const()
        if k is not None:
            return self.ex(s[4] if k else s[5], st)
        pc = st.pc
        a = st.copy()
        a.pc = pc * c
        n0 = self.nexits()
        ra = self.ex(s[4], a)
        n1 = self.nexits()
        b = st.copy()
        b.pc = pc * (P(1) - c)
        rb = self.ex(s[5], b) if s[5] is not None else b
        n2 = self.nexits()
        if ra is None and rb is None:
            return None
        if ra is None:
            if n1 == n0:
                rb.pc = pc        # the other side always throws
            return rb
        if rb is None:
            if n2 == n1:
                ra.pc = pc
            return ra
        if n2 == n0:
            ra.pc = rb.pc = pc
        else:
            ra.pc = ra.pc + rb.pc
            rb.pc = ra.pc
        return self.mix(c, ra, rb)

    def switch(self, s, st):
        if s[2] is not None:
            st = self.ex(s[2], st)
        v = self.val(s[3], st)
        if not isinstance(v, Poly) or is_unk(v):
            return self.wild(s, st)
        body = s[4]
        items = body[2:] if body and body[0] == "{" else [body]
        flat = []
        for it in items:
            x = it
            labs = []
            while x is not None and x[0] in ("case", "default"):
                if x[0] == "default":
                    labs.append(None)
                    x = x[2]
                else:
                    labs.append(x[-1] if isinstance(x[-1], int) else None if x[2] is None else lit(x[2]))
                    x = x[3]
            flat.append((labs, x))
        known = []
        for labs, x in flat:
            known += [l for l in labs if l is not None and l not in known]
        c = v.const()
        if c is not None:
            return self.arm(flat, c if c in known else None, st)
        if len(known) > 12 or any(not isinstance(l, int) for l in known):
            return self.wild(s, st)
        rest, outs = P(1), []
        for l in known + [None]:
            cl = self.compare("==", v, P(l), s) if l is not None else P(1)
            if cl.const() == 0:
                continue
            b = st.copy()
            b.pc = st.pc * rest * cl
            outs.append((cl, self.arm(flat, l, b)))
            rest = rest * (P(1) - cl)
        r = None
        for cl, x in reversed(outs):
            if x is None:
                continue
            if r is None:
                r = x
                continue
            pc = x.pc + r.pc
            r = self.mix(cl, x, r)
            r.pc = pc
        return r

    def arm(self, flat, label, st):
        """Runs a switch body from the given label (None: default, or past the end)."""
        run, cur = False, st
        self.frames[-1]["brk"].append([])
        for labs, x in flat:
            if not run and label in labs:
                run = True
            if run and cur is not None and x is not None:
                cur = self.ex(x, cur)
        return self.fold(self.frames[-1]["brk"].pop(), cur)

    def fold(self, exits, cur):
        """Merge early exits (pc, state, value) into the state cur."""
        r = cur
        for pc, s, v in reversed(exits):
            r = s if r is None else self.mix(pc, s, r)
        return r

    def decl(self, d, st):
        key = self.vkey(d[0])
        t = d[2]
        i = d[3]
        if i is None:
            if self.is_array_type(t) or "[" in t:
                b = ("loc", self.frames[-1]["id"], d[0])
                self.btype[b] = t if "[" not in t else "std::vector<%s>" % t.split("[")[0].strip()
                st.v[key] = Ptr(b, 0, True)
                st.m.pop(b, None)
                if t.startswith("std::vector"):
                    st.v[("size", b)] = P(0)
            elif not self.is_scalar_type(t):
                st.v[key] = Obj(("loc", self.frames[-1]["id"], d[0]))
            else:
                st.v.pop(key, None)
            return
        if t.rstrip().endswith("&"):
            loc = self.lv(i, st)
            if loc is not None:
                v = self.load(loc, st)
                if isinstance(v, (Obj, Ptr, Lam, str)):
                    st.v[key] = v
                else:
                    st.v[key] = Ref(loc)
                return
            v = self.val(i, st)
            st.v[key] = v
            return
        if t.startswith(("std::vector<", "std::array<")):
            b = ("loc", self.frames[-1]["id"], d[0])
            self.btype[b] = t
            st.m.pop(b, None)
            x = peel(i) if i[0] != "ctor" else i
            if i[0] == "ctor" and (len(i[4]) == 0):
                st.v[("size", b)] = P(0)
                st.v[key] = Ptr(b, 0, True)
                return
            if i[0] == "ctor" and i[4] and not (len(i[4]) == 1 and "vector" in i[3].split("(", 1)[1]):
                n = self.val(i[4][0], st)
                if isinstance(n, Poly):
                    st.v[("size", b)] = n
                    v = self.val(i[4][1], st) if len(i[4]) > 1 else P(0)
                    if not isinstance(v, Poly):
                        v = P(0)
                    ix = self.index(n)
                    self.write(b, P(ix), v, st, (ix,))
                    st.v[key] = Ptr(b, 0, True)
                    return
            v = self.val(i[4][0] if i[0] == "ctor" and len(i[4]) == 1 else i, st)
            st.v[key] = Ptr(b, 0, True)
            if isinstance(v, Ptr):
                self.copy_all(v, b, st)
            else:
                st.m[b] = (Havoc("vector initialiser"),)
            return
        v = self.val(i, st)
        st.v[key] = v

    def copy_all(self, src, b, st):
        st.v[("size", b)] = self.size(src.base, st)
        l = st.m.get(src.base, ())
        if not l or any(isinstance(w, (Havoc, Pre)) for w in l):
            n = self.size(src.base, st)
            ix = self.index(n)
            st.m[b] = (W(P(ix), self.read(src.base, P(ix), st), (ix,)),)
            return
        n = self.size(src.base, st)
        ix = self.index(n)
        base = W(P(ix), self._read((), src.base, P(ix), st), (ix,))
        st.m[b] = (base,) + l

    # ------------------------------------------------ loops
    def written(self, before, after):
        ks = {k for k in set(after.v) | set(before.v) if after.v.get(k) is not before.v.get(k) and
              not (after.v.get(k) == before.v.get(k))}
        ms = {k for k in after.m if after.m[k] != before.m.get(k, ())}
        vs = {k for k in after.ver if after.ver[k] != before.ver.get(k)}
        return ks, ms, vs

    def head(self, s, st):
        """(count, binder(ix, st) -> None, base) of a loop or None if its shape is not understood."""
        if s[0] == "rfor":
            v = self.val(s[3], st)
            vid, t = s[2][0], s[2][2]
            if isinstance(v, Obj) and "std::pair<const" in t:
                # the entries of a map, in its order
                b = ("entries", v.k, self.vers(v.k, st))
                self.btype[b] = "std::vector<%s>" % pairtype(t)
                v = Ptr(b, 0, True)
            if not isinstance(v, Ptr):
                return None
            n = self.size(v.base, st)
            names = s[2][6] if len(s[2]) > 6 else None
            if names and not t.replace("const ", "").startswith("std::pair<"):
                return None

            def bind(ix, t2):
                loc = ("cell", v.base, v.off + P(ix))
                x = self.read(v.base, v.off + P(ix), t2)
                if names:
                    if isinstance(x, Obj):
                        for (bid, _), part in zip(names, ("first", "second")):
                            loc = ("var", ("f", "%s::%s" % (pairtype(t), part), x.k))
                            y = self.load(loc, t2)
                            t2.v[self.vkey(bid)] = y if isinstance(y, (Obj, Ptr)) else Ref(loc)
                elif isinstance(x, (Obj, Ptr)):
                    t2.v[self.vkey(vid)] = x
                elif t.rstrip().endswith("&"):
                    t2.v[self.vkey(vid)] = Ref(loc)
                else:
                    t2.v[self.vkey(vid)] = x
            return n, bind, v.base, [], False, None
        ini, c, inc = s[2], s[3], s[4]
        if c is None:
            return None
        while c[0] == "cast":
            c = c[4]
        if ini is not None and ini[0] == "decl":
            for d in ini[2:]:
                if d[3] is None:
                    return None
            for d in ini[2:]:
                self.decl(d, st)
        elif ini is not None:
            self.val(ini, st)
        incs = []

        def flat(x):
            if x is not None and x[0] == "bin" and x[2] == ",":
                flat(x[3])
                flat(x[4])
            elif x is not None:
                incs.append(x)
        flat(inc)
        if c[0] == "bin":
            o, l, r = c[2], c[3], c[4]
        elif c[0] == "op" and len(c[4]) == 2:
            o, l, r = c[2], c[4][0], c[4][1]
        else:
            return None
        l, r = peel(l), peel(r)
        rev = False
        down = l[0] == "un" and l[2] in ("post--", "--post") and l[3][0] == "v" or l[0] == "un" and l[2].endswith("--") and "post" in l[2] and l[3][0] == "v"
        if down and o in (">", "!=") and lit(r) == 0:
            # i-- > 0: the body sees n-1 ... 0
            ivar = l[3][2]
            a = st.v.get(self.vkey(ivar))
            if not isinstance(a, Poly) or is_unk(a):
                return None
            n, a0, b, extras, rev = a, P(0), a, incs, True
            a, after = P(0), P(-1)
        else:
            ivar = step = None
            extras = []
            for x in incs:
                iv, sp = self.stepof(x)
                if iv is not None and ivar is None and any(z[0] == "v" and z[2] == iv for z in (l, r, *self.plusv(l), *self.plusv(r))):
                    ivar, step = iv, sp
                else:
                    extras.append(x)
            if step not in (1, -1):
                return None
            shift = P(0)
            if not (l[0] == "v" and l[2] == ivar) and not (r[0] == "v" and r[2] == ivar):
                # i + m < n
                for side, z in (("l", l), ("r", r)):
                    if any(w[0] == "v" and w[2] == ivar for w in self.plusv(z)):
                        for w in (z[3], z[4]):
                            w = peel(w)
                            if not (w[0] == "v" and w[2] == ivar):
                                shift = self.val(w, st)
                        if side == "l":
                            l = ("v", z[1], ivar)
                        else:
                            r = ("v", z[1], ivar)
                        break
                if not isinstance(shift, Poly) or is_unk(shift):
                    return None
            if l[0] == "v" and l[2] == ivar:
                e = r
            elif r[0] == "v" and r[2] == ivar:
                e, o = l, {">": "<", ">=": "<=", "!=": "!=", "<": ">", "<=": ">="}.get(o, "?")
            else:
                return None
            a = st.v.get(self.vkey(ivar))
            b = self.val(e, st)
            if shift.d:
                b = self.arith("-", b, shift)
            if isinstance(a, Ptr) and isinstance(b, Ptr) and a.base == b.base:
                n = b.off - a.off
            elif isinstance(a, Poly) and isinstance(b, Poly):
                n = b - a
            else:
                return None
            if step == 1:
                if o not in ("<", "<=", "!="):
                    return None
                if o == "<=":
                    n = n + 1
                after = b if o != "<=" else self.arith("+", b, P(1))
            else:
                if o not in (">", ">=") or not isinstance(a, Poly):
                    return None
                n = -n
                rev = True
                after = b if o == ">" else b - 1
                if o == ">=":
                    n = n + 1
                a = b if o == ">=" else b + 1
            if is_unk(n):
                return None
        vk = self.vkey(ivar)

        def bind(ix, t2):
            t2.v[self.vkey(ivar)] = Ptr(a.base, a.off + P(ix)) if isinstance(a, Ptr) else a + P(ix)
        base = None
        if isinstance(b, Poly):
            sa = b.single()
            if sa is not None and sa[0] == "size":
                base = sa[1]
        return n, bind, base, extras, rev, (vk, after)

    def stepof(self, x):
        if x[0] == "un" and x[2].replace("post", "") in ("++", "--") and x[3][0] == "v":
            return x[3][2], 1 if "++" in x[2] else -1
        if x[0] == "asg" and x[2] in ("+=", "-=") and x[3][0] == "v" and lit(x[4]) == 1:
            return x[3][2], 1 if x[2] == "+=" else -1
        if x[0] == "op" and x[2] in ("++", "--") and isnode(x[4][0]) and x[4][0][0] == "v":
            return x[4][0][2], 1 if x[2] == "++" else -1
        return None, None

    def plusv(self, z):
        """The variables of a plain sum of two terms."""
        if z[0] == "bin" and z[2] == "+":
            return [w for w in (peel(z[3]), peel(z[4])) if w[0] == "v"]
        return []

    def asfor(self, s):
        """while (i < n) { ...; i++; } as the for loop it is."""
        cond, body = s[3], s[4]
        if s[2] is not None or cond is None or body is None or body[0] != "{" or len(body) < 3:
            return None
        if any(isnode(z) and z[0] == "cont" for z in walk(body)):
            return None
        last = body[-1]
        iv, _ = self.stepof(last) if isnode(last) else (None, None)
        if iv is None:
            return None
        return ("for", s[1], None, cond, last, tuple(body[:-1]))

    def loop(self, s, st):
        if s[0] == "for" and s[2] is not None and s[2][0] == "decl":
            pass
        h = self.head(s, st)
        if h is None:
            return self.wild(s, st)
        n, bind, base, extras, rev, iv = h
        body = s[4] if s[0] == "rfor" else s[5]
        un = self.unroll(base) if base is not None else None
        c = n.const()
        if un is None and c is not None and 0 <= c <= 4:
            un = int(c)
        if un is not None:
            self.frames[-1]["brk"].append([])
            cur = st
            for j in (reversed(range(un)) if rev else range(un)):
                if cur is None:
                    break
                self.frames[-1]["cont"].append([])
                bind_st = cur
                self.bindc(bind, j, bind_st)
                cur = self.ex(body, bind_st)
                cur = self.fold(self.frames[-1]["cont"].pop(), cur)
                for x in extras:
                    if cur is not None:
                        self.val(x, cur)
            if cur is not None and iv is not None and not self.frames[-1]["brk"][-1]:
                cur.v[iv[0]] = iv[1]
            return self.fold(self.frames[-1]["brk"].pop(), cur)
        if c is not None and c <= 0:
            return st
        self.nloop += 1
        lid = self.nloop
        ix = self.index(n)
        bound, inner, bs0 = [None], [None], [()]

        def once(start, pcs=True):
            self.active.append(ix)
            t = start.copy()
            t.pc = P(1)
            bind(ix, t)
            bound[0] = t.v.get(iv[0]) if iv is not None else None
            self.frames[-1]["cont"].append([])
            self.frames[-1]["brk"].append([])
            nr = len(self.frames[-1]["ret"])
            ll = len(self.log)
            e = self.ex(body, t)
            cs = self.frames[-1]["cont"].pop()
            bs = self.frames[-1]["brk"].pop()
            rs = self.frames[-1]["ret"][nr:]
            del self.frames[-1]["ret"][nr:]
            e = self.fold(cs, e)
            for x in extras:
                if e is not None:
                    self.val(x, e)
            self.active.pop()
            if e is not None and iv is not None:
                want = bound[0]
                got = e.v.get(iv[0])
                if got is not None and not (got == want):
                    bs = bs or [1]       # the body moves the loop variable itself
            inner[0], bs0[0] = rs, bs
            return e, bs or rs, ll
        # which locations change?
        e, esc, ll = once(st)
        del self.log[ll:]
        if e is None:
            self.leaves(inner[0], st, st)
            return st
        if esc:
            ends = [e] + [b[1] for b in bs0[0] if isinstance(b, tuple)]
            out = st
            for x in ends:
                out = self.havoc(out, x, "loop left early") if x is ends[0] else self.havoc_more(out, st, x, "loop left early")
            for k in list(out.v):
                # an index: some whole number
                vals = [x.v.get(k) for x in ends if x.v.get(k) is not st.v.get(k)]
                if is_unk(out.v[k]) and isinstance(st.v.get(k), Poly) and not is_unk(st.v[k]) and vals and all(
                        isinstance(v, Poly) and not is_unk(v) and self.whole(v, ix, st.v[k]) for v in vals):
                    q = lambda z: replace(P(z), {ix: P(("bx", 90))}).k
                    out.v[k] = P(("some", n.k, tuple(q(b[0]) for b in bs0[0] if isinstance(b, tuple)), tuple(q(v) for v in vals)))
            self.leaves(inner[0], out, st)
            return out
        ks, ms, vs = self.written(st, e)
        for k in ks:
            if k[0] == "size" and k not in st.v and (k[1][0] != "loc"):
                st.v[k] = self.size(k[1], st)
        for _ in range(3):
            pre = self.prestate(st, ks, ms, vs, lid)
            e, esc, ll = once(pre)
            del self.log[ll:]
            if e is None:
                return st
            k2, m2, v2 = self.written(pre, e)
            k2 = {k for k in k2 if self.live(k, st) or k[0] == "f"}
            m2 = {m for m in m2 if self.livem(m, st)}
            if k2 <= ks and m2 <= ms and v2 <= vs:
                break
            ks, ms, vs = ks | k2, ms | m2, vs | v2
        ks = {k for k in ks if self.live(k, st) or k[0] in ("f", "size")}
        # counters: value = previous + loop-independent amount
        pre = self.prestate(st, ks, ms, vs, lid)
        for it in range(3):
            cnt = {}
            for k in ks:
                a = ("pre", lid, k, P(0).k)
                x = e.v.get(k)
                if isinstance(x, Poly):
                    d = x - P(a)
                    if not is_unk(d):
                        cnt[k] = d
                elif isinstance(x, Ptr) and isinstance(st.v.get(k), Ptr) and x.base == st.v[k].base:
                    d = x.off - P(a)
                    if not is_unk(d):
                        cnt[k] = d
            if it == 0:
                recs = {} if rev else self.recurrences(ks - set(cnt), lid, ix, st, e)
            pre2 = self.prestate(st, ks, ms, vs, lid)
            for k, at in recs.items():
                if k not in cnt:
                    pre2.v[k] = at(P(ix))
            for k, d in cnt.items():
                s0 = st.v.get(k)
                if s0 is None:
                    s0 = self.field_init(k, st) if k[0] == "f" else None
                if rev:
                    pass          # partial sums run the other way
                elif isinstance(s0, Poly):
                    pre2.v[k] = s0 + mk_psum(ix, d)
                elif isinstance(s0, Ptr):
                    pre2.v[k] = Ptr(s0.base, s0.off + mk_psum(ix, d))
            ll = len(self.log)
            e, esc, ll = once(pre2)
            if e is None:
                del self.log[ll:]
                return st
            new = set()
            for k in ks - set(cnt) - set(recs):
                x = e.v.get(k)
                a = ("pre", lid, k, P(0).k)
                if isinstance(x, Poly) and not is_unk(x - P(a)):
                    new.add(k)
            e2 = e
            if not new:
                break
            if it < 2:
                del self.log[ll:]
            # redo with all pre symbols so that the deltas of both generations are visible
            pre3 = self.prestate(st, ks, ms, vs, lid)
            for k, at in recs.items():
                pre3.v[k] = at(P(ix))
            e, esc, ll = once(pre3)
            del self.log[ll:]
            for k in cnt:
                e.v[k] = (P(("pre", lid, k, P(0).k)) + cnt[k]) if isinstance(e.v.get(k), Poly) else e.v.get(k)
            for k in new:
                e.v[k] = e2.v[k]
        # summarise
        out = st.copy()
        for k in ks:
            a = ("pre", lid, k, P(0).k)
            s0 = st.v.get(k)
            if s0 is None and k[0] == "f":
                s0 = self.field_init(k, st)
            if k in cnt:
                d = cnt[k]
                if isinstance(s0, Poly):
                    out.v[k] = s0 + mk_sum(ix, d)
                elif isinstance(s0, Ptr):
                    out.v[k] = Ptr(s0.base, s0.off + mk_sum(ix, d))
                else:
                    out.v[k] = U("accumulated from nothing")
                continue
            if k in recs:
                out.v[k] = recs[k](n)
                continue
            x = e.v.get(k)
            if isinstance(x, Poly):
                x = self.settle(x, lid, ix, st, e, ks, ms, cnt)
                d = x - P(a)
                if not is_unk(d):
                    out.v[k] = (s0 if isinstance(s0, Poly) else U("start")) + mk_sum(ix, d)
                elif not is_unk(x):
                    out.v[k] = self.last(x, ix, n, s0, rev)
                elif isinstance(s0, Poly) and self.factor(e.v[k], a, lid, ix, st, e, ks, ms, cnt) is not None:
                    g = self.factor(e.v[k], a, lid, ix, st, e, ks, ms, cnt)
                    out.v[k] = s0 * self.func("exp", mk_sum(ix, self.func("log", g)))
                else:
                    out.v[k] = U("loop value of %s" % (k,))
            elif x is None:
                out.v.pop(k, None)
            elif isinstance(x, (Obj, Ptr, Lam, str)) and not has(getattr(x, "k", getattr(x, "base", ())), lambda z: z == ix):
                out.v[k] = x
            else:
                out.v[k] = U("loop value")
        for m in ms:
            if not self.livem(m, st) and m[0] == "loc":
                continue
            res = list(st.m.get(m, ()))
            if any(isinstance(w, Acc) for w in e.m.get(m, ())):
                ws = [w for w in e.m[m] if not isinstance(w, Pre)]
                for w in ws:
                    if isinstance(w, Acc):
                        d = self.settle(w.val, lid, ix, st, e, ks, ms, cnt)
                    elif isinstance(w, W) and w is ws[0] and isinstance(w.val, Poly) and not any(isinstance(x, W) for x in ws[1:]):
                        d = self.settle(w.val - P(("pre", lid, m, w.idx.k)), lid, ix, st, e, ks, ms, cnt)
                    else:
                        d = U("stored and added to")
                    if is_unk(d) or has(d, lambda z: z[0] == "pre" and z[1] == lid):
                        res.append(Havoc("loop sum: " + unk_why(d)))
                    else:
                        res.append(Acc(w.idx, d, (ix,) + w.b))
                out.m[m] = tuple(res)
                if m[0] == "row" and has(m[2], lambda z: z == ix):
                    # the turns add to rows of their own
                    st0 = ("rows", m[1])
                    own = res[len(st.m.get(m, ())):]
                    ok = all(isinstance(w, Acc) for w in own) and not has(m[1], lambda z: z == ix) and st0 not in ms
                    out.m[st0] = st.m.get(st0, ()) + (tuple(Acc(self.cellix(m, w.idx), w.val, w.b) for w in own) if ok else (Havoc("rows of an array added to by a loop"),))
                    out.m.pop(m, None)
                    for r in st.m:
                        if r[0] == "row" and r[1] == m[1] and r != m:
                            out.m[r] = st.m[r] + (Havoc("row of an array written by a loop"),)
                continue
            for w in e.m.get(m, ()):
                if isinstance(w, Pre):
                    continue
                if isinstance(w, Havoc):
                    res.append(w)
                    continue
                v = w.val
                dep = has(w.idx, lambda z: z == ix) or any(has(b[1], lambda z: z == ix) for b in w.b)
                if isinstance(v, Poly):
                    a = ("pre", lid, m, w.idx.k)
                    d = self.settle(v - P(a), lid, ix, st, e, ks, ms, cnt)
                    v = self.settle(v, lid, ix, st, e, ks, ms, cnt)
                    old = lambda: self._read(tuple(res0), m, w.idx, st)
                    res0 = st.m.get(m, ())
                    if not is_unk(d) and any(isinstance(x, Acc) for x in res0):
                        res.append(Acc(w.idx, d, (ix,) + w.b))
                        continue
                    if not is_unk(d):
                        v = (old() + d) if dep else old() + mk_sum(ix, d)
                    elif not is_unk(v):
                        if not dep:
                            v = self.last(v, ix, n, None, rev)
                    else:
                        v = U("loop store: " + unk_why(v))
                elif not dep:
                    pass
                b = ((ix,) + w.b) if dep else w.b
                res.append(W(w.idx, v, b))
            if m[0] == "row" and not rev and has(m[2], lambda z: z == ix) and not has(m[1], lambda z: z == ix) and not e.m.get(("rows", m[1])):
                # every turn writes a row of its own: keep the pattern, indexed by row and column
                st0 = ("rows", m[1])
                if all(isinstance(w, Pre) or isinstance(w, W) and (not isinstance(w.val, Poly) or not has(w.val.k, lambda z: z[0] == "last")) for w in e.m.get(m, ())):
                    pat = list(st.m.get(st0, ()))
                    for w in e.m[m]:
                        if isinstance(w, Pre):
                            continue
                        v = w.val
                        if isinstance(v, Poly):
                            v = self.settle(v, lid, ix, st, e, ks, ms, cnt)
                            if has(v.k, lambda z: z[0] == "pre" and z[1] == lid):
                                v = U("loop store")
                        pat.append(W(self.cellix(m, w.idx), v, (ix,) + w.b))
                    out.m[st0] = tuple(pat)
                    out.m.pop(m, None)
                    for r in st.m:
                        if r[0] == "row" and r[1] == m[1] and r != m:
                            out.m[r] = st.m[r] + (Havoc("row of an array written by a loop"),)
                    continue
            out.m[m] = tuple(res)
        for v in vs:
            out.ver[v] = ("loop", e.ver.get(v))
        if iv is not None and iv[0] in st.v:
            out.v[iv[0]] = iv[1]
        return out

    def bindc(self, bind, j, st):
        class _C:
            pass
        # bind() expects an index atom; P(ix) of a Poly is the Poly itself
        bind(P(j), st)

    def live(self, k, st):
        return k in st.v

    def livem(self, m, st):
        return m[0] != "loc" or m in st.m or ("size", m) in st.v

    def prestate(self, st, ks, ms, vs, lid):
        t = st.copy()
        for k in ks:
            v = st.v.get(k)
            if v is None and k[0] == "f":
                v = self.field_init(k, st)
            a = P(("pre", lid, k, P(0).k))
            if isinstance(v, Ptr):
                t.v[k] = Ptr(v.base, a, v.vec)
            elif isinstance(v, (Obj, Ref)):
                t.v[k] = v
            elif v is not None:
                t.v[k] = a
        for m in ms:
            t.m[m] = (Pre(lid, m, st.m.get(m, ())),)
        for v in vs:
            t.ver[v] = ("loopver",)
        return t

    def settle(self, x, lid, ix, st, e, ks, ms, cnt):
        """Replace loop-entry symbols of locations this loop does not write by their value before the loop."""
        def f(a):
            if a[0] != "pre" or a[1] != lid:
                return None
            _, _, k, idx = a
            if k in ms or k in e.m and any(isinstance(w, Pre) for w in e.m[k]):
                q = psubst(unkey(idx), f)
                for w in e.m.get(k, ()):
                    if isinstance(w, Pre):
                        continue
                    if isinstance(w, (Havoc, Acc)):
                        return None
                    # every iteration's instance of w must miss q
                    g = W(w.idx, P(0), ((ix,) + w.b) if has(w.idx, lambda z: z == ix) else w.b)
                    if not w.b and not (w.idx - q).d and w.idx.d.get(((aid(ix), 1),)) and \
                            not has(w.idx - P(ix) * w.idx.d[((aid(ix), 1),)], lambda z: z == ix):
                        continue    # read before its own iteration stores it; no other iteration stores there
                    if self.match(g, q) is not None:
                        return None
                v = self._read(st.m.get(k, ()), k, q, st)
                return v if isinstance(v, Poly) else None
            return None
        return psubst(x, f)

    def recurrences(self, ks, lid, ix, st, e):
        """Scalars whose next values are functions of each other's previous ones: their value after any number of turns
        is the solution of that recurrence, ("rec", component, turns, start values, next values)."""
        def pres(x):
            out = set()
            has(x, lambda z: out.add(z) or False if z[0] == "pre" and z[1] == lid else False, {})
            return out
        grp = {}
        for k in ks:
            s0 = st.v.get(k)
            if s0 is None and k[0] == "f":
                s0 = self.field_init(k, st)
            x = e.v.get(k)
            if isinstance(x, Poly) and isinstance(s0, Poly) and not bad(x) and not bad(s0):
                grp[k] = (s0, x)
        while True:
            ok = {("pre", lid, k, P(0).k) for k in grp}
            drop = [k for k, (s0, x) in grp.items() if not pres(x) <= ok]
            if not drop:
                break
            for k in drop:
                del grp[k]
        # values that merely take the last turn's result of something else are not recurrences
        if not any(pres(x) for s0, x in grp.values()):
            return {}
        order = sorted(grp, key=str)
        tab = {("pre", lid, k, P(0).k): P(("hole", i)) for i, k in enumerate(order)}
        tab[ix] = P(("hole", "i"))
        s = tuple(grp[k][0].k for k in order)
        u = tuple(replace(grp[k][1], tab).k for k in order)
        return {k: (lambda n, i=i: P(("rec", i, P(n).k, s, u))) for i, k in enumerate(order)}

    def factor(self, x, a, lid, ix, st, e, ks, ms, cnt):
        """g if one iteration multiplies the value by g"""
        g = P(0)
        i = aid(a)
        for m, c in x.d.items():
            w = dict(m)
            if w.pop(i, 0) != 1:
                return None
            g = g + Poly({tuple(sorted(w.items())): c})
        if has(g, lambda z: z == a):
            return None
        g = self.settle(g, lid, ix, st, e, ks, ms, cnt)
        return None if is_unk(g) or has(g, lambda z: z[0] == "pre" and z[1] == lid) else g

    def last(self, x, ix, n, s0, rev=False):
        if not has(x, lambda z: z == ix):
            if gt0(n):
                return x
            c = self.pos(n)
            if isinstance(s0, Poly):
                return c * x + (P(1) - c) * s0
            return x
        if rev:
            return U("last value of a loop that runs downwards")
        return P(("last", n.k, replace(x, {ix: P(("bx", 90))}).k))

    def havoc(self, st, e, why):
        out = st.copy()
        ks, ms, vs = self.written(st, e)
        for k in ks:
            if self.live(k, st) or k[0] == "f":
                v = st.v.get(k)
                out.v[k] = U(why)
        for m in ms:
            out.m[m] = out.m.get(m, ()) + (Havoc(why),)
        for v in vs:
            out.ver[v] = ("havoc", why)
        return out

    def havoc_more(self, out, st, e, why):
        o = self.havoc(st, e, why)
        ks, ms, vs = self.written(st, e)
        for k in ks:
            if k in o.v:
                out.v[k] = o.v[k]
        for m in ms:
            out.m[m] = out.m.get(m, ()) + (Havoc(why),)
        for v in vs:
            out.ver[v] = ("havoc", why)
        return out

    def whole(self, v, ix, start):
        """v is the loop's index, a whole number, or the starting value plus one"""
        return all(c.denominator == 1 for c in (v - start).d.values()) and (v == P(ix) or not (v - start).d or (v - start).const() is not None) and \
            not has(start, lambda z: z[0] in ("fn", "inv", "sum"))

    def wild(self, s, st):
        """A loop or switch whose shape is not modelled: everything it writes becomes unknown."""
        t = st.copy()
        f = self.frames[-1]
        f["cont"].append([])
        f["brk"].append([])
        nr = len(f["ret"])
        parts = [x for x in children(s)] if s[0] != "for" else [x for x in (s[2], s[5], s[4]) if x is not None]
        e = t
        if s[0] == "rfor":
            parts = [s[4]]
            t.v[self.vkey(s[2][0])] = U("loop element")
        for x in parts:
            if e is None:
                break
            e = self.ex(x, e)
        rs = f["ret"][nr:]
        ex = f["cont"].pop() + f["brk"].pop() + rs
        del f["ret"][nr:]
        out = st
        for y in [e] + [q[1] for q in ex]:
            if y is not None:
                out = self.havoc(out, y, "loop not modelled")
        self.notes.append("%s loop not modelled" % s[0])
        self.leaves(rs, out, st)
        return out

    def leaves(self, rs, out, st):
        """The enclosing function may return from inside a loop that is not modelled."""
        if rs:
            self.frames[-1]["ret"].append((st.pc * P(("if", "unkc", "returns in a loop")), out.copy(), U("returned inside a loop")))

    # ------------------------------------------------ calls
    def call(self, n, st):
        key, obj, args = callee(n)
        s = strip_tmpl(short(key)) if not short(key).startswith("operator") else short(key)
        q = strip_tmpl(qn(key))
        k = n[0]
        if k == "op" and s.startswith("operator"):
            o = n[2]
            if o == "[]" and len(args) == 1:
                return self.load(self.lv(n, st), st)
            if o in ("*", "->") and not args:
                v = self.val(obj, st)
                if isinstance(v, Ptr):
                    return self.load(("cell", v.base, v.off), st) if o == "*" else v
                return v
            if o == "()":
                v = self.val(obj, st)
                if isinstance(v, Lam):
                    return self.call_lambda(v, [self.val(a, st) for a in args], args, st)
                loc = self.lv(n, st)
                if loc is not None:
                    return self.load(loc, st)
                return U("call operator")
            if o in ("+", "-", "*", "/") and len(args) == 1:
                return self.arith(o, self.val(obj, st), self.val(args[0], st))
            if o in ("++", "--"):
                loc = self.lv(obj, st)
                v = self.load(loc, st)
                nv = self.arith("+" if o == "++" else "-", v, P(1))
                self.store(loc, nv, st)
                return nv
            if o in ("==", "!=", "<", ">", "<=", ">="):
                return self.compare(o, self.val(obj, st), self.val(args[0], st), n)
            if o in ("+=", "-=", "*=", "/="):
                loc = self.lv(obj, st)
                if loc is not None:
                    v = self.arith(o[0], self.load(loc, st), self.val(args[0], st))
                    self.store(loc, v, st)
                    return v
            if o == "=" and len(args) == 1:
                r = self.val(args[0], st)
                t = self.val(obj, st)
                if isinstance(t, Ptr) and t.vec:
                    if isinstance(r, Ptr):
                        self.copy_all(r, t.base, st)
                    elif isinstance(r, Poly):
                        nn = self.size(t.base, st)
                        ix = self.index(nn)
                        self.write(t.base, P(ix), r, st, (ix,))
                    else:
                        st.m[t.base] = (Havoc("assignment"),)
                    return t
                loc = self.lv(obj, st)
                if loc is not None:
                    self.store(loc, r, st)
                return r
        if k == "ctor":
            if len(args) == 1:
                return self.val(args[0], st)
            if not args and self.is_scalar_type(n[2]):
                return P(0)
            vs = [self.val(a, st) for a in args]
            return Obj(("tmp", n[2]))
        if q in ("std::move", "std::forward", "std::ref", "std::as_const") and args:
            return self.val(args[0], st)
        r = self.std(q, s, key, obj, args, n, st)
        if r is not NotImplemented:
            return r
        ov = self.val(obj, st) if obj is not None else None
        if isinstance(ov, Ptr) and obj is not None and (ov.vec or q.startswith("std::vector") or "__normal_iterator" in q):
            return self.vec(s, ov, args, n, st)
        if isinstance(ov, Obj) and q.startswith(("std::shared_ptr", "std::unique_ptr", "std::__shared_ptr")) and s in ("get", "operator->", "operator*"):
            return ov
        if isinstance(ov, Obj) and s == "operator bool":
            return self.truth(ov, n)
        # repository function
        f = self.p.fns.get(key)
        ok = ov.k if isinstance(ov, Obj) else None
        if ov is not None and ok is None and isinstance(ov, Ptr):
            ok = ov.base
        if ok is not None and f is not None and f.cls in ("Cantera::Array2D", "Cantera::DenseMatrix") and not f.h.get("const") and (s == "zero" or s == "resize" and len(args) >= 2):
            for a in args:
                self.val(a, st)
            self.matrix_changed(s, ok, st)
            return P(0)
        tgt = self.resolve(key, n, ok)
        f2 = self.p.fns.get(tgt) if tgt else f
        if tgt is not None and f2 is not None and f2.hasbody and len(self.frames) < self.MAXDEPTH and short(key) not in self.opaque \
                and self.inline(f2) and tgt not in [x.get("fn") for x in self.frames]:
            if obj is None and f2.cls and not f2.static and k == "call":
                pass
            return self.enter(f2, args, ok if obj is not None else (("this",) if f2.cls and not f2.static else None), st)
        return self.opaque_call(s, key, ok, args, n, st, f2 or f)

    def resolve(self, key, n, ok):
        """The function a call runs when the dynamic class of its receiver is known."""
        if n[0] != "mcall" or not n[5]:
            return key
        if ok == ("this",) and self.cls:
            return self.cg.final_impl(key, self.cls) or key
        c = self.dyncls(ok)
        if c:
            return self.cg.final_impl(key, c) or key
        ov = self.p.overriders.get(key, set())
        return None if ov else key

    def dyncls(self, ok):
        return None

    def enter(self, f, args, ok, st):
        fr = {"id": self.fresh_frame(), "ret": [], "cont": [], "brk": [], "obj": ok, "fn": f.h["key"], "outer": None}
        vals = []
        for i, (pid, name, t, *rest) in enumerate(f.params):
            if i < len(args) and isnode(args[i]):
                if t.rstrip().endswith("&") and not t.startswith("const "):
                    loc = self.lv(args[i], st)
                    v = self.load(loc, st) if loc is not None else self.val(args[i], st)
                    if not isinstance(v, (Obj, Ptr, Lam)) and loc is not None:
                        v = Ref(loc)
                else:
                    v = self.val(args[i], st)
            elif i < len(args):
                v = args[i] if args[i] is not None else U("arg")
            else:
                v = U("default argument")
            vals.append((pid, v, t))
        if self.dead:
            return U("dead")
        self.frames.append(fr)
        for pid, v, t in vals:
            st.v[("v", fr["id"], pid)] = v
        self.inlined.add(f.h["key"])
        pc = st.pc
        st2 = st.copy()
        st2.pc = P(1)
        end = self.ex(f.body, st2)
        self.frames.pop()
        exits = list(fr["ret"])
        if end is not None:
            exits.append((end.pc, end, None))
        if not exits:
            self.dead = True
            return U("does not return")
        rv = exits[-1][2]
        fin = exits[-1][1]
        for c, s, v in reversed(exits[:-1]):
            if v is not None or rv is not None:
                rv = self.mixv(c, v if v is not None else U("no value"), rv if rv is not None else U("no value"))
            fin = self.mix(c, s, fin)
        st.v, st.m, st.ver = fin.v, fin.m, fin.ver
        for k in [k for k in st.v if k[0] == "v" and k[1] == fr["id"]]:
            del st.v[k]
        st.pc = pc
        return rv if rv is not None else P(0)

    def call_lambda(self, lam, vals, args, st):
        n = lam.n
        fr = {"id": self.fresh_frame(), "ret": [], "cont": [], "brk": [], "obj": None, "fn": ("lam", n[1]), "outer": lam.frame}
        if len(self.frames) > self.MAXDEPTH:
            return U("depth")
        self.frames.append(fr)
        for q, v in zip(n[4], vals):
            st.v[("v", fr["id"], q[0])] = v
        pc = st.pc
        st2 = st.copy()
        st2.pc = P(1)
        end = self.ex(n[5], st2)
        self.frames.pop()
        exits = list(fr["ret"])
        if end is not None:
            exits.append((end.pc, end, None))
        if not exits:
            self.dead = True
            return U("does not return")
        rv, fin = exits[-1][2], exits[-1][1]
        for c, s, v in reversed(exits[:-1]):
            if v is not None or rv is not None:
                rv = self.mixv(c, v if v is not None else U(), rv if rv is not None else U())
            fin = self.mix(c, s, fin)
        st.v, st.m, st.ver = fin.v, fin.m, fin.ver
        st.pc = pc
        return rv if rv is not None else P(0)

    def callback(self, s, lam, st):
        """A function object handed to code outside the repository: evaluated once for arguments of its own."""
        t = st.copy()
        vals = []
        for i, q in enumerate(lam.n[4]):
            vals.append(P(("par", "callback", i)) if self.is_scalar_type(q[2].replace("&", "").replace("const", "").strip()) else U("callback argument"))
        dead = self.dead
        r = self.call_lambda(lam, vals, [], t)
        self.dead = dead
        self.callbacks.append((s, r, dict(t.ver)))
        for ok, v in t.ver.items():
            if st.ver.get(ok) != v:
                st.ver[ok] = v
        for k in set(t.v) | set(st.v):
            if t.v.get(k) != st.v.get(k) and k in st.v:
                st.v[k] = U("changed by a callback")
        for m in set(t.m):
            if t.m.get(m) != st.m.get(m):
                st.m[m] = st.m.get(m, ()) + (Havoc("written by a callback"),)

    def version(self, ok, st):
        return st.ver.get(ok)

    def akey(self, v):
        if isinstance(v, Poly):
            return v.k
        if isinstance(v, Obj):
            return v.k
        if isinstance(v, Ptr):
            return ("ptr", v.base, v.off.k)
        if isinstance(v, str):
            return v
        return "?"

    def opaque_call(self, s, key, ok, args, n, st, f):
        ptypes = [p[2] for p in f.params] if f is not None else []
        vals = []
        for i, a in enumerate(args):
            v = self.val(a, st)
            vals.append(v)
        if self.dead:
            return U("dead")
        ret = f.ret if f is not None else ""
        const = bool(f.h.get("const")) if f is not None else False
        isget = s.startswith("get") and f is not None
        name = s
        ver = None
        if ok is not None and s not in STATELESS:
            ver = self.vers(ok, st)
        pt = ptypes + [""] * len(vals)
        insk = tuple(self.akey(v) for v, t in zip(vals, pt)
                     if not (isinstance(v, (Ptr, Ref)) and self.outparam(t)))
        for i, (v, t) in enumerate(zip(vals, pt)):
            if isinstance(v, Ref) and t.rstrip().endswith(("&", "*")) and not t.startswith("const"):
                o = U("output of " + s)
                if self.outparam(t) and (isget or const):
                    nm = self.fillname(s, i, sum(self.outparam(x) for x in ptypes))
                    o = self.A(("q", nm, ok, ver, insk + (P(0).k,)))
                self.store(v.loc, o, st)
        self.hook(s, ok, vals, st)
        fl = self.fills(s, ok)
        for i, (v, t) in enumerate(zip(vals, ptypes + [""] * len(vals))):
            if isinstance(v, Ptr) and self.outparam(t) and s not in NOWRITE:
                if fl is not None or isget or const or s in NONMUT:
                    cnt = P(fl).k if fl is not None else self.fillcount(s, ok, f, st)
                    ix = ("ix", cnt, "f")
                    nm = self.fillname(s, i, sum(self.outparam(x) for x in ptypes))
                    self.write(v.base, v.off + P(ix), self.A(("q", nm, ok, ver, insk + (P(ix).k,))), st, (ix,))
                else:
                    st.m[v.base] = st.m.get(v.base, ()) + (Havoc("written by " + s),)
        mut = not (const or isget or s in NONMUT or s in STATELESS) and ok is not None
        self.log.append((s, ok, tuple(vals), st.pc, n, ver, tuple(self.active), st.ver.get(ok)))
        for v in vals:
            if isinstance(v, Lam):
                self.callback(s, v, st)
        if mut:
            if s == "restoreState":
                st.ver[ok] = "R" + self.akeys(insk)
            else:
                old = st.ver.get(ok)
                st.ver[ok] = (s,) + insk + ((old,) if s.startswith("set") else (old, "?"))
            if ok == ("this",):
                for k in [k for k in st.v if k[0] == "f" and k[2] == ok]:
                    st.v[k] = U("changed by " + s)
        rt = ret.replace("const ", "").strip()
        if f is None and not rt:
            if key.startswith("boost::math::"):     # some value, found by iteration
                self.found = getattr(self, "found", 0) + 1
                return P(("found", self.found))
            return U("call " + s)
        if rt in ("void", ""):
            return P(0)
        if self.is_scalar_type(rt.replace("&", "").strip()):
            if rt.startswith("unsigned"):
                SIZEQ.add(name)
            if ok is None and not f.cls:
                return self.A(("fn", s) + tuple(insk)) if all(self.pure(v) for v in vals) else U("call " + s)
            if ok is None and not f.h.get("static"):
                return U("%s of an unknown object" % s)
            return self.A(("q", name, ok, ver, insk))
        if self.is_array_type(rt.replace("&", "").strip()):
            b = ("qarr", name, ok, ver, insk)
            self.btype.setdefault(b, rt)
            return Ptr(b, 0, True)
        return Obj(("call", name, ok, insk))

    def akeys(self, t):
        return "(" + ",".join(oshow(x) if isinstance(x, tuple) else str(x) for x in t) + ")"

    def pure(self, v):
        return isinstance(v, (Poly, str)) or isinstance(v, Obj)

    def outparam(self, t):
        t = t.strip()
        if t.startswith("const "):
            return False
        return t.replace(" ", "") in ("double*", "double*const", "int*", "unsignedlong*") or t.startswith(("std::vector<", "Eigen::")) and t.endswith("&")

    def fillname(self, s, i, nout):
        if s == "getMassFractions":
            return "massFractions"
        if s == "getMoleFractions":
            return "moleFractions"
        return s if nout <= 1 else "%s#%d" % (s, i)

    def fillcount(self, s, ok, f, st):
        if f is not None and (f.cls.endswith(("ThermoPhase", "Phase", "SurfPhase"))):
            return self.A(("q", "nSpecies", ok, None, ())).k
        return INF

    def vers(self, ok, st):
        out = []
        for o in (ok,) + tuple(self.related(ok)):
            v = st.ver.get(o)
            out.append(v)
        if all(v is None for v in out):
            return None
        return tuple(out)

    # -- standard library
    def std(self, q, s, key, obj, args, n, st):
        if s in ("__builtin_nanf", "__builtin_nan", "quiet_NaN"):
            return P(("nan",))
        if s in ("__builtin_huge_val", "__builtin_inff", "__builtin_inf", "infinity"):
            return P(("fn", "infinity"))
        if s == "operator bool" and q.startswith("std::_Bit_reference"):
            return self.val(obj, st)
        if s in ("size", "empty", "begin", "cbegin", "end", "cend", "upper_bound", "lower_bound") and q.startswith(("std::map", "std::unordered_map", "std::multimap")):
            v = self.val(obj, st)
            if isinstance(v, Obj):
                b = ("entries", v.k, self.vers(v.k, st))
                e = tmplargs(key[:key.index("::" + s + "(")]) if "<" in key else ["?", "?"]
                self.btype.setdefault(b, "std::vector<std::pair<const %s, %s>>" % tuple(e[:2]))
                if s in ("begin", "cbegin"):
                    return Ptr(b, 0)
                if s in ("end", "cend"):
                    return Ptr(b, self.size(b, st))
                if s in ("upper_bound", "lower_bound"):
                    x = self.val(args[0], st)
                    if not isinstance(x, Poly) or bad(x):
                        return U(s)
                    return Ptr(b, P(("q", s, b, None, (x.k,))))
                z = self.size(b, st)
                return z if s == "size" else P(1) - self.pos(z)
        if q in ("std::max", "std::min", "std::fmax", "std::fmin") and len(args) == 2:
            a, b = self.num(args[0], st), self.num(args[1], st)
            if a == b:
                return a
            ks = tuple(sorted((a.k, b.k), key=lambda z: pshow(unkey(z))))
            nm = "max" if "max" in q else "min"
            d = a - b
            if nonidx(a) and nonidx(b) and gt0(d + 1):
                return a if nm == "max" else b
            if nonidx(a) and nonidx(b) and gt0(1 - d):
                return b if nm == "max" else a
            return self.A(("fn", nm) + ks) if not bad(a) and not bad(b) else U(nm)
        if s in ("sqrt", "exp", "log", "log10", "sin", "cos", "tan", "tanh", "cbrt", "expm1", "log1p", "erf") and len(args) == 1 and not (obj is not None):
            a = self.num(args[0], st)
            return self.func(s, a)
        if s in ("abs", "fabs") and len(args) == 1 and obj is None:
            a = self.num(args[0], st)
            if bad(a):
                return U("abs")
            return self.A(("fn", "abs", min(a.k, (-a).k, key=lambda z: pshow(unkey(z)))))
        if s == "pow" and len(args) == 2 and obj is None:
            a, b = self.num(args[0], st), self.num(args[1], st)
            c = b.const()
            if c is not None and c.denominator == 1 and abs(c) <= 8:
                return a ** int(c)
            if c is not None and c.denominator == 2 and c.numerator == 1:
                return self.func("sqrt", a)
            return self.A(("fn", "pow", a.k, b.k)) if not bad(a) and not bad(b) else U("pow")
        if q == "std::distance" and len(args) == 2:
            a, b = [self.val(x, st) for x in args]
            if isinstance(a, Ptr) and isinstance(b, Ptr) and a.base == b.base:
                return b.off - a.off
            return U("distance")
        if q in ("std::lower_bound", "std::upper_bound") and len(args) == 3:
            a, b, x = [self.val(y, st) for y in args]
            if isinstance(a, Ptr) and isinstance(b, Ptr) and a.base == b.base and isinstance(x, Poly) and not bad(x):
                return Ptr(a.base, a.off + P(("q", s, a.base, None, (a.off.k, b.off.k, x.k))))
            return U(s)
        if q in ("std::fill",) and len(args) == 3:
            a, b, v = self.val(args[0], st), self.val(args[1], st), self.val(args[2], st)
            if isinstance(a, Ptr) and isinstance(b, Ptr) and a.base == b.base and isinstance(v, Poly):
                cnt = b.off - a.off
                ix = self.index(cnt)
                self.write(a.base, a.off + P(ix), v, st, (ix,))
                return P(0)
            if isinstance(a, Ptr):
                st.m[a.base] = (Havoc("fill"),)
            return P(0)
        if q == "std::fill_n" and len(args) == 3:
            a, cnt, v = [self.val(x, st) for x in args]
            if isinstance(a, Ptr) and isinstance(cnt, Poly) and isinstance(v, Poly):
                ix = self.index(cnt)
                self.write(a.base, a.off + P(ix), v, st, (ix,))
                return P(0)
        if q in ("std::copy", "std::copy_n") and len(args) == 3:
            a, b, o = [self.val(x, st) for x in args]
            if isinstance(a, Ptr) and isinstance(o, Ptr):
                cnt = None
                if q == "std::copy" and isinstance(b, Ptr) and b.base == a.base:
                    cnt = b.off - a.off
                elif q == "std::copy_n" and isinstance(b, Poly):
                    cnt = b
                if cnt is not None and not bad(cnt):
                    ix = self.index(cnt)
                    v = self.read(a.base, a.off + P(ix), st)
                    self.write(o.base, o.off + P(ix), v, st, (ix,))
                    return Ptr(o.base, o.off + cnt)
                st.m[o.base] = (Havoc("copy"),)
            return U("copy")
        if s in ("dot", "inner_product") and obj is None and len(args) in (3, 4):
            v = [self.val(x, st) for x in args]
            if all(isinstance(x, Ptr) for x in v[:3]) and v[0].base == v[1].base:
                cnt = v[1].off - v[0].off
                ix = self.index(cnt)
                a = self.read(v[0].base, v[0].off + P(ix), st)
                b = self.read(v[2].base, v[2].off + P(ix), st)
                if isinstance(a, Poly) and isinstance(b, Poly) and not bad(a) and not bad(b):
                    r = mk_sum(ix, a * b)
                    if len(v) == 4:
                        r = r + (v[3] if isinstance(v[3], Poly) else U("init"))
                    return r
            return U("dot")
        if q == "std::accumulate" and len(args) == 3:
            v = [self.val(x, st) for x in args]
            if isinstance(v[0], Ptr) and isinstance(v[1], Ptr) and v[0].base == v[1].base and isinstance(v[2], Poly):
                cnt = v[1].off - v[0].off
                ix = self.index(cnt)
                a = self.read(v[0].base, v[0].off + P(ix), st)
                if isinstance(a, Poly) and not bad(a):
                    return v[2] + mk_sum(ix, a)
            return U("accumulate")
        if s == "scale" and obj is None and len(args) == 4:
            v = [self.val(x, st) for x in args]
            if isinstance(v[0], Ptr) and isinstance(v[1], Ptr) and isinstance(v[2], Ptr) and isinstance(v[3], Poly) and v[0].base == v[1].base:
                cnt = v[1].off - v[0].off
                ix = self.index(cnt)
                a = self.read(v[0].base, v[0].off + P(ix), st)
                self.write(v[2].base, v[2].off + P(ix), (a * v[3]) if isinstance(a, Poly) else U("scale"), st, (ix,))
                return P(0)
        if q in ("std::swap",) and len(args) == 2:
            la, lb = self.lv(args[0], st), self.lv(args[1], st)
            if la is not None and lb is not None:
                a, b = self.load(la, st), self.load(lb, st)
                self.store(la, b, st)
                self.store(lb, a, st)
                return P(0)
        if q.startswith("Cantera::warn") or q.startswith("Cantera::writelog") or q.startswith("Cantera::debuglog"):
            return P(0)
        return NotImplemented

    def func(self, s, a):
        if has(a, lambda z: z[0] == "unk"):
            return U(s)
        if s == "exp" and not a.d:
            return P(1)
        if s == "log" and a.const() == 1:
            return P(0)
        if s == "log" and len(a.d) == 1:
            (m, c), = a.d.items()
            if len(m) + (c != 1) > 1 or (m and m[0][1] != 1):
                r = P(("fn", "log", P(c).k)) if c != 1 else P(0)
                for i, e in m:
                    r = r + P(e) * P(("fn", "log", P(atom(i)).k))
                return r
        return self.A(("fn", s, a.k))

    def matrix_changed(self, s, ok, st):
        """a method of a matrix object: all elements set to zero, or to something unknown"""
        if s.startswith("operator") or s in ("data", "ptrColumn", "value", "begin", "end"):
            return
        for m in [m for m in st.m if m[0] == "row" and m[1] == ok]:
            del st.m[m]
        st.m[("rows", ok)] = (Fill(P(0)) if s == "zero" else Havoc(s),)

    def vec(self, s, v, args, n, st):
        if s in ("data", "begin", "cbegin"):
            return Ptr(v.base, v.off)
        if s in ("end", "cend"):
            return Ptr(v.base, v.off + self.size(v.base, st))
        if s == "size":
            return self.size(v.base, st)
        if s == "empty":
            z = self.size(v.base, st)
            return P(1) - self.pos(z)
        if s in ("resize", "assign"):
            a = [self.val(x, st) for x in args]
            if a and isinstance(a[0], Poly):
                st.v[("size", v.base)] = a[0]
                if s == "assign" and len(a) > 1 and isinstance(a[1], Poly):
                    ix = self.index(a[0])
                    self.write(v.base, P(ix), a[1], st, (ix,))
            elif len(a) == 2 and isinstance(a[0], Ptr) and isinstance(a[1], Ptr) and a[0].base == a[1].base:
                cnt = a[1].off - a[0].off
                st.v[("size", v.base)] = cnt
                ix = self.index(cnt)
                self.write(v.base, P(ix), self.read(a[0].base, a[0].off + P(ix), st), st, (ix,))
            else:
                st.m[v.base] = (Havoc(s),)
            return P(0)
        if s in ("push_back", "emplace_back") and len(args) == 1:
            a = self.val(args[0], st)
            z = self.size(v.base, st)
            if isinstance(a, Poly):
                self.write(v.base, z, a, st)
            st.v[("size", v.base)] = z + 1
            return P(0)
        if s == "clear":
            st.v[("size", v.base)] = P(0)
            return P(0)
        if s in ("front", "back", "at"):
            return self.load(self.lv(n, st), st)
        if s in ("reserve", "shrink_to_fit"):
            return P(0)
        if s in ("setZero", "fill", "setConstant"):
            x = P(0) if s == "setZero" else self.num(args[0], st)
            z = self.size(v.base, st)
            ix = self.index(z)
            self.write(v.base, P(ix), x, st, (ix,))
            return P(0)
        for a in args:
            self.val(a, st)
        if s.startswith("operator"):
            return U("vector " + s)
        if s in ("insert", "erase", "swap", "pop_back"):
            st.m[v.base] = (Havoc(s),)
            st.v[("size", v.base)] = U("size")
        return U("vector " + s)

    # ------------------------------------------------ entry
    def run(self, f, vals, st=None, ok=("this",)):
        """Evaluate function f on parameter values; returns (state, value) or (None, None) if it never returns."""
        st = st or St()
        fr = {"id": self.fresh_frame(), "ret": [], "cont": [], "brk": [], "obj": ok, "fn": f.h["key"], "outer": None}
        self.frames.append(fr)
        for (pid, name, t, *rest), v in zip(f.params, vals):
            st.v[("v", fr["id"], pid)] = v
        self.frame0 = fr
        self.initialise(f, st, ok)
        end = self.ex(f.body, st)
        self.frames.pop()
        exits = list(fr["ret"])
        if end is not None:
            exits.append((end.pc, end, None))
        if not exits:
            return None, None
        rv, fin = exits[-1][2], exits[-1][1]
        for c, s, v in reversed(exits[:-1]):
            if v is not None or rv is not None:
                rv = self.mixv(c, v if v is not None else U(), rv if rv is not None else U())
            fin = self.mix(c, s, fin)
        return fin, rv


    def initialise(self, f, st, ok):
        """Member initialisers of a constructor: base classes and delegation first, then fields with a value known here."""
        for kind, name, wr, e in f.inits:
            if e is None:
                continue
            if kind in ("b", "d") and e[0] == "ctor":
                g = self.p.fns.get(e[3])
                if g is not None and g.hasbody:
                    vals = [self.val(x, st) for x in e[4]]
                    fr = {"id": self.fresh_frame(), "ret": [], "cont": [], "brk": [], "obj": ok, "fn": g.h["key"], "outer": None}
                    self.frames.append(fr)
                    for (pid, nm, t, *rest), v in zip(g.params, vals):
                        st.v[("v", fr["id"], pid)] = v
                    self.initialise(g, st, ok)
                    end = self.ex(g.body, st)
                    self.frames.pop()
                    for c, s2, v in fr["ret"]:
                        end = s2 if end is None else self.mix(c, s2, end)
                    if end is not None and end is not st:
                        st.v, st.m, st.ver, st.pc = end.v, end.m, end.ver, end.pc
            elif kind == "f" and self.p.field.get(name, {}).get("t", "").replace("const ", "") in ("double", "bool", "int", "size_t", "unsigned long"):
                v = self.val(e, st)
                if isinstance(v, Poly):
                    st.v[("f", name, ok)] = v


def pairtype(t):
    t = t.strip()
    if t.startswith("const "):
        t = t[6:]
    return t.rstrip("&* ").strip()


def tmplargs(t):
    out, d, s = [], 0, t.index("<") + 1
    for j in range(s, len(t)):
        c = t[j]
        if c == "<":
            d += 1
        elif c == ">":
            if d == 0:
                out.append(t[s:j].strip())
                break
            d -= 1
        elif c == "," and d == 0:
            out.append(t[s:j].strip())
            s = j + 1
    return [x.replace("const ", "") if x.startswith("const ") else x for x in out]


def nonidx(p):
    return all(nonneg_atom(a) for a in p.atoms())
