"""C11: every table is as large as the loops and calls that use it need.

engine/extent.py takes, for every container field and local of the library, the extents at all places that size it (resize,
assign, construction, copies, additions made once per added species, reaction or phase) and, for every access inside a
loop, the number of entries the loop reaches, both as polynomials over the object's counts with one-line getters, single-
valued locals and derived counts resolved. A call that hands a table's data to a function needs what that function (every
implementation of it) does with its parameter. An obligation is need <= size at every sizing place."""
from ..extent import *
from ..facts import Broken

NS = "Cantera::"
# counts that by construction never exceed another count but are not derived from it by an assignment the pass can follow
PART = {NS + "VCS_SOLVE::m_numComponents", NS + "VCS_SOLVE::m_numSpeciesRdc", NS + "VCS_SOLVE::m_numRxnTot",
        NS + "VCS_SOLVE::m_numRxnRdc", NS + "VCS_SOLVE::m_numRxnMinorZeroed", NS + "ChemEquil::m_nComponents",
        NS + "solveSP::m_neq", NS + "CVodesIntegrator::m_np", NS + "IdasIntegrator::m_np", NS + "ReactionPathBuilder::m_ns",
        NS + "vcs_VolPhase::m_numSpecies", NS + "MultiPhase::m_nsp",
        NS + "Reactor::m_nv"}
SKIPCLS = ("Cantera::Array2D", "Cantera::DenseMatrix", "Cantera::BandMatrix", "Cantera::SquareMatrix", "Cantera::GeneralMatrix")


def use(f):
    p = f.h["file"]
    return p.startswith(("src/", "include/cantera/")) and "clib" not in p and "/ext" not in p and "src/fortran" not in p \
        and "src/tpx" not in p


def flat(p, out=None):
    """all atoms below a polynomial, through receivers"""
    out = [] if out is None else out
    for a in P(p).atoms():
        out.append(a)
        if a[0] == "of":
            flat(a[2], out)
    return out


def paths(p):
    r = set()
    for a in P(p).atoms():
        if a[0] in ("s", "of"):
            r.add(a[1])
        elif a[0] == "size":
            k = a[1]
            while k[0] == "[]":
                k = k[1]
            r.add(k[1] if k[0] == "F" else ("?",))
        else:
            r.add(())
    return r


def classlevel(p):
    for a in flat(p):
        if a[0] in ("lv", "par", "g"):
            return False
        if a[0] == "s" and a[2].startswith("call "):
            return False
        if a[0] in ("s", "of") and any(isinstance(x, tuple) for x in a[1]):
            return False
        if a[0] == "size":
            return False
        if a[0] not in ("s", "of", "grown"):
            return False
    return True


def counts(p):
    return {a[2] for a in flat(p) if a[0] == "s"} | {g for a in flat(p) if a[0] == "grown" for g in a[1]}


def pretty(p):
    import re
    s = str(p)
    s = re.sub(r"of\(\(([^()]*)\), (.*?)\)\)\)+", r"\2 of \1", s)
    return s.replace(NS, "").replace("s((), ", "(")[:160]


def run(prog, rep):
    rep.rule("loop", 1100, "A loop over a table kept by an object or local to a function stays within every size the table is given")
    rep.rule("call", 100, "A table whose data a function receives has as many entries as the function, and each override of it, uses")
    rep.rule("sized", 250, "A table that loops use is given a size somewhere")
    rep.assumption("counts are whole numbers, at least one; a derived count (m_nsp of a transport model) is taken at the value of the count it is assigned from (C07 covers staleness)")
    rep.assumption("these counts are parts of larger ones and are not compared with them: " + ", ".join(sorted(x.replace(NS, "") for x in PART)))
    ext = Extents(prog, use)
    acc = Accesses(ext)
    nloop = len(acc.out)
    acc.close()
    S = Sizes(ext)
    und, seen = [], set()
    reached = set()
    for i, x in enumerate(acc.out):
        rule = "loop" if i < nloop else "call"
        root = x.key
        while root[0] == "[]":
            root = root[1]
        if root[0] == "P" or clsof(x.f.h["key"]).startswith(SKIPCLS) or (root[0] == "F" and root[2].startswith(SKIPCLS)):
            continue
        b, pth = S.base(x.key)
        sites = S.site_values(b, x.dim)
        name = tname(x.key, x.f, ext)
        if x.inloop[0] and root[0] == "F" and x.key[0] == "F":
            reached.add((x.key[2], x.f.h["key"], x.line, x.f.h["file"]))
        own = P(("size", x.key))
        d0 = own - x.need
        if d0.const() is not None and d0.const() >= 0:
            rep.ok(rule)
            continue
        if not x.inloop[0] or not sites:
            continue
        need = S.norm(x.need)
        vals = []
        for s, v in sites:
            if v is not None and pth:
                v = S.norm(ext.rebase(v, pth))
            vals.append((s, v))
        if need.const() is None and any(v is None or v.const() is None for s, v in vals):
            vals = [(s, v) for s, v in vals if v is None or v.const() is None]
        if root[0] == "L" and len({v for s, v in vals}) > 1:
            und.append(x)
            continue
        res = []
        for s, v in vals:
            if v is None:
                res.append("?")
                u = S.uneven.get(b)
                at = need.single()
                if s[2] == "push" and u is not None and u[2] < 1 and at is not None and not x.cond:
                    own = at if at[0] == "grown" else P(at[2]).single() if at[0] == "of" else None
                    if own is not None and own[0] == "grown" and set(own[1]) == set(u[4]) and (b, "uneven") not in seen:
                        seen.add((b, "uneven"))
                        res[-1] = "bad"
                        rep.bad(rule, u[0].h["file"], u[1], qn(u[0].h["key"]), name,
                                "adds between %d and %d entries to %s where the count it is used with grows by one (%s at %s:%d)" % (
                                    u[2], u[3], name, x.text[:60], x.f.h["file"], x.line))
                continue
            sg = sign(v - need)
            if sg == 1:
                res.append("hold")
            elif s[2] == "alt":
                d = (v - need).const()
                res.append("bad" if d is not None and d < 0 and not x.cond else "?")
            elif x.cond or (need.const() is not None and (v.const() is None or rule == "call")):
                res.append("?")
            elif sg == -1:
                res.append("bad" if comparable(need, v, True) else "?")
            else:
                res.append("bad" if comparable(need, v, False) else "?")
            if res[-1] == "bad":
                k = (x.f.h["key"], x.key, x.dim, need)
                if k in seen:
                    continue
                seen.add(k)
                dimt = "" if not x.dim else " (second dimension)"
                rep.bad(rule, x.f.h["file"], x.line, qn(x.f.h["key"]), "%s%s" % (name, dimt),
                        "%s uses %s entries of %s%s, which %s (%s:%d) gives %s" % (
                            x.text[:80] if rule == "loop" else "the call " + x.text[:90], pretty(need), name, dimt,
                            qn(s[0].h["key"]).replace(NS, ""), s[0].h["file"], s[1], pretty(v)))
        if res and all(r == "hold" for r in res):
            rep.ok(rule, "%s:%d %s of %s" % (x.f.h["file"], x.line, x.text[:40], name) if len(seen) < 1 else None)
        elif "bad" not in res:
            und.append(x)
    # tables never given a size
    known = {k for k in ext.sites}
    roots = set()
    for k in known:
        while k[0] == "[]":
            k = k[1]
        if k[0] == "F":
            roots.add(k[2])
    roots |= ext.given
    done = set()
    for q, fk, line, file in sorted(reached):
        if q in done:
            continue
        fl = prog.field.get(q)
        if fl is None or not is_cont(fl["t"]) or "&" in fl["t"]:
            continue
        done.add(q)
        if q in roots or q in NEVER:
            rep.ok("sized")
        else:
            rep.bad("sized", file, line, qn(fk), q.replace(NS, ""), "the loop uses the table %s, which nothing gives a size" % q.replace(NS, ""))
    rep.extra["undecided_total"] = len(und)
    rep.extra["undecided"] = ["%s:%d %s" % (x.f.h["file"], x.line, x.text[:60]) for x in und[:150]]
    rep.extra["accesses"] = {"resolved": len(acc.out), "index not resolved": acc.unknown, "tables with a known size": len(ext.sites)}


NEVER = {NS + "solveSP::m_bulkPhasePtrs", NS + "solveSP::m_numBulkSpecies"}   # bulk phases are never solved for (their count is 0)


def tname(key, f, ext):
    if key[0] == "[]":
        return "an element of " + tname(key[1], f, ext)
    if key[0] == "F":
        return key[2].replace(NS, "")
    return "local %s" % next((d[1] for n in walk(f.body) if n[0] == "decl" for d in n[2:]
                              if isinstance(d, list) and d and d[0] == key[2]), "table")


def comparable(need, v, negative):
    if negative:
        d = v - need
        # smaller by a fixed number: whatever the count is
        return d.const() is not None or (classlevel(need) and classlevel(v) and not ((counts(need) | counts(v)) & PART))
    if not classlevel(need) or not classlevel(v):
        return False
    cn, cv = counts(need), counts(v)
    if (cn | cv) & PART:
        return False
    if NS + "Kinetics::m_kk" in cv and any("Phase::addSpecies" in c for c in cn):
        return False        # a phase of the mechanism has at most the mechanism's species
    # the same kind of count of two objects may well be equal
    return not (cn & cv) or paths(need) == paths(v)
