"""C05: every C / Fortran interface function performs the library operation it is named after, on the object
behind its handle, hands its arguments over unchanged and in order, and returns what the operation returned."""
import re
from ..core import *
from ..facts import Broken
from ..terms import *


def norm(s):
    return re.sub("[^a-z0-9]", "", s.lower())


# Interface function -> library operation, where the names differ.
ALIAS = {
    "thermo_getAtomicWeights": "atomicWeights", "thermo_getMolecularWeights": "molecularWeights", "thermo_getName": "name",
    "thermo_getSpeciesName": "speciesName", "thermo_getElementName": "elementName", "thermo_getEosType": "type",
    "thermo_getEnthalpies_RT": "getEnthalpy_RT_ref", "thermo_getEntropies_R": "getEntropy_R_ref", "thermo_getCp_R": "getCp_R_ref",
    "kin_getType": "kineticsType", "kin_start": "kineticsSpeciesIndex", "kin_speciesIndex": "kineticsSpeciesIndex",
    "kin_nSpecies": "nTotalSpecies", "kin_getReactionType": "type", "kin_getReactionString": "equation", "kin_phase": "thermo",
    "trans_getBinDiffCoeffs": "getBinaryDiffCoeffs", "thermo_print": "report", "ct_getCanteraError": "lastErrorMessage",
    "ct_addCanteraDirectory": "addDirectory", "func_value": "eval",
    "ct_getGitCommit": "gitCommit", "func_check": "checkFunc1", "func_new_basic": "newFunc1", "func_new_advanced": "newFunc1",
    "func_new_compound": "newFunc1", "func_new_modified": "newFunc1", "func_new_sum": "newSumFunction",
    "func_new_diff": "newDiffFunction", "func_new_prod": "newProdFunction", "func_new_ratio": "newRatioFunction",
    "domain_new": "newDomain", "domain_index": "domainIndex", "domain_grid": "z",
    "reactingsurf_enableCoverageEqs": "enableCoverageEquations", "sim1D_setMaxJacAge": "setJacAge",
    "reactor_new": "newReactor", "connector_new": "newConnectorNode", "reactorsurface_install": "addSurface",
    "rdiag_findMajor": "findMajorPaths", "ct_setLogWriter": "setLogger", "ct_setLogCallback": "setLogger",
    "phase_getname_": "name", "phase_getatomicweights_": "atomicWeights", "phase_getmolecularweights_": "molecularWeights",
    "phase_getspeciesname_": "speciesName", "phase_getelementname_": "elementName", "th_newfromfile_": "newThermo",
    "th_geteostype_": "type", "th_equil_": "equilibrate", "th_getenthalpies_rt_": "getEnthalpy_RT",
    "th_getentropies_r_": "getEntropy_R", "th_getpartialmolarintenergies_r_": "getPartialMolarIntEnergies",
    "kin_newfromfile_": "newKinetics", "kin_gettype_": "kineticsType", "kin_start_": "kineticsSpeciesIndex",
    "kin_speciesindex_": "kineticsSpeciesIndex", "kin_getreactiontype_": "type", "kin_getreactionstring_": "equation",
    "trans_newdefault_": "newTransport", "trans_getbindiffcoeffs_": "getBinaryDiffCoeffs",
    "ctgetcanteraerror_": "lastErrorMessage", "ctaddcanteradirectory_": "addDirectory", "ctturnoffexitonerror_": "setLogger",
}
# Interface functions that choose between operations: parameter value -> operation.
CASES = {
    "kin_getDelta": ("job", {0: "getDeltaEnthalpy", 1: "getDeltaGibbs", 2: "getDeltaEntropy", 3: "getDeltaSSEnthalpy",
                             4: "getDeltaSSGibbs", 5: "getDeltaSSEntropy"}),
    "thermo_setMoleFractions": ("norm", {0: "setMoleFractions_NoNorm", 1: "setMoleFractions"}),
    "thermo_setMassFractions": ("norm", {0: "setMassFractions_NoNorm", 1: "setMassFractions"}),
    "phase_setmolefractions_": ("norm", {0: "setMoleFractions_NoNorm", 1: "setMoleFractions"}),
    "phase_setmassfractions_": ("norm", {0: "setMassFractions_NoNorm", 1: "setMassFractions"}),
    "surf_setCoverages": ("norm", {0: "setCoveragesNoNorm", 1: "setCoverages"}),
    "flow1D_new": ("itype", {1: "setAxisymmetricFlow", 2: "setFreeFlow"}),
    "flow1D_solveEnergyEqn": ("flag", {0: "fixTemperature", 1: "solveEnergyEqn"}),
    "rdiag_write": ("fmt", {0: "exportToDot", 1: "writeData"}),
}
# Interface functions that set a field: field name (and value per argument value).
FIELDS = {
    "rdiag_detailed": "show_details", "rdiag_brief": "show_details", "rdiag_setThreshold": "threshold",
    "rdiag_setBoldColor": "bold_color", "rdiag_setNormalColor": "normal_color", "rdiag_setDashedColor": "dashed_color",
    "rdiag_setDotOptions": "dot_options", "rdiag_setBoldThreshold": "bold_min", "rdiag_setNormalThreshold": "dashed_max",
    "rdiag_setLabelThreshold": "label_min", "rdiag_setScale": "scale", "rdiag_setFlowType": "flow_type",
    "rdiag_setArrowWidth": "arrow_width", "rdiag_setTitle": "title",
}
FIELDVAL = {("rdiag_detailed", None): ("c", True), ("rdiag_brief", None): ("c", False),
            ("rdiag_setFlowType", 0): "OneWayFlow", ("rdiag_setFlowType", 1): "NetFlow"}
# Parameters that the interface accepts but that carry no information for the operation.
UNUSED = {("kin_speciesindex_", "ph"), ("th_getcp_r_", "lenm"), ("newtransport_", "loglevel"), ("trans_newdefault_", "loglevel"),
          ("ct_addCanteraDirectory", "buflen"), ("ctaddcanteradirectory_", "buflen"), ("kin_newfromfile_", "phasename"), ("kin_newfromfile_", "plen"), ("kin_speciesindex_", "lenph"),
          ("reactorsurface_new", "name")}
# Operations whose argument order differs from the order of the interface's parameters.
REORDER = {"kin_getRevRateConstants": ["krev", "doIrreversible"], "domain_setSteadyTolerances": ["rtol", "atol", "n"],
           "domain_setTransientTolerances": ["rtol", "atol", "n"], "newtransport_": ["ith", "model"],
           "kin_newfromfile_": ["reactingPhase", "neighbor1", "neighbor2", "neighbor3", "neighbor4", "filename"]}
# No operation of their own: life cycle of the handle tables (C03), constant strings, the error raiser.
SKIP = {"kin_getSourceTerms", "soln_del", "ct_getCanteraVersion", "ct_resetStorage", "ct_clearStorage", "thermo_del", "kin_del", "trans_del",
        "ct_clearFunc", "func_duplicate", "mix_new", "ct_clearMix", "ct_clearOneDim", "sim1D_new", "reactornet_new",
        "reactorsurface_new", "ct_clearReactors", "rdiag_new", "rbuild_new", "ct_clearReactionPath", "cantera_error_"}


# Status returned as a floating point zero; results that are another product of the operation.
STATUS = {"mix_equilibrate"}
RESULT = {"soln_setTransportModel": "transport", "flow1D_new": "make_shared"}


def inl(g, n, o):
    return (g.file.startswith(("src/clib", "src/fortran")) and not g.extc and "Cabinet" not in g.key
            and "handleAllExceptions" not in g.key and not g.key.startswith("f2string") and "copyString" not in g.key)


def is_op(key, names):
    return strip_tmpl(short(key)) in names


def op_names(prog, f):
    """Names the operation may have, from the name of the interface function."""
    name = f.q
    if name in ALIAS:
        return {ALIAS[name]}
    stem = name.rstrip("_").split("_", 1)[-1]
    if name.startswith(("thermo_set_", "th_set_")):
        stem = "setState" + stem[4:]
        return {("=", norm(stem))}
    return {("=", norm(stem)), ("=", "get" + norm(stem)), ("=", "set" + norm(stem))}


def matches(key, names):
    s = strip_tmpl(short(key))
    return any(s == n if isinstance(n, str) else norm(s) == n[1] for n in names)


def handle_of(t):
    """Parameter index whose handle selects the object in term t."""
    if not isinstance(t, tuple) or not t:
        return None
    if t[0] == "call":
        s = strip_tmpl(short(t[1]))
        if s in ("at", "as") and "Cabinet" in t[1] or s.startswith("as<"):
            return params_in(t)[0] if params_in(t) else None
        if s == "index" and "Cabinet" in t[1]:
            return None
        if t[2] is not None:
            return handle_of(t[2])
    return None


def plain(t, fortran):
    """Is the term a parameter (or element, conversion, handle lookup of one), without arithmetic?"""
    k = t[0]
    if k in ("p", "c", "g", "built", "vec", "lam", "f", "u", "v"):
        return True
    if k == "idx":
        return plain(t[1], fortran) and t[2][0] in ("c", "u")
    if k == "bin":
        a, b = t[2], t[3]
        if t[1] in ("!=", "==", ">", "<", ">=", "<="):
            return plain(a, fortran) and b == ("c", 0) and t[1] in ("!=", ">")
        if t[1] == "-" and fortran and b == ("c", 1):
            return plain(a, fortran)
        if t[1] == "+" and plain(a, fortran) and b[0] == "p":       # end of a caller's array
            return True
        return False
    if k == "cond":
        # integer flag to bool
        c = t[1]
        return c[0] == "bin" and c[1] in ("==", "!=", ">") and (
            (c[1] in ("!=", ">") and t[2] == ("c", True)) or (c[1] == "==" and t[2] == ("c", False)))
    if k == "call":
        s = strip_tmpl(short(t[1]))
        if s in ("at", "as", "f2string", "basic_ofstream", "vector", "make_unique", "make_shared") or s.startswith(("basic_ofstream", "shared_ptr", "vector")):
            return all(plain(a, fortran) for a in t[3])
        return s == "npos"
    if k == "new":
        return True
    return False


def strip_ret(t):
    """Remove representation changes of the returned value: index(), add(), copyString(.., buf, len), size()."""
    while t[0] == "call":
        s = strip_tmpl(short(t[1]))
        if s in ("index", "add") and "Cabinet" in t[1] and t[3]:
            t = t[3][0]
        elif s == "copyString" and t[3]:
            t = t[3][0]
        elif s in ("size", "length") and t[2] is not None and qn(t[1]).startswith("std::"):
            t = t[2]
        else:
            return t
    return t


def is_error(f, t, v):
    if t[0] == "call" and strip_tmpl(short(t[1])).startswith("handleAllExceptions"):
        return True
    if t[0] == "c" and isinstance(t[1], (int, float)) and t[1] < 0:
        return True
    return t[0] == "g" and t[1].endswith("npos")


def returns(v):
    out = []
    for x in v.normal():
        if x[0] == "ret" and x[2][2] is not None:
            t = v.term(x[2][2], x[3])
        elif x[0] in ("ret", "end"):
            t = ("void",)
        out.append((t, x[3]["@must"], x[1]))
    return out


def run(prog, rep):
    rep.rule("operation", 380, "on every path to a successful return the interface function has performed the library operation its name "
             "states, on the object its first handle selects")
    rep.rule("cases", 20, "interface functions that select an operation by a flag perform the one documented for each value of the flag, and no other")
    rep.rule("arguments", 330, "every parameter of the interface function that carries data reaches the operation, unchanged and in order")
    rep.rule("result", 380, "what the interface function returns on success is the operation's result (or 0 for a status)")
    fns = [f for f in prog.fns.values() if f.extc and f.hasbody and f.file.startswith(("src/clib/", "src/fortran/"))]
    if len(fns) < 400:
        raise Broken("only %d interface functions found" % len(fns))
    names = {f.q for f in fns}
    for t in (ALIAS, CASES, FIELDS):
        for n in t:
            if n not in names:
                raise Broken("interface function %s of the table no longer exists" % n)
    for f in sorted(fns, key=lambda f: (f.file, f.line)):
        if f.q in SKIP:
            continue
        one(prog, rep, f)


def one(prog, rep, f):
    fortran = f.file.startswith("src/fortran")
    name = f.q
    pi = {q[1]: i for i, q in enumerate(f.params)}
    runs = []
    if name in CASES:
        par, tab = CASES[name]
        if par not in pi:
            if len(f.params) <= 1:
                raise Broken("parameter %s of %s not found" % (par, name))
        alln = set(tab.values())
        for val, op in tab.items():
            v = Val(prog, f, consts={pi[par]: val}, inline=inl).go()
            done = {strip_tmpl(short(c[0])) for c in v.calls} & alln
            rep.check("cases", done == {op}, f.file, f.line, name, "%s = %s" % (par, val),
                      "%s = %s performs %s; documented: %s" % (par, val, sorted(done) or "nothing", op))
            runs.append((v, {op}))
    elif name in FIELDS:
        for val in ((0, 1) if (name, 0) in FIELDVAL else (None,)):
            v = Val(prog, f, consts={pi[f.params[1][1]]: val} if val is not None else None, inline=inl).go()
            want = FIELDVAL.get((name, val))
            good = True
            for t, must, line in returns(v):
                if is_error(f, t, v):
                    continue
                hit = False
                for fact in must:
                    if fact[0] == "store" and fact[1][0] == "fld" and fact[1][1].endswith("::" + FIELDS[name]):
                        obj, value = fact[1][2], fact[2]
                    elif fact[0] == "call" and short(fact[1]) == "operator=" and fact[2] and fact[2][0] == "fld" and fact[2][1].endswith("::" + FIELDS[name]):
                        obj, value = fact[2][2], fact[3][0]
                    else:
                        continue
                    if handle_of(obj) != 0:
                        continue
                    if want is None:
                        hit |= value[0] == "p" and value[1] == 1
                    elif isinstance(want, str):
                        hit |= value[0] == "g" and value[1].endswith(want)
                    else:
                        hit |= value == want
                good &= hit
            rep.check("operation", good, f.file, f.line, name, "field %s %s" % (FIELDS[name], val if val is not None else ""),
                      "does not set %s of its object to the documented value on every successful path" % FIELDS[name])
        return
    else:
        v = Val(prog, f, inline=inl).go()
        runs.append((v, op_names(prog, f)))
    for v, ops in runs:
        succ = [(t, m, l) for t, m, l in returns(v) if not is_error(f, t, v)]
        cands = [c for c in v.calls if matches(c[0], ops)]
        if not cands:
            rep.bad("operation", f.file, f.line, name, "operation", "never performs %s" % show_ops(ops))
            continue
        # must be performed on every successful path
        bad = None
        opcalls = []
        for t, m, l in succ:
            hit = [x for x in m if x[0] == "did" and matches(x[1], ops)]
            if not hit and t[0] != "void":
                r = strip_ret(t)
                if r[0] == "call" and matches(r[1], ops):
                    hit = [r]
            if not hit and not cands_in_term(t, ops):
                bad = "a path returns %s without having performed %s" % (tshow(t), show_ops(ops))
        opcalls = [("call", c[0], c[1], c[2]) for c in cands]
        for c in opcalls:
            h = handle_of(c[2]) if c[2] is not None else None
            if c[2] is not None and h is not None and h != hidx(name):
                bad = "the operation runs on the object of parameter %s" % f.params[h][1]
            elif c[2] is not None and c[2][0] == "call" and h is None and strip_tmpl(short(c[2][1])) in ("at",):
                bad = "the operation runs on %s" % tshow(c[2])
        rep.check("operation", bad is None, f.file, f.line, name, "operation " + show_ops(ops), bad or "")
        arguments(rep, f, v, opcalls, ops, fortran, pi)
        results(rep, f, v, succ, ops, opcalls, fortran)


def hidx(name):
    return 1 if name == "reactorsurface_install" else 0


def islen(n):
    return bool(re.fullmatch("len.*|.*len|lx", n))


def show_ops(ops):
    return "/".join(sorted(o if isinstance(o, str) else o[1] for o in ops))


def cands_in_term(t, ops):
    if isinstance(t, tuple) and t:
        if t[0] == "call" and matches(t[1], ops):
            return True
        return any(cands_in_term(x, ops) for x in t if isinstance(x, tuple))
    return False


def atoms(t, out):
    """(parameter, element) atoms of an argument term in order."""
    if not t:
        return
    if t[0] == "p":
        out.append((t[1], -1))
    elif t[0] == "bin" and t[1] == "+" and t[2][0] == "p" and t[3][0] == "p":
        out.append((t[2][1], -1))       # end of a caller's array
    elif t[0] == "idx" and t[1][0] == "p":
        out.append((t[1][1], t[2][1] if t[2][0] == "c" else -1))
    else:
        for x in t:
            if isinstance(x, tuple):
                atoms(x, out)


def arguments(rep, f, v, opcalls, ops, fortran, pi):
    name = f.q
    # every data parameter reaches the operation (its object, its arguments) or another call / condition (lengths)
    used_op = set()
    for c in opcalls:
        used_op |= {p for a in c[3] for p in params_in(a)} | (set(params_in(c[2])) if c[2] is not None else set())
    other = set()
    for k, o, a, n, fl in v.calls:
        if any(matches(k, ops) for _ in (0,)):
            continue
        s = strip_tmpl(short(k))
        if s.startswith(("check", "copyString", "copy", "min", "at", "as", "index", "add", "del", "set", "operator", "f2string", "fill", "CanteraError")):
            other |= {p for x in a for p in params_in(x)}
    for t, w, n, op in v.stores:
        other |= set(params_in(t)) | set(params_in(w))
    cond = set()
    ids = {q[0]: i for i, q in enumerate(f.params)}
    for n in walk(f.body):
        if n[0] in ("if", "while", "for", "cond", "switch"):
            c = n[3] if n[0] != "cond" else n[2]
            for x in walk(c) if c else ():
                if x[0] == "v" and x[2] in ids:
                    cond.add(ids[x[2]])
    for i, q in enumerate(f.params):
        if (name, q[1]) in UNUSED:
            continue
        if i in used_op:
            rep.ok("arguments", "%s %s" % (name, q[1]))
            continue
        length = q[2] in ("unsigned long", "int", "long", "unsigned int") or fortran
        if i in other or length and i in cond or name in CASES and i in cond:
            # lengths, output buffers, flags: consumed outside the operation
            isdata = q[2] in ("double", "const double *") and "*" not in q[2]
            rep.check("arguments", not isdata, f.file, f.line, name, q[1], "parameter %s does not reach the operation" % q[1])
        else:
            rep.bad("arguments", f.file, f.line, name, q[1], "parameter %s is ignored" % q[1])
    for c in opcalls:
        seq = []
        bad = None
        for a in c[3]:
            if not plain(a, fortran):
                bad = "argument %s is not the caller's value" % tshow(a)
            atoms(a, seq)
        if bad is None and name != "reactorsurface_install":
            ob = []
            if c[2] is not None:
                atoms(c[2], ob)
            s = [x for x in seq if not (fortran and islen(f.params[x[0]][1]))]
            if name in REORDER:
                if [f.params[x[0]][1] for x in seq if not (fortran and islen(f.params[x[0]][1]))] != REORDER[name]:
                    bad = "arguments are passed as %s; documented: %s" % ([f.params[x[0]][1] for x in seq], REORDER[name])
            elif s != sorted(s):
                bad = "arguments are passed as %s, not in the order of the parameters" % [f.params[x[0]][1] + ("[%d]" % x[1] if x[1] >= 0 else "") for x in s]
            one = [x for x in s if "*" not in f.params[x[0]][2] or x[1] >= 0]
            if len(set(one)) != len(one):
                bad = "one parameter is passed twice: %s" % [f.params[x[0]][1] + ("[%d]" % x[1] if x[1] >= 0 else "") for x in s]
        rep.check("arguments", bad is None, f.file, c and f.line, name, "arguments of " + strip_tmpl(short(c[1])), bad or "")


def results(rep, f, v, succ, ops, opcalls, fortran):
    name = f.q
    status = f.ret in ("int",) or f.ret == "long"
    for t, m, l in succ:
        if t[0] == "void":
            rep.check("result", f.ret == "void", f.file, l or f.line, name, "return", "no value returned")
            continue
        r = t
        if fortran and r[0] == "bin" and r[1] == "+" and r[3] == ("c", 1):
            r = r[2]
        if fortran and r[0] == "un" and r[1] == "-":
            rep.ok("result", name)
            continue
        r = strip_ret(r)
        if r[0] == "c":
            isval = name not in STATUS and f.ret in ("double", "unsigned long")
            rep.check("result", not isval and r[1] == 0, f.file, l, name, "return " + tshow(t), "returns the constant %s on success" % tshow(t))
            continue
        good = (r[0] == "call" and (matches(r[1], ops) or strip_tmpl(short(r[1])) == RESULT.get(name))
                or r[0] == "u" and name == "soln_newInterface")
        rep.check("result", good, f.file, l, name, "return", "returns %s instead of the operation's result" % tshow(t))
