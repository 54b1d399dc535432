"""C06: errors cross the boundary between Python and C++ as exceptions, in both directions."""
import re
from ..core import *
from ..facts import Broken
from ..throws import Throws, LIB_THROWS
from .. import cyfacts
from ..cyfacts import cywalk, aslist, decl_name

# Call edges that cannot throw although the callee can:
SKIP = {
    # the default constructor passes an empty list of units
    ("Cantera::UnitSystem::UnitSystem", "Cantera::UnitSystem::setDefaults"),
    # constructors declared without arguments: the default file name is empty, for which nothing is read
    ("Cantera::SurfPhase::SurfPhase", "Cantera::ThermoPhase::initThermoFile"),
    ("Cantera::PlasmaPhase::PlasmaPhase", "Cantera::ThermoPhase::initThermoFile"),
    ("Cantera::IdealGasPhase::IdealGasPhase", "Cantera::ThermoPhase::initThermoFile"),
}
EXEMPT_DECL = {
    # declared with the factor only: the throw needs a dimension argument
    ("Cantera::Units", "Units", 0), ("Cantera::Units", "Units", 1),
}
MAP = {"CallbackError": None, "std::out_of_range": "PyExc_IndexError", "Cantera::NotImplementedError": "PyExc_NotImplementedError",
       "Cantera::CanteraError": "pyCanteraError", "std::exception": "PyExc_RuntimeError"}


def used_names():
    """Names that the .pyx files call, take the address of, or construct."""
    out = set()
    for f, t in cyfacts.trees().items():
        for n in cywalk(t):
            if n["_"] == "NameNode":
                out.add(n.get("name"))
            elif n["_"] == "AttributeNode":
                out.add(n.get("attribute"))
            elif f.endswith(".pyx"):
                ty = n.get("base_type") or n.get("cppclass")
                if isinstance(ty, dict):
                    out.add(ty.get("name"))
    return out


def nparams(key):
    s = key[len(qn(key)):]
    s = s[1:s.rindex(")")]
    if not s:
        return 0
    d, c = 0, 1
    for ch in s:
        d += ch in "<(["
        d -= ch in ">)]"
        c += ch == "," and d == 0
    return c


def resolve(p, x, ctor_names):
    """Keys of the C++ functions a declaration can denote."""
    name = (x.cname or x.name).strip('"')
    if x.cls is None:
        l = p.by_q.get(name) or p.by_q.get((x.ns + "::" + name) if x.ns else name) or []
        return [f.key for f in l]
    nm = name.split("::")[-1]
    isctor = x.name in ctor_names
    for b in [x.cls] + p.bases(x.cls):
        q = b + "::" + (b.split("::")[-1] if isctor else nm)
        l = [f.key for f in p.by_q.get(q, ()) if len(f.params) >= x.nargs and sum(1 for a in f.params if not a[3]) <= x.nargs]
        if not l:
            l = [m["k"] for m in p.classes.get(b, {}).get("methods", ()) if m.get("pure") and m["n"] == nm and nparams(m["k"]) >= x.nargs]
        if l:
            return l
        if isctor:
            return []
    return []


def run(p, rep):
    rep.rule("declared", 700, "every C++ function that the Cython sources use and that can throw, on any path or in any override, "
             "is declared with the exception handler translate_exception, so that its exception becomes a Python exception "
             "instead of ending the process")
    rep.rule("mapped", 6, "translate_exception catches everything, no handler is hidden by an earlier one, and each raises the matching "
             "Python exception, including the original exception of a Python callback")
    rep.rule("contained", 14, "every Cython function that C++ calls through a pointer runs Python code only inside a try block that "
             "catches every exception and hands its type and value to the C++ side")
    rep.rule("rethrown", 3, "C++ code that calls a Python callback throws CallbackError when the callback reports an exception, before "
             "it uses the result")
    rep.rule("public", 5, "C++ code that calls a Cython function returning an object tests the result against null before using it, and "
             "does not discard it")
    declared(p, rep)
    mapped(p, rep)
    contained(rep)
    rethrown(p, rep)
    public(p, rep)


def declared(p, rep):
    cg = CallGraph(p)
    th = Throws(p, cg, lib=LIB_THROWS - {"format", "vformat"}, skip=SKIP)
    fns, classes = cyfacts.externs()
    if len(fns) < 800:
        raise Broken("only %d C++ declarations found in the Cython sources" % len(fns))
    used = used_names()
    cyname = {}
    for k, v in classes.items():
        cyname.setdefault(v, set()).add(k)
    unres = 0
    for x in fns:
        if x.name not in used:
            continue
        keys = resolve(p, x, cyname.get(x.cls, ()))
        if not keys:
            unres += 1
            continue
        if (x.cls, x.name.replace("Cxx", ""), x.nargs) in EXEMPT_DECL and x.check != "+":
            continue
        w = None
        for k in keys:
            m = p.methods.get(k)
            virt = m and m[1].get("virt")
            for t in (cg.virtual_targets(k, x.cls) if virt else (k,)):
                w = w or th.fn(t)
        fn = ((x.cls + "::") if x.cls else "") + x.name
        rep.check("declared", not w or (x.check == "+" and x.handler == "translate_exception"), x.file, x.line, fn,
                  "%s/%d" % (x.name, x.nargs),
                  "can throw but is declared %s: %s" % ("without an except clause" if x.check != "+" else "with another handler", w))
    rep.extra["declarations_without_parsed_counterpart"] = unres


def mapped(p, rep):
    f = p.fn("translate_exception")[0]
    tr = [n for n in walk(f.body) if n[0] == "try"]
    if len(tr) != 1:
        raise Broken("translate_exception: expected one try block")
    outside = [n for n in walk(f.body) if n[0] == "throw" and not any(n is m for m in walk(tr[0][2]))]
    rep.check("mapped", not outside, f.file, outside[0][1] if outside else f.line, f.q, "throw outside", "throws out of the handler")
    hs = tr[0][3]
    rep.check("mapped", bool(hs) and hs[-1][0] is None, f.file, f.line, f.q, "catch-all", "no catch-all handler")
    seen = []
    std = {"CallbackError": ["Cantera::CanteraError", "std::exception"], "std::out_of_range": ["std::logic_error", "std::exception"],
           "Cantera::NotImplementedError": ["Cantera::CanteraError", "std::exception"], "Cantera::CanteraError": ["std::exception"]}
    for h in hs:
        t = None if h[0] is None else re.sub(r"\bconst\b|&", "", h[0]).strip()
        calls = [n for n in walk(h[2]) if n[0] == "call" and qn(n[2]).startswith("PyErr_Set")]
        rep.check("mapped", bool(calls), f.file, h[3], f.q, "handler %s" % t, "handler for %s sets no Python exception" % t)
        if t:
            hid = [b for b in std.get(t, []) + p.bases(t) if b in seen]
            rep.check("mapped", not hid, f.file, h[3], f.q, "order %s" % t, "handler for %s is hidden by the one for %s" % (t, hid))
            seen.append(t)
        for n in calls:
            want = MAP.get(t)
            if t == "CallbackError":
                ok = len(n[3]) == 2 and [peel(a)[3] if peel(a)[0] == "m" else "" for a in n[3]] == ["CallbackError::m_type", "CallbackError::m_value"]
                rep.check("mapped", ok, f.file, n[1], f.q, "raise CallbackError", "does not re-raise the exception of the callback")
            elif want:
                a = peel(n[3][0])
                rep.check("mapped", a[0] == "g" and a[2] == want, f.file, n[1], f.q, "raise %s" % t, "%s raises %s, not %s" % (t, show(a), want))
    for t in MAP:
        rep.check("mapped", t in seen, f.file, f.line, f.q, "handles %s" % t, "no handler for %s" % t)


CALLS = {"SimpleCallNode", "GeneralCallNode", "PrimaryCmpNode", "RaiseStatNode", "CImportStatNode", "FromImportStatNode", "ImportNode"}
CATCHALL = {"BaseException"}


def cdefs():
    out = {}
    for f, t in cyfacts.trees().items():
        if f.endswith(".pyx"):
            for n in cywalk(t):
                if n["_"] == "CFuncDefNode":
                    nm, _, fn = decl_name(n["declarator"])
                    out.setdefault(nm, (f, n, fn))
    return out


def params(fn):
    r = []
    for a in aslist(fn.get("args")):
        nm = decl_name(a.get("declarator"))[0]
        r.append(nm or a.get("base_type", {}).get("name"))
    return r


def stash(n, par, defs, seen=()):
    """What the code below n hands over to the C++ side through parameter par: {'type', 'value'}."""
    out = set()
    for x in cywalk(n):
        if x["_"] == "SimpleCallNode":
            fn = x.get("function", {})
            if fn.get("_") == "AttributeNode" and fn.get("obj", {}).get("name") == par:
                a = fn.get("attribute")
                if x.get("args") and not all(y.get("_") == "NoneNode" for y in aslist(x["args"])):
                    out |= {"setExceptionType": {"type"}, "setExceptionValue": {"value"}}.get(a, set())
            elif fn.get("_") == "NameNode" and fn["name"] in defs and fn["name"] not in seen:
                ps = params(defs[fn["name"]][2])
                for i, a in enumerate(aslist(x.get("args"))):
                    if a.get("name") == par and i < len(ps):
                        out |= stash(defs[fn["name"]][1].get("body"), ps[i], defs, seen + (fn["name"],))
        if x["_"] in ("SingleAssignmentNode", "CascadedAssignmentNode"):
            l = x.get("lhs", {})
            if l.get("_") == "IndexNode" and l.get("base", {}).get("name") == par:
                out |= {"0": {"type"}, "1": {"value"}}.get(str(l.get("index", {}).get("value")), set())
    return out


def contained(rep):
    defs = cdefs()
    cbs = set()
    for f, t in cyfacts.trees().items():
        for n in cywalk(t):
            if n["_"] == "SimpleCallNode":
                for a in aslist(n.get("args")):
                    if isinstance(a, dict) and a.get("_") == "NameNode" and a["name"] in defs:
                        cbs.add(a["name"])
    for nm in sorted(cbs):
        f, n, fn = defs[nm]
        pars = params(fn)
        bad = None
        good = False

        def scan(x):
            nonlocal bad, good
            if isinstance(x, list):
                for y in x:
                    scan(y)
                return
            if not isinstance(x, dict) or "_" not in x:
                return
            if x["_"] == "TryExceptStatNode":
                cl = aslist(x.get("except_clauses"))
                ok = False
                for c in cl:
                    pat = [q.get("name") for q in aslist(c.get("pattern"))]
                    if not pat or set(pat) & CATCHALL:
                        if any(y["_"] in ("RaiseStatNode", "ReraiseStatNode") for y in cywalk(c.get("body"))):
                            bad = bad or (c["@"], "raises again from the handler")
                        ok = any({"type", "value"} <= stash(c.get("body"), par, defs) for par in pars)
                        if not ok:
                            bad = bad or (c["@"], "the catch-all handler does not hand over the type and the value of the exception")
                            ok = True
                        good = True
                        break
                if not ok:
                    bad = bad or (x["@"], "no handler for every exception (BaseException)")
                scan(x.get("else_clause"))
                return
            if x["_"] in CALLS:
                bad = bad or (x["@"], "runs Python code outside the try block")
                return
            for k, v in x.items():
                if isinstance(v, (dict, list)):
                    scan(v)
        body = n.get("body")
        scan(body)
        if not good and bad is None:
            bad = (n["@"], "no try block")
        rep.check("contained", bad is None, f, bad[0] if bad else n["@"], nm, "containment", bad[1] if bad else "")


def blocks(n):
    """(statement list, index, statement) of every statement in a block."""
    for x in walk(n):
        if x[0] == "{":
            st = [s for s in x[2:] if isnode(s)]
            for i, s in enumerate(st):
                yield st, i, s


def rethrown(p, rep):
    for f in list(p.fns.values()):
        if not f.hasbody or not f.file.endswith("funcWrapper.h"):
            continue
        for st, i, s in blocks(f.body):
            if s[0] not in ("decl", "icall", "asg", "ret"):
                continue
            ic = [x for x in walk_nolambda(s) if x[0] == "icall"]
            for c in ic:
                ok = False
                chan = set()
                for a in c[3]:
                    r = root_var(a)
                    if r is not None:
                        chan.add(r)
                if s[0] != "ret":
                    for t in st[i + 1:]:
                        if t[0] == "if" and any(x[0] == "throw" and len(x) > 3 and x[3] == "CallbackError" for x in walk(t[4])):
                            ok = any(x[0] == "v" and x[2] in chan for x in walk(t[3]))
                            break
                        if any(x[0] == "ret" for x in walk(t)):
                            break
                rep.check("rethrown", ok, f.file, c[1], f.q, "call through %s in %s" % (show(c[2]), f.key.split("(", 1)[1][-60:]),
                          "the result is used without testing whether the callback raised")


def public(p, rep):
    pub = set()
    for nm, (f, n, fn) in cdefs().items():
        if n.get("visibility") == "public":
            bt = n.get("base_type", {})
            pub.add(nm)
    if len(pub) < 4:
        raise Broken("only %d public Cython functions" % len(pub))
    seen = set()
    for f in p.fns.values():
        if not f.hasbody:
            continue
        for n in walk(f.body):
            if n[0] != "{":
                continue
            st = [s for s in n[2:] if isnode(s)]
            for i, s in enumerate(st):
                if s[0] not in ("decl", "call", "asg", "ret", "if"):
                    continue
                for c in walk_nolambda(s if s[0] != "if" else s[3]):
                    if c[0] != "call" or qn(c[2]) not in pub:
                        continue
                    nm = qn(c[2])
                    seen.add(nm)
                    ok = False
                    if s[0] == "decl":
                        ids = {d[0] for d in s[2:] if isinstance(d, list) and any(x is c for x in walk(d[3]))}
                        for t in st[i + 1:]:
                            if t[0] == "if" and any(x[0] == "v" and x[2] in ids for x in walk(t[3])) and nulltest(t[3], ids):
                                ok = True
                                break
                            if any(x[0] == "v" and x[2] in ids for x in walk(t)):
                                break
                    elif s[0] == "if":
                        ok = True
                    rep.check("public", ok, f.file, c[1], f.q, "%s result" % nm, "the object returned by %s is %s" % (
                        nm, "used without a null test" if s[0] == "decl" else "discarded: a Python exception is lost"))
    for nm in pub - seen:
        rep.assumption("public Cython function %s is not called from parsed C++ code" % nm)


def nulltest(c, ids):
    c = peel(c)
    isv = lambda x: isnode(peel(x)) and peel(x)[0] == "v" and peel(x)[2] in ids
    if isv(c):
        return True
    if c[0] == "un" and c[2] == "!":
        return isv(c[3])
    return c[0] == "bin" and c[2] in ("==", "!=") and (isv(c[3]) or isv(c[4]))
