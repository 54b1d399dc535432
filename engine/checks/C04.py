"""C04: foreign-language declarations of the C and Fortran entry points agree with the definitions."""
import glob, os, re
from ..core import *
from ..facts import Broken, REPO


def read(p):
    with open(os.path.join(REPO, p), encoding="utf-8", errors="replace") as f:
        return f.read()


# ------------------------------------------------------------------ Fortran
def fortran_interfaces(path):
    txt = read(path)
    txt = re.sub(r"&\s*\n\s*&?", " ", txt)
    lines = [re.sub(r"!.*", "", l).strip() for l in txt.split("\n")]
    out, cur = [], None
    for no, l in enumerate(lines, 1):
        low = l.lower()
        m = re.match(r"(?:(integer|double precision|logical)\s+function|(subroutine))\s+(\w+)\s*(?:\((.*?)\))?\s*$", low)
        if m and not low.startswith("end"):
            cur = {"name": m.group(3), "ret": m.group(1) or "void", "args": [a.strip() for a in (m.group(4) or "").split(",") if a.strip()],
                   "types": {}, "line": no}
            out.append(cur)
            continue
        if low.startswith("end"):
            cur = None
            continue
        m = re.match(r"(integer|double precision|character\s*\*\s*\(\*\)|character|logical|real\(8\)|real)\s*(,.*?)?::\s*(.*)$", low)
        if m and cur is not None:
            for v in re.split(r",(?![^(]*\))", m.group(3)):
                v = v.strip()
                cur["types"][re.sub(r"\(.*", "", v).strip()] = m.group(1).replace(" ", "")
    return out


F2C = {"integer": ("int *", "const int *"), "doubleprecision": ("double *", "const double *"),
       "character*(*)": ("char *", "const char *")}
FRET = {"integer": "int", "double precision": "double"}


# ------------------------------------------------------- MATLAB / C# call sites
def calls(txt, rx):
    """(name, number of arguments, offset) of each call matching rx; rx ends before the argument list."""
    for m in re.finditer(rx, txt):
        i = m.end()
        depth, n, any_, q = 1, 1, False, None
        vararg = False
        tok = ""
        while i < len(txt) and depth:
            ch = txt[i]
            if q:
                if ch == q:
                    q = None
            elif ch in "\"'" and not (ch == "'" and i and (txt[i - 1].isalnum() or txt[i - 1] in ")]}'.")):
                q = ch
                any_ = True
            elif ch in "([{":
                depth += 1
                any_ = True
            elif ch in ")]}":
                depth -= 1
            elif ch == "," and depth == 1:
                n += 1
                tok = ""
                i += 1
                continue
            elif not ch.isspace():
                any_ = True
            tok += ch
            if "varargin{:}" in tok:
                vararg = True
            i += 1
        yield m.group(1), (n if any_ else 0), m.start(), vararg


def strip_matlab(txt):
    out = []
    for l in txt.split("\n"):
        q, r = False, ""
        for i, ch in enumerate(l):
            if ch == "'" and (q or not (i and (l[i - 1].isalnum() or l[i - 1] in ")]}'."))):
                q = not q
            if ch == "%" and not q:
                break
            r += ch
        if r.rstrip().endswith("..."):
            out.append(r.rstrip()[:-3] + " ")
        else:
            out.append(r + "\n")
    return "".join(out)


def run(prog, rep):
    ext = {}
    for f in prog.fns.values():
        if f.hasbody and f.extc and f.file.startswith(("src/clib/", "src/fortran/")):
            ext[f.q] = f
    rep.rule("fortran", 450, "every procedure of the Fortran interface block resolves to a definition with the same result type, number, order and types "
             "of arguments (CHARACTER lengths appended)")
    for d in fortran_interfaces("src/fortran/fct_interface.f90"):
        f = ext.get(d["name"] + "_")
        fl = "src/fortran/fct_interface.f90"
        if f is None:
            rep.bad("fortran", fl, d["line"], d["name"], "definition", "no definition of %s_ in the Fortran layer" % d["name"])
            continue
        if d["ret"] != "void":
            rep.check("fortran", f.ret == FRET.get(d["ret"]), f.file, f.line, f.q, "result",
                      "declared %s in Fortran, defined as %s" % (d["ret"], f.ret))
        nchar = sum(1 for a in d["args"] if d["types"].get(a, "").startswith("character"))
        ok = len(f.params) == len(d["args"]) + nchar
        rep.check("fortran", ok, f.file, f.line, f.q, "arity", "Fortran passes %d arguments and %d lengths, the definition takes %d"
                  % (len(d["args"]), nchar, len(f.params)))
        if not ok:
            continue
        for a, q in zip(d["args"], f.params):
            t = d["types"].get(a)
            if t is None:
                rep.bad("fortran", fl, d["line"], d["name"], a, "argument %s has no declared type" % a)
            elif t in F2C:
                rep.check("fortran", q[2] in F2C[t], f.file, f.line, f.q, a, "argument %s is %s in Fortran and %s in the definition" % (a, t, q[2]))
        for q in f.params[len(d["args"]):]:
            rep.check("fortran", q[2] in ("int", "long", "unsigned long"), f.file, f.line, f.q, q[1], "hidden CHARACTER length has type " + q[2])
        fn, cn = d["args"], [q[1].lower() for q in f.params[:len(d["args"])]]
        if sorted(fn) == sorted(cn):
            rep.check("fortran", fn == cn, f.file, f.line, f.q, "order", "argument order differs: Fortran %s, definition %s" % (fn, cn))

    rep.rule("dotnet", 10, "every call of the .NET binding names an exported C function and passes as many arguments as it takes")
    rep.rule("matlab", 200, "every call of the MATLAB toolbox names an exported C function and passes as many arguments as it takes")
    for p in sorted(glob.glob(REPO + "/interfaces/matlab_experimental/**/*.m", recursive=True)):
        rel = os.path.relpath(p, REPO)
        txt = strip_matlab(read(rel))
        for name, n, off, va in calls(txt, r"\bctFunc\('(\w+)'\s*,?"):
            chk(rep, "matlab", ext, rel, txt, name, n, off, va)
        for name, n, off, va in calls(txt, r"\bctString\('(\w+)'\s*,?"):
            chk(rep, "matlab", ext, rel, txt, name, n + 2, off, va)
    for p in sorted(glob.glob(REPO + "/interfaces/dotnet/Cantera/src/**/*.cs", recursive=True)):
        rel = os.path.relpath(p, REPO)
        txt = re.sub(r"//[^\n]*", "", read(rel))
        for name, n, off, va in calls(txt, r"\bLibCantera\.(\w+)\("):
            chk(rep, "dotnet", ext, rel, txt, name, n, off, va)


def chk(rep, rule, ext, rel, txt, name, n, off, va):
    line = txt.count("\n", 0, off) + 1
    f = ext.get(name)
    if f is None:
        rep.bad(rule, rel, line, rel, name, "call of %s, which the C interface does not define" % name)
    elif not va:
        rep.check(rule, len(f.params) == n, rel, line, rel, name, "call of %s with %d arguments, it takes %d" % (name, n, len(f.params)))
