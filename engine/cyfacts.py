"""Parse trees of the Cython sources (through Cython's own parser) and the C++ declarations in them."""
import json, os, re, subprocess, glob
from .facts import REPO, VERIF, CACHE, Broken, sha

PYS = ["/opt/cantera-venv/bin/python"]
DIR = "interfaces/cython/cantera"
_cache = {}


def files():
    r = [os.path.relpath(p, REPO) for ext in ("pyx", "pxd") for p in glob.glob("%s/%s/*.%s" % (REPO, DIR, ext))]
    return sorted(r)


def trees():
    """{relative path: tree}"""
    if _cache:
        return _cache
    tool = open(os.path.join(VERIF, "tool/cydump.py"), "rb").read()
    d = os.path.join(CACHE, "cy")
    os.makedirs(d, exist_ok=True)
    todo, where = [], {}
    for f in files():
        b = open(os.path.join(REPO, f), "rb").read()
        p = os.path.join(d, sha(tool + b"\0" + f.encode() + b"\0" + b)[:32])
        where[f] = p
        if not os.path.exists(p):
            todo.append(f)
    if todo:
        py = next((p for p in PYS if os.path.exists(p)), None)
        if py is None:
            raise Broken("no interpreter with Cython")
        r = subprocess.run([py, os.path.join(VERIF, "tool/cydump.py")] + [os.path.join(REPO, f) for f in todo],
                           capture_output=True, text=True, env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1"))
        if r.returncode:
            raise Broken("Cython sources do not parse: " + r.stderr[-1500:])
        for f, ln in zip(todo, r.stdout.splitlines()):
            tmp = where[f] + ".%d" % os.getpid()
            open(tmp, "w").write(ln)
            os.replace(tmp, where[f])
    for f in files():
        _cache[f] = json.loads(open(where[f]).read())[1]
    return _cache


def cywalk(n):
    st = [n]
    while st:
        x = st.pop()
        if isinstance(x, dict):
            if "_" in x:
                yield x
            st.extend(v for k, v in reversed(list(x.items())) if isinstance(v, (dict, list)))
        elif isinstance(x, list):
            st.extend(v for v in reversed(x) if isinstance(v, (dict, list)))


def aslist(x):
    return x if isinstance(x, list) else ([] if x is None else [x])


def decl_name(d):
    """(name, cname, func declarator or None)"""
    fn = None
    while d is not None:
        if d["_"] == "CNameDeclaratorNode":
            return d.get("name", ""), d.get("cname"), fn
        if d["_"] == "CFuncDeclaratorNode" and fn is None:
            fn = d
        d = d.get("base")
    return "", None, fn


class CyFn:
    """A C++ function declared to Cython."""

    def __init__(self, file, line, cls, name, cname, node, ret=""):
        self.file, self.line, self.cls, self.name, self.cname, self.node = file, line, cls, name, cname, node
        self.nargs = len(aslist(node.get("args")))
        self.ret = ret
        self.check = node.get("exception_check")
        v = node.get("exception_value")
        self.handler = v.get("name") if isinstance(v, dict) else v


def typename(t):
    if t is None:
        return ""
    if t["_"] == "TemplatedTypeNode":
        return t.get("base_type_node", {}).get("name", "")
    return t.get("name", "")


def externs():
    """All C++ functions and methods declared in cdef extern blocks, and {Cython class name: C++ class}."""
    fns, classes, ctors = [], {}, []
    for f, t in trees().items():
        for n in cywalk(t):
            if n["_"] != "CDefExternNode":
                continue
            ns = n.get("namespace") or ""

            def members(body, cls):
                for m in aslist(body.get("stats") if isinstance(body, dict) and body["_"] == "StatListNode" else body):
                    if not isinstance(m, dict):
                        continue
                    if m["_"] == "CppClassNode":
                        cn = m.get("cname") or ((ns + "::" if ns else "") + m["name"])
                        classes.setdefault(m["name"], cn)
                        members({"_": "StatListNode", "stats": aslist(m.get("attributes"))}, cn)
                    elif m["_"] == "StatListNode":
                        members(m, cls)
                    elif m["_"] == "CVarDefNode":
                        for d in aslist(m.get("declarators")):
                            nm, cname, fn = decl_name(d)
                            if fn is not None:
                                x = CyFn(f, m["@"], cls, nm, cname or ((ns + "::" + nm) if ns and not cls else None), fn, typename(m.get("base_type")))
                                x.ns = ns
                                fns.append(x)
            members(n.get("body"), None)
    return fns, classes
