"""Run with the interpreter that has Cython: dumps the parse tree of each .pyx/.pxd/.py file named
on the command line as one JSON line: [path, tree]."""
import json, sys
from Cython.Compiler import Errors, Parsing
from Cython.Compiler.Main import Context
from Cython.Compiler.Options import CompilationOptions, default_options
from Cython.Compiler.Scanning import FileSourceDescriptor, PyrexScanner
from Cython.Compiler.Symtab import ModuleScope
from Cython.Utils import open_source_file
sys.setrecursionlimit(20000)

SKIP = {"pos", "type", "entry", "scope", "is_temp", "subexprs", "child_attrs", "body_scope", "old_buffer_auxvars"}


def parse(path):
    ctx = Context.from_options(CompilationOptions(default_options, language_level=3))
    src = FileSourceDescriptor(path, path)
    scope = ModuleScope("m", None, ctx)
    scope.cpp = True
    with open_source_file(path) as f:
        s = PyrexScanner(f, src, source_encoding=f.encoding, scope=scope, context=ctx)
        Errors.init_thread()
        return Parsing.p_module(s, path.endswith(".pxd"), "m")


def dump(n, seen):
    if n is None or isinstance(n, (bool, int, float)):
        return n
    if isinstance(n, (str, bytes)):
        return n.decode("utf-8", "replace") if isinstance(n, bytes) else str(n)
    if isinstance(n, (list, tuple)):
        return [dump(x, seen) for x in n]
    if isinstance(n, dict):
        return {str(k): dump(v, seen) for k, v in n.items()}
    if not hasattr(n, "pos") or id(n) in seen:
        return None
    seen = seen | {id(n)}
    out = {"_": type(n).__name__, "@": n.pos[1] if n.pos else 0}
    d = dict(n.__dict__)
    for k in getattr(n, "child_attrs", None) or ():
        d.setdefault(k, getattr(n, k, None))
    for k, v in d.items():
        if k in SKIP or k.startswith("_") or callable(v):
            continue
        if k == "directives":
            v = {a: b for a, b in (v or {}).items() if isinstance(b, (bool, int, str))}
        r = dump(v, seen)
        if r is not None and r != [] and r is not False:
            out[k] = r
    return out


for p in sys.argv[1:]:
    print(json.dumps([p, dump(parse(p), frozenset())]))
