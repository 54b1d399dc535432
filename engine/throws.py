"""May-throw analysis: a function may throw when a throw expression (its own or one
in a callee of the repository, following virtual dispatch) is not inside a try block
with a catch-all handler, or when it calls a throwing library function or an
unknown callable. Allocation failure is not modelled."""
from .core import *

LIB_THROWS = {"at", "stoi", "stod", "stol", "stoul", "stof", "value", "get_to", "bad_any_cast", "any_cast",
              "rethrow_exception", "Load", "LoadFile", "as", "vformat", "format", "runtime_error"}


class Throws:
    def __init__(self, prog, cg, lib=LIB_THROWS, skip=()):
        """lib: library functions that throw; skip: (qualified caller, qualified callee) edges that never throw."""
        self.p, self.cg, self.lib, self.skip = prog, cg, lib, set(skip)
        self.memo = {}

    def lib_throws(self, key):
        s = strip_tmpl(short(key))
        return s in self.lib

    def fn(self, key):
        """None if key cannot throw, else a witness string. Depth-first over the call graph;
        a cycle is closed optimistically (least fixed point, which is exact for reachability)."""
        if key in self.memo:
            return self.memo[key]
        # iterative reachability over uncontained calls
        seen, order = {key: None}, [key]
        i = 0
        while i < len(order):
            k = order[i]
            i += 1
            w = self.memo.get(k)
            f = self.p.fns.get(k)
            if w is None and k not in self.memo:
                if f is None or not f.hasbody:
                    if self.lib_throws(k):
                        w = "calls " + short(k)
                elif f.noexc:
                    continue
            if w is None and f is not None and f.hasbody and k not in self.memo:
                for kind, n, tk in self.uncontained(f):
                    if kind == "throw":
                        w = "%s throws at %s:%d" % (short(k), f.file, n[1])
                        break
                    if kind == "unknown":
                        w = "%s calls an unknown callable at %s:%d" % (short(k), f.file, n[1])
                        break
                    for t in tk:
                        if t not in seen and (qn(k), qn(t)) not in self.skip:
                            seen[t] = k
                            order.append(t)
            if w is not None:
                path, c = [], k
                while c is not None:
                    path.append(short(c))
                    c = seen[c]
                self.memo[key] = " -> ".join(reversed(path)) + ": " + w
                return self.memo[key]
        self.memo[key] = None
        return None

    def uncontained(self, f):
        out = []
        for src in [f.body] + [i[3] for i in f.inits]:
            if src is not None:
                self.scan(src, out)
        return out

    def scan(self, n, out):
        """Throwing constructs below n that are not inside a catch-all try block."""
        if not isinstance(n, list):
            return
        if isnode(n):
            k = n[0]
            if k == "lambda":
                return          # runs only when called
            if k == "try":
                if not any(h[0] is None for h in n[3]):
                    self.scan(n[2], out)
                for h in n[3]:
                    self.scan(h[2], out)
                return
            if k == "throw":
                out.append(("throw", n, ()))
                return
            if k == "op" and n[2] == "()" and n[3].startswith("std::function"):
                out.append(("unknown", n, ()))
            elif callee(n):     # a call through a plain function pointer enters C code, which cannot throw
                out.append(("call", n, self.cg.targets(n)))
        for c in n:
            if isinstance(c, list):
                self.scan(c, out)
