"""Loads the resolved program of /repo: runs the clang-based extractor on every
translation unit (content-hash cache), merges the facts, offers lazy bodies."""
import hashlib, json, os, subprocess, sys, sysconfig, tempfile, glob, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("CT_REPO", "/repo")
CACHE = os.path.join(VERIF, ".cache")


class Broken(Exception):
    """The analysis itself could not be carried out (exit 2, never a verdict)."""


def sha(b):
    return hashlib.sha256(b).hexdigest()


_hash = {}


def file_hash(rel):
    h = _hash.get(rel)
    if h is None:
        try:
            with open(os.path.join(REPO, rel), "rb") as f:
                h = sha(f.read())
        except OSError:
            h = "absent"
        _hash[rel] = h
    return h


def tool():
    src = open(os.path.join(VERIF, "tool/ctfacts.cpp"), "rb").read()
    path = os.path.join(CACHE, "ctfacts-" + sha(src)[:16])
    if not os.path.exists(path):
        os.makedirs(CACHE, exist_ok=True)
        tmp = path + ".%d" % os.getpid()
        r = subprocess.run(["bash", os.path.join(VERIF, "tool/build.sh"), tmp],
                           capture_output=True, text=True)
        if r.returncode:
            raise Broken("extractor does not build: " + r.stderr[-2000:])
        os.replace(tmp, path)
    return path, sha(src)


def config_dir():
    """config.h is generated by the build; fall back to the recorded build configuration."""
    if os.path.exists(os.path.join(REPO, "include/cantera/base/config.h")):
        return []
    return ["-I" + os.path.join(VERIF, "tool/fallback")]


def pyinc():
    for p in ("/usr/include/python3.12",):
        if os.path.exists(p):
            return ["-I" + p]
    return []


def flags():
    return (["-std=c++17", "-w", "-fno-color-diagnostics"] + ["-I%s/include" % REPO, "-I%s/src" % REPO]
            + config_dir() + ["-I/usr/include/eigen3"] + pyinc()
            + ['-DGIT_COMMIT="x"', '-DCANTERA_DATA="/x"'])


SKIP_HEADERS = {"include/cantera/ext"}


def all_headers_text():
    hs = []
    for top in ("include/cantera", "src"):
        for d, ds, fs in os.walk(os.path.join(REPO, top)):
            ds.sort()
            if "/ext" in d or "clib_experimental" in d or "/pch" in d or d.endswith("src/extensions"):
                continue
            for f in sorted(fs):
                if f.endswith(".h") and f not in ("config.h",):
                    hs.append(os.path.relpath(os.path.join(d, f), REPO))
    # clib headers declare names that the Fortran layer also uses; both are C linkage
    hs.sort(key=lambda h: not h.endswith("/clib_defs.h"))
    return "".join('#include "%s/%s"\n' % (REPO, h) for h in hs), hs


def tus():
    r = sorted(os.path.relpath(p, REPO) for p in glob.glob(REPO + "/src/*/*.cpp"))
    return [t for t in r if "/clib_experimental/" not in t and "/pch/" not in t]


def _run_tu(tool_path, src_abs, out, extra):
    cmd = [tool_path, REPO, out, src_abs] + extra + ["--"] + flags()
    r = subprocess.run(cmd, capture_output=True, text=True, cwd=REPO)
    return r


def extract(verbose=False):
    """Returns list of (tu, facts_path)."""
    tpath, tsha = tool()
    os.makedirs(CACHE + "/facts", exist_ok=True)
    depfile = CACHE + "/deps.json"
    try:
        deps = json.load(open(depfile))
    except Exception:
        deps = {}
    base = sha((tsha + "\0" + "\0".join(flags())).encode())
    ah_text, _ = all_headers_text()
    os.makedirs(CACHE + "/gen", exist_ok=True)
    ah_path = CACHE + "/gen/all_headers_%s.cpp" % sha(ah_text.encode())[:12]
    if not os.path.exists(ah_path):
        tmp = ah_path + ".%d" % os.getpid()
        open(tmp, "w").write(ah_text)
        os.replace(tmp, ah_path)
    work = tus() + ["<headers>"]

    def key(tu, dl):
        h = hashlib.sha256(base.encode())
        h.update(tu.encode())
        if tu == "<headers>":
            h.update(ah_text.encode())
        for d in sorted(dl):
            h.update(d.encode())
            h.update(file_hash(d).encode())
        return h.hexdigest()[:32]

    out, todo = {}, []
    for tu in work:
        dl = deps.get(tu)
        if dl is not None:
            p = "%s/facts/%s" % (CACHE, key(tu, dl))
            if os.path.exists(p):
                out[tu] = p
                continue
        todo.append(tu)

    problems = []

    def go(tu):
        tmp = tempfile.mktemp(dir=CACHE + "/facts", prefix="tmp")
        src = ah_path if tu == "<headers>" else os.path.join(REPO, tu)
        r = _run_tu(tpath, src, tmp, ["--all-headers"] if tu == "<headers>" else [])
        if r.returncode or not os.path.exists(tmp):
            problems.append("%s: %s" % (tu, r.stderr[-1500:]))
            if os.path.exists(tmp):
                os.unlink(tmp)
            return
        with open(tmp, "rb") as f:
            f.seek(0, 2)
            n = f.tell()
            f.seek(max(0, n - 200000))
            last = f.read().rstrip().split(b"\n")[-1]
        meta = json.loads(last.split(b"\t")[0])
        if meta["errors"]:
            problems.append("%s: %s" % (tu, r.stderr[-1500:]))
            os.unlink(tmp)
            return
        deps[tu] = meta["files"]
        p = "%s/facts/%s" % (CACHE, key(tu, meta["files"]))
        os.replace(tmp, p)
        out[tu] = p

    if todo:
        # the header unit is the longest: start it first
        todo.sort(key=lambda t: t != "<headers>")
        with ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
            list(ex.map(go, todo))
    if todo:
        tmp = depfile + ".%d" % os.getpid()
        json.dump(deps, open(tmp, "w"))
        os.replace(tmp, depfile)
    if problems:
        raise Broken("translation units that do not parse:\n" + "\n".join(problems[:5]))
    return [(tu, out[tu]) for tu in work], len(todo)


class Fn:
    __slots__ = ("h", "_b", "_body", "tu")

    def __init__(self, h, b, tu):
        self.h, self._b, self._body, self.tu = h, b, None, tu

    def __getattr__(self, n):
        return self.h.get(n)

    def _load(self):
        if self._body is None:
            self._body = json.loads(self._b)
        return self._body

    @property
    def hasbody(self):
        return self._b != "null"

    @property
    def body(self):
        x = self._load()
        return x["body"] if x else None

    @property
    def inits(self):
        x = self._load()
        return x.get("inits", []) if x else []

    @property
    def raw(self):
        return self._b

    @property
    def where(self):
        return "%s:%d" % (self.h["file"], self.h["line"])

    def __repr__(self):
        return "<Fn %s>" % self.h["key"]


class Program:
    def __init__(self):
        self.fns = {}        # key -> Fn (with body preferred)
        self.decls = {}      # key -> Fn of free prototypes
        self.classes = {}    # name -> dict
        self.vars = []       # dicts (with lazily parsed init text)
        self.enums = {}
        self.tus = []

    def load(self, files):
        for tu, path in files:
            self.tus.append(tu)
            with open(path, encoding="utf-8") as f:
                for ln in f:
                    h, _, b = ln.rstrip("\n").partition("\t")
                    self.add(json.loads(h), b, tu)
        self.finish()
        return self

    def add(self, h, b, tu):
        t = h["t"]
        if t == "fn":
            k = h["key"]
            if h.get("decl"):
                self.decls.setdefault(k, Fn(h, "null", tu))
                return
            old = self.fns.get(k)
            if old is None or (old._b == "null" and b != "null"):
                self.fns[k] = Fn(h, b, tu)
        elif t == "cls":
            self.classes.setdefault(h["name"], h)
        elif t == "var":
            self.vars.append((h, b))
        elif t == "enum":
            self.enums[h["name"]] = h

    def finish(self):
        self.by_q = {}
        for f in self.fns.values():
            self.by_q.setdefault(f.h["q"], []).append(f)
        self.methods = {}     # key -> (cls, method record)
        for c in self.classes.values():
            for m in c["methods"]:
                self.methods[m["k"]] = (c["name"], m)
        self.derived = {}
        for c in self.classes.values():
            for b in c["bases"]:
                self.derived.setdefault(b, set()).add(c["name"])
        # overriders: key -> set of keys that override it (transitively)
        self.overriders = {}
        direct = {}
        for k, (cn, m) in self.methods.items():
            for b in m.get("over", ()):
                direct.setdefault(b, set()).add(k)
        for f in self.fns.values():
            for b in f.h.get("over", ()):
                direct.setdefault(b, set()).add(f.h["key"])
        self.direct_over = direct

        def clos(k, acc):
            for o in direct.get(k, ()):
                if o not in acc:
                    acc.add(o)
                    clos(o, acc)
        for k in direct:
            acc = set()
            clos(k, acc)
            self.overriders[k] = acc
        self.field = {}
        for c in self.classes.values():
            for fl in c["fields"]:
                self.field[c["name"] + "::" + fl["n"]] = fl

    def bases(self, cls):
        """All transitive bases of a class, nearest first."""
        seen, q = [], list(self.classes.get(cls, {}).get("bases", ()))
        while q:
            b = q.pop(0)
            if b not in seen:
                seen.append(b)
                q += self.classes.get(b, {}).get("bases", ())
        return seen

    def isa(self, cls, base):
        return cls == base or base in self.bases(cls)

    def subclasses(self, cls):
        out, q = set(), [cls]
        while q:
            for d in self.derived.get(q.pop(), ()):
                if d not in out:
                    out.add(d)
                    q.append(d)
        return out

    def fn(self, q, must=True, nparams=None):
        l = [f for f in self.by_q.get(q, ()) if nparams is None or len(f.h["params"]) == nparams]
        if not l and must:
            raise Broken("anchor not found: function %s" % q)
        return l


_prog = None


def program():
    global _prog
    if _prog is None:
        t0 = time.time()
        files, n = extract()
        t1 = time.time()
        _prog = Program().load(files)
        _prog.extracted = n
        _prog.t_extract = t1 - t0
        _prog.t_load = time.time() - t1
    return _prog


if __name__ == "__main__":
    p = program()
    print("units %d (parsed %d in %.1fs, loaded in %.1fs) functions %d bodies %d classes %d vars %d enums %d" % (
        len(p.tus), p.extracted, p.t_extract, p.t_load, len(p.fns), sum(f.hasbody for f in p.fns.values()),
        len(p.classes), len(p.vars), len(p.enums)))
