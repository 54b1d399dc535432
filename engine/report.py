"""Instance counting, violations, known findings, evidence."""
import json, os, re, time
from .facts import VERIF, REPO, Broken


def known_findings():
    """known_findings.txt: one entry per line
         finding: property=<id> ident=<identity> :: <what fails>
         fixed: property=<id> <commit> <what failed>        (suppresses nothing)"""
    out = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for ln in open(p):
            m = re.match(r"finding: property=(\S+) ident=(.*?) :: (.*)$", ln.strip())
            if m:
                out.setdefault(m.group(1), {})[m.group(2)] = m.group(3)
    return out


class Rep:
    def __init__(self, pid):
        self.pid = pid
        self.rules = {}       # name -> dict(text, floor, n, samples)
        self.viol = []
        self.assume = []
        self.t0 = time.time()
        self.extra = {}

    def rule(self, name, floor, text):
        self.rules[name] = {"text": text, "floor": floor, "n": 0, "samples": [], "bad": 0}

    def ok(self, rule, what=None, n=1):
        r = self.rules[rule]
        r["n"] += n
        if what and len(r["samples"]) < 12:
            r["samples"].append(what)

    def bad(self, rule, file, line, fn, construct, msg):
        """construct: stable identity of the offending construct inside fn (no line numbers)."""
        r = self.rules[rule]
        r["n"] += 1
        r["bad"] += 1
        self.viol.append({"rule": rule, "file": file, "line": line, "function": fn,
                          "construct": construct, "message": msg,
                          "ident": "%s|%s|%s" % (rule, fn, construct)})

    def check(self, rule, cond, file, line, fn, construct, msg):
        if cond:
            self.ok(rule, "%s:%s %s" % (file, line, construct))
        else:
            self.bad(rule, file, line, fn, construct, msg)
        return cond

    def assumption(self, s):
        self.assume.append(s)

    def finish(self, prog, tier, seed):
        kn = known_findings().get(self.pid, {})
        new, seen = [], set()
        for v in self.viol:
            if v["ident"] in kn:
                seen.add(v["ident"])
            elif v["ident"] not in [x["ident"] for x in new]:
                new.append(v)
        vac = ["%s: %d instances, expected at least %d" % (n, r["n"], r["floor"])
               for n, r in self.rules.items() if r["n"] < r["floor"]]
        for i in sorted(seen):
            print("KNOWN-FINDING: property=%s %s [%s]" % (self.pid, kn[i], i))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        rp = os.path.join("evidence", self.pid + ".violations.json")
        cov = {
            "explanation": "Rules decided over every matching construct of the parsed source; see obligations.",
            "obligations": sum(r["n"] for r in self.rules.values()),
            "discharged": sum(r["n"] - r["bad"] for r in self.rules.values()),
            "rules": [
                {"rule": n, "meaning": r["text"], "instances": r["n"], "violating": r["bad"],
                 "floor": r["floor"], "samples": r["samples"]} for n, r in self.rules.items()],
        }
        if prog is not None:
            cov["analysed"] = {"translation_units": len(prog.tus), "functions": len(prog.fns),
                               "function_bodies": sum(f.hasbody for f in prog.fns.values()),
                               "classes": len(prog.classes), "reparsed_units": prog.extracted}
        cov.update(self.extra)
        cov["violation_list"] = [dict(v, replay=rp) for v in new]
        cov["known_findings"] = sorted(seen)
        ev = {"property": self.pid, "tier": tier, "seed": seed, "level": LEVEL.get(self.pid, "other"), "coverage": cov,
              "assumptions": self.assume or ["clang's parse of the build configuration in config.h is the program that is built"],
              "wall_s": round(time.time() - self.t0, 2),
              "violations": len(new)}
        json.dump(ev, open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w"), indent=1)
        vp = os.path.join(VERIF, rp)
        if new:
            json.dump(new, open(vp, "w"), indent=1)
            for v in new[:40]:
                print("%s:%s: [%s] %s: %s" % (v["file"], v["line"], v["rule"], v["function"], v["message"]))
                print("    ident: " + v["ident"])
            print("VIOLATION property=%s replay=%s" % (self.pid, rp))
            return 1
        elif os.path.exists(vp):
            os.unlink(vp)
        if vac:
            print("BROKEN property=%s: rule went vacuous: %s" % (self.pid, "; ".join(vac)))
            return 2
        print("OK property=%s instances=%d (%s) known=%d" % (
            self.pid, cov["obligations"],
            ", ".join("%s %d" % (n, r["n"]) for n, r in self.rules.items()), len(seen)))
        return 0


LEVEL = {}
