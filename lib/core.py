"""Result bookkeeping shared by all checks: obligations, violations, known findings, evidence."""
import json, os, sys, time, traceback
from prep import AnalysisBroken, BuildFailure, VERIF

KNOWN = os.path.join(VERIF, "known_findings.jsonl")


class Check:
    def __init__(self, pid, rule, trusted=()):
        self.pid, self.rule = pid, rule
        self.t0 = time.time()
        self.tier = os.environ.get("VERIF_TIER", "quick")
        for i, a in enumerate(sys.argv):
            if a == "--tier" and i + 1 < len(sys.argv):
                self.tier = sys.argv[i + 1]
        self.obl = []          # (kind, construct, ok, where, why)
        self.counts = {}
        self.samples = {}
        self.trusted = list(trusted)
        self.notes = []

    @property
    def thorough(self):
        return self.tier == "thorough"

    def saw(self, kind, item=None):
        """count one analysed item (a function, call site, path, table row ...)"""
        self.counts[kind] = self.counts.get(kind, 0) + 1
        if item is not None:
            l = self.samples.setdefault(kind, [])
            if len(l) < 12 and item not in l:
                l.append(item)

    def ob(self, rule, construct, ok, where="", why=""):
        """one proof obligation. `construct` names it stably (no line numbers)."""
        self.obl.append((rule, construct, bool(ok), where, why))
        return bool(ok)

    def bad(self, rule, construct, where="", why=""):
        return self.ob(rule, construct, False, where, why)

    def floor(self, kind, n):
        if self.counts.get(kind, 0) < n and all(o[2] for o in self.obl):      # a violation already found is the better answer
            raise AnalysisBroken("%s: only %d %s found, expected at least %d: the analysis no longer sees its subject" %
                                 (self.pid, self.counts.get(kind, 0), kind, n))

    def finish(self):
        known = {}
        if os.path.exists(KNOWN):
            for l in open(KNOWN):
                l = l.strip()
                if l and not l.startswith(("#", "fixed:")):
                    d = json.loads(l)
                    if d.get("property") == self.pid:
                        known[d["key"]] = d
        if not self.obl:
            raise AnalysisBroken(self.pid + ": no obligations generated")
        viol, found = [], []
        for (r, c, ok, w, why) in self.obl:
            if ok:
                continue
            key = r + "|" + c
            (found if key in known else viol).append((key, w, why))
        rules = {}
        for (r, c, ok, w, why) in self.obl:
            d = rules.setdefault(r, [0, 0])
            d[0] += 1
            d[1] += ok
        vdir = os.path.join(VERIF, "evidence")
        os.makedirs(vdir, exist_ok=True)
        expl = "static analysis: %s. %d obligations (%s), %d discharged, %d known finding(s), %d violation(s)." % (
            self.rule, len(self.obl), ", ".join("%s %d/%d" % (r, b, a) for r, (a, b) in sorted(rules.items())),
            sum(o[2] for o in self.obl), len(found), len(viol))
        ev = {"property": self.pid, "tier": self.tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "other",
              "coverage": {"explanation": expl, "obligations": len(self.obl), "discharged": sum(o[2] for o in self.obl),
                           "analysed": self.counts, "analysed_samples": self.samples,
                           "rules": {r: {"obligations": a, "discharged": b} for r, (a, b) in rules.items()},
                           "samples": [{"rule": r, "construct": c, "ok": ok, "where": w, "why": why} for (r, c, ok, w, why) in self.obl[:400]]},
              "assumptions": self.trusted, "wall_s": round(time.time() - self.t0, 2), "violations": len(viol)}
        if self.notes:
            ev["coverage"]["notes"] = self.notes
        with open(os.path.join(vdir, self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        print("%s [%s] %s" % (self.pid, self.tier, expl))
        for k, n in sorted(self.counts.items()):
            print("  analysed %s: %d" % (k, n))
        for key, w, why in found:
            print("KNOWN-FINDING: property=%s %s at %s: %s" % (self.pid, key, w, why))
        rp = os.path.join(vdir, self.pid + ".violation.txt")
        if viol:
            with open(rp, "w") as f:
                for key, w, why in viol:
                    f.write("%s\n  at %s\n  %s\n" % (key, w, why))
            for key, w, why in viol:
                print("  %s\n    at %s\n    %s" % (key, w, why))
            print("VIOLATION property=%s replay=%s" % (self.pid, rp))
            return 1
        if os.path.exists(rp):
            os.unlink(rp)
        return 0


def where(i):
    """file:line of an instruction, with the inlining chain"""
    if i is None:
        return ""
    if hasattr(i, "loc"):
        l = [x for x in i.loc if x[1]] or list(i.loc)
        if l:
            return " <- ".join("%s:%d" % x for x in l[:4])
        return "%s (%s:%d)" % (i.bb.fn.dem, i.bb.fn.file, i.bb.fn.line)
    if hasattr(i, "file"):
        return "%s:%d" % (i.file, i.line)
    return str(i)


def main(fn, pid=None, rule=""):
    """run a check. With pid, a public-interface witness that no longer builds is a violation of pid."""
    try:
        try:
            rc = fn()
        except BuildFailure as e:
            if not pid:
                raise
            c = Check(pid, rule)
            c.bad("builds", e.witness, e.err, "a program using only the documented interface for this property no longer compiles")
            rc = c.finish()
    except AnalysisBroken as e:
        print("ANALYSIS-BROKEN: %s" % e)
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 3
    sys.stdout.flush()
    sys.exit(rc)
