"""Check context: obligations, verdicts, evidence."""
import json, os, re, sys, time, hashlib
from . import terms as t
from .terms import T, Undecided, ZERO, ONE
from .vals import *
from .pyeval import Interp, AbsRaise, NeedCarry
from .compare import Comparer, Dom, Diff, inarr

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Ctx:
    def __init__(self, pid, repo="/repo", tier="quick"):
        self.pid, self.repo, self.tier = pid, repo, tier
        self.t0 = time.time()
        self.obligations = []      # (name, where, verdict, how)
        self.violations = []       # (key, where, detail)
        self.notes = []
        self.functions = set()
        self.undecided = []
        self.stats = {}
        self.evseen, self.evkeep = set(), []
        self.rules = []
        self.assumptions = []

    # ---------------------------------------------------------------- results
    def rule(self, text):
        if text not in self.rules:
            self.rules.append(text)

    def ok(self, name, where, how="rule"):
        self.obligations.append((name, where, "holds", how))

    def fail(self, name, where, detail):
        self.obligations.append((name, where, "violated", detail))
        self.violations.append((name, where, detail))

    def check(self, name, where, cond, detail, how="rule"):
        if cond:
            self.ok(name, where, how)
        else:
            self.fail(name, where, detail)
        return cond

    def unsure(self, name, where, detail):
        self.obligations.append((name, where, "undecided", detail))
        self.undecided.append((name, where, detail))

    def note(self, s):
        self.notes.append(s)

    # ---------------------------------------------------------------- analysis
    def interp(self, **kw):
        it = Interp(repo=self.repo, specdir=os.path.join(VERIF, "specs"), **kw)
        it.ctx = self
        return it

    def spec(self, name, it=None):
        it = it or self.interp()
        return it.load_source("spec_" + name, os.path.join(VERIF, "specs", name + ".py")), it

    def attempt(self, name, where, f):
        """run an analysis step; undecidable constructs are reported, never guessed"""
        try:
            return f()
        except Undecided as e:
            self.unsure(name, where, str(e))
        except AbsRaise as e:
            n = getattr(e, "node", None)
            self.fail(name, where, "the analysed code always raises %s here%s" % (e.name, " (line %s)" % n.lineno if n is not None and hasattr(n, "lineno") else ""))
        except NeedCarry as e:
            self.unsure(name, where, "loop-carried value %s" % (e.key,))
        except t.Blowup as e:
            self.unsure(name, where, "value graph too large: %s" % e)
        except RecursionError:
            self.unsure(name, where, "value graph too deep")
        except MemoryError:
            raise
        except Exception as e:
            import traceback
            tb = traceback.extract_tb(e.__traceback__)[-1]
            self.unsure(name, where, "construct outside the analysable fragment (%s: %s at %s:%s)" % (type(e).__name__, str(e)[:80], os.path.basename(tb.filename), tb.lineno))
        return None

    def equal(self, name, where, ita, got, itb, want, dom=None):
        """obligation: got == want for every input"""
        c = Comparer(ita, itb, dom, self.tier)

        def go():
            c.compare(got, want)
            return True
        n0 = len(self.undecided)
        self.attempt(name, where, go)
        for k, v in c.stats.items():
            self.stats[k] = self.stats.get(k, 0) + v
        if c.diffs:
            self.fail(name, where, "; ".join(str(d) for d in c.diffs[:3]))
            return False
        if len(self.undecided) > n0:
            return None
        ev = [e for e in ita.events if e[1] == "index" and id(e) not in self.evseen]
        self.evseen.update(id(e) for e in ev)
        self.evkeep += ev
        if ev and ita is not itb:
            bad, done = c.index_events(ev)
            self.stats["index"] = self.stats.get("index", 0) + done
            if bad:
                self.fail(name + ": element access in range", where, "; ".join("line %s: %s" % x[1:] for x in bad[:3]))
                return False
        self.ok(name, where, "congruence" if not c.stats["sampled"] else "congruence + random interpretation (%d points)" % c.stats["points"])
        return True

    def seen(self, *fns):
        self.functions.update(fns)

    # ---------------------------------------------------------------- report
    def known(self):
        out = []
        p = os.path.join(VERIF, "known_findings.txt")
        if os.path.exists(p):
            for ln in open(p):
                ln = ln.strip()
                if ln.startswith("KNOWN-FINDING: property=%s " % self.pid):
                    out.append(ln)
        return out

    def finish(self, level="other", technique=""):
        known = self.known()
        real, kn = [], []
        for name, where, detail in self.violations:
            hit = None
            for ln in known:
                # "KNOWN-FINDING: property=ID key=<obligation>@<where> text"
                k = [w for w in ln.split() if w.startswith("key=")]
                if k and k[0][4:] == re.sub(r":\d+", "", name + "@" + where).replace(" ", "_"):
                    hit = ln
            (kn if hit else real).append((name, where, detail, hit))
        rep = os.path.join(VERIF, "evidence", self.pid + ".replay.txt")
        os.makedirs(os.path.dirname(rep), exist_ok=True)
        nob = len(self.obligations)
        holds = sum(1 for o in self.obligations if o[2] == "holds")
        print("%s: analysed %d functions, %d obligations: %d hold, %d violated, %d undecided (%.1fs)" % (
            self.pid, len(self.functions), nob, holds, len(self.violations), len(self.undecided), time.time() - self.t0))
        for o in self.obligations:
            if o[2] != "violated":
                print("  [%s] %s @ %s (%s)" % (o[2], o[0], o[1], o[3]))
        with open(rep, "w") as f:
            f.write("property %s, repository %s\n" % (self.pid, self.repo))
            for name, where, detail, hit in real:
                f.write("VIOLATED %s\n  at %s\n  %s\n" % (name, where, detail))
            for name, where, detail in self.undecided:
                f.write("UNDECIDED %s\n  at %s\n  %s\n" % (name, where, detail))
        for name, where, detail, hit in kn:
            print(hit)
        self.write_evidence(real, kn, holds, nob)
        if real:
            for name, where, detail, _ in real:
                print("  VIOLATED %s @ %s: %s" % (name, where, detail))
            print("VIOLATION property=%s replay=%s" % (self.pid, rep))
            return 1
        for name, where, detail in self.undecided:
            print("  UNDECIDED (not covered by this run) %s @ %s: %s" % (name, where, detail))
        if len(self.undecided) > holds or not nob:
            print("nothing could be decided: anchors vanished or outside the analysable fragment")
            return 2
        return 0

    def write_evidence(self, real, kn, holds, nob):
        samples = [{"obligation": n, "where": w, "verdict": v, "by": h if v == "holds" else str(h)[:400]}
                   for n, w, v, h in self.obligations]
        ev = {
            "property": self.pid,
            "tier": self.tier,
            "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
            "level": "other",
            "coverage": {
                "explanation": "Static analysis of the current source of %s (never executed). %s" % (
                    self.repo, " ".join(self.rules)),
                "obligations": nob,
                "discharged": holds,
                "functions_analysed": sorted(self.functions),
                "value_pairs_congruent": self.stats.get("congruent", 0),
                "value_pairs_by_random_interpretation": self.stats.get("sampled", 0),
                "random_interpretation_points": self.stats.get("points", 0),
                "index_accesses_evaluated": self.stats.get("index", 0),
                "samples": samples[:60],
                "notes": self.notes[:40],
            },
            "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.t0, 3),
            "violations": len(real),
        }
        d = os.path.join(VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
