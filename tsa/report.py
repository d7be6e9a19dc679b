"""Collects obligations, known findings and evidence for one property."""
import json
import os
import sys
import time
import traceback

from . import limits

# seconds for one construct and for a whole check
LIMIT = 200
TOTAL = {"quick": 700, "thorough": 3000}

# reasons for an unknown value that are part of the meaning of the code (it
# raises) or are tracked in the value itself; any other reason is a construct
# the interpreter does not model, on which nothing is reported
MEANT = ("float(", "noreturn ", "missing key ", "IndexError", "StopIteration", "raise", "recursion ", "norm of something else")
TRACKED = ("binop ", "list concat", "zip", "comp", "loop ", "getitem ExtV", "item on method")
SCENARIO = ("C08", "C11", "C12", "C16", "C17", "C18", "C19")

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Ctx:
    def __init__(self, pid, tier):
        self.pid = pid
        self.tier = tier
        self.t0 = time.time()
        self.discharged = {}
        self.bad = {}
        self.undecided = {}
        self.counts = {}
        self.floors = []
        self.rule = ""
        self.assumptions = []
        self.units = set()
        self.marks = [0]

    # -- obligations --------------------------------------------------
    def ok(self, key, note=""):
        if key not in self.bad:
            self.discharged[key] = note

    def violate(self, key, where, message):
        """key: stable name of the failing construct (no line numbers)."""
        self.discharged.pop(key, None)
        u = self.unmodelled()
        if u:
            self.open(key, "not modelled: %s; otherwise: %s" % (", ".join(u[:4]), message))
            return
        self.bad.setdefault(key, (where, message))

    def unmodelled(self):
        known = MEANT if self.pid in SCENARIO else MEANT + TRACKED
        return sorted({u for u in limits.unknown[self.marks[-1]:] if not u.startswith(known)})

    def open(self, key, why):
        self.undecided.setdefault(key, str(why)[:300])

    def check(self, cond, key, where, message):
        if cond is None:
            self.open(key, message)
        elif cond:
            self.ok(key)
        else:
            self.violate(key, where, message)
        return cond

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def floor(self, name, got, need):
        self.floors.append((name, got, need))
        if got < need and self.undecided:
            # constructs the analysis cannot evaluate are no violation
            self.open("coverage|" + name, "only %d of at least %d expected sites could be evaluated" % (got, need))
        elif got < need:
            self.violate("coverage|" + name, "/repo/src/tespy",
                         "the analysis found only %d of at least %d expected '%s' sites: "
                         "the code this property is anchored in is no longer recognisable" % (got, need, name))

    def guard(self, key):
        return _Guard(self, key)

    # -- result ---------------------------------------------------------
    def finish(self, level="other", explanation=""):
        known = load_known(self.pid)
        new, listed = [], []
        for k, (where, msg) in sorted(self.bad.items()):
            (listed if k in known else new).append((k, where, msg))
        for k, where, msg in listed:
            print("KNOWN-FINDING: property=%s %s: %s" % (self.pid, k, known[k]))
        n_obl = len(self.discharged) + len(self.bad) + len(self.undecided)
        cov = {
            "explanation": explanation,
            "rule": self.rule,
            "obligations": n_obl,
            "discharged": len(self.discharged),
            "violated_known": len(listed),
            "violated_new": len(new),
            "undecided": len(self.undecided),
            "undecided_list": [{"construct": k, "why": w} for k, w in sorted(self.undecided.items())][:200],
            "counts": self.counts,
            "floors": [{"site_kind": a, "found": b, "required": c} for a, b, c in self.floors],
            "files_analysed": sorted(self.units),
            "samples": [{"construct": k, "note": n} for k, n in list(sorted(self.discharged.items()))[:12]],
        }
        ev = {"property": self.pid, "tier": self.tier,
              "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
              "level": level, "coverage": cov,
              "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 2),
              "violations": len(new)}
        d = os.path.join(ROOT, "evidence")
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        print("%s: %d obligations, %d discharged, %d known findings, %d undecided, %.1f s"
              % (self.pid, n_obl, len(self.discharged), len(listed), len(self.undecided), time.time() - self.t0))
        if not new:
            return 0
        out = os.path.join(ROOT, "out")
        os.makedirs(out, exist_ok=True)
        rp = os.path.join(out, self.pid + ".json")
        with open(rp, "w") as f:
            json.dump([{"construct": k, "where": w, "why": m} for k, w, m in new], f, indent=1)
        for k, w, m in new:
            print("%s: [%s] %s" % (w, k, m))
        print("VIOLATION property=%s replay=%s" % (self.pid, rp))
        return 1


class _Guard:
    """An internal failure of the analysis on one construct leaves that
    construct undecided; it is neither a pass nor an alarm."""

    def __init__(self, ctx, key):
        self.ctx, self.key = ctx, key

    def __enter__(self):
        self.old = limits.enter(LIMIT)
        self.ctx.marks.append(len(limits.unknown))
        return self

    def __exit__(self, t, v, tb):
        limits.leave(self.old)
        self.ctx.marks.pop()
        if t is None or issubclass(t, (KeyboardInterrupt, SystemExit)):
            return False
        if os.environ.get("TSA_DEBUG"):
            traceback.print_exception(t, v, tb, limit=-5)
        self.ctx.open(self.key, "analysis failed: %s: %s" % (t.__name__, v))
        return True


def load_known(pid):
    p = os.path.join(ROOT, "known_findings.json")
    if not os.path.exists(p):
        return {}
    data = json.load(open(p))
    return {e["construct"]: e["what"] for e in data["findings"] if e["property"] == pid}


def table(name):
    with open(os.path.join(ROOT, "tables", name)) as f:
        return json.load(f)


def main(pid, tier, run):
    sys.setrecursionlimit(20000)
    ctx = Ctx(pid, tier)
    limits.start(TOTAL.get(tier, 700))
    expl = ""
    with ctx.guard("whole analysis"):
        limits.leave(limits.end[0])
        expl = run(ctx)
    return ctx.finish("other", expl)
