"""Check runner: obligations, violations, known findings, evidence."""
import importlib
import json
import os
import sys
import time
import traceback

from .project import AnalysisBroken, Project

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(VERIF, "known_findings.json")


class Ctx:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.project = Project()
        self.findings = {}          # (rule, construct) -> (where, message)
        self.obligations = {}       # rule -> [total, ok]
        self.counts = {}
        self.analysed = set()
        self.notes = []
        self.assumptions = []
        self.samples = {}
        self.rules = {}
        self.truncated = False
        self.interps = []

    @property
    def thorough(self):
        return self.tier == "thorough"

    def rule(self, name, text):
        self.rules[name] = text

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def ob(self, rule, construct, ok, msg="", where=""):
        """one obligation: `construct` must satisfy `rule`"""
        o = self.obligations.setdefault(rule, [0, 0])
        o[0] += 1
        if ok:
            o[1] += 1
            s = self.samples.setdefault(rule, [])
            if len(s) < 3:
                s.append(construct)
        else:
            self.findings.setdefault((rule, construct), (where, msg))
        return ok

    def violation(self, rule, construct, msg, where=""):
        self.ob(rule, construct, False, msg, where)

    def interp(self, cls=None, **kw):
        from .interp import Interp
        it = (cls or Interp)(self.project, **kw)
        self.interps.append(it)
        return it

    def require(self, rule, minimum):
        """vacuity guard: the rule must have matched at least `minimum` instances"""
        n = self.obligations.get(rule, [0, 0])[0]
        if n < minimum:
            raise AnalysisBroken("rule %s matched %d instances, expected at least %d" % (rule, n, minimum))

    def where(self, node, mod):
        return "%s:%d" % (self.project.relpath(mod), getattr(node, "lineno", 0))


def load_known():
    if not os.path.exists(KNOWN):
        return []
    with open(KNOWN) as fp:
        return json.load(fp)["findings"]


def run_check(prop, tier, seed):
    t0 = time.time()
    ctx = Ctx(prop, tier)
    mod = importlib.import_module("checks." + prop.lower())
    mod.check(ctx)
    known = {(k["rule"], k["construct"]): k for k in load_known() if k["property"] == prop and not k.get("fixed")}
    out, bad = [], []
    for (rule, construct), (where, msg) in sorted(ctx.findings.items()):
        if (rule, construct) in known:
            out.append("KNOWN-FINDING: property=%s rule=%s construct=%s (%s) %s" % (prop, rule, construct, where, msg))
        else:
            bad.append({"rule": rule, "construct": construct, "where": where, "message": msg})
    for o in out:
        print(o)
    total = sum(o[0] for o in ctx.obligations.values())
    ok = sum(o[1] for o in ctx.obligations.values())
    if not total:
        raise AnalysisBroken("no obligation was generated")
    cov = {
        "explanation": getattr(mod, "EXPLANATION", mod.__doc__ or "").strip(),
        "obligations": total, "discharged": ok,
        "per_rule": {r: {"instances": o[0], "held": o[1], "rule": ctx.rules.get(r, ""), "samples": ctx.samples.get(r, [])}
                     for r, o in sorted(ctx.obligations.items())},
        "counts": dict(sorted(ctx.counts.items())),
        "source_digest": ctx.project.digest(),
        "modules_parsed": len([m for m in ctx.project.modules.values() if m]),
        "known_findings_matched": len(out),
    }
    st = {"abstract_paths": 0, "pruned_paths": 0, "branch_decisions": 0, "abstract_calls": 0}
    fns = set(ctx.analysed)
    for it in ctx.interps:
        st["abstract_paths"] += it.stats["paths"]
        st["pruned_paths"] += it.stats["pruned"]
        st["branch_decisions"] += it.stats["branches"]
        st["abstract_calls"] += it.stats["calls"]
        fns |= it.stats["functions"]
        ctx.truncated |= it.truncated
    cov.update(st)
    cov["functions_analysed"] = len(fns)
    cov["functions"] = sorted(fns)[:400]
    cov["path_budget_hit"] = ctx.truncated
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "other", "coverage": cov,
          "assumptions": ctx.assumptions + ctx.notes, "wall_s": round(time.time() - t0, 3), "violations": len(bad)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as fp:
        json.dump(ev, fp, indent=1, sort_keys=True)
        fp.write("\n")
    if bad:
        rp = os.path.join("evidence", "violation-%s.json" % prop)
        with open(os.path.join(VERIF, rp), "w") as fp:
            json.dump({"property": prop, "violations": bad}, fp, indent=1)
            fp.write("\n")
        if len(bad) > 30:
            print("  %d violations, the first 30:" % len(bad))
        for b in bad[:30]:
            print("  [%s] %s (%s): %s" % (b["rule"], b["construct"], b["where"], b["message"]))
        print("VIOLATION property=%s replay=%s" % (prop, rp))
        return 1
    print("OK property=%s obligations=%d functions=%d paths=%d wall=%.1fs" % (
        prop, total, len(fns), st["abstract_paths"], time.time() - t0))
    return 0


def main(argv):
    prop = argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(argv) > 2:
        tier = argv[2]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    from .interp import run_big_stack
    try:
        return run_big_stack(lambda: run_check(prop, tier, seed))
    except AnalysisBroken as e:
        print("ANALYSIS-BROKEN property=%s %s" % (prop, e))
        return 2
    except Exception:
        print("".join(traceback.format_exc()[-2500:]))
        print("ANALYSIS-BROKEN property=%s internal error" % prop)
        return 2
